//! P06, beyond the catalogue: what a borrowed slice in a derived type may hold.
use crate::sx::*;
use speedy::Readable;

#[derive(Readable)]
struct Bools<'a> { #[speedy(length_type = u8)] v: &'a [bool] }
#[derive(Readable)]
struct Bytes<'a> { a: u8, #[speedy(length_type = u8)] v: &'a [i8], b: u8 }

crate::entries! {
    borrowed_bools {
        let n = choose(4);
        let b = byte_vec(n);
        if let Ok(x) = Bools::read_from_buffer(&b) {
            let (p, n) = (x.v.as_ptr() as *const u8, x.v.len());
            let mut i = 0;
            while i < n {
                check(unsafe { *p.add(i) } <= 1, "a borrowed bool is neither true nor false");
                i += 1
            }
        }
    }
    borrowed_bytes {
        let n = choose(6);
        let b = byte_vec(n);
        if let Ok(x) = Bytes::read_from_buffer(&b) {
            check(x.v.len() + 3 <= b.len() && x.v.len() == b[1] as usize, "a borrowed slice has another length than its prefix");
            check(x.v.as_ptr() as usize == b.as_ptr() as usize + 2, "a borrowed slice lies elsewhere");
            check(x.a == b[0] && x.b == b[2 + x.v.len()], "the fields around a borrowed slice are misread");
        }
    }
}
