"""What each property's check runs: P[id] = runs, bounds, what lies outside, extra assumptions."""
ASSUME = [
    'LLVM IR produced by the installed rustc (unoptimised, fat LTO, panic=abort, 64-bit little-endian target) has the semantics the executor gives it; sampled paths are replayed natively on every run',
    'the executor (engine/) and Z3 are trusted for the absence of violations; every reported violation is replayed on compiled code',
    'allocation never fails below the executor\'s memory limit; one thread',
]
CAT = 'types: the catalogue of harness/src/cat.rs (%s); the claim is for these types and, by parametricity of the code, typical of others'
BASE = ('quick', 'thorough')
VALUES = {
    'quick': 'all values with text of up to 3 bytes and containers of up to 2 elements (recursion depth 2); both byte orders',
    'thorough': 'all values with text of up to 4 bytes and containers of up to 3 elements (recursion depth 3); both byte orders',
}
BYTES = {
    'quick': 'all byte strings of length 0..N, where N is chosen per type (Fam::N, 1 to 41, enough for the length field and two or more elements); both byte orders',
    'thorough': 'all byte strings of length 0..N+2, where N is chosen per type (Fam::N, 1 to 41); both byte orders',
}
OUT_CAT = 'types outside the catalogue, longer values, big-endian and 32-bit targets, IR after optimisation'
LONG = '; and values of 47 large types (up to 65536 bytes or elements, concrete sizes around 127, 255, 1024, 8192 and 65535, up to 3 symbolic elements%s)'
for k in ('quick', 'thorough'):
    VALUES[k + 'L'] = VALUES[k] + LONG % ''
    BYTES[k + 'L'] = BYTES[k] + LONG % '; exact, cut, extended or changed in a few bytes'
def long(d): return {k: d[k + 'L'] for k in ('quick', 'thorough')}
P = {
    'P01': dict(runs=[dict(feature='p01', entries=435), dict(feature='p01l', entries=49)], bounds=long(VALUES), outside=OUT_CAT),
    'P02': dict(runs=[dict(feature='p02', entries=435), dict(feature='p02l', entries=49)], bounds=long(VALUES), outside=OUT_CAT, assume=['the reference encoder harness/src/val.rs and dt.rs states the documented format']),
    'P03': dict(runs=[dict(feature='p03', entries=435), dict(feature='p03l', entries=49)], bounds=long(VALUES), outside=OUT_CAT),
    'P04': dict(runs=[dict(feature='p04', entries=402), dict(feature='p04l', entries=49)], bounds=long(BYTES), outside=OUT_CAT + '; fields with default_on_eof cut short in the middle (the value of the bytes left is unspecified)'),
    'P05': dict(runs=[dict(feature='p05', entries=18)], bounds={
        'quick': 'every script of 2 to 5 operations (read, peek, skip; operation and size chosen from small sets of sizes around 0-17, 1023-1025, 4097, 8190-8193, see harness/src/p05.rs), streams of every length up to 6 symbolic bytes or long position-coded streams (5000 to 17000 bytes), delivered whole or in pieces of 1, 2, 5, 700, 1000, 4096, 5000, 6001 or 8191 bytes, with an interruption at each of the first calls',
        'thorough': 'as quick, with one more operation per script'},
        outside='longer scripts, other sizes, other chunkings; the bytes of the long streams are concrete (their positions); streams that break the contract of Read',
        ),
    'P09': dict(runs=[dict(feature='p09', entries=14)], bounds='all 2^64 values and every signed value for writing and conversion; all byte strings of up to 10 (thorough 11) bytes for reading and peeking, from 7 kinds of source (4 kinds of sink); 0, 1 or 3 bytes in front',
        outside='big-endian and 32-bit targets', assume=['the layout function in harness/src/p09.rs states the documented layout (comment in varint.rs)']),
    'P06': dict(runs=[dict(feature='p06', entries=402), dict(feature="p06l", entries=49), dict(feature="p06", module="p06x", entries=2)], bounds=long(BYTES), outside=OUT_CAT + '; collections hashed with the randomly seeded default hasher read from arbitrary bytes'),
    'P07': dict(runs=[dict(feature='p07', entries=435), dict(feature='p07l', entries=49)], bounds=long(VALUES), outside=OUT_CAT),
    'P08': dict(runs=[dict(feature='p08', entries=402), dict(feature='p08l', entries=49)], bounds={k: VALUES[k + 'L'] + '; ' + BYTES[k] for k in BASE}, outside=OUT_CAT),
    'P10': dict(runs=[dict(feature='p10', entries=37), dict(feature='p10c', entries=435), dict(feature='p10l', entries=49)], bounds='references, arrays and copy-on-write values of every bulk-transferable element type with up to 2 (thorough 3) elements of any contents at every offset 0..16 from a 16-byte boundary, both byte orders; every value of the catalogue (see P01) at every offset 0..8' + LONG % '; at offsets 0, 1 and 4',
        outside='longer data; types outside the catalogue; element types whose layout the compiler chooses are not required to borrow'),
    'P11': dict(runs=[dict(feature='p11', entries=93)], bounds='every length type on every kind of container, with lengths at and around the limits of the type (up to 65536 elements; 2^32 and more for elements without bytes), first and last element symbolic; 18 length expressions, all values of the fields they use, with up to 3 elements written; reading all byte strings of up to 3 to 8 bytes behind the length; 7 kinds of source, 4 kinds of sink, both byte orders',
        outside='other lengths; more than 65536 elements that have bytes; expressions that overflow or panic by themselves'),
    'P12': dict(runs=[dict(feature='p12', entries=39)], bounds='enums of every tag type with tags over their whole range, peeked tags, prefixes of every kind of literal, skipped fields of any contents: all byte strings up to 2 (1 to 5) bytes longer than needed, 7 kinds of source, 4 kinds of sink, both byte orders',
        outside='other tags and literals; the fields of the variants themselves (see the other properties)'),
    'P13': dict(runs=[dict(feature='p13a', module='p13', entries=166), dict(feature='p13b', module='p13', entries=171), dict(feature='p13b', module='p13', entries=171, layout=2), dict(feature='p13a', module='p13', entries=166, layout=1, thorough_only=True), dict(feature='p13b', module='p13', entries=171, layout=3, thorough_only=True)],
        bounds={k: '323 struct shapes (1 to 5 fields of 17 primitive, array and struct types; default, C, packed, transparent, aligned and forced representations), alone, in Vec, [_; 2] %sand (%s) in every container: all values with up to 2 elements and all byte strings up to the size of 2 elements, both byte orders, against a twin that is transferred field by field; under rustc\'s layout and %s' % x for k, x in (('quick', ('', '5 of them', '(those of 3 or more fields or fields of struct types) a randomised one')), ('thorough', ('and Cow ', '20 of them', 'three randomised ones')))},
        outside='other layouts; unions; longer sequences; borrowed slices (P06)'),
    'P14': dict(runs=[dict(feature='p14', entries=72)], bounds={k: 'more than 50 container and derived types of elements that count their drops: all byte strings of length 0..N (1 to %d), elements that fail for one value of their byte and at the end of input, 7 kinds of source, both byte orders; 17 of them with 128 to 1100 elements, cut short or failing at the first, second, middle and last ones' % n for k, n in (('quick', 14), ('thorough', 16))},
        outside='panics inside a user\'s Readable (the code is analysed with panic=abort); longer inputs'),
    'P15': dict(runs=[dict(feature='p15', entries=20), dict(feature='p15r', entries=435), dict(feature='p15r', module='p15rl', entries=49), dict(feature='p15w', entries=435), dict(feature='p15w', module='p15wl', entries=49)], bounds={k: VALUES[k + 'L'] + ' of every catalogue type: a stream that fails, is interrupted or (writing) is full after any number of bytes (large values: at up to 11 positions), buffered and unbuffered; every script of 3 (thorough 4) reads, peeks and skips with a failure at each of the first calls; 12 kinds of I/O error; one case or more of every kind of error of speedy itself' for k in BASE},
        outside=OUT_CAT + '; streams that break the contract of Read or Write; errors reported after a failed read or skip'),
    'P16': dict(runs=[dict(feature='p16', entries=58)], bounds='every accessor of every primitive type: all byte strings from 0 to 2 bytes longer than the value, after 0 or 3 other bytes, both byte orders, 7 kinds of source; all pairs of values, 4 ways to write them, 4 kinds of sink; slices of up to 3 values; the functions without a context on 5 types',
        outside='big-endian and 32-bit targets'),
    'P17': dict(runs=[dict(feature='p17', entries=53)], bounds={k: '53 derived types with default_on_eof or length = .. fields, decoded by an independent decoder: all byte strings of length 0..N (3 to %d), 7 kinds of source, both byte orders' % n for k, n in (('quick', 17), ('thorough', 19))},
        outside='the fields after one that is cut short in the middle, and the number of bytes consumed of an incomplete element (they differ between buffers and streams); elements without any bytes'),
    'P18': dict(runs=[dict(feature='p18', entries=106)], bounds='34 glam types (and containers of them), SmallVec, IndexMap and IndexSet (both versions), Uuid: all values (containers of up to 3 elements) and all byte strings of length 0..N (2 to 129), 7 kinds of source, 4 kinds of sink, both byte orders; DateTime<Utc>: 11 intervals of 256 seconds (ends of the representable range included) and 256 days around a leap day; any fraction; Regex: 11 patterns (valid and invalid), arbitrary length fields', outside='glam with SIMD types (the scalar-math feature is used; speedy\'s code is the same); other dates and patterns; the optional crates\' own behaviour (it is the reference); versions of them other than those in the lock file'),
    'P19': dict(runs=[dict(feature='p19', entries=86)],
        bounds={k: '24 types written, read and read back, with and without explicit byte order, through a model of the operating system (the functions of the C library that std and speedy call for files are defined by the harness, natively too): %s, previous contents of 3 lengths, partial reads and writes, and one fault (any of 133 error numbers, or a write of nothing) at open, stat, mmap, madvise, and each of the first %d reads or writes; values longer than the buffers (8200 bytes, 7 of them symbolic); 7 kinds of file name' % x for k, x in (('quick', ('all files up to about the size of 2 elements', 4)), ('thorough', ('all files up to 4 bytes longer', 16)))},
        outside='errors of close (the standard library drops them), files that change while they are read, special files, several faults, other operating systems (the paths for them are not compiled)', assume=['the model of the file functions in harness/src/p19.rs']),
    'P20': dict(runs=[dict(feature='p20', entries=135)], bounds={k: '96 map and set types (10 kinds of collection, standard and derived length fields, length expressions, until the end of input): all sequences of up to %d entries with any keys and values (repeated and unsorted ones included; for the randomly seeded default hasher, keys of 3 values), and up to 200 entries (1400 in sets) with repeated or shuffled keys and two symbolic values, followed by nothing, another byte, or cut by one; 7 kinds of source, 4 kinds of sink, both byte orders' % n for k, n in (('quick', 3), ('thorough', 4))},
        outside='longer collections; keys that are equal but distinguishable; text keys of more than one character'),
    'P22': dict(runs=[dict(feature='p22', entries=56), dict(feature='p22c', entries=402), dict(feature='p22c', module='p22l', entries=49)], bounds={k: 'stateful contexts, contexts whose byte order changes on the way and user errors at every point: 30 container and derived types with up to %d elements, 7 kinds of source, 6 kinds of sink; comparison with the plain context on the catalogue: ' % n + BYTES[k + 'L'] for k, n in (('quick', 2), ('thorough', 3))},
        outside=OUT_CAT + '; user-defined Writables that look at the context without predicting their own size (see DESIGN.md)'),
    'P21': dict(runs=[dict(feature='p21', entries=402), dict(feature='p21l', entries=49)], bounds=long(BYTES), outside=OUT_CAT),
}
NA = {}


def note(i):
    s = P[i]
    b = s['bounds']
    b = b['quick'] if isinstance(b, dict) else b
    return 'Bounded: ' + b + '. Every path of the compiled code within the bounds is explored and every assertion decided by the solver. Outside: ' + s.get('outside', '') + '. Trusted: the executor, Z3, rustc.'
