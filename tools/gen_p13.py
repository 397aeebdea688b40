#!/usr/bin/env python3
"""Generates harness/src/p13_types.rs: structs of every shape that may or may not qualify for bulk transfer."""
import itertools, os, re
L = []
def ty(name, attrs, fields, full=False):
    """fields: list of types"""
    fs = list(zip('abcdefgh', fields))
    L.append((name, attrs, fs, full))
short = {'u8': '1', 'u16': '2', 'u32': '4', 'u64': '8', 'bool': 'B', 'f32': 'F', '[u16; 2]': 'A', 'u128': 'X', 'i8': 'I', 'f64': 'D', 'char': 'C', '()': 'U', '[u8; 3]': 'Y', 'i16': 'J', 'i64': 'K'}
def nm(p, f): return p + ''.join(short[x] for x in f)
D, C, P, T = '', '#[repr(C)]', '#[repr(packed)]', '#[repr(transparent)]'
for f in itertools.product(['u8', 'u16', 'u64', 'bool', 'f32', '[u16; 2]'], repeat=2):
    for p, a in (('R', D), ('C', C), ('P', P)):
        if p == 'P' and '[u16; 2]' in f: pass
        ty(nm(p, f), a, f)
for f in ('u8', 'i8', 'u16', 'u32', 'u64', 'u128', 'f64', 'bool', 'char', '[u16; 2]', '[u8; 3]'):
    for p, a in (('R', D), ('C', C), ('P', P), ('T', T)):
        ty(nm(p, [f]), a, [f], full=p == 'T' and f in ('u8', 'u16', 'bool'))
A = len(L)
for f in itertools.product(['u8', 'u16', 'u32'], repeat=3):
    for p, a in (('R', D), ('C', C), ('P', P)):
        ty(nm(p, f), a, f, full=f in (('u8', 'u16', 'u8'), ('u16', 'u8', 'u8')))
for f in sorted(set(itertools.permutations(['u8', 'u8', 'u16', 'u32']))):
    ty(nm('R', f), D, f)
    ty(nm('C', f), C, f)
for f in (['u8'] * 4, ['u16', 'u16', 'u32', 'u64'], ['u64', 'u32', 'u16', 'u16'], ['u16'] * 5, ['u8'] * 5, ['u32', 'u8', 'u8', 'u8', 'u8'], ['u8', 'u8', 'u8', 'u8', 'u32'], ['u8', 'u32', 'u8', 'u8', 'u8'], ['u32', 'u16', 'u8', 'u8', 'u32'], ['bool', 'u8', 'u16', 'u32'], ['f64', 'f32', 'u16', 'i16'], ['i64', 'i8', 'u8', 'u16', 'f32']):
    for p, a in (('R', D), ('C', C), ('P', P)):
        ty(nm(p, f), a, f, full=f == ['u8', 'u32', 'u8', 'u8', 'u8'])
# user-defined field types
for n, a, f in [
    ('NestC', C, ['C112', 'u32']), ('NestR', D, ['u32', 'R112']), ('NestX', C, ['R121', 'u16']), ('NestY', D, ['R121', 'u32']), ('NestP', P, ['u8', 'P12', 'P241']), ('NestT', T, ['C112']), ('NestTR', T, ['R121']), ('NestTT', T, ['NestT']), ('NestTX', T, ['NestTR']), ('NestTU', T, ['T2']), ('NestMix', D, ['T2', 'T1', 'T1', 'NestT']), ('NestCT', C, ['T2', 'TB', 'u8']), ('NestPad', C, ['C12', 'u32']), ('NestTail', C, ['C21', 'u8']), ('NestPP', P, ['P21', 'P12']), ('NestTP', T, ['P21']), ('NestCP', C, ['P21', 'u8', 'u32']),
]: ty(n, a, f, full=n in ('NestTT', 'NestTX', 'NestPP', 'NestMix'))
for n, a, f in [
    ('Al2', '#[repr(align(2))]', ['u8']), ('Al4', '#[repr(align(4))]', ['u8', 'u16']), ('AlC4', '#[repr(C, align(4))]', ['u16']), ('AlC8', '#[repr(C, align(8))]', ['u32', 'u32']), ('Al16', '#[repr(align(16))]', ['u64']), ('Al4x', '#[repr(C, align(4))]', ['u8', 'u8', 'u16']),
    ('ForceC', '#[speedy(unsafe_is_primitive = always)] #[repr(C)]', ['u16', 'u8', 'u8']), ('ForceP', '#[speedy(unsafe_is_primitive = always)] #[repr(C)] #[repr(packed)]', ['u8', 'u32']), ('ForceOne', '#[speedy(unsafe_is_primitive = always)]', ['u32']),
    ('UnitC', C, ['u16', '()']), ('UnitR', D, ['()', 'u32']), ('UnitTwo', D, ['()', '()']), ('UnitT', T, ['()']),
]: ty(n, a, f, full=n in ('AlC8', 'ForceC'))
out = ['// generated by tools/gen_p13.py']
for n, a, fs, full in L:
    packed = 'packed' in a
    out.append('shape! { [%s] %s [%s] }' % (a, n, ', '.join('%s: %s' % x for x in fs)))
out.append('crate::entries! {')
QUICK = ('TB', 'P121', 'NestTT', 'NestMix', 'AlC8')
def entry(t): return '    %s { shapes_%s::<super::%s>() }' % (t[0], 'few' if not t[3] else 'full' if t[0] in QUICK else 'some', t[0])
open(os.path.join(os.path.dirname(__file__), '../harness/src/p13_types.rs'), 'w').write('\n'.join(out[:-1]) + '\n'
    + '#[cfg(feature = "p13a")] pub mod one { use super::*; crate::entries! {\n' + '\n'.join(entry(t).replace('super::', '') for t in L[:A]) + '\n} }\n'
    + '#[cfg(feature = "p13b")] pub mod many { use super::*; crate::entries! {\n' + '\n'.join(entry(t).replace('super::', '') for t in L[A:]) + '\n} }\n')
print(A, len(L) - A)
