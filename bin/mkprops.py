#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below and bin/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import props

def P(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    return d

RI, WI, RD, WR, DV, VI, PR = 'src/readable_impl.rs', 'src/writable_impl.rs', 'src/readable.rs', 'src/writable.rs', 'speedy-derive/src/lib.rs', 'src/varint.rs', 'src/private.rs'
L = [
P('P01', 'Every value reads back as itself from its own encoding',
  'For every supported or derived type, every value and either byte order, writing the value and reading the bytes back with the same context gives an equal value (bit for bit; collections compared as collections, skipped fields as their default) and consumes exactly the bytes written. This holds through every kind of source: borrowed buffer, copied buffer, unbuffered and buffered stream.',
  ['inputs', 'configurations'], 'all values of a type, both byte orders, all sources',
  'The tests round-trip a handful of fixed values per type; the property is about every value (every bit pattern of every field, every length).',
  [RI, WI, RD, WR, DV], [('Readable/Writable impl pairs', RI + ', ' + WI), ('derived read and write code', DV)], observe=['read_from_*', 'write_to_vec_with_ctx']),
P('P02', 'The bytes written are the documented wire format',
  'The encoding of a value is the documented one: fixed-width integers and floats in the context\'s byte order, no padding or alignment, 32-bit element counts (or the length type asked for), flags and tags as documented, fields in declaration order, the documented bytes for each special type. Bytes built by hand in this format are accepted and give the value they describe.',
  ['inputs', 'configurations'], 'all values of a type, both byte orders, compared with an independently written encoder',
  'Tests pin the bytes of a few values; a change that alters reader and writer consistently for the other values passes every round-trip test, yet breaks stored data and other implementations.',
  [WI, RI, DV, VI, 'src/endianness.rs', 'README.md'], [('per-type writers', WI), ('endianness swaps', 'src/endianness.rs'), ('varint layout', VI)], observe=['write_to_vec_with_ctx', 'read_from_*']),
P('P03', 'Size prediction is exact and all writers produce the same bytes',
  'The predicted size of a value is exactly the number of bytes written; writing to a vector, to a buffer, to a stream (however few bytes it takes at a time, with or without interruptions) and to a user-defined writer gives the same bytes. A buffer of at least that size is enough and bytes behind the value are untouched; a smaller buffer is an error; writing through a reference makes no difference.',
  ['inputs', 'configurations', 'fault_sequences'], 'all values of a type, both byte orders, all writers and short-write schedules of the stream',
  'write_to_vec writes through unchecked memory sized by the prediction: an under-count for any value is memory corruption, an over-count uninitialised bytes; tests sample a few values and mostly one writer.',
  [WR, WI, DV, 'src/writer.rs'], [('bytes_needed', WI + ', ' + DV), ('write_to_vec capacity', WR), ('SizeCalculatorCollector', WR)], observe=['bytes_needed', 'write_to_vec_with_ctx', 'write_to_buffer_with_ctx', 'write_to_stream_with_ctx', 'write_to']),
P('P04', 'All sources agree on any input',
  'On any input bytes whatsoever, reading from a borrowed buffer, with the copying buffer reader, from an unbuffered stream and from a buffered stream give the same outcome: the same value or a rejection, and the same number of bytes consumed, independently of how the stream splits the data. Types that borrow from the input are accepted only by the borrowing reader and rejected with an error by every other one.',
  ['inputs', 'schedules', 'configurations'], 'all byte strings up to the bound, both byte orders, two chunkings per stream reader',
  'Tests read valid encodings and a few truncations; the readers have separate code paths (borrowing, copying, buffered, primitive fast path, per-element loops) that must agree on malformed inputs too.',
  [RD, RI, 'src/reader.rs', 'src/circular_buffer.rs', DV], [('BufferReader, CopyingBufferReader, StreamReader', RD), ('Readable impls with borrow and fast paths', RI)], observe=['read_from_buffer', 'read_with_length_from_buffer', 'read_from_buffer_copying_data', 'read_from_stream_unbuffered', 'read_from_stream_buffered']),
P('P05', 'The stream reader delivers exactly the bytes of the stream',
  'Any sequence of reads, peeks and skips on the stream reader observes exactly the bytes of the underlying stream, in order, without loss, duplication or reordering, however the stream splits its data, whenever it reports interruptions, and across wrap-around of the internal buffer. The unbuffered reader never takes more bytes from the stream than it was asked for, except to peek.',
  ['schedules', 'histories', 'inputs'], 'all short scripts of read, peek and skip operations with symbolic sizes, all chunkings of the stream within the bound',
  'Tests use one-shot reads from cursors that return everything at once; buffering bugs need a particular history of operations and chunk sizes.',
  [RD, 'src/circular_buffer.rs', 'src/reader.rs'], [('StreamReader::read_bytes / peek_bytes / skip_bytes', RD), ('CircularBuffer', 'src/circular_buffer.rs')], state=[('buffer', 'bytes fetched from the stream and not yet consumed', RD)], observe=['Reader::read_bytes', 'Reader::peek_bytes', 'Reader::skip_bytes']),
P('P06', 'Arbitrary input never panics, corrupts memory, leaks or over-allocates',
  'Reading any type from any bytes, through any source, ends with a value or an error: no panic, no overflow, no out-of-bounds, unaligned or uninitialised access, no value outside its type (text that is not UTF-8, invalid characters), no leak. From a buffer no single allocation is out of proportion to the input\'s length.',
  ['inputs', 'configurations'], 'all byte strings up to the bound, both byte orders, all sources',
  'A serialisation library is fed untrusted data: the guarantee is about inputs nobody thought of; tests feed valid encodings and few malformed ones.',
  [RI, RD, 'src/reader.rs', DV, 'src/utils.rs', PR], [('length checks before allocation', 'src/reader.rs'), ('checked conversions', RI), ('unsafe fast paths', 'src/reader.rs, ' + DV)], observe=['read_from_*']),
P('P07', 'Encodings are self-delimiting: truncation is an error, trailing data is left',
  'Every strict prefix of an encoding is rejected, and from a stream the error reports the end of input (types documented to read until the end of input excepted). Data following an encoding does not change the value read, is not counted as consumed, and is not taken from the stream by the unbuffered reader.',
  ['inputs', 'crash_points'], 'all values of a type, all truncation points, any trailing bytes, both byte orders',
  'Tests truncate a few encodings at one point; truncation at every byte of every value is what a crashed writer or a closed socket produces.',
  [RD, RI, DV, 'src/error.rs'], [('end-of-input errors', RD), ('minimum_bytes_needed up-front checks', RD), ('is_eof', 'src/error.rs')], observe=['read_from_*', 'read_with_length_from_buffer', 'Error::is_eof']),
P('P08', 'The advertised minimum size never exceeds an actual encoding',
  'The minimum number of bytes a type advertises is a lower bound on the length of every encoding it accepts, by itself and inside options, results, arrays, tuples, ranges, vectors, boxes and derived types.',
  ['inputs', 'programs'], 'all values and all accepted byte strings up to the bound for each type of the catalogue, and the compositions of each',
  'Readers reject inputs shorter than the minimum before reading: an over-estimate for any composition silently makes some valid encodings unreadable, and tests only cover the types they list.',
  [RI, DV, RD], [('minimum_bytes_needed', RI + ', ' + DV), ('saturating composition', DV)], observe=['Readable::minimum_bytes_needed', 'read_from_*']),
P('P09', 'Variable-length integers: canonical, minimal and exact for all 64-bit values',
  'Every 64-bit unsigned value encodes to the documented number of bytes (one per started 7 bits, nine at most) with the documented layout, decodes to itself, and over-long encodings are rejected or decode as documented; signed conversions are inverse to each other. Reading and peeking agree, and peeking consumes nothing.',
  ['inputs'], 'all 2^64 values, all byte strings of up to 10 bytes',
  'The value space cannot be enumerated and each length class has its own shifts and masks; tests check chosen values around the class boundaries.',
  [VI, 'src/reader.rs', 'src/writer.rs'], [('VarInt64 read/peek/write', VI), ('zigzag conversions', VI)], observe=['VarInt64', '#[speedy(varint)]', 'length_type = u64_varint']),
P('P10', 'Borrowed data aliases the input exactly when it can; otherwise it is copied',
  'A reference that is read points into the input buffer at the right place and has the right contents; a copy-on-write value read from a buffer borrows only when the bytes in place are the value (byte order and alignment permitting) and is an equal owned copy otherwise; the copying reader and streams never borrow. Data is the same whatever the alignment of the buffer, and a reference that would be misaligned is an error.',
  ['inputs', 'configurations'], 'all contents and lengths up to the bound, every buffer alignment, both byte orders, element sizes 1 to 8',
  'Alignment of test buffers is accidental, and borrowing in the wrong case only shows up as a wrong byte order or undefined behaviour for particular addresses.',
  [RI, 'src/reader.rs', 'src/private.rs', 'src/utils.rs', DV], [('can_borrow / read_cow / read_slice', 'src/reader.rs, ' + RI), ('cast_slice', PR)], observe=['read_from_buffer', 'Cow::Borrowed']),
P('P11', 'Length attributes: lengths are exact, checked and never silently truncated',
  'With a length type or a length expression, the number of elements written and read is exactly the number the attribute denotes: a value whose length does not fit the length type, or differs from the expression, is a write error and nothing shorter is written; a length read is honoured exactly.',
  ['inputs', 'programs'], 'all element counts around the limit of each length type (concrete large counts, symbolic contents and expression values), every container kind',
  'The limits (127, 255, 65535, 2^32) are per length type and container, and a wrong comparison truncates silently; tests cover few of the combinations.',
  [DV, PR, 'src/ext'], [('write_length_*, are_lengths_the_same', PR), ('derived length handling', DV)], observe=['#[speedy(length_type)]', '#[speedy(length)]']),
P('P12', 'Derive attributes: tags, constant prefixes and skipped fields are exact',
  'An enum is read as the variant whose tag is present and written with exactly that tag; any other tag is rejected without consuming the wrong variant; peeked tags are left in the input. A constant prefix must be present byte for byte, and skipped fields take no bytes and read as their default.',
  ['inputs', 'programs'], 'all tag values and all prefix bytes for each tag type',
  'Rejection of every other tag or prefix is a statement about all the values tests do not list (2^64 tags).',
  [DV, PR], [('derived enum matching', DV), ('constant prefixes', DV)], observe=['#[speedy(tag)]', '#[speedy(tag_type)]', '#[speedy(peek_tag)]', '#[speedy(constant_prefix)]', '#[speedy(skip)]']),
P('P13', 'Bulk (primitive) transfer is indistinguishable from field-by-field transfer',
  'Whether a type is transferred in bulk or field by field, alone, in vectors, arrays, slices or nested in other types, the bytes and values are the same, in both byte orders, regardless of the layout the compiler chose.',
  ['inputs', 'programs', 'configurations'], 'all values of pairs of types with equal fields but different representation, both byte orders, all transferable containers',
  'The fast path is chosen per type at compile time, from layout and byte order; a wrong choice corrupts only particular layouts, which the tests list only in part.',
  [DV, 'src/readable_unsized_impl.rs', WI, 'src/reader.rs', 'src/writer.rs'], [('speedy_is_primitive', DV), ('speedy_flip_endianness', DV), ('write_slice / read_vec fast path', WI + ', src/reader.rs')], observe=['read_from_*', 'write_to_vec_with_ctx']),
P('P14', 'A failed read drops everything it built, exactly once',
  'When reading fails part-way, each element, field or key already read is dropped exactly once, nothing that was not read is dropped, and nothing is leaked; when it succeeds, nothing is dropped but what the value later drops itself.',
  ['inputs', 'crash_points', 'fault_sequences'], 'every point of failure in every container, for inputs up to the bound',
  'Partially initialised arrays and vectors are handled by unsafe code; an error at a particular element is needed to see a leak or a double free.',
  [RI, 'src/reader.rs', DV], [('array guard and vector growth', RI), ('into_vec / assume_init', RI)], observe=['Drop of user types']),
P('P15', 'Input and output errors are reported faithfully',
  'An error of the underlying stream at any point surfaces as an error of the operation, with its kind preserved; only a genuine end of input is reported as the end of input; interruptions are retried; a stream that accepts no more bytes is an error, never silent success.',
  ['fault_sequences', 'schedules', 'inputs'], 'a fault of a symbolic kind at every call to the stream, for reading and writing',
  'Tests inject no stream faults; each call site must propagate the error rather than a short or empty result.',
  [RD, WR, 'src/error.rs'], [('StreamReader fault handling', RD), ('Error / is_eof', 'src/error.rs')], observe=['Error::is_eof', 'From<Error> for io::Error', 'read_from_stream_*', 'write_to_stream_*']),
P('P16', 'Single-value reads, peeks and writes honour the byte order',
  'Each fixed-size getter, peeker and writer of a reader or writer transfers its value in the context\'s byte order, peeking leaves the position alone and equals the next read, and the convenience functions without a context behave as little endian.',
  ['inputs', 'histories', 'configurations'], 'all bit patterns of each primitive, both byte orders, all sources, peek followed by read',
  'Each of the dozens of accessor functions has its own code for each reader; tests exercise a part of them with fixed values.',
  ['src/reader.rs', 'src/writer.rs', RD, 'src/endianness.rs', 'src/context.rs'], [('read_u16 … peek_f64', 'src/reader.rs'), ('swap_bytes', 'src/endianness.rs')], observe=['Reader::read_*', 'Reader::peek_*', 'Writer::write_*']),
P('P17', 'Optional trailing data: defaults on end of input and reading to the end',
  'A field marked to default at the end of input takes its default exactly when the input ends before or within it, other errors still surface, and present data is read normally. A field that reads to the end of input takes every complete element that remains, in order, up to the end, and an error other than the end of input surfaces.',
  ['inputs', 'crash_points'], 'all byte strings up to the bound and every end-of-input position, all sources',
  'The outcome depends on where exactly the input ends; tests try few positions and mostly one source.',
  [DV, 'src/reader.rs', PR], [('default_on_eof', DV), ('read_*_until_eof', 'src/reader.rs')], observe=['#[speedy(default_on_eof)]', '#[speedy(length = ..)]']),
P('P18', 'Types of optional dependencies behave like the built-in ones',
  'Values of the supported third-party types (small vectors, index maps and sets, UUIDs, dates, math vectors and matrices, regular expressions) round-trip, have the documented encoding, predict their size exactly, and are rejected without a panic when the input is malformed.',
  ['inputs', 'configurations'], 'all values (bounded sizes) and all byte strings up to the bound of each type, both byte orders',
  'Each integration is separate code with a few fixed test values.',
  ['src/ext_chrono.rs', 'src/ext_glam.rs', 'src/ext_indexmap_v1.rs', 'src/ext_indexmap_v2.rs', 'src/ext_regex.rs', 'src/ext_smallvec.rs', 'src/ext_uuid.rs'], [('Readable/Writable impls', 'src/ext_*.rs')], observe=['read_from_*', 'write_to_vec_with_ctx']),
P('P19', 'File input and output is complete and faults are reported',
  'Writing a value to a file and reading it back gives the same value and exactly its encoding in the file, whatever was in the file before; reading a file gives what reading its bytes from a buffer gives; a failure to create, write, open or read the file is returned as that error, never as success, and the file is closed and unmapped in any case.',
  ['fault_sequences', 'inputs'], 'a fault at every file operation, partial transfers, symbolic contents',
  'Tests use one healthy temporary file.',
  [RD, WR], [('read_from_file', RD), ('write_to_file', WR)], observe=['read_from_file', 'write_to_file']),
P('P20', 'Collections: count, order and duplicate keys',
  'Maps and sets are written as their element count followed by each element once, in iteration order; when read, exactly that many entries are consumed, a later duplicate key replaces the earlier value, and the result equals inserting the entries one by one.',
  ['inputs'], 'all entry sequences (duplicates included) up to the bound, both byte orders',
  'Tests only read what a map wrote, so duplicates and unsorted keys never occur.',
  [RI, WI, PR, 'src/reader.rs'], [('read_collection', 'src/reader.rs'), ('write_collection', 'src/writer.rs')], observe=['BTreeMap', 'BTreeSet', 'HashMap', 'HashSet']),
P('P21', 'Strictness: accepted input is a proper encoding of the value returned',
  'For types with one encoding per value, any accepted input re-encodes to exactly the bytes consumed, so invalid characters, text, zeros, tags and prefixes are rejected. For types with several encodings, what is accepted re-encodes to bytes that read as the same value.',
  ['inputs', 'configurations'], 'all byte strings up to the bound, both byte orders',
  'It is a statement about every malformed input; tests list a few of them.',
  [RI, WI, DV], [('validation in Readable impls', RI)], observe=['read_with_length_from_buffer', 'write_to_vec_with_ctx']),
P('P22', 'User-defined contexts are carried through faithfully',
  'A user-defined context\'s byte order governs every nested transfer, mutations made to the context while reading or writing are visible to the values that follow and to the caller, its error type receives every error (converted, never swallowed), and default-context functions equal those with a little-endian context.',
  ['inputs', 'histories', 'programs'], 'all values and inputs up to the bound, with stateful contexts and custom errors',
  'Tests use stateless contexts with the crate\'s own error type; one missed conversion or copy of the context is invisible to them.',
  ['src/context.rs', RD, WR, 'src/reader.rs', 'src/writer.rs', DV], [('Context trait', 'src/context.rs'), ('context_mut plumbing', RD + ', ' + WR)], observe=['*_with_ctx', '*_with_ctx_mut', '*_default', 'Context::Error']),
]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + '\n')
checks, na = [], []
for p in L:
    i = p['id']
    if i in props.P:
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                           technique='symbolic execution of the compiled LLVM IR, assertions decided by Z3 (QF_BV; QF_FPBV for floating point)', level='model_checking',
                           level_note=props.note(i)))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='All checks run the same symbolic executor (engine/) over LLVM IR generated from /repo and harness/ on every run. No hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
