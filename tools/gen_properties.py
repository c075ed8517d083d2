#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Coded values survive any writer/reader interleaving, bit for bit',
  "A sequence of values written with universal codes to a bit stream (codes freely mixed, header-parameterised and lifted codes included) is decoded with the same codes, in order, to exactly the values written, however the writing and reading sides interleave and whatever kind of bit stream carries the bits. Each decode consumes exactly the bits its encode produced: it never needs, takes or waits for a bit beyond the end of its own codeword.",
  ['schedules', 'inputs', 'histories', 'configurations'],
  "Every schedule of encoder, relay and decoder tasks over bounded pipes with delays; every mix of codes; every in-domain 64-bit value.",
  "Existing tests encode a whole vector into a VecDeque and then decode it with one code, values mostly small; nothing interleaves the two sides, mixes codes, or notices a decoder that reads ahead.",
  ['src/coding/unary.rs', 'src/coding/elias.rs', 'src/coding/fib.rs', 'src/coding/comma.rs', 'src/coding/trans.rs', 'src/stream/traits.rs', 'src/stream/bit_buffer.rs'],
  [('UniversalCode::encode/decode of Unary, Elias, Omega, Fibonacci, Comma, Lift0', 'src/coding/*.rs'), ('BitRead::read_int*, BitWrite::write_int*', 'src/stream/traits.rs')],
  observe=['values decoded', 'bits taken from the source between two decodes'])

p('C02', 'A stream cut at any bit yields a prefix, then the right kind of end',
  "If a bit stream ends exactly between two codewords, decoding yields every value before the cut and then reports a clean end of stream; if it ends inside a codeword, decoding yields the complete values before it and then fails with an unexpected-end-of-file error, never a value and never a clean end. A clean end is not sticky: when more bits arrive later, decoding goes on with the next codeword.",
  ['crash_points', 'inputs', 'histories'],
  "Every cut position in every stream of codewords of every code, and every sequence of cut / append / resume.",
  "Existing tests only ever decode complete streams and look at one clean end; no test cuts a stream.",
  ['src/coding/unary.rs', 'src/coding/elias.rs', 'src/coding/fib.rs', 'src/coding/comma.rs', 'src/coding/trans.rs', 'src/stream/traits.rs', 'src/internal/errors.rs'],
  [('consumed flags and out_of_bits in each decode', 'src/coding/*.rs'), ('partial-read detection in read_int/read_int_be', 'src/stream/traits.rs')])

p('C03', 'A failing sink gets an exact prefix; bad values are refused untouched',
  "When a sink rejects a bit, encoding fails with the sink's own error after delivering exactly the codeword bits before the rejected one, in order, and nothing after it. A value outside a code's domain (0 for the Elias, omega and Fibonacci codes, the largest 64-bit value for a lifted code, values too large for the Fibonacci code) is refused by an error or a panic before any bit is written. Neither leaves hidden state: later encodes to a healthy sink produce the same bits as ever.",
  ['fault_sequences', 'crash_points', 'inputs'],
  "Every position and kind of sink error, transient or permanent, in every codeword of every code, and retries after it.",
  "Every existing sink is an infallible VecDeque or BitVector; no test makes write_bit fail or encodes an unsupported value.",
  ['src/coding/unary.rs', 'src/coding/elias.rs', 'src/coding/fib.rs', 'src/coding/comma.rs', 'src/coding/trans.rs', 'src/stream/traits.rs'],
  [('error propagation (try!) in encode and write_int*', 'src/coding/*.rs, src/stream/traits.rs'), ('domain checks', 'src/coding/elias.rs, src/coding/fib.rs, src/coding/trans.rs')])

p('C04', 'Source errors surface unchanged and are never data or end of stream',
  "When a source fails while a code is decoding from it, the decode fails with that same error whatever its kind (interrupted, would-block, unexpected-end and so on), takes no further bits in that call, returns no value and does not report an end of stream. Decoding keeps no hidden state: repositioning the source at the start of the codeword and decoding again gives the right value.",
  ['fault_sequences', 'inputs', 'histories'],
  "Every position and kind of source error in every codeword of every code, repeated failures, and retries.",
  "Every existing source is an infallible VecDeque or BitBuffer; no test makes read_bit fail.",
  ['src/coding/unary.rs', 'src/coding/elias.rs', 'src/coding/fib.rs', 'src/coding/comma.rs', 'src/coding/trans.rs', 'src/stream/traits.rs'],
  [('error propagation (try!) in decode and read_int*', 'src/coding/*.rs, src/stream/traits.rs')])

p('C05', 'Decoding corrupted bits never panics, wraps or invents a value',
  "For any sequence of bits, each decode returns the value that the code's definition assigns to the codeword at the current position (having consumed exactly that codeword), or a clean end if no bits are left, or an unexpected-end error if the bits run out inside a codeword, or an invalid-data error if the codeword denotes a number the code cannot deliver as a 64-bit value. It never panics, silently wraps around, or returns a different value.",
  ['fault_sequences', 'inputs'],
  "Every flip, loss, insertion, duplication or overwriting of bits in encoded streams, and arbitrary bit strings, for every code.",
  "Existing tests decode only what the encoders just produced; overflowing codewords and damaged streams are never decoded.",
  ['src/coding/unary.rs', 'src/coding/elias.rs', 'src/coding/fib.rs', 'src/coding/comma.rs', 'src/coding/trans.rs', 'src/internal/errors.rs'],
  [('overflow checks and too_many_bits', 'src/coding/*.rs')])

p('C06', 'Fixed-width integers cross faulty bit streams whole or not at all',
  "Writing the low n bits of an integer of any primitive type (n from 0 to the type's width) least- or most-significant bit first delivers exactly those n bits in that order, and reading n bits in the same order returns them. If the sink or source fails, the call returns that error with exactly the earlier bits transferred; a read that hits the end before its first bit reports a clean end (reading zero bits always gives 0) and one that hits it later fails with an unexpected-end error.",
  ['fault_sequences', 'crash_points', 'inputs'],
  "All integer types, widths and values, both bit orders, every fault or end position.",
  "Existing tests move a few small constants through an infallible VecDeque; full-width, zero-width, signed and failing transfers are not exercised.",
  ['src/stream/traits.rs'],
  [('BitRead::read_int/read_int_be, BitWrite::write_int/write_int_be', 'src/stream/traits.rs')])

p('C07', 'A bit buffer behaves as a seekable bit file, also when storage fails',
  "A bit buffer over any bit vector behaves like a file of bits with a cursor: reads return the bit at the cursor and advance it, or report end without moving; writes overwrite at the cursor or extend at the end; seeking within the length moves the cursor and seeking beyond it fails leaving it in place. If the underlying storage or allocator fails during an operation, the cursor is unmoved, no bit other than the one being written changes, and repeating the operation once storage has recovered has the normal effect.",
  ['histories', 'fault_sequences', 'configurations'],
  "Every sequence of reads, writes, seeks, integer transfers and direct bit/block accesses over every kind of underlying vector, with storage faults at any access.",
  "Two existing tests read and write five bits each from the start; overwriting, seeking, appending, other storages and failures are untested.",
  ['src/stream/bit_buffer.rs', 'src/bit_vec/traits.rs', 'src/bit_vec/bit_vector.rs'],
  [('BitBuffer::{from,append,seek,read_bit,write_bit}', 'src/stream/bit_buffer.rs')],
  state=[('pos', 'cursor, never beyond the length', 'src/stream/bit_buffer.rs')])

p('C08', 'Block I/O moves whole blocks through short, interrupted, failing I/O',
  "Writing a block delivers exactly its bytes in the chosen byte order, and reading a block returns what was written, taking exactly the block's bytes, however the reader or writer splits its transfers and however often it is interrupted. If the other side really fails or ends inside a block, the call reports that error (unexpected end for a short read, write-zero for a writer that accepts nothing) with only an in-order prefix of the block's bytes transferred, and never yields a block.",
  ['fault_sequences', 'crash_points', 'inputs'],
  "Every block type and byte order, every split into short transfers, every interruption, error or end position.",
  "No existing test touches block I/O at all.",
  ['src/storage.rs'],
  [('BlockType::read_block/write_block', 'src/storage.rs')])

p('C09', 'An encoded log survives a crash at any point without wrong values',
  "When values are coded into a bit buffer, its complete blocks are written to storage, and the process crashes at any point (losing or tearing whatever was not synced), reading the surviving blocks back into a bit vector and decoding gives a prefix of the written values containing every value whose bits were synced, then a clean or unexpected end, never a wrong value. After cutting off the incomplete tail, appending continues the log as if the lost values had never been written, across any number of crashes.",
  ['crash_points', 'fault_sequences', 'histories'],
  "Every crash point, every torn or lost tail of unsynced bytes, every number of crash/recover cycles, all block types and byte orders.",
  "No test composes coding, bit buffers, bit vectors and block I/O, and none simulates a crash.",
  ['src/coding/mod.rs', 'src/stream/bit_buffer.rs', 'src/bit_vec/bit_vector.rs', 'src/storage.rs'],
  [('composition of encode, BitBuffer, BitVector::{push_block,truncate,get_block}, read_block/write_block and decode', 'src/')])

p('C10', 'A bit vector equals its model after any history of calls and failures',
  "After any sequence of operations a bit vector holds exactly the bits a plain list of booleans would (lengths in bits and blocks, single bits, blocks, bit spans, iteration and binary formatting all agree), for every block type. An out-of-range or overflowing request is refused by a panic and changes nothing. If memory allocation fails inside a growing operation, the vector afterwards holds its old bits followed by at most a prefix of the bits being added, and remains fully usable.",
  ['histories', 'fault_sequences', 'inputs'],
  "Every sequence of public operations with arguments around block boundaries, rejected calls and allocation failures at any allocation.",
  "Existing tests run a handful of short fixed sequences, each refusal ends its test, and allocation never fails.",
  ['src/bit_vec/bit_vector.rs', 'src/internal/vector_base.rs', 'src/bit_vec/traits.rs', 'src/storage.rs'],
  [('BitVector methods over VectorBase', 'src/bit_vec/bit_vector.rs'), ('clear_extra_bits, set_len_from_blocks', 'src/internal/vector_base.rs')],
  state=[('unused bits', 'bits of the last block beyond the length are zero', 'src/internal/vector_base.rs'), ('len / vec', 'the block array is exactly as long as the length needs', 'src/internal/vector_base.rs')])

p('C11', 'An integer vector equals its model after any history and failures',
  "After any sequence of operations an integer vector of k-bit elements (k from 1 to the block width) holds exactly the elements a plain list would, and its view as a bit vector is those elements laid end to end. A value too large for the element width passed to push or set, or an out-of-range access, is refused by a panic and changes nothing. If memory allocation fails inside a growing operation, the vector afterwards holds its old elements followed by at most a prefix of those being added, and remains fully usable.",
  ['histories', 'fault_sequences', 'inputs', 'configurations'],
  "Every element width and block type, every sequence of public operations, rejected calls and allocation failures.",
  "Existing tests use four or five widths and short fixed sequences; resizing, block operations, random-width access and failure recovery are barely touched.",
  ['src/int_vec/int_vector.rs', 'src/internal/vector_base.rs', 'src/bit_vec/traits.rs'],
  [('IntVector methods over VectorBase', 'src/int_vec/int_vector.rs'), ('check_value, compute_address', 'src/int_vec/int_vector.rs')])

p('C12', 'Equality, order and hash depend only on contents, not on history',
  "Two bit vectors, or two integer vectors of the same width, with the same contents compare equal, order as equal and hash alike, and ones with different contents compare unequal, whatever different histories (shrinking, regrowing, refused calls, recovered allocation failures, spare capacity) produced them. The order is a consistent total order that agrees with equality.",
  ['histories', 'fault_sequences'],
  "Every pair of histories that converge to the same or nearly the same contents.",
  "One existing test compares two vectors after a push and a pop.",
  ['src/internal/vector_base.rs', 'src/bit_vec/bit_vector.rs', 'src/int_vec/int_vector.rs'],
  [('derived Eq/Ord/Hash relying on canonical representation', 'src/internal/vector_base.rs')],
  state=[('unused bits', 'must be zero or equality breaks', 'src/internal/vector_base.rs')])

p('C13', 'Reserved capacity is real: within it nothing needs memory',
  "After a successful with-capacity construction or reserve (in bits, elements or blocks), adding up to the promised amount succeeds without requesting memory, even if every further allocation would fail; so does filling a vector up to the capacity it reports, and so do reading, overwriting, popping, truncating, clearing, comparing and iterating. Reserving does nothing when capacity already suffices, clearing keeps the capacity, and shrinking to fit gives up all spare blocks.",
  ['fault_sequences', 'histories'],
  "Every history before the reservation, every amount, and memory exhausted from any point after it.",
  "Existing tests only read back capacity() right after construction or one shrink; whether the memory is really there is unobservable without a controlled allocator.",
  ['src/internal/vector_base.rs', 'src/bit_vec/bit_vector.rs', 'src/int_vec/int_vector.rs', 'src/stream/bit_buffer.rs'],
  [('additional_blocks, reserve, reserve_exact, with_capacity', 'src/internal/vector_base.rs')])

p('C14', 'Reported heap usage equals the memory really held; nothing leaks',
  "At every point in an object's life the heap size it reports equals the bytes it actually holds from the allocator, for bit and integer vectors, rank and select structures and any nesting of them in vectors, boxes and tuples, and the total adds its fixed size. Types declared stack-only hold none. Nothing is leaked: after dropping the object, including after refused calls, failed allocations and failed constructions, everything has been returned.",
  ['histories', 'fault_sequences', 'configurations'],
  "Every history of growth, shrinkage and failure of every measured type and nesting.",
  "Existing tests check four hand-computed sizes; none compares with what the allocator really handed out or looks after a failure.",
  ['src/space_usage.rs', 'src/internal/vector_base.rs', 'src/rank/jacobson.rs', 'src/rank/rank9.rs', 'src/select/bin_search.rs'],
  [('SpaceUsage implementations', 'src/space_usage.rs and each structure')])

p('C15', 'A slice is an exact window: writes, even torn ones, stay inside it',
  "A bit slice taken with any form of range, nested to any depth, shows exactly the bits of that window of its base (as bits, spans and blocks), and writes through a mutable slice appear in the base at the right place and nowhere else, even if the base storage fails part-way through. Ranges beyond the base and positions beyond the slice are refused by a panic even where the base continues, leaving the base unchanged.",
  ['histories', 'fault_sequences', 'inputs'],
  "Every base type, alignment, range form, nesting and operation, with storage faults at any access.",
  "Slices have no unit tests at all; one doc test exercises range completion.",
  ['src/bit_vec/bit_slice.rs', 'src/bit_vec/traits.rs'],
  [('offset translation and bounds checks', 'src/bit_vec/bit_slice.rs')])

p('C16', 'Derived operations on user storage are exact and confine torn writes',
  "For any user-provided bit storage that supplies only single-bit or only block access (and single-bit push and pop), the operations the library derives from it (bit, block and span reads and writes, block pushes, alignment) have exactly the effect of the corresponding plain list operation, whatever the unused tail bits of the last block contain. If the storage fails at any access, the failure propagates and no bit outside the range being written has changed.",
  ['fault_sequences', 'configurations', 'inputs'],
  "Every storage of either kind, block type, alignment, span and value, with faults at any access.",
  "No existing test implements the storage traits; derived operations are only exercised through the library's own infallible vectors.",
  ['src/bit_vec/traits.rs', 'src/bit_vec/prim.rs', 'src/macros.rs'],
  [('default methods of BitVec, BitVecMut, BitVecPush', 'src/bit_vec/traits.rs')])

p('C17', 'Rank answers are exact for any number of concurrent readers',
  "For every bit vector (including empty, one-bit and partly filled last blocks) and every position, each rank structure answers exactly the number of ones, or zeros, up to and including that position, and refuses positions at or beyond its length by a panic, no matter how queries from several threads on the same or different structures interleave. A failed read of the underlying bits during construction or a query propagates to that caller only and later answers are still exact. A query reads a bounded number of blocks however long the vector.",
  ['schedules', 'fault_sequences', 'inputs', 'configurations'],
  "Every schedule of concurrent queries down to basic-block granularity, every storage and length, every storage read fault.",
  "Existing tests query about twelve positions of one regular 1024-block pattern from one thread; construction at sizes 0 and 1, irregular contents, failing storage and shared use are untested.",
  ['src/rank/jacobson.rs', 'src/rank/rank9.rs', 'src/rank/prim.rs', 'src/rank/traits.rs', 'src/macros.rs'],
  [('JacobsonRank::new/rank1, Rank9::new/rank1, Level2', 'src/rank/*.rs')])

p('C18', 'Select answers are exact for any number of concurrent readers',
  "For every sequence and every index, select returns the position of the index-th occurrence (counting from 0) of the symbol, or nothing if there are not that many, over any rank structure including user-provided ones over other symbols, no matter how queries from several threads interleave. A failure inside the underlying rank structure propagates to that caller only and later answers are still exact. A query makes at most logarithmically many rank queries, all at valid positions.",
  ['schedules', 'fault_sequences', 'inputs', 'configurations'],
  "Every schedule of concurrent queries, every rank structure, contents, length and index up to the largest 64-bit value, every rank fault.",
  "Existing tests query a few indexes of three regular patterns from one thread, select of zeros and of other symbols not at all.",
  ['src/select/bin_search.rs', 'src/internal/search.rs', 'src/select/traits.rs'],
  [('binary_search_function', 'src/internal/search.rs'), ('BinSearchSelect', 'src/select/bin_search.rs')])

p('C19', 'Two-ended iteration delivers every element exactly once',
  "However a front consumer and a back consumer interleave on one iterator over a bit or integer vector, with skips and with clones taken at any moment, every element is delivered or skipped exactly once, in order from each end, and then both ends stay exhausted. The reported remaining length, count and last element agree with what is left at every moment, including after skipping past the end.",
  ['schedules', 'histories'],
  "Every schedule of the two consumers, every mix of next, next_back, nth, length queries and clones, every vector and width.",
  "One existing test collects a five-element iterator forwards.",
  ['src/internal/vector_base.rs', 'src/bit_vec/bit_vector.rs', 'src/int_vec/int_vector.rs'],
  [('Iter::{next,next_back,nth,size_hint,len,count,last}', 'src/internal/vector_base.rs')],
  state=[('start/limit', 'remaining range', 'src/internal/vector_base.rs')])

p('C20', 'Broadword word operations agree with their per-byte definitions',
  "For every 64-bit word (and every index below 64 for select), the broadword population count, in-word select, rank and bytewise comparisons give exactly the result of the obvious bit-by-bit or byte-by-byte definition.",
  ['inputs'], "All 64-bit words and indexes.",
  "Quickcheck samples a hundred words per run.",
  ['src/broadword.rs'], [('count_ones, select1, le8, u_le8, u_nz8', 'src/broadword.rs')])

p('C21', 'Block arithmetic, masks and addresses satisfy their definitions',
  "For every block type and argument in range, the size and offset computations, masks, logarithms, rounded divisions and address conversions satisfy their arithmetic definitions, and address construction and flattening are inverses.",
  ['inputs'], "All arguments within the documented preconditions.",
  "Existing tests sample constants and a hundred random words.",
  ['src/storage.rs'], [('BlockType provided methods, Address', 'src/storage.rs')])

p('C22', 'Rank metadata stays a small fraction of the vector in space',
  "The memory a rank structure needs beyond the bits themselves stays below the stated fraction of the vector for all sufficiently long vectors.",
  ['inputs'], "All lengths and contents.",
  "Tests check fifty lengths around one thousand blocks.",
  ['src/rank/jacobson.rs', 'src/rank/rank9.rs'], [('metadata widths', 'src/rank/*.rs')])

p('C23', 'Results do not depend on the pointer width of the target',
  "On 32-bit targets every structure answers exactly as on 64-bit targets for vectors that fit, and sizes that do not fit are refused.",
  ['configurations'], "All supported targets.",
  "Tests here run on one 64-bit target only.",
  ['src/storage.rs', 'src/rank/rank9.rs', 'src/internal/vector_base.rs'], [('cfg(target_pointer_width) variants', 'src/')])

p('C24', 'Wrapping storage changes nothing observable of it',
  "Wrapping bit storage in a rank structure, a select structure, a bit buffer, a whole-range window or a user type built with the exported adapter macros, to any depth and in any order, changes nothing observable: lengths, bits, spans and blocks, and rank and select answers wherever the wrapper offers them, equal those of the wrapped bits through every wrapper, and out-of-range requests are refused alike. A failure inside the wrapped storage propagates through all wrappers to the caller that met it and is not remembered. Writes through a bit buffer or window arrive in the wrapped storage and leave the buffer's cursor alone, a clone of a wrapper answers like the original and is independent of it, and taking a wrapper off gives back the storage it holds.",
  ['schedules', 'fault_sequences', 'inputs', 'configurations', 'histories'],
  "Every stack of wrappers, every storage, block type and length, every storage fault, every schedule of concurrent readers.",
  "Existing tests wrap one kind of vector at a time, read single bits or ranks, and never take a wrapper off or stack two.",
  ['src/macros.rs', 'src/rank/jacobson.rs', 'src/rank/rank9.rs', 'src/select/bin_search.rs', 'src/stream/bit_buffer.rs', 'src/bit_vec/bit_slice.rs'],
  [('impl_bit_vec_adapter and the rank and select adapters', 'src/macros.rs'), ('inner/into_inner of the wrappers', 'src/{rank,select,stream}/*.rs'), ('BitVec, BitVecMut for BitBuffer', 'src/stream/bit_buffer.rs')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
