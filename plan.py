"""Run counts (profile chk, profile rel) and descriptions per property."""

COMPONENTS = {
    "codes": {"real": ["src/coding/*", "src/stream/*", "src/bit_vec/* (as bit buffer storage)", "std::collections::VecDeque"],
              "simulated": ["bit sinks, sources and pipes", "task scheduler", "clock", "memory allocator"]},
    "buffers": {"real": ["src/stream/bit_buffer.rs", "src/stream/traits.rs", "src/bit_vec/*", "src/int_vec/*", "src/internal/vector_base.rs"],
                "simulated": ["failing user storages (bit and block based)", "task scheduler", "clock", "memory allocator"]},
    "blocks": {"real": ["src/storage.rs (block reads and writes)", "byteorder", "std::io::Read/Write default methods"],
               "simulated": ["byte devices (short, interrupted, failing, zero-length operations)"]},
    "logs": {"real": ["src/coding/*", "src/stream/*", "src/storage.rs", "src/bit_vec/bit_vector.rs"],
             "simulated": ["disk (page cache, sync, torn and lost unsynced blocks)", "process crash and restart", "log header (harness code)"]},
    "vectors": {"real": ["src/bit_vec/bit_vector.rs", "src/int_vec/*", "src/internal/vector_base.rs", "src/bit_vec/traits.rs", "src/storage.rs", "src/space_usage.rs", "std::vec::Vec"],
                "simulated": ["memory allocator", "task scheduler (C19)", "clock (C19)"]},
    "views": {"real": ["src/bit_vec/*", "src/macros.rs", "src/storage.rs"],
              "simulated": ["failing user storages (bit and block based, garbage tails)"]},
    "ranks": {"real": ["src/rank/*", "src/select/*", "src/internal/search.rs", "src/macros.rs", "src/bit_vec/*", "src/int_vec/*"],
              "simulated": ["failing user storages and user rank structures", "reader threads and their scheduler, preemptible at every basic block (profile chk)", "memory allocator"]},
    "wrappers": {"real": ["src/rank/*", "src/select/*", "src/stream/bit_buffer.rs", "src/macros.rs", "src/bit_vec/*", "src/int_vec/*"],
                 "simulated": ["failing user storages (bit and block based, garbage tails)", "reader threads and their scheduler, preemptible at every basic block (profile chk)", "memory allocator"]},
}

PLAN = {
    "C01": dict(technique="encoder, relay and decoder tasks over simulated bit pipes under a seeded scheduler",
                note="Real encoders, decoders and streams exchange random messages under thousands of seeded schedules; values, per-codeword consumption and progress are checked.",
                quick=(40000, 80000), thorough=(1200000, 2400000), components="codes",
                rule="Producer, relay and consumer tasks over bounded bit pipes with latency, jitter, backpressure and stalls, request/response gating, one to two connections; or one queue or seekable buffer used from both ends at random; values of random bit length in a random mix of 21 codes, unary codewords up to thousands of bits (rarely 100000, and in profile rel, very rarely, beyond 2^32)."),
    "C02": dict(technique="streams cut and grown at seeded crash positions",
                note="Every decode before, at and after seeded cuts is compared with what the encoder put there.",
                quick=(600000, 1800000), thorough=(12000000, 40000000), components="codes",
                rule="One to five codewords of one or several codes; the stream is cut at random bit positions biased to codeword ends and grown step by step; sources: simulated, queue, bit buffer over two storages."),
    "C03": dict(technique="sinks failing at seeded bits, recovery and retry",
                note="The bits a failing sink received are compared with the same encode into a healthy sink; error identity is checked.",
                quick=(1600000, 3000000), thorough=(30000000, 60000000), components="codes",
                rule="Encodes into a sink that fails at a random bit of the codeword (16 error kinds, once or for good), recovery and retry; values outside each code's domain."),
    "C04": dict(technique="sources failing at seeded bits, recovery and retry",
                note="Error identity, reads after the error, and retries are checked against recorded codewords.",
                quick=(1400000, 3000000), thorough=(25000000, 60000000), components="codes",
                rule="Decodes from a source that fails at random bits (16 error kinds, once or repeatedly), repositioning and retry, failure where the stream would end."),
    "C05": dict(technique="media corrupted by seeded faults, decoded against reference decoders",
                note="Each decode of damaged bits is compared with an independent decoder over wide integers.",
                quick=(1500000, 6000000), thorough=(50000000, 200000000), components="codes",
                rule="Streams encoded by the reference encoders, numbers beyond 64 bits and long unary codewords included, then flips, losses, insertions, duplications, overwriting, cuts, stuck runs and noise; every decode compared with reference decoders over wide integers."),
    "C06": dict(technique="integer transfers over streams failing at seeded bits",
                note="Transferred bits, error identity and clean or unexpected ends are compared with a bit list.",
                quick=(1600000, 3000000), thorough=(30000000, 60000000), components="codes",
                rule="Integers of all twelve primitive types, widths 0 to full, both bit orders, through sinks and sources that fail or end at random bits, with retries."),
    "C07": dict(technique="bit buffers over storages failing at seeded accesses",
                note="A bit list with a cursor is compared with everything the buffer shows after every operation, failed ones included.",
                quick=(60000, 600000), thorough=(2000000, 20000000), components="buffers",
                rule="Histories of writes, reads, seeks, bulk transfers and refused calls on bit buffers over 17 kinds of storage, rarely of up to tens of thousands of bits; storages fail before or after the effect of a random access, the allocator fails at any request of a transfer; two tasks sharing one buffer by turns; buffers over sparse storages of up to 2^64 bits."),
    "C08": dict(technique="block I/O over devices with seeded short, interrupted and failing operations",
                note="Bytes on the device, values and error identity are compared with a byte list.",
                quick=(1200000, 3200000), thorough=(15000000, 45000000), components="blocks",
                rule="Sequences of block writes and reads of all five types in both byte orders over devices that split, interrupt, zero-length or fail operations at random bytes."),
    "C09": dict(technique="coded logs on a simulated disk with seeded crashes",
                note="After every crash the recovered values must be a prefix of those written that includes all those synced.",
                quick=(110000, 2200000), thorough=(5000000, 100000000), components="logs",
                rule="Append-only logs of coded integers over a block device with unsynced data lost, torn or kept at random when the process crashes, recovered and appended to again several times."),
    "C10": dict(technique="bit vector histories under seeded allocation failures",
                note="A list of bools is compared with the vector through every accessor after every operation.",
                quick=(56000, 1400000), thorough=(2000000, 50000000), components="vectors",
                rule="Histories of up to dozens of bit vector operations, single and bulk, over five block types, with refused calls, requests beyond memory and allocations failing at random; lengths to some hundreds of bits, rarely 8, 64 or 512 times that; very rarely (profile rel) vectors of more than 2^32 bits."),
    "C11": dict(technique="int vector histories under seeded allocation failures",
                note="A list of integers is compared with the vector through every accessor after every operation.",
                quick=(72000, 1800000), thorough=(2000000, 50000000), components="vectors",
                rule="Histories of int vector operations, single and bulk, over five block types and all widths, with refused calls, requests beyond memory and allocations failing at random; lengths to some hundreds of bits, rarely 8, 64 or 512 times that; very rarely (profile rel) vectors of more than 2^32 bits."),
    "C12": dict(technique="replicas brought to the same or other contents along different seeded histories",
                note="Equality, order and hash must follow the contents whatever the history.",
                quick=(60000, 800000), thorough=(4000000, 55000000), components="vectors",
                rule="Two to four vectors reach the same or nearly the same contents through different histories, failures included, and are compared pairwise; rarely up to 512 times as long."),
    "C13": dict(technique="operation sequences with all memory gone after a reservation",
                note="After a reservation every growing operation within the promise must succeed while the simulated allocator refuses everything.",
                quick=(250000, 6000000), thorough=(15000000, 400000000), components="vectors",
                rule="Reservations, growth to the promise and to the capacity, shrinking and quiet operations, each within the promise run with no memory at all; rarely (profile rel) vectors of more than 2^32 bits."),
    "C14": dict(technique="allocator accounting along seeded histories with failing allocations",
                note="Reported heap bytes are compared with the bytes the simulated allocator has handed out; drops and failed constructions must return everything.",
                quick=(450000, 4000000), thorough=(25000000, 250000000), components="vectors",
                rule="Objects of 26 kinds (vectors, buffers, rank and select structures, collections, tuples and boxes of them, windows) built, used and dropped with allocations and underlying storages failing at random; rarely up to 512 times as large."),
    "C15": dict(technique="windows on storages failing at seeded accesses",
                note="What a window shows and what the base holds outside it are compared with a list of bools.",
                quick=(80000, 800000), thorough=(4000000, 40000000), components="views",
                rule="Windows of every range form, nested up to five deep by every method, on 14 kinds of base (rarely of tens of thousands of bits) and on sparse storages of up to 2^64-1 bits; reads, writes and refused calls; storages fail before or after the effect of a random access."),
    "C16": dict(technique="derived operations on user storages failing at seeded accesses",
                note="Derived reads, writes, pushes and alignment are compared with a list of bools; failed writes must stay within their range.",
                quick=(140000, 1300000), thorough=(9000000, 85000000), components="views",
                rule="User storages offering only bits or only blocks (with arbitrary tail bits), all five block types, rarely of tens of thousands of bits, failing before or after the effect of a random access, once or for good; sparse storages of up to 2^64-1 bits; positions and spans out of bounds up to the ends of the number range."),
    "C17": dict(technique="concurrent rank queries under a preemptive seeded scheduler, over failing storages",
                note="Every answer is compared with prefix counts; accesses per query are bounded; failures must reach exactly the reader that met them.",
                quick=(72000, 520000), thorough=(1800000, 13000000), components="ranks",
                rule="Two rank structures over one storage of 12 kinds and up to 300000 bits (rarely, in profile rel, more than 2^32), one to four reader tasks preempted at random basic blocks and at every storage access, storage failures in construction and queries, allocation failures."),
    "C18": dict(technique="concurrent select queries under a preemptive seeded scheduler, over failing rank structures",
                note="Every answer is compared with a search of the list; rank queries are counted and must be in bounds; failures must reach exactly the reader that met them.",
                quick=(72000, 480000), thorough=(1200000, 8000000), components="ranks",
                rule="Selection over the library's and over user rank structures (bits, symbols, synthetic ones up to 2^64-1 positions), one to four reader tasks preempted at random, indexes up to 2^64-1, failures in the underlying structure."),
    "C19": dict(technique="front and back consumers of one iterator under a seeded scheduler",
                note="A deque is compared with everything the iterators yield and report.",
                quick=(220000, 800000), thorough=(10000000, 35000000), components="vectors",
                rule="Random interleavings of next, next_back, nth, size queries, clones, folds, searches and adapters on iterators over bit and int vectors, rarely of tens of thousands of elements; two tasks consuming both ends; very rarely (profile rel) vectors of more than 2^32 bits."),
    "C24": dict(technique="towers of wrappers over storages failing at seeded accesses, shared by preempted readers",
                note="A list of bits is compared with everything every wrapper of a tower shows while others are on top of it and after they were taken off.",
                quick=(20000, 240000), thorough=(1000000, 12000000), components="wrappers",
                rule="Towers of up to four wrappers (rank and select structures and combinations of them, bit buffers, whole-range windows, user types built with the exported adapters) on seven kinds of storage, five block types; one to four readers preempted at random, storage failures in construction, queries and writes; writes through towers, and clones."),
}
