//! C14: tuples of every arity, holding memory in every place; boxes of every size.
use crate::io::call;
use crate::vecs::exact;
use succinct::SpaceUsage;
use rt::*;

fn heap(n: usize) -> Vec<u16> { Vec::with_capacity(n) }

fn see<T: SpaceUsage>(make: impl FnOnce() -> T) -> Res {
    let base = alloc::live();
    let x = call("constructing", make)?;
    exact(&x, base, "built")?;
    call("dropping", move || drop(x))
}

pub fn c14() -> Res {
    let n = 1 + choose(100) as usize;
    let base = alloc::live();
    let which = choose(230);
    ev("tuple", &[which, n as u64]);
    match which {
        0 => see(|| (heap(n + 0),))?,
        1 => see(|| (2u16,))?,
        2 => see(|| (heap(n),))?,
        3 => see(|| (heap(n + 0), heap(n + 1),))?,
        4 => see(|| (3u32, 4u64,))?,
        5 => see(|| (heap(n), 4u64,))?,
        6 => see(|| (3u32, heap(n),))?,
        7 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2),))?,
        8 => see(|| (4u64, 5i8, 6i16,))?,
        9 => see(|| (heap(n), 5i8, 6i16,))?,
        10 => see(|| (4u64, heap(n), 6i16,))?,
        11 => see(|| (4u64, 5i8, heap(n),))?,
        12 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3),))?,
        13 => see(|| (5i8, 6i16, 1u8, 2u16,))?,
        14 => see(|| (heap(n), 6i16, 1u8, 2u16,))?,
        15 => see(|| (5i8, heap(n), 1u8, 2u16,))?,
        16 => see(|| (5i8, 6i16, heap(n), 2u16,))?,
        17 => see(|| (5i8, 6i16, 1u8, heap(n),))?,
        18 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4),))?,
        19 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64,))?,
        20 => see(|| (heap(n), 1u8, 2u16, 3u32, 4u64,))?,
        21 => see(|| (6i16, heap(n), 2u16, 3u32, 4u64,))?,
        22 => see(|| (6i16, 1u8, heap(n), 3u32, 4u64,))?,
        23 => see(|| (6i16, 1u8, 2u16, heap(n), 4u64,))?,
        24 => see(|| (6i16, 1u8, 2u16, 3u32, heap(n),))?,
        25 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5),))?,
        26 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        27 => see(|| (heap(n), 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        28 => see(|| (1u8, heap(n), 3u32, 4u64, 5i8, 6i16,))?,
        29 => see(|| (1u8, 2u16, heap(n), 4u64, 5i8, 6i16,))?,
        30 => see(|| (1u8, 2u16, 3u32, heap(n), 5i8, 6i16,))?,
        31 => see(|| (1u8, 2u16, 3u32, 4u64, heap(n), 6i16,))?,
        32 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, heap(n),))?,
        33 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5), heap(n + 6),))?,
        34 => see(|| (2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        35 => see(|| (heap(n), 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        36 => see(|| (2u16, heap(n), 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        37 => see(|| (2u16, 3u32, heap(n), 5i8, 6i16, 1u8, 2u16,))?,
        38 => see(|| (2u16, 3u32, 4u64, heap(n), 6i16, 1u8, 2u16,))?,
        39 => see(|| (2u16, 3u32, 4u64, 5i8, heap(n), 1u8, 2u16,))?,
        40 => see(|| (2u16, 3u32, 4u64, 5i8, 6i16, heap(n), 2u16,))?,
        41 => see(|| (2u16, 3u32, 4u64, 5i8, 6i16, 1u8, heap(n),))?,
        42 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5), heap(n + 6), heap(n + 7),))?,
        43 => see(|| (3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        44 => see(|| (heap(n), 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        45 => see(|| (3u32, heap(n), 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        46 => see(|| (3u32, 4u64, heap(n), 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        47 => see(|| (3u32, 4u64, 5i8, heap(n), 1u8, 2u16, 3u32, 4u64,))?,
        48 => see(|| (3u32, 4u64, 5i8, 6i16, heap(n), 2u16, 3u32, 4u64,))?,
        49 => see(|| (3u32, 4u64, 5i8, 6i16, 1u8, heap(n), 3u32, 4u64,))?,
        50 => see(|| (3u32, 4u64, 5i8, 6i16, 1u8, 2u16, heap(n), 4u64,))?,
        51 => see(|| (3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, heap(n),))?,
        52 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5), heap(n + 6), heap(n + 7), heap(n + 8),))?,
        53 => see(|| (4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        54 => see(|| (heap(n), 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        55 => see(|| (4u64, heap(n), 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        56 => see(|| (4u64, 5i8, heap(n), 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        57 => see(|| (4u64, 5i8, 6i16, heap(n), 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        58 => see(|| (4u64, 5i8, 6i16, 1u8, heap(n), 3u32, 4u64, 5i8, 6i16,))?,
        59 => see(|| (4u64, 5i8, 6i16, 1u8, 2u16, heap(n), 4u64, 5i8, 6i16,))?,
        60 => see(|| (4u64, 5i8, 6i16, 1u8, 2u16, 3u32, heap(n), 5i8, 6i16,))?,
        61 => see(|| (4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, heap(n), 6i16,))?,
        62 => see(|| (4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, heap(n),))?,
        63 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5), heap(n + 6), heap(n + 7), heap(n + 8), heap(n + 9),))?,
        64 => see(|| (5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        65 => see(|| (heap(n), 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        66 => see(|| (5i8, heap(n), 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        67 => see(|| (5i8, 6i16, heap(n), 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        68 => see(|| (5i8, 6i16, 1u8, heap(n), 3u32, 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        69 => see(|| (5i8, 6i16, 1u8, 2u16, heap(n), 4u64, 5i8, 6i16, 1u8, 2u16,))?,
        70 => see(|| (5i8, 6i16, 1u8, 2u16, 3u32, heap(n), 5i8, 6i16, 1u8, 2u16,))?,
        71 => see(|| (5i8, 6i16, 1u8, 2u16, 3u32, 4u64, heap(n), 6i16, 1u8, 2u16,))?,
        72 => see(|| (5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, heap(n), 1u8, 2u16,))?,
        73 => see(|| (5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, heap(n), 2u16,))?,
        74 => see(|| (5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, heap(n),))?,
        75 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5), heap(n + 6), heap(n + 7), heap(n + 8), heap(n + 9), heap(n + 10),))?,
        76 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        77 => see(|| (heap(n), 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        78 => see(|| (6i16, heap(n), 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        79 => see(|| (6i16, 1u8, heap(n), 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        80 => see(|| (6i16, 1u8, 2u16, heap(n), 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        81 => see(|| (6i16, 1u8, 2u16, 3u32, heap(n), 5i8, 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        82 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, heap(n), 6i16, 1u8, 2u16, 3u32, 4u64,))?,
        83 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, 5i8, heap(n), 1u8, 2u16, 3u32, 4u64,))?,
        84 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, heap(n), 2u16, 3u32, 4u64,))?,
        85 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, heap(n), 3u32, 4u64,))?,
        86 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, heap(n), 4u64,))?,
        87 => see(|| (6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, heap(n),))?,
        88 => see(|| (heap(n + 0), heap(n + 1), heap(n + 2), heap(n + 3), heap(n + 4), heap(n + 5), heap(n + 6), heap(n + 7), heap(n + 8), heap(n + 9), heap(n + 10), heap(n + 11),))?,
        89 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        90 => see(|| (heap(n), 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        91 => see(|| (1u8, heap(n), 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        92 => see(|| (1u8, 2u16, heap(n), 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        93 => see(|| (1u8, 2u16, 3u32, heap(n), 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        94 => see(|| (1u8, 2u16, 3u32, 4u64, heap(n), 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        95 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, heap(n), 1u8, 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        96 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, heap(n), 2u16, 3u32, 4u64, 5i8, 6i16,))?,
        97 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, heap(n), 3u32, 4u64, 5i8, 6i16,))?,
        98 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, heap(n), 4u64, 5i8, 6i16,))?,
        99 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, heap(n), 5i8, 6i16,))?,
        100 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, heap(n), 6i16,))?,
        101 => see(|| (1u8, 2u16, 3u32, 4u64, 5i8, 6i16, 1u8, 2u16, 3u32, 4u64, 5i8, heap(n),))?,
        102 => see(|| Box::new((1u8,)))?,
        103 => see(|| Box::new((1u16,)))?,
        104 => see(|| Box::new((1u32,)))?,
        105 => see(|| Box::new((heap(n), )))?,
        106 => see(|| vec![(1u8,); n])?,
        107 => see(|| vec![Box::new((1u16,)); n])?,
        108 => see(|| Box::new((1u8, 1u8,)))?,
        109 => see(|| Box::new((1u16, 1u16,)))?,
        110 => see(|| Box::new((1u32, 1u32,)))?,
        111 => see(|| Box::new((heap(n), 1u32)))?,
        112 => see(|| vec![(1u8, 1u8,); n])?,
        113 => see(|| vec![Box::new((1u16, 1u16,)); n])?,
        114 => see(|| Box::new((1u8, 1u8, 1u8,)))?,
        115 => see(|| Box::new((1u16, 1u16, 1u16,)))?,
        116 => see(|| Box::new((1u32, 1u32, 1u32,)))?,
        117 => see(|| Box::new((heap(n), 1u32, 1u32)))?,
        118 => see(|| vec![(1u8, 1u8, 1u8,); n])?,
        119 => see(|| vec![Box::new((1u16, 1u16, 1u16,)); n])?,
        120 => see(|| Box::new((1u8, 1u8, 1u8, 1u8,)))?,
        121 => see(|| Box::new((1u16, 1u16, 1u16, 1u16,)))?,
        122 => see(|| Box::new((1u32, 1u32, 1u32, 1u32,)))?,
        123 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32)))?,
        124 => see(|| vec![(1u8, 1u8, 1u8, 1u8,); n])?,
        125 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16,)); n])?,
        126 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        127 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        128 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        129 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32)))?,
        130 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        131 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        132 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        133 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        134 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        135 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        136 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        137 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        138 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        139 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        140 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        141 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        142 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        143 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        144 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        145 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        146 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        147 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        148 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        149 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        150 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        151 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        152 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        153 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        154 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        155 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        156 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        157 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        158 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        159 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        160 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        161 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        162 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        163 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        164 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        165 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        166 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        167 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        168 => see(|| Box::new((1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,)))?,
        169 => see(|| Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)))?,
        170 => see(|| Box::new((1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32,)))?,
        171 => see(|| Box::new((heap(n), 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32, 1u32)))?,
        172 => see(|| vec![(1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8,); n])?,
        173 => see(|| vec![Box::new((1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16, 1u16,)); n])?,
        174 => see(|| Box::new(()))?,
        175 => see(|| vec![Box::new(()); n])?,
        176 => see(|| Box::new(Box::new(())))?,
        177 => see(|| vec![(); n])?,
        178 => see(|| Box::new(1u8))?,
        179 => see(|| vec![Box::new(1u8); n])?,
        180 => see(|| Box::new(Box::new(1u8)))?,
        181 => see(|| vec![1u8; n])?,
        182 => see(|| Box::new(2i8))?,
        183 => see(|| vec![Box::new(2i8); n])?,
        184 => see(|| Box::new(Box::new(2i8)))?,
        185 => see(|| vec![2i8; n])?,
        186 => see(|| Box::new(1u16))?,
        187 => see(|| vec![Box::new(1u16); n])?,
        188 => see(|| Box::new(Box::new(1u16)))?,
        189 => see(|| vec![1u16; n])?,
        190 => see(|| Box::new(2i16))?,
        191 => see(|| vec![Box::new(2i16); n])?,
        192 => see(|| Box::new(Box::new(2i16)))?,
        193 => see(|| vec![2i16; n])?,
        194 => see(|| Box::new(1u32))?,
        195 => see(|| vec![Box::new(1u32); n])?,
        196 => see(|| Box::new(Box::new(1u32)))?,
        197 => see(|| vec![1u32; n])?,
        198 => see(|| Box::new(2i32))?,
        199 => see(|| vec![Box::new(2i32); n])?,
        200 => see(|| Box::new(Box::new(2i32)))?,
        201 => see(|| vec![2i32; n])?,
        202 => see(|| Box::new(1u64))?,
        203 => see(|| vec![Box::new(1u64); n])?,
        204 => see(|| Box::new(Box::new(1u64)))?,
        205 => see(|| vec![1u64; n])?,
        206 => see(|| Box::new(2i64))?,
        207 => see(|| vec![Box::new(2i64); n])?,
        208 => see(|| Box::new(Box::new(2i64)))?,
        209 => see(|| vec![2i64; n])?,
        210 => see(|| Box::new(1usize))?,
        211 => see(|| vec![Box::new(1usize); n])?,
        212 => see(|| Box::new(Box::new(1usize)))?,
        213 => see(|| vec![1usize; n])?,
        214 => see(|| Box::new(2isize))?,
        215 => see(|| vec![Box::new(2isize); n])?,
        216 => see(|| Box::new(Box::new(2isize)))?,
        217 => see(|| vec![2isize; n])?,
        218 => see(|| Box::new(1f32))?,
        219 => see(|| vec![Box::new(1f32); n])?,
        220 => see(|| Box::new(Box::new(1f32)))?,
        221 => see(|| vec![1f32; n])?,
        222 => see(|| Box::new(1f64))?,
        223 => see(|| vec![Box::new(1f64); n])?,
        224 => see(|| Box::new(Box::new(1f64)))?,
        225 => see(|| vec![1f64; n])?,
        226 => see(|| Box::new(heap(n)))?,
        227 => see(|| vec![Box::new(heap(n)); n])?,
        228 => see(|| Box::new(Box::new(heap(n))))?,
        229 => see(|| vec![heap(n); n])?,
        _ => {}
    }
    ensure!(alloc::live() == base, "leak", "{} bytes left", alloc::live() - base);
    Ok(())
}
