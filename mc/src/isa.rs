//! Which processor feature (beyond the architecture's baseline) an instruction
//! needs.

/// # Safety
/// `p` must be the address of an instruction.
pub unsafe fn needs(p: *const u8) -> &'static [&'static str] {
    let at = |i: usize| unsafe { p.add(i).read() };
    let mut i = 0;
    let (mut p66, mut rep) = (false, 0u8);
    loop {
        match at(i) {
            0x66 => p66 = true,
            0xf2 | 0xf3 => rep = at(i),
            0x67 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0xf0 => {}
            _ => break,
        }
        i += 1;
    }
    match at(i) {
        0x62 => return evex(at(i + 1) & 7, at(i + 2) & 3, (at(i + 3) >> 5) & 3, at(i + 4), at(i + 5)),
        0xc5 => return vex(1, at(i + 1) & 3, (at(i + 1) >> 2) & 1, at(i + 2)),
        0xc4 => return vex(at(i + 1) & 0x1f, at(i + 2) & 3, (at(i + 2) >> 2) & 1, at(i + 3)),
        x if x & 0xf0 == 0x40 => i += 1,
        _ => {}
    }
    if at(i) != 0x0f {
        return &[];
    }
    match at(i + 1) {
        0x38 => match at(i + 2) {
            0xdb..=0xdf if p66 => &["aes"],
            0xc8..=0xcd if !p66 => &["sha"],
            0xf6 if p66 || rep == 0xf3 => &["adx"],
            0xf0 | 0xf1 if rep == 0 => &["movbe"],
            0xf0 | 0xf1 => &["sse4.2"],
            0x00..=0x0b | 0x1c..=0x1e => &["ssse3"],
            _ => &["sse4.1"],
        },
        0x3a => match at(i + 2) {
            0xdf => &["aes"],
            0x44 => &["pclmulqdq"],
            0xcc => &["sha"],
            0x0f => &["ssse3"],
            _ => &["sse4.1"],
        },
        0xb8 if rep == 0xf3 => &["popcnt"],
        0xbd if rep == 0xf3 => &["lzcnt"],
        0xc7 if at(i + 2) >> 6 == 3 && (at(i + 2) >> 3) & 7 >= 6 => &["rdrand"],
        _ => &[],
    }
}

fn vex(map: u8, pp: u8, l: u8, op: u8) -> &'static [&'static str] {
    match (map, op) {
        (2, 0xf2) | (2, 0xf3) => &["bmi1"],
        (2, 0xf7) if pp == 0 => &["bmi1"],
        (2, 0xf5..=0xf7) => &["bmi2"],
        (3, 0xf0) => &["bmi2"],
        (2, 0xdb..=0xdf) if l == 1 => &["avx", "vaes"],
        (2, 0xdb..=0xdf) | (3, 0xdf) => &["avx", "aes"],
        (3, 0x44) if l == 1 => &["avx", "vpclmulqdq"],
        (3, 0x44) => &["avx", "pclmulqdq"],
        (1, 0x41..=0x4b | 0x90..=0x93 | 0x98 | 0x99) | (3, 0x30..=0x33) => &["avx512f"],
        (2, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) => &["fma"],
        (2, 0x13) | (3, 0x1d) => &["f16c"],
        (2, 0x36 | 0x16 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93) => &["avx2"],
        (1, 0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xe5 | 0xe8..=0xef | 0xf1..=0xfe) if l == 1 => &["avx2"],
        (2, 0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x40) if l == 1 => &["avx2"],
        (3, 0x00..=0x02 | 0x0e | 0x0f | 0x38 | 0x39 | 0x42 | 0x46 | 0x4c) if l == 1 || op != 0x0e && op != 0x0f && op != 0x42 && op != 0x4c => &["avx2"],
        _ => &["avx"],
    }
}

fn evex(map: u8, pp: u8, l: u8, op: u8, _modrm: u8) -> &'static [&'static str] {
    let bw = match (map, op) {
        (1, 0x60 | 0x61 | 0x63..=0x65 | 0x67..=0x69 | 0x6b | 0x71 | 0x74 | 0x75 | 0xd1 | 0xd5 | 0xd8..=0xda | 0xdc..=0xde | 0xe0 | 0xe1 | 0xe3..=0xe5 | 0xe8..=0xea | 0xec..=0xee | 0xf1 | 0xf5 | 0xf6 | 0xf8 | 0xf9 | 0xfc | 0xfd) => true,
        // byte shifts of whole lanes
        (1, 0x73) => (_modrm >> 3) & 7 == 3 || (_modrm >> 3) & 7 == 7,
        (1, 0x6f | 0x7f) => pp == 3,
        (2, 0x00 | 0x04 | 0x0b | 0x1c | 0x1d | 0x38 | 0x3a | 0x3c | 0x3e | 0x66 | 0x78..=0x7b) => true,
        (3, 0x0f | 0x3e | 0x3f) => true,
        _ => false,
    };
    let short = l < 2;
    match (map, op) {
        (2, 0xdc..=0xdf) if short => &["avx512f", "avx512vl", "vaes"],
        (2, 0xdc..=0xdf) => &["avx512f", "vaes"],
        (3, 0x44) if short => &["avx512f", "avx512vl", "vpclmulqdq"],
        (3, 0x44) => &["avx512f", "vpclmulqdq"],
        _ => match (bw, short) {
            (true, true) => &["avx512f", "avx512bw", "avx512vl"],
            (true, false) => &["avx512f", "avx512bw"],
            (false, true) => &["avx512f", "avx512vl"],
            (false, false) => &["avx512f"],
        },
    }
}
