//! ETC1 / ETC2 / EAC references, from the Khronos data format specification.
use super::argb;

const MODS: [[i32; 2]; 8] = [[2, 8], [5, 17], [9, 29], [13, 42], [18, 60], [24, 80], [33, 106], [47, 183]];
const DIST: [i32; 8] = [3, 6, 11, 16, 23, 32, 41, 64];
const EAC: [[i32; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];

fn cl(v: i32) -> u32 {
    v.clamp(0, 255) as u32
}
fn e4(v: u32) -> i32 {
    (v * 17) as i32
}
fn e5(v: u32) -> i32 {
    (v << 3 | v >> 2) as i32
}
fn e6(v: u32) -> i32 {
    (v << 2 | v >> 4) as i32
}
fn e7(v: u32) -> i32 {
    (v << 1 | v >> 6) as i32
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Etc1,
    Rgb,
    Rgba1,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Individual,
    Differential,
    T,
    H,
    Planar,
    /// ETC1 differential base + delta out of range: not defined by ETC1
    Undefined,
}
pub struct Out {
    pub mode: Mode,
    /// punch-through block with transparent texels possible
    pub punch: bool,
    pub px: [u32; 16],
}

/// pixel (x,y) has index k = 4*x+y; its 2-bit selector is (msb,lsb) of bit k in the
/// upper / lower 16 bits of the low big-endian word.
fn sel(b: &[u8], x: usize, y: usize) -> usize {
    let w = u32::from_be_bytes([b[4], b[5], b[6], b[7]]);
    let k = 4 * x + y;
    ((w >> (k + 16) & 1) * 2 + (w >> k & 1)) as usize
}

pub fn color(b: &[u8], kind: Kind) -> Out {
    let hi = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
    let f = |top: u32, n: u32| hi >> (top + 1 - n) & ((1 << n) - 1); // bits top..top-n+1 of the high word
    let diffbit = f(1, 1) == 1;
    let flip = f(0, 1) == 1;
    let opaque = kind != Kind::Rgba1 || diffbit;
    let mut px = [0u32; 16];
    let mut mode = Mode::Individual;
    let mut base = [[0i32; 3]; 2];
    if !diffbit && kind != Kind::Rgba1 {
        for c in 0..3u32 {
            let v = f(31 - 8 * c, 8);
            base[0][c as usize] = e4(v >> 4);
            base[1][c as usize] = e4(v & 15);
        }
    } else {
        mode = Mode::Differential;
        let mut over = [false; 3];
        for c in 0..3u32 {
            let v = f(31 - 8 * c, 5);
            let d = f(26 - 8 * c, 3) as i32;
            let d = if d >= 4 { d - 8 } else { d };
            let s = v as i32 + d;
            over[c as usize] = !(0..=31).contains(&s);
            base[0][c as usize] = e5(v);
            base[1][c as usize] = e5((s & 31) as u32);
        }
        if over != [false; 3] {
            mode = if kind == Kind::Etc1 {
                Mode::Undefined
            } else if over[0] {
                Mode::T
            } else if over[1] {
                Mode::H
            } else {
                Mode::Planar
            };
        }
    }
    let rgb = |c: [i32; 3], d: i32| argb(255, cl(c[0] + d), cl(c[1] + d), cl(c[2] + d));
    match mode {
        Mode::Undefined => {}
        Mode::Individual | Mode::Differential => {
            let tab = [f(7, 3) as usize, f(4, 3) as usize];
            for y in 0..4 {
                for x in 0..4 {
                    let sub = if flip { y / 2 } else { x / 2 };
                    let m = MODS[tab[sub]];
                    // selector 0,1,2,3 -> +small, +large, -small, -large
                    let s = sel(b, x, y);
                    px[4 * y + x] = if opaque {
                        rgb(base[sub], [m[0], m[1], -m[0], -m[1]][s])
                    } else {
                        match s {
                            0 => rgb(base[sub], 0),
                            1 => rgb(base[sub], m[1]),
                            2 => 0,
                            _ => rgb(base[sub], -m[1]),
                        }
                    };
                }
            }
        }
        Mode::T | Mode::H => {
            let (c0, c1, d);
            if mode == Mode::T {
                // R1a 60..59, R1b 57..56, G1 55..52, B1 51..48, R2 47..44, G2 43..40, B2 39..36, da 35..34, db 32
                c0 = [e4(f(28, 2) << 2 | f(25, 2)), e4(f(23, 4)), e4(f(19, 4))];
                c1 = [e4(f(15, 4)), e4(f(11, 4)), e4(f(7, 4))];
                d = DIST[(f(3, 2) << 1 | f(0, 1)) as usize];
            } else {
                // R1 62..59, G1a 58..56, G1b 52, B1a 51, B1b 49..47, R2 46..43, G2 42..39, B2 38..35, da 34, db 32
                let r1 = f(30, 4);
                let g1 = f(26, 3) << 1 | f(20, 1);
                let b1 = f(19, 1) << 3 | f(17, 3);
                let r2 = f(14, 4);
                let g2 = f(10, 4);
                let b2 = f(6, 4);
                let order = (r1 << 8 | g1 << 4 | b1) >= (r2 << 8 | g2 << 4 | b2);
                c0 = [e4(r1), e4(g1), e4(b1)];
                c1 = [e4(r2), e4(g2), e4(b2)];
                d = DIST[(f(2, 1) << 2 | f(0, 1) << 1 | order as u32) as usize];
            }
            let paint = if mode == Mode::T {
                [rgb(c0, 0), rgb(c1, d), rgb(c1, 0), rgb(c1, -d)]
            } else {
                [rgb(c0, d), rgb(c0, -d), rgb(c1, d), rgb(c1, -d)]
            };
            for y in 0..4 {
                for x in 0..4 {
                    let s = sel(b, x, y);
                    px[4 * y + x] = if !opaque && s == 2 { 0 } else { paint[s] };
                }
            }
        }
        Mode::Planar => {
            let v = u64::from_be_bytes(b[..8].try_into().unwrap());
            let g = |top: u32, n: u32| (v >> (top + 1 - n)) as u32 & ((1 << n) - 1);
            // RO 62..57, GO1 56, GO2 54..49, BO1 48, BO2 44..43, BO3 41..39, RH1 38..34, RH2 32,
            // GH 31..25, BH 24..19, RV 18..13, GV 12..6, BV 5..0
            let o = [e6(g(62, 6)), e7(g(56, 1) << 6 | g(54, 6)), e6(g(48, 1) << 5 | g(44, 2) << 3 | g(41, 3))];
            let h = [e6(g(38, 5) << 1 | g(32, 1)), e7(g(31, 7)), e6(g(24, 6))];
            let w = [e6(g(18, 6)), e7(g(12, 7)), e6(g(5, 6))];
            for y in 0..4 {
                for x in 0..4 {
                    let c: [u32; 3] = std::array::from_fn(|c| {
                        cl((x as i32 * (h[c] - o[c]) + y as i32 * (w[c] - o[c]) + 4 * o[c] + 2) >> 2)
                    });
                    px[4 * y + x] = argb(255, c[0], c[1], c[2]);
                }
            }
        }
    }
    Out { mode, punch: !opaque && mode != Mode::Planar, px }
}

fn eac_sel(b: &[u8], x: usize, y: usize) -> usize {
    let w = u64::from_be_bytes(b[..8].try_into().unwrap());
    let k = 4 * x + y; // pixel a..p, first pixel in the topmost 3 bits of the 48 bit field
    (w >> (45 - 3 * k) & 7) as usize
}

/// 8 bit alpha (ETC2 RGBA8)
pub fn a8(b: &[u8]) -> [u32; 16] {
    let base = b[0] as i32;
    let (mul, t) = ((b[1] >> 4) as i32, (b[1] & 15) as usize);
    std::array::from_fn(|i| cl(base + EAC[t][eac_sel(b, i % 4, i / 4)] * mul))
}
/// unsigned 11 bit, top 8 bits
pub fn r11(b: &[u8]) -> [u32; 16] {
    let base = b[0] as i32 * 8 + 4;
    let (mul, t) = ((b[1] >> 4) as i32, (b[1] & 15) as usize);
    std::array::from_fn(|i| {
        let m = EAC[t][eac_sel(b, i % 4, i / 4)];
        let v = base + if mul == 0 { m } else { m * mul * 8 };
        (v.clamp(0, 2047) >> 3) as u32
    })
}
/// signed 11 bit, biased by 1023, top 8 bits
pub fn r11s(b: &[u8]) -> [u32; 16] {
    let base = b[0] as i8 as i32 * 8;
    let (mul, t) = ((b[1] >> 4) as i32, (b[1] & 15) as usize);
    std::array::from_fn(|i| {
        let m = EAC[t][eac_sel(b, i % 4, i / 4)];
        let v = base + if mul == 0 { m } else { m * mul * 8 };
        ((v.clamp(-1023, 1023) + 1023) >> 3) as u32
    })
}
