//! ASTC 2D block decoder written from the Khronos Data Format Specification (ch. 23).
//! Bits of the block live in one u128; nothing is shared with the code under test.
use super::{argb, half_to_u8};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    VoidLdr,
    VoidHdr,
    /// the specification leaves it open / the extent coordinates are themselves illegal
    VoidOdd,
    Reserved,
    TooManyWeights,
    WeightBits,
    DualFour,
    GridTooBig,
    TooManyValues,
    TooFewBits,
    Legal,
}

#[derive(Clone, Debug)]
pub struct Info {
    pub class: Class,
    pub mode_bits: u32,
    pub gw: u32,
    pub gh: u32,
    pub wq: usize, // index of weight quant level in WQ
    pub dual: bool,
    pub ccs: u32,
    pub parts: u32,
    pub cems: [u32; 4],
    pub cq: usize, // index in CQ
    pub hdr: bool, // any HDR endpoint mode
}

impl Info {
    pub fn illegal(&self) -> bool {
        !matches!(self.class, Class::Legal | Class::VoidLdr | Class::VoidHdr | Class::VoidOdd)
    }
}

/// (kind 0 plain / 3 trit / 5 quint, bits)
pub const WQ: [(u32, u32); 12] = [
    (0, 1), (3, 0), (0, 2), (5, 0), (3, 1), (0, 3), // H=0, R=2..7
    (5, 1), (3, 2), (0, 4), (5, 2), (3, 3), (0, 5), // H=1
];
/// endpoint levels, best first: 256,192,160,128,96,80,64,48,40,32,24,20,16,12,10,8,6
pub const CQ: [(u32, u32); 17] = [
    (0, 8), (3, 6), (5, 5), (0, 7), (3, 5), (5, 4), (0, 6), (3, 4), (5, 3), (0, 5), (3, 3), (5, 2),
    (0, 4), (3, 2), (5, 1), (0, 3), (3, 1),
];

pub fn ise_bits(n: u32, q: (u32, u32)) -> u32 {
    n * q.1
        + match q.0 {
            3 => (8 * n).div_ceil(5),
            5 => (7 * n).div_ceil(3),
            _ => 0,
        }
}

fn bit(v: u128, p: u32) -> u32 {
    if p > 127 { 0 } else { (v >> p) as u32 & 1 }
}
fn bits(v: u128, p: u32, n: u32) -> u32 {
    (0..n).map(|i| bit(v, p + i) << i).sum()
}

fn trits(t: u32) -> [u32; 5] {
    let b = |i: u32| t >> i & 1;
    let (c, t4, t3);
    if t >> 2 & 7 == 7 {
        c = (t >> 5 & 7) << 2 | (t & 3);
        t4 = 2;
        t3 = 2;
    } else {
        c = t & 31;
        if t >> 5 & 3 == 3 {
            t4 = 2;
            t3 = b(7);
        } else {
            t4 = b(7);
            t3 = t >> 5 & 3;
        }
    }
    let cb = |i: u32| c >> i & 1;
    let (t2, t1, t0);
    if c & 3 == 3 {
        t2 = 2;
        t1 = cb(4);
        t0 = cb(3) << 1 | (cb(2) & (1 - cb(3)));
    } else if c >> 2 & 3 == 3 {
        t2 = 2;
        t1 = 2;
        t0 = c & 3;
    } else {
        t2 = cb(4);
        t1 = c >> 2 & 3;
        t0 = cb(1) << 1 | (cb(0) & (1 - cb(1)));
    }
    [t0, t1, t2, t3, t4]
}

fn quints(q: u32) -> [u32; 3] {
    let b = |i: u32| q >> i & 1;
    if q >> 1 & 3 == 3 && q >> 5 & 3 == 0 {
        let n0 = 1 - b(0);
        return [4, 4, b(0) << 2 | (b(4) & n0) << 1 | (b(3) & n0)];
    }
    let (q2, c);
    if q >> 1 & 3 == 3 {
        q2 = 4;
        c = (q >> 3 & 3) << 3 | ((!(q >> 5)) & 3) << 1 | b(0);
    } else {
        q2 = q >> 5 & 3;
        c = q & 31;
    }
    if c & 7 == 5 {
        [c >> 3 & 3, 4, q2]
    } else {
        [c & 7, c >> 3 & 3, q2]
    }
}

/// integer sequence of `n` values from an LSB-first stream limited to `limit` bits.
/// Returns (low bits, trit/quint digit).
fn ise(v: u128, start: u32, n: u32, q: (u32, u32)) -> Vec<(u32, u32)> {
    let end = start + ise_bits(n, q);
    let mut pos = start;
    let mut take = |k: u32| {
        let mut r = 0;
        for i in 0..k {
            if pos < end {
                r |= bit(v, pos) << i;
            }
            pos += 1;
        }
        r
    };
    let mut out = Vec::new();
    while (out.len() as u32) < n {
        match q.0 {
            3 => {
                let mut m = [0; 5];
                let mut t = 0;
                let mut sh = 0;
                for (i, k) in [2u32, 2, 1, 2, 1].into_iter().enumerate() {
                    m[i] = take(q.1);
                    t |= take(k) << sh;
                    sh += k;
                }
                let d = trits(t);
                for i in 0..5 {
                    out.push((m[i], d[i]));
                }
            }
            5 => {
                let mut m = [0; 3];
                let mut t = 0;
                let mut sh = 0;
                for (i, k) in [3u32, 2, 2].into_iter().enumerate() {
                    m[i] = take(q.1);
                    t |= take(k) << sh;
                    sh += k;
                }
                let d = quints(t);
                for i in 0..3 {
                    out.push((m[i], d[i]));
                }
            }
            _ => out.push((take(q.1), 0)),
        }
    }
    out.truncate(n as usize);
    out
}

fn replicate(v: u32, n: u32, to: u32) -> u32 {
    // repeat the n-bit pattern downwards from the top of a `to` bit word
    let mut r = 0;
    for i in 0..to {
        let src = n - 1 - (i % n);
        r |= (v >> src & 1) << (to - 1 - i);
    }
    r
}

/// builds a word from a pattern string such as "b000b0bb0" over the value bits a,b,c..
fn pattern(p: &str, m: u32) -> u32 {
    p.bytes().fold(0, |acc, ch| acc << 1 | if ch == b'0' { 0 } else { m >> (ch - b'a') & 1 })
}

fn unq_color(m: u32, d: u32, q: (u32, u32)) -> i32 {
    if q.0 == 0 {
        return replicate(m, q.1, 8) as i32;
    }
    let (pat, c) = match q {
        (3, 1) => ("000000000", 204),
        (3, 2) => ("b000b0bb0", 93),
        (3, 3) => ("cb000cbcb", 44),
        (3, 4) => ("dcb000dcb", 22),
        (3, 5) => ("edcb000ed", 11),
        (3, 6) => ("fedcb000f", 5),
        (5, 1) => ("000000000", 113),
        (5, 2) => ("b0000bb00", 54),
        (5, 3) => ("cb0000cbc", 26),
        (5, 4) => ("dcb0000dc", 13),
        (5, 5) => ("edcb0000e", 6),
        _ => unreachable!(),
    };
    let a = if m & 1 == 1 { 0x1ff } else { 0 };
    let t = (d * c + pattern(pat, m)) ^ a;
    ((a & 0x80) | (t >> 2)) as i32
}

fn unq_weight(m: u32, d: u32, q: (u32, u32)) -> u32 {
    let w = match q {
        (0, n) => replicate(m, n, 6),
        (3, 0) => [0, 32, 63][d as usize],
        (5, 0) => [0, 16, 32, 47, 63][d as usize],
        _ => {
            let (pat, c) = match q {
                (3, 1) => ("0000000", 50),
                (3, 2) => ("b000b0b", 23),
                (3, 3) => ("cb000cb", 11),
                (5, 1) => ("0000000", 28),
                (5, 2) => ("b0000b0", 13),
                _ => unreachable!(),
            };
            let a = if m & 1 == 1 { 0x7f } else { 0 };
            let t = (d * c + pattern(pat, m)) ^ a;
            (a & 0x20) | (t >> 2)
        }
    };
    if w > 32 { w + 1 } else { w }
}

fn hash52(mut p: u32) -> u32 {
    p ^= p >> 15;
    p = p.wrapping_mul(0xEEDE0891);
    p ^= p >> 5;
    p = p.wrapping_add(p << 16);
    p ^= p >> 7;
    p ^= p >> 3;
    p ^= p << 6;
    p ^ (p >> 17)
}

pub fn partition(seed: u32, mut x: u32, mut y: u32, count: u32, small: bool) -> u32 {
    if count == 1 {
        return 0;
    }
    if small {
        x <<= 1;
        y <<= 1;
    }
    let seed = seed + (count - 1) * 1024;
    let r = hash52(seed);
    let mut s: [u32; 8] = core::array::from_fn(|i| {
        let n = r >> (4 * i) & 15;
        n * n
    });
    let first = if seed & 2 != 0 { 4 } else { 5 };
    let second = if count == 3 { 6 } else { 5 };
    let (sh1, sh2) = if seed & 1 != 0 { (first, second) } else { (second, first) };
    for (i, v) in s.iter_mut().enumerate() {
        *v >>= if i % 2 == 0 { sh1 } else { sh2 };
    }
    let mut v = [0u32; 4];
    for (i, k) in [14, 10, 6, 2].into_iter().enumerate() {
        v[i] = if (i as u32) < count {
            (s[2 * i].wrapping_mul(x).wrapping_add(s[2 * i + 1].wrapping_mul(y)).wrapping_add(r >> k)) & 63
        } else {
            0
        };
    }
    let [a, b, c, d] = v;
    if a >= b && a >= c && a >= d {
        0
    } else if b >= c && b >= d {
        1
    } else if c >= d {
        2
    } else {
        3
    }
}

pub struct Mode {
    pub gw: u32,
    pub gh: u32,
    pub dual: bool,
    pub wq: usize,
}

/// 11-bit block mode; None = reserved
pub fn block_mode(m: u32) -> Option<Mode> {
    let a = m >> 5 & 3;
    let b = m >> 7 & 3;
    let mut d = m >> 10 & 1;
    let mut h = m >> 9 & 1;
    let (r, gw, gh);
    if m & 3 != 0 {
        r = (m >> 1 & 1) << 2 | (m & 1) << 1 | (m >> 4 & 1);
        (gw, gh) = match m >> 2 & 3 {
            0 => (b + 4, a + 2),
            1 => (b + 8, a + 2),
            2 => (a + 2, b + 8),
            _ => {
                if m >> 8 & 1 == 0 {
                    (a + 2, (b & 1) + 6)
                } else {
                    ((b & 1) + 2, a + 2)
                }
            }
        };
    } else {
        if m >> 2 & 3 == 0 {
            return None;
        }
        r = (m >> 2 & 3) << 1 | (m >> 4 & 1);
        (gw, gh) = match b {
            0 => (12, a + 2),
            1 => (a + 2, 12),
            2 => {
                let bb = m >> 9 & 3;
                d = 0;
                h = 0;
                (a + 6, bb + 6)
            }
            _ => match a {
                0 => (6, 10),
                1 => (10, 6),
                _ => return None,
            },
        };
    }
    if r < 2 {
        return None;
    }
    Some(Mode { gw, gh, dual: d == 1, wq: (r - 2 + 6 * h) as usize })
}

/// Number of bits of colour endpoint mode data stored below the weights.
pub fn extra_cem_bits(parts: u32, cem6: u32) -> u32 {
    if parts > 1 && cem6 & 3 != 0 { 3 * parts - 4 } else { 0 }
}

fn clampi(v: i32, hi: i32) -> i32 {
    v.clamp(0, hi)
}

type Ep = [[i32; 4]; 2];

fn bt(a: &mut i32, b: &mut i32) {
    // bit_transfer_signed(a, b)
    *b >>= 1;
    *b |= *a & 0x80;
    *a >>= 1;
    *a &= 0x3f;
    if *a & 0x20 != 0 {
        *a -= 0x40;
    }
}
fn blue(r: i32, g: i32, b: i32, a: i32) -> [i32; 4] {
    [(r + b) >> 1, (g + b) >> 1, b, a]
}
fn cl8(e: Ep) -> Ep {
    e.map(|p| p.map(|c| clampi(c, 255)))
}

fn hdr7(v: &[i32]) -> Ep {
    let (v0, v1, v2, v3) = (v[0], v[1], v[2], v[3]);
    let modeval = (v0 & 0xc0) >> 6 | (v1 & 0x80) >> 5 | (v2 & 0x80) >> 4;
    let (maj, mode) = if modeval & 0xc != 0xc {
        (modeval >> 2, modeval & 3)
    } else if modeval != 0xf {
        (modeval & 3, 4)
    } else {
        (0, 5)
    };
    let (mut r, mut g, mut b, mut s) = (v0 & 0x3f, v1 & 0x1f, v2 & 0x1f, v3 & 0x1f);
    let x0 = v1 >> 6 & 1;
    let x1 = v1 >> 5 & 1;
    let x2 = v2 >> 6 & 1;
    let x3 = v2 >> 5 & 1;
    let x4 = v3 >> 7 & 1;
    let x5 = v3 >> 6 & 1;
    let x6 = v3 >> 5 & 1;
    let on = |mask: i32| (1 << mode) & mask != 0;
    if on(0x30) { g |= x0 << 6 }
    if on(0x3a) { g |= x1 << 5 }
    if on(0x30) { b |= x2 << 6 }
    if on(0x3a) { b |= x3 << 5 }
    if on(0x3d) { s |= x6 << 5 }
    if on(0x2d) { s |= x5 << 6 }
    if on(0x04) { s |= x4 << 7 }
    if on(0x3b) { r |= x4 << 6 }
    if on(0x04) { r |= x3 << 6 }
    if on(0x10) { r |= x5 << 7 }
    if on(0x0f) { r |= x2 << 7 }
    if on(0x05) { r |= x1 << 8 }
    if on(0x0a) { r |= x0 << 8 }
    if on(0x05) { r |= x0 << 9 }
    if on(0x02) { r |= x6 << 9 }
    if on(0x01) { r |= x3 << 10 }
    if on(0x02) { r |= x5 << 10 }
    let sh = [1, 1, 2, 3, 4, 5][mode as usize];
    r <<= sh;
    g <<= sh;
    b <<= sh;
    s <<= sh;
    if mode != 5 {
        g = r - g;
        b = r - b;
    }
    let mut c = [r, g, b];
    if maj == 1 {
        c.swap(0, 1)
    }
    if maj == 2 {
        c.swap(0, 2)
    }
    let hi = c.map(|k| clampi(k, 0xfff));
    let lo = c.map(|k| clampi(k - s, 0xfff));
    [[lo[0], lo[1], lo[2], 0x780], [hi[0], hi[1], hi[2], 0x780]]
}

fn hdr11(v: &[i32]) -> Ep {
    let maj = v[4] >> 7 & 1 | v[5] >> 6 & 2;
    if maj == 3 {
        return [
            [v[0] << 4, v[2] << 4, (v[4] & 0x7f) << 5, 0x780],
            [v[1] << 4, v[3] << 4, (v[5] & 0x7f) << 5, 0x780],
        ];
    }
    let mode = v[1] >> 7 & 1 | v[2] >> 6 & 2 | v[3] >> 5 & 4;
    let mut va = v[0] | (v[1] & 0x40) << 2;
    let mut b0 = v[2] & 0x3f;
    let mut b1 = v[3] & 0x3f;
    let mut c = v[1] & 0x3f;
    let dbits = [7, 6, 7, 6, 5, 6, 5, 6][mode as usize];
    let sx = |x: i32| ((x & 0x7f) << (32 - dbits)) >> (32 - dbits);
    let mut d0 = sx(v[4]);
    let mut d1 = sx(v[5]);
    let x0 = v[2] >> 6 & 1;
    let x1 = v[3] >> 6 & 1;
    let x2 = v[4] >> 6 & 1;
    let x3 = v[5] >> 6 & 1;
    let x4 = v[4] >> 5 & 1;
    let x5 = v[5] >> 5 & 1;
    let on = |mask: i32| (1 << mode) & mask != 0;
    if on(0xa4) { va |= x0 << 9 }
    if on(0x08) { va |= x2 << 9 }
    if on(0x50) { va |= x4 << 9 }
    if on(0x50) { va |= x5 << 10 }
    if on(0xa0) { va |= x1 << 10 }
    if on(0xc0) { va |= x2 << 11 }
    if on(0x04) { c |= x1 << 6 }
    if on(0xe8) { c |= x3 << 6 }
    if on(0x20) { c |= x2 << 7 }
    if on(0x5b) { b0 |= x0 << 6 }
    if on(0x5b) { b1 |= x1 << 6 }
    if on(0x12) { b0 |= x2 << 7 }
    if on(0x12) { b1 |= x3 << 7 }
    let m = 1 << ((mode >> 1) ^ 3);
    va *= m;
    b0 *= m;
    b1 *= m;
    c *= m;
    d0 *= m;
    d1 *= m;
    let mut hi = [va, va - b0, va - b1].map(|k| clampi(k, 0xfff));
    let mut lo = [va - c, va - b0 - c - d0, va - b1 - c - d1].map(|k| clampi(k, 0xfff));
    if maj == 1 {
        hi.swap(0, 1);
        lo.swap(0, 1);
    }
    if maj == 2 {
        hi.swap(0, 2);
        lo.swap(0, 2);
    }
    [[lo[0], lo[1], lo[2], 0x780], [hi[0], hi[1], hi[2], 0x780]]
}

fn endpoints(cem: u32, vals: &[i32]) -> Ep {
    let mut v = [0i32; 8];
    v[..vals.len()].copy_from_slice(vals);
    match cem {
        0 => [[v[0], v[0], v[0], 255], [v[1], v[1], v[1], 255]],
        1 => {
            let l0 = v[0] >> 2 | v[1] & 0xc0;
            let l1 = (l0 + (v[1] & 0x3f)).min(255);
            [[l0, l0, l0, 255], [l1, l1, l1, 255]]
        }
        2 => {
            let (a, b) = if v[1] >= v[0] { (v[0] << 4, v[1] << 4) } else { ((v[1] << 4) + 8, (v[0] << 4) - 8) };
            [[a, a, a, 0x780], [b, b, b, 0x780]]
        }
        3 => {
            let (a, d) = if v[0] & 0x80 != 0 {
                ((v[1] & 0xe0) << 4 | (v[0] & 0x7f) << 2, (v[1] & 0x1f) << 2)
            } else {
                ((v[1] & 0xf0) << 4 | (v[0] & 0x7f) << 1, (v[1] & 0x0f) << 1)
            };
            let b = (a + d).min(0xfff);
            [[a, a, a, 0x780], [b, b, b, 0x780]]
        }
        4 => [[v[0], v[0], v[0], v[2]], [v[1], v[1], v[1], v[3]]],
        5 => {
            let [mut v0, mut v1, mut v2, mut v3, ..] = v;
            bt(&mut v1, &mut v0);
            bt(&mut v3, &mut v2);
            cl8([[v0, v0, v0, v2], [v0 + v1, v0 + v1, v0 + v1, v2 + v3]])
        }
        6 => [
            [v[0] * v[3] >> 8, v[1] * v[3] >> 8, v[2] * v[3] >> 8, 255],
            [v[0], v[1], v[2], 255],
        ],
        7 => hdr7(&v),
        8 | 12 => {
            let (a0, a1) = if cem == 12 { (v[6], v[7]) } else { (255, 255) };
            if v[1] + v[3] + v[5] >= v[0] + v[2] + v[4] {
                [[v[0], v[2], v[4], a0], [v[1], v[3], v[5], a1]]
            } else {
                [blue(v[1], v[3], v[5], a1), blue(v[0], v[2], v[4], a0)]
            }
        }
        9 | 13 => {
            let [mut v0, mut v1, mut v2, mut v3, mut v4, mut v5, mut v6, mut v7] = v;
            bt(&mut v1, &mut v0);
            bt(&mut v3, &mut v2);
            bt(&mut v5, &mut v4);
            let (a0, a1) = if cem == 13 {
                bt(&mut v7, &mut v6);
                (v6, v6 + v7)
            } else {
                (255, 255)
            };
            cl8(if v1 + v3 + v5 >= 0 {
                [[v0, v2, v4, a0], [v0 + v1, v2 + v3, v4 + v5, a1]]
            } else {
                [blue(v0 + v1, v2 + v3, v4 + v5, a1), blue(v0, v2, v4, a0)]
            })
        }
        10 => [
            [v[0] * v[3] >> 8, v[1] * v[3] >> 8, v[2] * v[3] >> 8, v[4]],
            [v[0], v[1], v[2], v[5]],
        ],
        11 => hdr11(&v),
        14 => {
            let mut e = hdr11(&v);
            e[0][3] = v[6];
            e[1][3] = v[7];
            e
        }
        _ => {
            let mut e = hdr11(&v);
            let mode = v[6] >> 7 & 1 | v[7] >> 6 & 2;
            let (mut a, mut b) = (v[6] & 0x7f, v[7] & 0x7f);
            if mode == 3 {
                a <<= 5;
                b <<= 5;
            } else {
                a |= (b << (mode + 1)) & 0x780;
                b &= 0x3f >> mode;
                b ^= 0x20 >> mode;
                b -= 0x20 >> mode;
                a <<= 4 - mode;
                b *= 1 << (4 - mode);
                b += a;
                b = clampi(b, 0xfff);
            }
            e[0][3] = a;
            e[1][3] = b;
            e
        }
    }
}

fn hdr_rgb(cem: u32) -> bool {
    matches!(cem, 2 | 3 | 7 | 11 | 14 | 15)
}
fn hdr_a(cem: u32) -> bool {
    matches!(cem, 2 | 3 | 7 | 11 | 15)
}

fn texel_ldr(e0: i32, e1: i32, w: u32) -> u32 {
    let (c0, c1) = (e0 as u32 * 257, e1 as u32 * 257);
    let c = (c0 * (64 - w) + c1 * w + 32) / 64;
    (c * 255 + 32768) / 65536
}
fn texel_hdr(e0: i32, e1: i32, w: u32) -> u32 {
    let (c0, c1) = ((e0 as u32) << 4, (e1 as u32) << 4);
    let c = (c0 * (64 - w) + c1 * w + 32) / 64;
    let (e, m) = (c >> 11, c & 0x7ff);
    let mt = if m < 512 {
        3 * m
    } else if m >= 1536 {
        5 * m - 2048
    } else {
        4 * m - 512
    };
    let h = e << 10 | mt >> 3;
    half_to_u8(h).unwrap_or(255)
}

pub const MAGENTA: u32 = 0xffff00ff;

pub fn classify(b: &[u8], bw: u32, bh: u32) -> Info {
    let v = u128::from_le_bytes(b[..16].try_into().unwrap());
    let m = bits(v, 0, 11);
    let mut i = Info {
        class: Class::Reserved, mode_bits: m, gw: 0, gh: 0, wq: 0, dual: false, ccs: 0, parts: 0,
        cems: [0; 4], cq: 0, hdr: false,
    };
    if m & 0x1ff == 0x1fc {
        let hdr = bit(v, 9) == 1;
        let (s0, s1, t0, t1) = (bits(v, 12, 13), bits(v, 25, 13), bits(v, 38, 13), bits(v, 51, 13));
        let all_ones = [s0, s1, t0, t1].iter().all(|x| *x == 0x1fff);
        let ok = bits(v, 10, 2) == 3 && (all_ones || (s0 < s1 && t0 < t1));
        i.class = if !ok { Class::VoidOdd } else if hdr { Class::VoidHdr } else { Class::VoidLdr };
        i.hdr = hdr;
        return i;
    }
    let Some(bm) = block_mode(m) else { return i };
    i.gw = bm.gw;
    i.gh = bm.gh;
    i.wq = bm.wq;
    i.dual = bm.dual;
    let nw = bm.gw * bm.gh * (1 + bm.dual as u32);
    let wb = ise_bits(nw, WQ[bm.wq]);
    i.parts = bits(v, 11, 2) + 1;
    if nw > 64 {
        i.class = Class::TooManyWeights;
        return i;
    }
    if !(24..=96).contains(&wb) {
        i.class = Class::WeightBits;
        return i;
    }
    if bm.gw > bw || bm.gh > bh {
        i.class = Class::GridTooBig;
        return i;
    }
    if bm.dual && i.parts == 4 {
        i.class = Class::DualFour;
        return i;
    }
    let mut below = 128 - wb;
    let start;
    if i.parts == 1 {
        i.cems[0] = bits(v, 13, 4);
        start = 17;
    } else {
        start = 29;
        let c6 = bits(v, 23, 6);
        let ex = extra_cem_bits(i.parts, c6);
        below -= ex;
        if c6 & 3 == 0 {
            for k in 0..i.parts as usize {
                i.cems[k] = c6 >> 2;
            }
        } else {
            let full = c6 | bits(v, below, ex) << 6;
            let base = (full & 3) - 1;
            for k in 0..i.parts {
                let cls = base + (full >> (2 + k) & 1);
                i.cems[k as usize] = cls << 2 | full >> (2 + i.parts + 2 * k) & 3;
            }
        }
    }
    if i.dual {
        below -= 2;
        i.ccs = bits(v, below, 2);
    }
    let nv: u32 = (0..i.parts as usize).map(|k| (i.cems[k] / 4 + 1) * 2).sum();
    i.hdr = (0..i.parts as usize).any(|k| hdr_rgb(i.cems[k]));
    if nv > 18 {
        i.class = Class::TooManyValues;
        return i;
    }
    let avail = below as i32 - start;
    match CQ.iter().position(|q| ise_bits(nv, *q) as i32 <= avail) {
        None => i.class = Class::TooFewBits,
        Some(q) => {
            i.cq = q;
            i.class = Class::Legal;
        }
    }
    i
}

/// Decodes a block; every texel is given (illegal -> magenta). `None` for a texel the
/// specification does not pin down.
pub fn decode(b: &[u8], bw: u32, bh: u32) -> (Info, Vec<Option<u32>>) {
    let i = classify(b, bw, bh);
    let n = (bw * bh) as usize;
    let v = u128::from_le_bytes(b[..16].try_into().unwrap());
    if i.illegal() {
        return (i, vec![Some(MAGENTA); n]);
    }
    match i.class {
        Class::VoidOdd => return (i, vec![None; n]),
        Class::VoidLdr | Class::VoidHdr => {
            let c: Vec<Option<u32>> = (0..4)
                .map(|k| {
                    let w = bits(v, 64 + 16 * k, 16);
                    if i.class == Class::VoidLdr {
                        Some(w >> 8)
                    } else if w & 0x7c00 == 0x7c00 {
                        None // infinities and NaNs are illegal here
                    } else {
                        half_to_u8(w)
                    }
                })
                .collect();
            let px = match (c[0], c[1], c[2], c[3]) {
                (Some(r), Some(g), Some(bl), Some(a)) => Some(argb(a, r, g, bl)),
                _ => None,
            };
            return (i, vec![px; n]);
        }
        _ => {}
    }
    let planes = 1 + i.dual as u32;
    let nw = i.gw * i.gh * planes;
    let w: Vec<u32> = ise(v.reverse_bits(), 0, nw, WQ[i.wq]).into_iter().map(|(m, d)| unq_weight(m, d, WQ[i.wq])).collect();
    let nv: u32 = (0..i.parts as usize).map(|k| (i.cems[k] / 4 + 1) * 2).sum();
    let start = if i.parts == 1 { 17 } else { 29 };
    let vals: Vec<i32> = ise(v, start, nv, CQ[i.cq]).into_iter().map(|(m, d)| unq_color(m, d, CQ[i.cq])).collect();
    let mut eps = Vec::new();
    let mut o = 0usize;
    for k in 0..i.parts as usize {
        let c = (i.cems[k] / 4 + 1) as usize * 2;
        eps.push(endpoints(i.cems[k], &vals[o..o + c]));
        o += c;
    }
    let seed = bits(v, 13, 10);
    let small = bw * bh < 31;
    let ds = (1024 + bw / 2) / (bw - 1);
    let dt = (1024 + bh / 2) / (bh - 1);
    let mut out = Vec::with_capacity(n);
    for t in 0..bh {
        for s in 0..bw {
            let gs = (ds * s * (i.gw - 1) + 32) >> 6;
            let gt = (dt * t * (i.gh - 1) + 32) >> 6;
            let (js, fs, jt, ft) = (gs >> 4, gs & 15, gt >> 4, gt & 15);
            let w11 = (fs * ft + 8) >> 4;
            let w10 = ft - w11;
            let w01 = fs - w11;
            let w00 = 16 + w11 - fs - ft;
            let wt = |pl: u32| {
                let g = |x: u32, y: u32, f: u32| {
                    if f == 0 { 0 } else { f * w[((y * i.gw + x) * planes + pl) as usize] }
                };
                (g(js, jt, w00) + g(js + 1, jt, w01) + g(js, jt + 1, w10) + g(js + 1, jt + 1, w11) + 8) >> 4
            };
            let wa = wt(0);
            let wb2 = if i.dual { wt(1) } else { wa };
            let p = partition(seed, s, t, i.parts, small) as usize;
            let e = &eps[p];
            let cem = i.cems[p];
            let c: Vec<u32> = (0..4)
                .map(|k| {
                    let w = if i.dual && i.ccs == k as u32 { wb2 } else { wa };
                    let hdr = if k == 3 { hdr_a(cem) } else { hdr_rgb(cem) };
                    if hdr { texel_hdr(e[0][k], e[1][k], w) } else { texel_ldr(e[0][k], e[1][k], w) }
                })
                .collect();
            out.push(Some(argb(c[3], c[0], c[1], c[2])));
        }
    }
    (i, out)
}
