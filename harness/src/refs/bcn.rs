//! Independent reference decoders for BC1..BC5 and ATC, written from the format
//! definitions (not from the code under test).
use super::argb;

/// 5/6-bit to 8-bit by bit replication.
pub fn x5(v: u32) -> u32 {
    (v * 33) >> 2
}
pub fn x6(v: u32) -> u32 {
    (v * 65) >> 4
}
fn rgb565(c: u32) -> [u32; 3] {
    [x5(c >> 11), x6((c >> 5) & 63), x5(c & 31)]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ColorMode {
    /// BC1: 3-colour blocks give opaque black for index 3
    Opaque,
    /// BC1A: 3-colour blocks give transparent black for index 3
    PunchThrough,
    /// BC2/BC3: always the four colour palette
    FourColor,
}

pub fn palette(b: &[u8], m: ColorMode) -> [u32; 4] {
    let q0 = b[0] as u32 + b[1] as u32 * 256;
    let q1 = b[2] as u32 + b[3] as u32 * 256;
    let (e, f) = (rgb565(q0), rgb565(q1));
    let mix = |wa: u32, wb: u32| {
        let v: Vec<u32> = (0..3).map(|i| (wa * e[i] + wb * f[i]) / (wa + wb)).collect();
        argb(255, v[0], v[1], v[2])
    };
    if m == ColorMode::FourColor || q0 > q1 {
        [mix(1, 0), mix(0, 1), mix(2, 1), mix(1, 2)]
    } else {
        let last = if m == ColorMode::PunchThrough { 0 } else { argb(255, 0, 0, 0) };
        [mix(1, 0), mix(0, 1), mix(1, 1), last]
    }
}

pub fn bc1(b: &[u8], m: ColorMode) -> [u32; 16] {
    let p = palette(b, m);
    let mut o = [0; 16];
    for y in 0..4 {
        for x in 0..4 {
            o[y * 4 + x] = p[(b[4 + y] >> (2 * x)) as usize & 3];
        }
    }
    o
}

/// the 8 byte interpolated single channel block (BC3 alpha / BC4)
pub fn chan(b: &[u8]) -> [u32; 16] {
    let (a, c) = (b[0] as u32, b[1] as u32);
    let mut p = [a, c, 0, 0, 0, 0, 0, 255];
    if a > c {
        for k in 1..7u32 {
            p[1 + k as usize] = ((7 - k) * a + k * c) / 7;
        }
    } else {
        for k in 1..5u32 {
            p[1 + k as usize] = ((5 - k) * a + k * c) / 5;
        }
    }
    let mut o = [0; 16];
    for i in 0..16 {
        let mut v = 0;
        for k in 0..3 {
            let bit = i * 3 + k;
            v |= ((b[2 + bit / 8] >> (bit % 8)) as usize & 1) << k;
        }
        o[i] = p[v];
    }
    o
}

pub fn bc2(b: &[u8]) -> [u32; 16] {
    let mut o = bc1(&b[8..16], ColorMode::FourColor);
    for i in 0..16 {
        let nib = (b[i / 2] as u32 >> (4 * (i % 2))) & 15;
        o[i] = (o[i] & 0xff_ffff) | (nib * 17) << 24;
    }
    o
}
pub fn bc3(b: &[u8]) -> [u32; 16] {
    let mut o = bc1(&b[8..16], ColorMode::FourColor);
    let a = chan(b);
    for i in 0..16 {
        o[i] = (o[i] & 0xff_ffff) | a[i] << 24;
    }
    o
}
pub fn bc4(b: &[u8]) -> [u32; 16] {
    chan(b).map(|r| argb(255, r, 0, 0))
}
pub fn bc5(b: &[u8]) -> [u32; 16] {
    let (r, g) = (chan(b), chan(&b[8..16]));
    std::array::from_fn(|i| argb(255, r[i], g[i], 0))
}

pub fn atc_rgb4(b: &[u8]) -> [u32; 16] {
    let q0 = b[0] as u32 + b[1] as u32 * 256;
    let q1 = b[2] as u32 + b[3] as u32 * 256;
    // first endpoint is 1:5:5:5, second one 5:6:5
    let c0 = [x5((q0 >> 10) & 31), x5((q0 >> 5) & 31), x5(q0 & 31)];
    let c1 = rgb565(q1);
    let f = |g: &dyn Fn(u32, u32) -> u32| argb(255, g(c0[0], c1[0]), g(c0[1], c1[1]), g(c0[2], c1[2]));
    let p = if q0 & 0x8000 == 0 {
        [f(&|a, _| a), f(&|a, b| (5 * a + 3 * b) / 8), f(&|a, b| (3 * a + 5 * b) / 8), f(&|_, b| b)]
    } else {
        [f(&|_, _| 0), f(&|a, b| a.saturating_sub(b / 4)), f(&|a, _| a), f(&|_, b| b)]
    };
    std::array::from_fn(|i| p[(b[4 + i / 4] >> (2 * (i % 4))) as usize & 3])
}
pub fn atc_rgba8(b: &[u8]) -> [u32; 16] {
    let c = atc_rgb4(&b[8..16]);
    let a = chan(b);
    std::array::from_fn(|i| (c[i] & 0xff_ffff) | a[i] << 24)
}
