//! PVRTC1 decoder written per pixel on the whole torus (the public PVRTC decompressor's
//! formulation): every pixel blends the four blocks whose centres surround it.
use super::argb;

pub fn morton(x: usize, y: usize, nx: usize, ny: usize) -> usize {
    // twiddle: y supplies the even bits; the longer side's surplus bits go on top
    let mut r = 0;
    let mut at = 0;
    let m = nx.min(ny);
    let mut k = 0;
    while (1 << k) < m {
        r |= (y >> k & 1) << at;
        r |= (x >> k & 1) << (at + 1);
        at += 2;
        k += 1;
    }
    let rest = if nx > ny { x >> k } else { y >> k };
    r | rest << at
}

struct Block {
    mode: bool,
    bits: u32,
    a: [u32; 4],
    b: [u32; 4],
}

fn up(v: u32, n: u32) -> u32 {
    // n bits -> 5 bits by bit replication
    match n {
        5 => v,
        4 => v << 1 | v >> 3,
        _ => v << 2 | v >> 1,
    }
}

fn block(d: &[u8]) -> Block {
    let bits = u32::from_le_bytes(d[..4].try_into().unwrap());
    let c = u32::from_le_bytes(d[4..8].try_into().unwrap());
    let a = if c >> 15 & 1 == 1 {
        [c >> 10 & 31, c >> 5 & 31, up(c >> 1 & 15, 4), 15]
    } else {
        [up(c >> 8 & 15, 4), up(c >> 4 & 15, 4), up(c >> 1 & 7, 3), (c >> 12 & 7) << 1]
    };
    let h = c >> 16;
    let b = if h >> 15 & 1 == 1 {
        [h >> 10 & 31, h >> 5 & 31, h & 31, 15]
    } else {
        [up(h >> 8 & 15, 4), up(h >> 4 & 15, 4), up(h & 15, 4), (h >> 12 & 7) << 1]
    };
    Block { mode: c & 1 == 1, bits, a, b }
}

#[derive(Default, Clone)]
pub struct Cover {
    pub std_blocks: u32,
    pub mod_blocks: u32,
    pub horiz: u32,
    pub vert: u32,
    pub both: u32,
    pub punch: u32,
}

/// Decoded image of `nx*bw` by `ny*4` pixels. nx, ny powers of two.
pub fn decode(data: &[u8], nx: usize, ny: usize, two: bool, cov: &mut Cover) -> Vec<u32> {
    let bw = if two { 8 } else { 4 };
    let blocks: Vec<Block> = (0..nx * ny)
        .map(|i| {
            let (x, y) = (i % nx, i / nx);
            let o = morton(x, y, nx, ny) * 8;
            block(&data[o..o + 8])
        })
        .collect();
    let (w, h) = (nx * bw, ny * 4);
    const LV: [i32; 4] = [0, 3, 5, 8];
    // stored modulation: value, kind (0 known, 1 horizontal, 2 vertical, 3 both), punch-through
    let mut m = vec![(0i32, 0u8, false); w * h];
    for by in 0..ny {
        for bx in 0..nx {
            let k = &blocks[by * nx + bx];
            if k.mode { cov.mod_blocks += 1 } else { cov.std_blocks += 1 }
            for y in 0..4 {
                for x in 0..bw {
                    let e = &mut m[(by * 4 + y) * w + bx * bw + x];
                    if !two {
                        let v = (k.bits >> (2 * (y * 4 + x)) & 3) as usize;
                        *e = if k.mode { ([0, 4, 4, 8][v], 0, v == 2) } else { (LV[v], 0, false) };
                    } else if !k.mode {
                        *e = (if k.bits >> (y * 8 + x) & 1 == 1 { 8 } else { 0 }, 0, false);
                    } else if (x ^ y) & 1 == 1 {
                        *e = (0, if k.bits & 1 == 0 { 3 } else if k.bits >> 20 & 1 == 1 { 2 } else { 1 }, false);
                    } else {
                        let p = 2 * (y * 4 + x / 2);
                        let mut v = k.bits >> p & 3;
                        // the low bits of texel (0,0), and in the one-axis modes of (4,2), are flags
                        if p == 0 || (p == 20 && k.bits & 1 == 1) {
                            v = (v >> 1) * 3;
                        }
                        *e = (LV[v as usize], 0, false);
                    }
                }
            }
        }
    }
    let at = |x: i64, y: i64| m[y.rem_euclid(h as i64) as usize * w + x.rem_euclid(w as i64) as usize].0;
    let mut out = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let (xi, yi) = (x as i64, y as i64);
            let (v, kind, punch) = m[y * w + x];
            let v = match kind {
                0 => v,
                1 => { cov.horiz += 1; (at(xi - 1, yi) + at(xi + 1, yi) + 1) / 2 }
                2 => { cov.vert += 1; (at(xi, yi - 1) + at(xi, yi + 1) + 1) / 2 }
                _ => { cov.both += 1; (at(xi - 1, yi) + at(xi + 1, yi) + at(xi, yi - 1) + at(xi, yi + 1) + 2) / 4 }
            };
            cov.punch += punch as u32;
            let px = (xi - bw as i64 / 2).div_euclid(bw as i64).rem_euclid(nx as i64) as usize;
            let py = (yi - 2).div_euclid(4).rem_euclid(ny as i64) as usize;
            let (qx, qy) = ((px + 1) % nx, (py + 1) % ny);
            let u = (xi - bw as i64 / 2).rem_euclid(bw as i64) as u32;
            let t = (yi - 2).rem_euclid(4) as u32;
            let n = bw as u32;
            let blend = |f: &dyn Fn(&Block) -> [u32; 4]| -> [i32; 4] {
                let (p, q, r, s) = (
                    f(&blocks[py * nx + px]), f(&blocks[py * nx + qx]),
                    f(&blocks[qy * nx + px]), f(&blocks[qy * nx + qx]),
                );
                core::array::from_fn(|c| {
                    let z = (p[c] * (n - u) + q[c] * u) * (4 - t) + (r[c] * (n - u) + s[c] * u) * t;
                    // z is scaled by 16 (4bpp) or 32 (2bpp); expand 5 bit / 4 bit to 8 bit
                    (if two {
                        if c < 3 { (z >> 7) + (z >> 2) } else { (z >> 5) + (z >> 1) }
                    } else if c < 3 { (z >> 6) + (z >> 1) } else { (z >> 4) + z }) as i32
                })
            };
            let (a, b) = (blend(&|k| k.a), blend(&|k| k.b));
            let c: Vec<u32> = (0..4).map(|i| ((a[i] * (8 - v) + b[i] * v) / 8) as u32).collect();
            out.push(argb(if punch { 0 } else { c[3] }, c[0], c[1], c[2]));
        }
    }
    out
}
