//! BC6H reference, table driven: every mode is a string of `field[bits]` pieces in
//! stream order (as in the Direct3D 11 functional spec / Khronos data format spec).
use super::{argb, half_to_u8, Bits};
use crate::refs::bc7::{ANCHOR2_2, PART2, W3, W4};

// piece syntax: <channel><endpoint><hi>:<lo> read LSB first from lo to hi;
// if hi<lo the piece is stored reversed.  channel r/g/b, endpoint 0..3
struct Mode {
    id: u32,
    idbits: u32,
    two: bool,
    transformed: bool,
    prec: u32,
    delta: [u32; 3],
    layout: &'static str,
}
const MODES: [Mode; 14] = [
    Mode { id: 0, idbits: 2, two: true, transformed: true, prec: 10, delta: [5, 5, 5],
        layout: "g2.4 b2.4 b3.4 r0.9-0 g0.9-0 b0.9-0 r1.4-0 g3.4 g2.3-0 g1.4-0 b3.0 g3.3-0 b1.4-0 b3.1 b2.3-0 r2.4-0 b3.2 r3.4-0 b3.3" },
    Mode { id: 1, idbits: 2, two: true, transformed: true, prec: 7, delta: [6, 6, 6],
        layout: "g2.5 g3.4 g3.5 r0.6-0 b3.0 b3.1 b2.4 g0.6-0 b2.5 b3.2 g2.4 b0.6-0 b3.3 b3.5 b3.4 r1.5-0 g2.3-0 g1.5-0 g3.3-0 b1.5-0 b2.3-0 r2.5-0 r3.5-0" },
    Mode { id: 0b00010, idbits: 5, two: true, transformed: true, prec: 11, delta: [5, 4, 4],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.4-0 r0.10 g2.3-0 g1.3-0 g0.10 b3.0 g3.3-0 b1.3-0 b0.10 b3.1 b2.3-0 r2.4-0 b3.2 r3.4-0 b3.3" },
    Mode { id: 0b00110, idbits: 5, two: true, transformed: true, prec: 11, delta: [4, 5, 4],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.3-0 r0.10 g3.4 g2.3-0 g1.4-0 g0.10 g3.3-0 b1.3-0 b0.10 b3.1 b2.3-0 r2.3-0 b3.0 b3.2 r3.3-0 g2.4 b3.3" },
    Mode { id: 0b01010, idbits: 5, two: true, transformed: true, prec: 11, delta: [4, 4, 5],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.3-0 r0.10 b2.4 g2.3-0 g1.3-0 g0.10 b3.0 g3.3-0 b1.4-0 b0.10 b2.3-0 r2.3-0 b3.1 b3.2 r3.3-0 b3.4 b3.3" },
    Mode { id: 0b01110, idbits: 5, two: true, transformed: true, prec: 9, delta: [5, 5, 5],
        layout: "r0.8-0 b2.4 g0.8-0 g2.4 b0.8-0 b3.4 r1.4-0 g3.4 g2.3-0 g1.4-0 b3.0 g3.3-0 b1.4-0 b3.1 b2.3-0 r2.4-0 b3.2 r3.4-0 b3.3" },
    Mode { id: 0b10010, idbits: 5, two: true, transformed: true, prec: 8, delta: [6, 5, 5],
        layout: "r0.7-0 g3.4 b2.4 g0.7-0 b3.2 g2.4 b0.7-0 b3.3 b3.4 r1.5-0 g2.3-0 g1.4-0 b3.0 g3.3-0 b1.4-0 b3.1 b2.3-0 r2.5-0 r3.5-0" },
    Mode { id: 0b10110, idbits: 5, two: true, transformed: true, prec: 8, delta: [5, 6, 5],
        layout: "r0.7-0 b3.0 b2.4 g0.7-0 g2.5 g2.4 b0.7-0 g3.5 b3.4 r1.4-0 g3.4 g2.3-0 g1.5-0 g3.3-0 b1.4-0 b3.1 b2.3-0 r2.4-0 b3.2 r3.4-0 b3.3" },
    Mode { id: 0b11010, idbits: 5, two: true, transformed: true, prec: 8, delta: [5, 5, 6],
        layout: "r0.7-0 b3.1 b2.4 g0.7-0 b2.5 g2.4 b0.7-0 b3.5 b3.4 r1.4-0 g3.4 g2.3-0 g1.4-0 b3.0 g3.3-0 b1.5-0 b2.3-0 r2.4-0 b3.2 r3.4-0 b3.3" },
    Mode { id: 0b11110, idbits: 5, two: true, transformed: false, prec: 6, delta: [6, 6, 6],
        layout: "r0.5-0 g3.4 b3.0 b3.1 b2.4 g0.5-0 g2.5 b2.5 b3.2 g2.4 b0.5-0 g3.5 b3.3 b3.5 b3.4 r1.5-0 g2.3-0 g1.5-0 g3.3-0 b1.5-0 b2.3-0 r2.5-0 r3.5-0" },
    Mode { id: 0b00011, idbits: 5, two: false, transformed: false, prec: 10, delta: [10, 10, 10],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.9-0 g1.9-0 b1.9-0" },
    Mode { id: 0b00111, idbits: 5, two: false, transformed: true, prec: 11, delta: [9, 9, 9],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.8-0 r0.10 g1.8-0 g0.10 b1.8-0 b0.10" },
    Mode { id: 0b01011, idbits: 5, two: false, transformed: true, prec: 12, delta: [8, 8, 8],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.7-0 r0.10-11 g1.7-0 g0.10-11 b1.7-0 b0.10-11" },
    Mode { id: 0b01111, idbits: 5, two: false, transformed: true, prec: 16, delta: [4, 4, 4],
        layout: "r0.9-0 g0.9-0 b0.9-0 r1.3-0 r0.10-15 g1.3-0 g0.10-15 b1.3-0 b0.10-15" },
];

type Piece = (usize, usize, Vec<u32>);
pub struct Bc6 {
    layouts: Vec<Vec<Piece>>,
}
fn sext(v: i32, bits: u32) -> i32 {
    let v = v & (((1i64 << bits) - 1) as i32);
    if v >> (bits - 1) & 1 == 1 { v - (1 << bits) } else { v }
}
pub struct Out {
    pub mode: usize, // 0..13, 14 = reserved
    pub part: u32,
    pub px: [Option<u32>; 16],
    pub halves: [[u32; 3]; 16],
}

impl Bc6 {
    pub fn new() -> Self {
        let layouts = MODES
            .iter()
            .map(|m| {
                m.layout
                    .split(' ')
                    .map(|p| {
                        let b = p.as_bytes();
                        let ch = match b[0] { b'r' => 0, b'g' => 1, _ => 2 };
                        let ep = (b[1] - b'0') as usize;
                        let rng = &p[3..];
                        let seq: Vec<u32> = match rng.split_once('-') {
                            None => vec![rng.parse().unwrap()],
                            Some((hi, lo)) => {
                                let (hi, lo): (u32, u32) = (hi.parse().unwrap(), lo.parse().unwrap());
                                if hi >= lo { (lo..=hi).collect() } else { (hi..=lo).rev().collect() }
                            }
                        };
                        (ch, ep, seq)
                    })
                    .collect()
            })
            .collect();
        Bc6 { layouts }
    }
    pub fn mode_of(b: &[u8]) -> usize {
        let v = b[0] as u32;
        MODES.iter().position(|m| m.id == v & ((1 << m.idbits) - 1) && (m.idbits == 5 || v & 3 < 2)).unwrap_or(14)
    }
    pub fn id_bits(mode: usize) -> (u32, u32) {
        (MODES[mode].id, MODES[mode].idbits)
    }
    pub fn decode(&self, b: &[u8], signed: bool) -> Out {
        let mi = Self::mode_of(b);
        if mi == 14 {
            return Out { mode: 14, part: 0, px: [None; 16], halves: [[0; 3]; 16] };
        }
        let m = &MODES[mi];
        let mut bits = Bits::new(b);
        bits.get(m.idbits);
        let mut ep = [[0i32; 3]; 4];
        for (ch, e, seq) in &self.layouts[mi] {
            for &k in seq {
                ep[*e][*ch] |= (bits.get(1) << k) as i32;
            }
        }
        let part = if m.two { bits.get(5) } else { 0 };
        let n = if m.two { 4 } else { 2 };
        for c in 0..3 {
            if signed {
                ep[0][c] = sext(ep[0][c], m.prec);
            }
            for e in 1..n {
                if m.transformed {
                    let d = sext(ep[e][c], m.delta[c]);
                    let v = (ep[0][c] + d) & (((1i64 << m.prec) - 1) as i32);
                    ep[e][c] = if signed { sext(v, m.prec) } else { v };
                } else if signed {
                    ep[e][c] = sext(ep[e][c], m.prec);
                }
            }
        }
        let unq = |x: i32| -> i32 {
            let p = m.prec;
            if signed {
                if p >= 16 {
                    return x;
                }
                let a = x.abs();
                let u = if a == 0 { 0 } else if a >= (1 << (p - 1)) - 1 { 0x7fff } else { ((a << 15) + 0x4000) >> (p - 1) };
                if x < 0 { -u } else { u }
            } else {
                if p >= 15 { x } else if x == 0 { 0 } else if x == (1 << p) - 1 { 0xffff } else { ((x << 16) + 0x8000) >> p }
            }
        };
        let q: Vec<[i32; 3]> = ep.iter().take(n).map(|e| [unq(e[0]), unq(e[1]), unq(e[2])]).collect();
        let mut halves = [[0; 3]; 16];
        let mut px = [None; 16];
        for i in 0..16 {
            let s = if m.two { (PART2[part as usize] >> i & 1) as usize } else { 0 };
            let anchor = i == 0 || (m.two && i == ANCHOR2_2[part as usize] as usize);
            let ib = if m.two { 3 } else { 4 } - anchor as u32;
            let idx = bits.get(ib) as usize;
            let w = if m.two { W3[idx] } else { W4[idx] } as i32;
            let mut ok = true;
            let mut rgb = [0; 3];
            for c in 0..3 {
                let v = (q[2 * s][c] * (64 - w) + q[2 * s + 1][c] * w + 32) >> 6;
                let h = if signed {
                    if v < 0 { 0x8000 | ((-v * 31) >> 5) as u32 } else { ((v * 31) >> 5) as u32 }
                } else {
                    ((v * 31) >> 6) as u32
                };
                halves[i][c] = h;
                match half_to_u8(h) {
                    Some(x) => rgb[c] = x,
                    None => ok = false,
                }
            }
            if ok {
                px[i] = Some(argb(255, rgb[0], rgb[1], rgb[2]));
            }
        }
        Out { mode: mi, part, px, halves }
    }
}
