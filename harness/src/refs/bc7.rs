//! BC7 reference.  The partition / anchor tables were cross-checked block by block
//! against an unrelated decoder (Pillow's BCn plugin) when this file was written.
use super::{argb, Bits};

pub const W2: [u32; 4] = [0, 21, 43, 64];
pub const W3: [u32; 8] = [0, 9, 18, 27, 37, 46, 55, 64];
pub const W4: [u32; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];
pub const PART2: [u32; 64] = [
    0xcccc, 0x8888, 0xeeee, 0xecc8, 0xc880, 0xfeec, 0xfec8, 0xec80, 0xc800, 0xffec, 0xfe80, 0xe800, 0xffe8, 0xff00, 0xfff0, 0xf000,
    0xf710, 0x008e, 0x7100, 0x08ce, 0x008c, 0x7310, 0x3100, 0x8cce, 0x088c, 0x3110, 0x6666, 0x366c, 0x17e8, 0x0ff0, 0x718e, 0x399c,
    0xaaaa, 0xf0f0, 0x5a5a, 0x33cc, 0x3c3c, 0x55aa, 0x9696, 0xa55a, 0x73ce, 0x13c8, 0x324c, 0x3bdc, 0x6996, 0xc33c, 0x9966, 0x0660,
    0x0272, 0x04e4, 0x4e40, 0x2720, 0xc936, 0x936c, 0x39c6, 0x639c, 0x9336, 0x9cc6, 0x817e, 0xe718, 0xccf0, 0x0fcc, 0x7744, 0xee22,
];
pub const PART3: [u32; 64] = [
    0xaa685050, 0x6a5a5040, 0x5a5a4200, 0x5450a0a8, 0xa5a50000, 0xa0a05050, 0x5555a0a0, 0x5a5a5050, 0xaa550000, 0xaa555500, 0xaaaa5500, 0x90909090, 0x94949494, 0xa4a4a4a4, 0xa9a59450, 0x2a0a4250,
    0xa5945040, 0x0a425054, 0xa5a5a500, 0x55a0a0a0, 0xa8a85454, 0x6a6a4040, 0xa4a45000, 0x1a1a0500, 0x0050a4a4, 0xaaa59090, 0x14696914, 0x69691400, 0xa08585a0, 0xaa821414, 0x50a4a450, 0x6a5a0200,
    0xa9a58000, 0x5090a0a8, 0xa8a09050, 0x24242424, 0x00aa5500, 0x24924924, 0x24499224, 0x50a50a50, 0x500aa550, 0xaaaa4444, 0x66660000, 0xa5a0a5a0, 0x50a050a0, 0x69286928, 0x44aaaa44, 0x66666600,
    0xaa444444, 0x54a854a8, 0x95809580, 0x96969600, 0xa85454a8, 0x80959580, 0xaa141414, 0x96960000, 0xaaaa1414, 0xa05050a0, 0xa0a5a5a0, 0x96000000, 0x40804080, 0xa9a8a9a8, 0xaaaaaa44, 0x2a4a5254,
];
pub const ANCHOR2_2: [u32; 64] = [
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15,
    15, 2, 8, 2, 2, 8, 8, 15, 2, 8, 2, 2, 8, 8, 2, 2,
    15, 15, 6, 8, 2, 8, 15, 15, 2, 8, 2, 2, 2, 15, 15, 6,
    6, 2, 6, 8, 15, 15, 2, 2, 15, 15, 15, 15, 15, 2, 2, 15,
];
pub const ANCHOR3_2: [u32; 64] = [
    3, 3, 15, 15, 8, 3, 15, 15, 8, 8, 6, 6, 6, 5, 3, 3,
    3, 3, 8, 15, 3, 3, 6, 10, 5, 8, 8, 6, 8, 5, 15, 15,
    8, 15, 3, 5, 6, 10, 8, 15, 15, 3, 15, 5, 15, 15, 15, 15,
    3, 15, 5, 5, 5, 8, 5, 10, 5, 10, 8, 13, 15, 12, 3, 3,
];
pub const ANCHOR3_3: [u32; 64] = [
    15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8,
    15, 8, 15, 3, 15, 8, 15, 8, 3, 15, 6, 10, 15, 15, 10, 8,
    15, 3, 15, 10, 10, 8, 9, 10, 6, 15, 8, 15, 3, 6, 6, 8,
    15, 3, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 3, 15, 15, 8,
];

struct M {
    ns: u32,
    pb: u32,
    rb: u32,
    isb: u32,
    cb: u32,
    ab: u32,
    epb: u32,
    spb: u32,
    ib: u32,
    ib2: u32,
}
const fn m(ns: u32, pb: u32, rb: u32, isb: u32, cb: u32, ab: u32, epb: u32, spb: u32, ib: u32, ib2: u32) -> M {
    M { ns, pb, rb, isb, cb, ab, epb, spb, ib, ib2 }
}
const MODES: [M; 8] = [
    m(3, 4, 0, 0, 4, 0, 1, 0, 3, 0),
    m(2, 6, 0, 0, 6, 0, 0, 1, 3, 0),
    m(3, 6, 0, 0, 5, 0, 0, 0, 2, 0),
    m(2, 6, 0, 0, 7, 0, 1, 0, 2, 0),
    m(1, 0, 2, 1, 5, 6, 0, 0, 2, 3),
    m(1, 0, 2, 0, 7, 8, 0, 0, 2, 2),
    m(1, 0, 0, 0, 7, 7, 1, 0, 4, 0),
    m(2, 6, 0, 0, 5, 5, 1, 0, 2, 0),
];

fn expand(v: u32, bits: u32) -> u32 {
    let v = v << (8 - bits);
    v | v >> bits
}
fn weight(bits: u32, i: u32) -> u32 {
    match bits {
        2 => W2[i as usize],
        3 => W3[i as usize],
        _ => W4[i as usize],
    }
}

pub struct Out {
    pub mode: u32,
    pub part: u32,
    pub rot: u32,
    pub sel: u32,
    pub px: [u32; 16],
}

pub fn decode(b: &[u8]) -> Out {
    let mode = b[0].trailing_zeros();
    if mode >= 8 {
        return Out { mode: 8, part: 0, rot: 0, sel: 0, px: [0; 16] };
    }
    let m = &MODES[mode as usize];
    let mut s = Bits::new(b);
    s.get(mode + 1);
    let part = s.get(m.pb);
    let rot = s.get(m.rb);
    let sel = s.get(m.isb);
    let ne = (2 * m.ns) as usize;
    let mut ep = [[255u32; 4]; 6];
    for c in 0..3 {
        for e in ep.iter_mut().take(ne) {
            e[c] = s.get(m.cb);
        }
    }
    if m.ab > 0 {
        for e in ep.iter_mut().take(ne) {
            e[3] = s.get(m.ab);
        }
    }
    let mut pbits = [0; 6];
    if m.epb == 1 {
        for p in pbits.iter_mut().take(ne) {
            *p = s.get(1);
        }
    } else if m.spb == 1 {
        for k in 0..m.ns as usize {
            let p = s.get(1);
            pbits[2 * k] = p;
            pbits[2 * k + 1] = p;
        }
    }
    let has_p = m.epb + m.spb;
    for (e, p) in ep.iter_mut().zip(pbits).take(ne) {
        for c in 0..4 {
            if c == 3 && m.ab == 0 {
                continue;
            }
            let w = if c == 3 { m.ab } else { m.cb };
            e[c] = expand(if has_p == 1 { e[c] * 2 + p } else { e[c] }, w + has_p);
        }
    }
    let subset = |i: usize| match m.ns {
        1 => 0,
        2 => PART2[part as usize] >> i & 1,
        _ => PART3[part as usize] >> (2 * i) & 3,
    } as usize;
    let is_anchor = |i: usize| {
        i == 0
            || (m.ns == 2 && i == ANCHOR2_2[part as usize] as usize)
            || (m.ns == 3 && (i == ANCHOR3_2[part as usize] as usize || i == ANCHOR3_3[part as usize] as usize))
    };
    let mut idx1 = [0; 16];
    let mut idx2 = [0; 16];
    for (i, x) in idx1.iter_mut().enumerate() {
        *x = s.get(m.ib - is_anchor(i) as u32);
    }
    if m.ib2 > 0 {
        for (i, x) in idx2.iter_mut().enumerate() {
            *x = s.get(m.ib2 - (i == 0) as u32);
        }
    }
    let px = std::array::from_fn(|i| {
        let k = subset(i);
        let (e0, e1) = (&ep[2 * k], &ep[2 * k + 1]);
        let w1 = weight(m.ib, idx1[i]);
        let (wc, wa) = if m.ib2 == 0 {
            (w1, w1)
        } else {
            let w2 = weight(m.ib2, idx2[i]);
            if sel == 0 { (w1, w2) } else { (w2, w1) }
        };
        let mut c: [u32; 4] = std::array::from_fn(|c| {
            let w = if c == 3 { wa } else { wc };
            ((64 - w) * e0[c] + w * e1[c] + 32) >> 6
        });
        if rot > 0 {
            c.swap(3, rot as usize - 1);
        }
        argb(c[3], c[0], c[1], c[2])
    });
    Out { mode, part, rot, sel, px }
}
