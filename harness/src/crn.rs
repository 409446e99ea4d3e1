//! Crunch files with known contents: an encoder for both container variants (classic crnlib and
//! Unity's) that chooses the palettes, the per-block indices and every entropy-coding freedom at
//! random, and knows the DXT/ETC blocks the file stands for. Written from the format, in terms of
//! texels ("linear" selectors, top/left/diagonal neighbours), not from the decoder's buffers.
use crate::mon::Rng;

pub const DXT1: u8 = 0;
pub const DXT3: u8 = 1;
pub const DXT5: u8 = 2;
pub const DXN_XY: u8 = 7;
pub const DXN_YX: u8 = 8;
pub const DXT5A: u8 = 9;
pub const ETC1: u8 = 10;
pub const ETC2: u8 = 11;
pub const ETC2A: u8 = 12;
pub const ETC1S: u8 = 13;
pub const ETC2AS: u8 = 14;
pub fn block_bytes(fmt: u8) -> usize {
    if matches!(fmt, DXT1 | DXT5A | ETC1 | ETC2 | ETC1S) { 8 } else { 16 }
}
fn has_color(fmt: u8) -> bool {
    !matches!(fmt, DXN_XY | DXN_YX | DXT5A)
}
fn has_alpha(fmt: u8) -> bool {
    !matches!(fmt, DXT1 | ETC1 | ETC2 | ETC1S)
}
fn is_etc(fmt: u8) -> bool {
    (ETC1..=ETC2AS).contains(&fmt)
}
fn subblocks(fmt: u8) -> bool {
    matches!(fmt, ETC1 | ETC2 | ETC2A)
}

// ---- bits and Huffman models ------------------------------------------------------------------
#[derive(Default)]
pub struct Bits {
    pub b: Vec<u8>,
    n: usize,
}
impl Bits {
    pub fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            if self.n % 8 == 0 {
                self.b.push(0);
            }
            *self.b.last_mut().unwrap() |= ((v >> i & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
    }
}
pub struct Model {
    pub lens: Vec<u8>,
    codes: Vec<u32>,
}
fn canonical(lens: &[u8]) -> Vec<u32> {
    let mut codes = vec![0; lens.len()];
    let mut code = 0u32;
    for l in 1..=16u8 {
        for (i, &x) in lens.iter().enumerate() {
            if x == l {
                codes[i] = code;
                code += 1;
            }
        }
        code <<= 1;
    }
    codes
}
/// code lengths of `k` leaves of a random binary tree no deeper than `max`
fn tree(r: &mut Rng, k: usize, max: u8) -> Vec<u8> {
    let mut v = vec![0u8];
    let skew = r.below(3);
    while v.len() < k {
        // a split must leave room for the remaining leaves
        let i = match skew {
            0 => (0..v.len()).min_by_key(|&i| v[i]).unwrap(),
            1 => r.below(v.len()),
            _ => v.len() - 1 - r.below(v.len().min(2)),
        };
        let i = if v[i] < max { i } else { (0..v.len()).min_by_key(|&i| v[i]).unwrap() };
        v[i] += 1;
        let x = v[i];
        v.push(x);
    }
    v
}
impl Model {
    fn from_lens(lens: Vec<u8>) -> Model {
        let codes = canonical(&lens);
        Model { lens, codes }
    }
    /// a model with a code for every symbol of `used` (unsorted, with repetitions)
    fn build(r: &mut Rng, used: &[u32], limit: u32) -> Model {
        let mut s: Vec<u32> = used.to_vec();
        if r.chance(1, 3) {
            for _ in 0..1 + r.below(20) {
                s.push(r.below(limit as usize) as u32);
            }
        }
        if s.is_empty() {
            s.push(r.below(limit.min(40) as usize) as u32);
        }
        s.sort_unstable();
        s.dedup();
        let n = *s.last().unwrap() as usize + 1;
        // trailing unused symbols are legal
        let n = match r.below(24) {
            0..=2 => (n + r.below(30)).min(8192),
            // the next power of 2, or one more: lookup tables change size there
            3 => n.next_power_of_two().min(8192),
            4 => (n.next_power_of_two() + 1).min(8192),
            5 if r.chance(1, 3) => 8192,
            _ => n,
        };
        let mut lens = vec![0u8; n];
        if s.len() == 1 {
            lens[s[0] as usize] = if r.chance(3, 4) { 1 } else { 1 + r.below(16) as u8 };
            return Model::from_lens(lens);
        }
        let extra = if r.chance(1, 8) { r.below(3) } else { 0 }; // an incomplete code now and then
        let mut t = tree(r, s.len() + extra, 16);
        for i in (1..t.len()).rev() {
            t.swap(i, r.below(i + 1));
        }
        for (i, &x) in s.iter().enumerate() {
            lens[x as usize] = t[i];
        }
        Model::from_lens(lens)
    }
    fn put(&self, w: &mut Bits, sym: u32) {
        let l = self.lens[sym as usize];
        assert!(l > 0);
        w.put(self.codes[sym as usize], l as u32);
    }
    /// the model as the files store it
    fn store(&self, r: &mut Rng, w: &mut Bits) {
        const ORDER: [usize; 21] = [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16];
        w.put(self.lens.len() as u32, 14);
        let mut tok: Vec<(u32, u32, u32)> = vec![]; // symbol, extra value, extra bits
        let runs = r.below(4); // 0: never use run codes
        let mut i = 0;
        while i < self.lens.len() {
            let l = self.lens[i];
            let mut run = 1;
            while i + run < self.lens.len() && self.lens[i + run] == l {
                run += 1;
            }
            let cut = |r: &mut Rng, lo: usize, hi: usize, run: usize| { let m = run.min(hi); if r.chance(1, 4) { r.range(lo, m) } else { m } };
            let use_run = runs > 0 && (runs > 1 || r.chance(1, 2));
            if use_run && l == 0 && run >= 11 && r.chance(3, 4) {
                let n = cut(r, 11, 138, run);
                tok.push((18, n as u32 - 11, 7));
                i += n;
            } else if use_run && l == 0 && run >= 3 {
                let n = cut(r, 3, 10, run);
                tok.push((17, n as u32 - 3, 3));
                i += n;
            } else if use_run && l != 0 && i > 0 && self.lens[i - 1] == l && run >= 7 && r.chance(3, 4) {
                let n = cut(r, 7, 70, run);
                tok.push((20, n as u32 - 7, 6));
                i += n;
            } else if use_run && l != 0 && i > 0 && self.lens[i - 1] == l && run >= 3 {
                let n = cut(r, 3, 6, run);
                tok.push((19, n as u32 - 3, 2));
                i += n;
            } else {
                tok.push((l as u32, 0, 0));
                i += 1;
            }
        }
        let mut s: Vec<u32> = tok.iter().map(|t| t.0).collect();
        if r.chance(1, 3) {
            s.push(r.below(21) as u32);
        }
        s.sort_unstable();
        s.dedup();
        let mut cl = vec![0u8; 21];
        if s.len() == 1 {
            cl[s[0] as usize] = 1;
        } else {
            let mut t = tree(r, s.len(), 7);
            for i in (1..t.len()).rev() {
                t.swap(i, r.below(i + 1));
            }
            for (i, &x) in s.iter().enumerate() {
                cl[x as usize] = t[i];
            }
        }
        let need = (0..21).rev().find(|&i| cl[ORDER[i]] != 0).unwrap() + 1;
        let send = if r.chance(1, 3) { r.range(need, 21) } else { need };
        w.put(send as u32, 5);
        for &o in ORDER.iter().take(send) {
            w.put(cl[o] as u32, 3);
        }
        let m = Model::from_lens(cl);
        for (s, v, n) in tok {
            m.put(w, s);
            w.put(v, n);
        }
    }
}
/// symbols to be coded with a few models, in order
#[derive(Default)]
struct Ops(Vec<(usize, u32)>);
impl Ops {
    fn sym(&mut self, m: usize, s: u32) {
        self.0.push((m, s));
    }
    fn used(&self, m: usize) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.iter().filter(|o| o.0 == m).map(|o| o.1).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
}
/// a self-contained segment: its models, then its symbols
fn segment(r: &mut Rng, ops: &Ops, models: usize, limit: u32) -> Vec<u8> {
    let mut w = Bits::default();
    let ms: Vec<Model> = (0..models).map(|m| Model::build(r, &ops.used(m), limit)).collect();
    for m in &ms {
        m.store(r, &mut w);
    }
    for &(m, s) in &ops.0 {
        ms[m].put(&mut w, s);
    }
    w.b
}

// ---- palettes ----------------------------------------------------------------------------------
/// palettes in block form: 4 bytes per colour endpoint pair; per selector the linear values 0..3
/// (colour) or 0..7 (alpha) of the 16 texels in row-major order
struct Pal {
    cep: Vec<[u8; 4]>, // DXT: the two 565 words; ETC: r, g, b (5 bits), table (3 bits)
    csel: Vec<[u8; 16]>,
    aep: Vec<[u8; 2]>,
    asel: Vec<[u8; 16]>,
}
fn psize(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 14 } else { 10 }) {
        0 => 1,
        1 => 2,
        2 => 3,
        10 => r.range(100, 400),
        11 => r.range(1000, 3000),
        12 if r.chance(1, 8) => match r.below(8) { 0..=2 => 8192, 3 => 65535, 4 => *r.pick(&[16384, 32768, 65535]), 5 => r.range(8193, 65535), _ => r.range(8000, 8192) },
        _ => r.range(4, 48),
    }
}
fn vals(r: &mut Rng, prev: &[u8; 16], max: u8) -> [u8; 16] {
    let mut v = *prev;
    match r.below(4) {
        0 => { let x = r.below(max as usize + 1) as u8; v = [x; 16] }
        1 => { for _ in 0..3 { v[r.below(16)] = r.below(max as usize + 1) as u8 } }
        _ => { for x in v.iter_mut() { *x = r.below(max as usize + 1) as u8 } }
    }
    v
}
fn pal(r: &mut Rng, fmt: u8, big: bool) -> Pal {
    let mut p = Pal { cep: vec![], csel: vec![], aep: vec![], asel: vec![] };
    // files may carry palettes their format does not use
    let unused = r.chance(1, 20);
    if has_color(fmt) || unused {
        for _ in 0..psize(r, big) {
            let mut e = [r.edge8(), r.edge8(), r.edge8(), r.edge8()];
            if is_etc(fmt) {
                e = [e[0] & 31, e[1] & 31, e[2] & 31, e[3] & 7];
                if !p.cep.is_empty() && r.chance(1, 2) {
                    // close to another entry: the differential mode becomes possible
                    let q = *r.pick(&p.cep);
                    for c in 0..3 { e[c] = (q[c] as i32 + r.below(9) as i32 - 4).clamp(0, 31) as u8 }
                }
            }
            p.cep.push(e);
        }
        let mut v = [0; 16];
        for _ in 0..psize(r, big) { v = vals(r, &v, 3); p.csel.push(v) }
    }
    if has_alpha(fmt) || (unused && r.chance(1, 2)) {
        for _ in 0..psize(r, big) { p.aep.push([r.edge8(), r.edge8()]) }
        let mut v = [0; 16];
        for _ in 0..psize(r, big) { v = vals(r, &v, 7); p.asel.push(v) }
    }
    p
}
fn dxt_pair(e: &[u8; 4]) -> [u32; 6] {
    let (c0, c1) = (u16::from_le_bytes([e[0], e[1]]) as u32, u16::from_le_bytes([e[2], e[3]]) as u32);
    [c0 >> 11, c0 >> 5 & 63, c0 & 31, c1 >> 11, c1 >> 5 & 63, c1 & 31]
}
/// residue `d` modulo `m` as a symbol: now and then a larger representative
fn lift(r: &mut Rng, d: u32, m: u32, wide: bool) -> u32 {
    if wide && r.chance(1, 6) { d + m * r.below(3) as u32 } else { d }
}
fn color_endpoints(r: &mut Rng, p: &Pal, fmt: u8) -> Vec<u8> {
    let mut o = Ops::default();
    let wide = r.chance(1, 6);
    if is_etc(fmt) {
        let mut cur = [0u8; 4];
        for e in &p.cep {
            for c in 0..4 {
                o.sym(0, e[c].wrapping_sub(cur[c]) as u32 & 31);
            }
            cur = *e;
        }
        return segment(r, &o, 1, 32);
    }
    // red, green, red2, ..: stored in the order r0 g0 b0 r1 g1 b1
    let mut cur = [0u32; 6];
    for e in &p.cep {
        let t = dxt_pair(e);
        for c in 0..6 {
            let m = if c % 3 == 1 { 64 } else { 32 };
            let s = lift(r, t[c].wrapping_sub(cur[c]) & (m - 1), m, wide);
            o.sym((c % 3 == 1) as usize, s);
        }
        cur = t;
    }
    segment(r, &o, 2, 32)
}
fn alpha_endpoints(r: &mut Rng, p: &Pal) -> Vec<u8> {
    let mut o = Ops::default();
    let wide = r.chance(1, 6);
    let mut cur = [0u8; 2];
    for e in &p.aep {
        for c in 0..2 {
            let s = lift(r, e[c].wrapping_sub(cur[c]) as u32, 256, wide);
            o.sym(0, s);
        }
        cur = *e;
    }
    segment(r, &o, 1, 256)
}
/// classic: each pair of texels is one symbol, a delta of -m..=m per texel
fn classic_selectors(r: &mut Rng, pal: &[[u8; 16]], m: i32) -> Vec<u8> {
    let mut o = Ops::default();
    let mut cur = [0u8; 16];
    let n = 2 * m + 1;
    for v in pal {
        for j in 0..8 {
            let mut d = [0i32; 2];
            for k in 0..2 {
                let t = v[2 * j + k] as i32 - cur[2 * j + k] as i32;
                // the same texel value is reached by t and by t -+ (m + 1)
                let c: Vec<i32> = [t, t - m - 1, t + m + 1].into_iter().filter(|x| x.abs() <= m).collect();
                d[k] = if r.chance(1, 5) { *r.pick(&c) } else { c[0] };
            }
            o.sym(0, ((d[1] + m) * n + d[0] + m) as u32);
        }
        cur = *v;
    }
    segment(r, &o, 1, (n * n) as u32)
}
/// Unity: texels are XORed with the previous selector's, two per symbol
fn unity_selectors(r: &mut Rng, pal: &[[u8; 16]], bits: u32) -> Vec<u8> {
    let mut o = Ops::default();
    let mut cur = [0u8; 16];
    for v in pal {
        for j in 0..8 {
            let x = |k: usize| (v[k] ^ cur[k]) as u32;
            o.sym(0, x(2 * j) | x(2 * j + 1) << bits);
        }
        cur = *v;
    }
    segment(r, &o, 1, 1 << (2 * bits))
}

// ---- blocks ------------------------------------------------------------------------------------
fn dxt_color(p: &Pal, e: usize, s: usize) -> [u8; 8] {
    const CODE: [u32; 4] = [0, 2, 3, 1]; // selector code of the k-th colour between the endpoints
    let mut w = 0u32;
    for i in 0..16 {
        w |= CODE[p.csel[s][i] as usize] << (2 * i);
    }
    let mut b = [0; 8];
    b[..4].copy_from_slice(&p.cep[e]);
    b[4..].copy_from_slice(&w.to_le_bytes());
    b
}
fn dxt_alpha(p: &Pal, e: usize, s: usize) -> [u8; 8] {
    const CODE: [u64; 8] = [0, 2, 3, 4, 5, 6, 7, 1];
    let mut w = 0u64;
    for i in 0..16 {
        w |= CODE[p.asel[s][i] as usize] << (3 * i);
    }
    let mut b = [0; 8];
    b[..2].copy_from_slice(&p.aep[e]);
    b[2..].copy_from_slice(&w.to_le_bytes()[..6]);
    b
}
/// texel (x, y) of a selector; sub-blocks side by side (no flip) read it transposed
fn texel(v: &[u8; 16], x: usize, y: usize, flip: bool) -> u8 {
    if flip { v[4 * y + x] } else { v[4 * x + y] }
}
fn etc_sel(v: &[u8; 16], upright: bool) -> [u8; 4] {
    // modifier index of the k-th intensity: -b, -a, a, b
    const MSB: [u32; 4] = [1, 1, 0, 0];
    const LSB: [u32; 4] = [1, 0, 0, 1];
    let (mut m, mut l) = (0u32, 0u32);
    for x in 0..4 {
        for y in 0..4 {
            let t = texel(v, x, y, upright) as usize;
            m |= MSB[t] << (4 * x + y);
            l |= LSB[t] << (4 * x + y);
        }
    }
    (m << 16 | l).to_be_bytes()
}
fn etc_color(p: &Pal, e0: usize, e1: usize, s: usize, flip: bool) -> [u8; 8] {
    let (a, b) = (p.cep[e0], p.cep[e1]);
    let diff = (0..3).all(|c| (-4..=3).contains(&(b[c] as i32 - a[c] as i32)));
    let mut o = [0; 8];
    for c in 0..3 {
        o[c] = if diff { a[c] << 3 | b[c].wrapping_sub(a[c]) & 7 } else { a[c] >> 1 << 4 | b[c] >> 1 };
    }
    o[3] = a[3] << 5 | b[3] << 2 | (diff as u8) << 1 | flip as u8;
    o[4..].copy_from_slice(&etc_sel(&p.csel[s], flip));
    o
}
fn etcs_color(p: &Pal, e: usize, s: usize) -> [u8; 8] {
    let a = p.cep[e];
    let mut o = [a[0] << 3, a[1] << 3, a[2] << 3, a[3] << 5 | a[3] << 2 | 2, 0, 0, 0, 0];
    o[4..].copy_from_slice(&etc_sel(&p.csel[s], true));
    o
}
fn etc_alpha(p: &Pal, e: usize, s: usize, flip: bool) -> [u8; 8] {
    let mut w = 0u64;
    for x in 0..4 {
        for y in 0..4 {
            let t = texel(&p.asel[s], x, y, flip) as u64;
            w |= (if t <= 3 { 3 - t } else { t }) << (45 - 3 * (4 * x + y));
        }
    }
    let mut b = [0; 8];
    b[..2].copy_from_slice(&p.aep[e]);
    b[2..].copy_from_slice(&w.to_be_bytes()[2..]);
    b
}

// ---- levels --------------------------------------------------------------------------------------
/// index coded as a delta modulo the palette size
struct Idx {
    n: u32,
    cur: u32,
    step: Vec<u32>,
}
impl Idx {
    fn new(r: &mut Rng, n: usize) -> Idx {
        let n = n as u32;
        let k = if n == 0 { 0 } else { *r.pick(&[1usize, 2, 5, 20, 300]) };
        let mut step: Vec<u32> = (0..k).map(|_| r.below(n.min(8192) as usize) as u32).collect();
        if n > 8192 && r.chance(3, 4) { step = (0..8).map(|i| 8191 - i * r.below(700) as u32).collect() } // reach the far end of a large palette
        if n > 1 && k > 0 && r.chance(3, 4) { step.push(1 + r.below(n.min(8192) as usize - 1) as u32) }
        Idx { n, cur: 0, step }
    }
    fn next(&mut self, r: &mut Rng, o: &mut Ops, m: usize) -> usize {
        let d = *r.pick(&self.step);
        o.sym(m, d);
        self.cur = (self.cur + d) % self.n;
        self.cur as usize
    }
    fn at(&mut self, i: usize) -> usize {
        self.cur = i as u32;
        i
    }
}
const REF: usize = 0;
const CEP: usize = 1;
const CSEL: usize = 2;
const AEP: usize = 3;
const ASEL: usize = 4;
/// tile of each of the four blocks (row-major) of a chunk, by encoding
const TILES: [[usize; 4]; 8] = [[0, 0, 0, 0], [0, 0, 1, 1], [0, 1, 0, 1], [0, 0, 1, 2], [1, 2, 0, 0], [0, 1, 0, 2], [1, 0, 2, 0], [0, 1, 2, 3]];

fn put_block(out: &mut [u8], bs: usize, bx: usize, x: usize, y: usize, b: &[u8]) {
    let k = (y * bx + x) * bs;
    out[k..k + bs].copy_from_slice(b);
}
/// classic level: 2x2-block chunks in serpentine order
fn classic_level(r: &mut Rng, p: &Pal, fmt: u8, bx: usize, by: usize, faces: usize, cov: &mut dyn FnMut(&'static str, u32)) -> (Ops, Vec<u8>) {
    let bs = block_bytes(fmt);
    let mut o = Ops::default();
    let mut out = vec![0u8; bx * by * bs * faces];
    let (cx, cy) = (bx.div_ceil(2), by.div_ceil(2));
    let mut ce = Idx::new(r, p.cep.len());
    let mut cs = Idx::new(r, p.csel.len());
    let mut ae = [Idx::new(r, p.aep.len()), Idx::new(r, p.aep.len())];
    let mut aks = [Idx::new(r, p.asel.len()), Idx::new(r, p.asel.len())];
    // both coordinates of a two-channel texture share one delta model
    let pool: Vec<u32> = (0..1 + r.below(12)).map(|_| r.below(512) as u32).collect();
    let mut enc: Vec<usize> = vec![];
    for f in 0..faces {
        let face = &mut out[f * bx * by * bs..(f + 1) * bx * by * bs];
        for y in 0..cy {
            for k in 0..cx {
                let x = if y & 1 == 1 { cx - 1 - k } else { k };
                if enc.is_empty() {
                    let s = if r.chance(1, 2) { *r.pick(&pool) } else { r.below(512) as u32 };
                    o.sym(REF, s);
                    enc = vec![(s & 7) as usize, (s >> 3 & 7) as usize, (s >> 6 & 7) as usize];
                }
                let t = TILES[enc.remove(0)];
                cov("chunk encoding", TILES.iter().position(|q| *q == t).unwrap() as u32);
                let tiles = t.iter().max().unwrap() + 1;
                let mut e = [[0usize; 4]; 3]; // colour, alpha 0, alpha 1 endpoints of the tiles
                match fmt {
                    DXT1 => for i in 0..tiles { e[0][i] = ce.next(r, &mut o, CEP) },
                    DXT5A => for i in 0..tiles { e[1][i] = ae[0].next(r, &mut o, AEP) },
                    DXN_XY | DXN_YX => {
                        for i in 0..tiles { e[1][i] = ae[0].next(r, &mut o, AEP) }
                        for i in 0..tiles { e[2][i] = ae[1].next(r, &mut o, AEP) }
                    }
                    _ => {
                        for i in 0..tiles { e[1][i] = ae[0].next(r, &mut o, AEP) }
                        for i in 0..tiles { e[0][i] = ce.next(r, &mut o, CEP) }
                    }
                }
                for b in 0..4 {
                    let (px, py) = (2 * x + b % 2, 2 * y + b / 2);
                    let t = t[b];
                    let mut blk = vec![];
                    match fmt {
                        DXT1 => blk.extend(dxt_color(p, e[0][t], cs.next(r, &mut o, CSEL))),
                        DXT5A => blk.extend(dxt_alpha(p, e[1][t], aks[0].next(r, &mut o, ASEL))),
                        DXN_XY | DXN_YX => {
                            blk.extend(dxt_alpha(p, e[1][t], aks[0].next(r, &mut o, ASEL)));
                            blk.extend(dxt_alpha(p, e[2][t], aks[1].next(r, &mut o, ASEL)));
                        }
                        _ => {
                            blk.extend(dxt_alpha(p, e[1][t], aks[0].next(r, &mut o, ASEL)));
                            blk.extend(dxt_color(p, e[0][t], cs.next(r, &mut o, CSEL)));
                        }
                    }
                    if px < bx && py < by {
                        put_block(face, bs, bx, px, py, &blk);
                    } else {
                        cov("clipped blocks", 0);
                    }
                }
            }
        }
    }
    (o, out)
}
/// Unity level: blocks in row-major order (both counts rounded up to even), endpoints new or
/// copied from a neighbour, absolute selector indices
fn unity_level(r: &mut Rng, p: &Pal, fmt: u8, bx: usize, by: usize, faces: usize, cov: &mut dyn FnMut(&'static str, u32)) -> (Ops, Vec<u8>) {
    let bs = block_bytes(fmt);
    let sub = subblocks(fmt);
    let mut o = Ops::default();
    let mut out = vec![0u8; bx * by * bs * faces];
    let (wx, wy) = ((bx + 1) & !1, (by + 1) & !1);
    let mut ce = Idx::new(r, p.cep.len());
    let mut ae = [Idx::new(r, p.aep.len()), Idx::new(r, p.aep.len())];
    let sel = |r: &mut Rng, n: usize| -> Vec<u32> { (0..if n == 0 { 0 } else { *r.pick(&[1, 3, 30, 400]) }).map(|_| r.below(n.min(8192)) as u32).collect() };
    let (cpool, apool) = (sel(r, p.csel.len()), sel(r, p.asel.len()));
    let bias = r.below(4);
    #[derive(Clone, Copy, Default)]
    struct B { c: [usize; 2], a: [usize; 2] }
    for f in 0..faces {
        // references are stored once per two rows (and, for DXT, per 2x2 blocks)
        let mut refs = vec![[0u8; 2]; wx * wy]; // [where the endpoints come from, second sub-block]
        let mut g: Vec<B> = vec![B::default(); wx * wy];
        for y in 0..wy {
            for x in 0..wx {
                let legal = |x: usize, y: usize| -> Vec<u8> {
                    let mut v = vec![0u8];
                    if x > 0 { v.push(1) }
                    if y > 0 { v.push(2) }
                    if y > 0 && (!sub || x > 0) { v.push(3) } // DXT: 2 and 3 both mean the block above
                    v
                };
                let one = |r: &mut Rng, x: usize, y: usize| -> [u8; 2] {
                    let v = legal(x, y);
                    let a = if bias == 0 { 0 } else if bias == 1 { *v.last().unwrap() } else { *r.pick(&v) };
                    [a, r.below(4) as u8]
                };
                if sub && y & 1 == 0 {
                    let (a, b) = (one(r, x, y), one(r, x, y + 1));
                    refs[y * wx + x] = a;
                    refs[(y + 1) * wx + x] = b;
                    o.sym(REF, (a[0] | b[0] << 2 | a[1] << 4 | b[1] << 6) as u32);
                } else if !sub && y & 1 == 0 && x & 1 == 0 {
                    let mut s = 0;
                    for (i, (dx, dy)) in [(0, 0), (0, 1), (1, 0), (1, 1)].into_iter().enumerate() {
                        let a = one(r, x + dx, y + dy);
                        refs[(y + dy) * wx + x + dx] = a;
                        s |= (a[0] as u32) << (2 * i);
                    }
                    o.sym(REF, s);
                }
                let rf = refs[y * wx + x];
                cov("neighbour reference", rf[0] as u32);
                let mut b = B::default();
                match rf[0] {
                    0 => match fmt {
                        DXT1 | ETC1 | ETC2 | ETC1S => b.c = [ce.next(r, &mut o, CEP); 2],
                        DXT5A => b.a[0] = ae[0].next(r, &mut o, AEP),
                        DXN_XY | DXN_YX => {
                            b.a[0] = ae[0].next(r, &mut o, AEP);
                            b.a[1] = ae[1].next(r, &mut o, AEP);
                        }
                        _ => {
                            b.c = [ce.next(r, &mut o, CEP); 2];
                            b.a[0] = ae[0].next(r, &mut o, AEP);
                        }
                    },
                    k => {
                        let q = match k { 1 => g[y * wx + x - 1], 3 if sub => g[(y - 1) * wx + x - 1], _ => g[(y - 1) * wx + x] };
                        // left and diagonal neighbours hand on their second endpoints, the one above its first
                        b.c = if k == 2 || !sub { [q.c[0]; 2] } else { [q.c[1]; 2] };
                        b.a = q.a;
                    }
                }
                for k in 0..2 { if ae[k].n > 0 { ae[k].at(b.a[k]); } }
                if ce.n > 0 { ce.at(b.c[0]); }
                let (mut cs, mut as0, mut as1) = (0, 0, 0);
                if has_color(fmt) { cs = *r.pick(&cpool) as usize; o.sym(CSEL, cs as u32) }
                if has_alpha(fmt) { as0 = *r.pick(&apool) as usize; o.sym(ASEL, as0 as u32) }
                if matches!(fmt, DXN_XY | DXN_YX) { as1 = *r.pick(&apool) as usize; o.sym(ASEL, as1 as u32) }
                if sub && rf[1] != 0 { b.c[1] = ce.next(r, &mut o, CEP) }
                g[y * wx + x] = b;
                let flip = rf[1] < 2;
                let mut blk = vec![];
                match fmt {
                    DXT1 => blk.extend(dxt_color(p, b.c[0], cs)),
                    ETC1S => blk.extend(etcs_color(p, b.c[0], cs)),
                    ETC1 | ETC2 => blk.extend(etc_color(p, b.c[0], b.c[1], cs, flip)),
                    ETC2A => { blk.extend(etc_alpha(p, b.a[0], as0, flip)); blk.extend(etc_color(p, b.c[0], b.c[1], cs, flip)) }
                    ETC2AS => { blk.extend(etc_alpha(p, b.a[0], as0, true)); blk.extend(etcs_color(p, b.c[0], cs)) }
                    DXT5A => blk.extend(dxt_alpha(p, b.a[0], as0)),
                    DXN_XY | DXN_YX => { blk.extend(dxt_alpha(p, b.a[0], as0)); blk.extend(dxt_alpha(p, b.a[1], as1)) }
                    _ => { blk.extend(dxt_alpha(p, b.a[0], as0)); blk.extend(dxt_color(p, b.c[0], cs)) }
                }
                if sub { cov("etc diff,flip", (blk[blk.len() - 5] & 3) as u32) }
                if x < bx && y < by {
                    put_block(&mut out[f * bx * by * bs..], bs, bx, x, y, &blk);
                } else {
                    cov("clipped blocks", 0);
                }
            }
        }
    }
    (o, out)
}

// ---- file ----------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct File {
    pub fmt: u8,
    pub unity: bool,
    pub w: usize,
    pub h: usize,
    pub faces: usize,
    pub levels: usize,
    pub user: [u32; 2],
    pub bytes: Vec<u8>,
    /// the blocks of level 0, face after face
    pub blocks: Vec<u8>,
    /// (offset, length) of tables, palettes, levels, for the corruptors
    pub segs: Vec<(usize, usize)>,
}
impl File {
    pub fn grid(&self) -> (usize, usize) {
        (self.w.div_ceil(4), self.h.div_ceil(4))
    }
}
pub fn crc16(d: &[u8]) -> u16 {
    let mut c = !0u16;
    for &b in d {
        let q = b as u16 ^ (c >> 8);
        let k = (q >> 4) ^ q;
        c = (((c << 8) ^ k) ^ (k << 5)) ^ (k << 12);
    }
    !c
}
pub fn be(b: &mut [u8], ofs: usize, n: usize, v: usize) {
    for i in 0..n {
        b[ofs + i] = (v >> (8 * (n - 1 - i))) as u8;
    }
}
pub fn seal(b: &mut [u8]) {
    let hs = u16::from_be_bytes([b[2], b[3]]) as usize;
    if hs >= 6 && hs < b.len() {
        let d = crc16(&b[hs..]);
        be(b, 10, 2, d as usize);
        let h = crc16(&b[6..hs]);
        be(b, 4, 2, h as usize);
    }
}
pub struct Want {
    pub w: usize,
    pub h: usize,
    pub faces: usize,
    pub big: bool,
    /// may have long stretches that belong to nothing
    pub gaps: bool,
}
pub fn make(r: &mut Rng, fmt: u8, unity: bool, q: Want, cov: &mut dyn FnMut(&'static str, u32)) -> File {
    let Want { w, h, faces, big, gaps } = q;
    let p = pal(r, fmt, big);
    let (bx, by) = (w.div_ceil(4), h.div_ceil(4));
    let (o, blocks) = if unity { unity_level(r, &p, fmt, bx, by, faces, cov) } else { classic_level(r, &p, fmt, bx, by, faces, cov) };
    let mut w_ = Bits::default();
    let lim = |n: usize| (n.clamp(1, 8192)) as u32;
    let ms: Vec<Option<Model>> = (0..5).map(|m| {
        let (on, l) = match m {
            REF => (true, if unity { 256 } else { 512 }),
            CEP => (!p.cep.is_empty(), lim(p.cep.len())),
            CSEL => (!p.cep.is_empty(), lim(p.csel.len())),
            AEP => (!p.aep.is_empty(), lim(p.aep.len())),
            _ => (!p.aep.is_empty(), lim(p.asel.len())),
        };
        on.then(|| Model::build(r, &o.used(m), l))
    }).collect();
    for m in ms.iter().flatten() {
        m.store(r, &mut w_);
    }
    let tables = w_.b;
    let mut lv = Bits::default();
    for &(m, s) in &o.0 {
        ms[m].as_ref().unwrap().put(&mut lv, s);
    }
    let level0 = lv.b;
    let levels = if r.chance(1, 2) { 1 } else { r.range(2, 16) };
    let mut segs: Vec<Vec<u8>> = vec![tables];
    segs.push(if p.cep.is_empty() { vec![] } else { color_endpoints(r, &p, fmt) });
    segs.push(if p.cep.is_empty() { vec![] } else if unity { unity_selectors(r, &p.csel, 2) } else { classic_selectors(r, &p.csel, 3) });
    segs.push(if p.aep.is_empty() { vec![] } else { alpha_endpoints(r, &p) });
    segs.push(if p.aep.is_empty() { vec![] } else if unity { unity_selectors(r, &p.asel, 3) } else { classic_selectors(r, &p.asel, 7) });
    let hs = 70 + 4 * levels;
    let mut b = vec![0u8; hs];
    let mut ofs = vec![(0usize, 0usize); 5];
    let mut order = [0, 1, 2, 3, 4];
    if r.chance(1, 2) {
        for i in (1..5).rev() { order.swap(i, r.below(i + 1)) }
    }
    let late = r.below(6); // segments that come after the levels
    // what belongs to no segment may be long: offsets need all their bits
    let gap = match (gaps, if gaps { r.below(2400) } else { 0 }) {
        (true, 0) => r.range(1 << 24, 17 << 20),
        (true, 1) => r.range(8 << 20, 15 << 20),
        (true, 2..=9) => r.range(1 << 20, 8 << 20),
        (true, 10..=99) => r.range(1 << 16, 1 << 18),
        _ => 0,
    };
    // 24 bits are all a segment has: the longest gap comes after the segments
    let gap_at = if gap >> 24 > 0 { 5 } else { r.below(6) };
    let fill = |r: &mut Rng, b: &mut Vec<u8>| {
        let page = r.bytes(4096);
        let n = b.len() + gap;
        while b.len() < n { let k = (n - b.len()).min(page.len()); b.extend(&page[..k]) }
    };
    if gap > 0 { cov("gap in the file, log2", gap.ilog2()) }
    for (k, &i) in order.iter().enumerate() {
        if levels > 1 && r.chance(1, 2) && k == late && gap == 0 { break }
        if r.chance(1, 5) { let n = r.below(9); let pad = r.bytes(n); b.extend(pad) }
        if gap > 0 && gap_at == k && r.chance(2, 3) { fill(r, &mut b) }
        ofs[i] = (b.len(), segs[i].len());
        b.extend(&segs[i]);
        if gap > 0 && gap_at == k && i > 0 && b.len() < 1 << 20 {
            // or part of the segment, behind what it needs
            fill(r, &mut b);
            if !segs[i].is_empty() { ofs[i].1 = b.len() - ofs[i].0 }
        }
    }
    if gap > 0 && gap_at == 5 { fill(r, &mut b) }
    let mut lofs = vec![];
    for l in 0..levels {
        lofs.push(b.len());
        if l == 0 { b.extend(&level0); if level0.is_empty() { b.push(0) } } else { let n = 1 + r.below(40); let x = r.bytes(n); b.extend(x) }
        if l == 0 && levels > 1 {
            // what was left out goes between the levels
            for i in 0..5 { if ofs[i].0 == 0 { ofs[i] = (b.len(), segs[i].len()); b.extend(&segs[i]) } }
        }
    }
    if r.chance(1, 6) { let n = r.below(30); let pad = r.bytes(n); b.extend(pad) }
    be(&mut b, 0, 2, 0x4878);
    be(&mut b, 2, 2, hs);
    let n = b.len();
    be(&mut b, 6, 4, n);
    be(&mut b, 12, 2, w);
    be(&mut b, 14, 2, h);
    b[16] = levels as u8;
    b[17] = faces as u8;
    b[18] = fmt;
    let flags = r.below(65536);
    be(&mut b, 19, 2, flags);
    let user = [r.u32(), r.u32()];
    be(&mut b, 25, 4, user[0] as usize);
    be(&mut b, 29, 4, user[1] as usize);
    for (i, n) in [(1, p.cep.len()), (2, p.csel.len()), (3, p.aep.len()), (4, p.asel.len())] {
        let k = 33 + 8 * (i - 1);
        be(&mut b, k, 3, ofs[i].0);
        be(&mut b, k + 3, 3, ofs[i].1);
        be(&mut b, k + 6, 2, n);
    }
    be(&mut b, 65, 2, ofs[0].1);
    be(&mut b, 67, 3, ofs[0].0);
    for (l, o) in lofs.iter().enumerate() { be(&mut b, 70 + 4 * l, 4, *o) }
    seal(&mut b);
    let mut sg = ofs.clone();
    sg.push((lofs[0], level0.len()));
    File { fmt, unity, w, h, faces, levels, user, bytes: b, blocks, segs: sg }
}
pub const CLASSIC: [u8; 9] = [0, 2, 3, 4, 5, 6, 7, 8, 9];
pub const UNITY_DXT: [u8; 9] = CLASSIC;
pub const UNITY_ETC: [u8; 5] = [ETC1, ETC2, ETC2A, ETC1S, ETC2AS];
pub fn dims(r: &mut Rng) -> (usize, usize) {
    let d = |r: &mut Rng| match r.below(6) { 0 => r.range(1, 8), 1 => 8 * r.range(1, 8), _ => r.range(1, 64) };
    (d(r), d(r))
}
pub fn any(r: &mut Rng, fmt: u8, unity: bool, big: bool, cov: &mut dyn FnMut(&'static str, u32)) -> File {
    let (mut w, mut h) = dims(r);
    let mut faces = if r.chance(3, 4) { 1 } else { *r.pick(&[2, 3, 6]) };
    if big && r.chance(1, 60) {
        // real texture sizes
        (w, h) = match r.below(6) {
            // as wide or high as the header can say; more than 65536 blocks
            4 => { let n = *r.pick(&[16384, 32768, 65535]) - r.below(9); if r.chance(1, 2) { (n, r.range(1, 5)) } else { (r.range(1, 5), n) } }
            5 if r.chance(1, 6) => { let n = r.range(1, 130); (1030 + n, 1160 - n) }
            0 => (r.range(200, 300), r.range(200, 300)),
            1 => (r.range(500, 1030), r.range(1, 20)),
            2 => (r.range(1, 20), r.range(500, 1030)),
            _ => { let n = r.range(4080, 4096); if r.chance(1, 2) { (n, r.range(1, 9)) } else { (r.range(1, 9), n) } }
        };
        faces = faces.min(if w * h > 100000 { 1 } else { 2 });
        cov("large image", 1 + (w * h > 1 << 20) as u32 * 2 + (w.max(h) > 8192) as u32);
    }
    make(r, fmt, unity, Want { w, h, faces, big, gaps: big }, cov)
}
