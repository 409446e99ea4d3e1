//! The block formats behind one interface: image decoder, block decoder, generator, oracle.
use crate::gen;
use crate::mon::Rng;
use crate::refs::{astc, bc6::Bc6, bc7, bcn, etc};
use std::sync::OnceLock;
use texture2ddecoder as t;

pub type R = Result<(), &'static str>;
pub type ImgFn = fn(&[u8], usize, usize, &mut [u32]) -> R;
pub type BlkFn = fn(&[u8], &mut [u32]);

/// expected pixel: compare under the mask (0 = not pinned down)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Px(pub u32, pub u32);
pub fn full(v: u32) -> Px {
    Px(v, !0)
}
const ANY: Px = Px(0, 0);

#[derive(Clone, Copy)]
pub enum Img {
    Plain(ImgFn),
    Astc, // decode_astc(.., bw, bh, ..)
}
#[derive(Clone, Copy)]
pub enum Blk {
    Plain(BlkFn),
    Astc,
}
#[derive(Clone, Copy)]
pub struct Fmt {
    pub id: u32,
    pub name: &'static str,
    pub bytes: usize,
    pub bw: usize,
    pub bh: usize,
    img: Img,
    blk: Blk,
    gen: fn(&mut Rng, &mut [u8], usize, usize),
    oracle: fn(&[u8], usize, usize, &mut Vec<Px>),
}
impl Fmt {
    pub fn image(&self, d: &[u8], w: usize, h: usize, out: &mut [u32]) -> R {
        match self.img {
            Img::Plain(f) => f(d, w, h, out),
            Img::Astc => t::decode_astc(d, w, h, self.bw, self.bh, out),
        }
    }
    pub fn block(&self, d: &[u8], out: &mut [u32]) {
        match self.blk {
            Blk::Plain(f) => f(d, out),
            Blk::Astc => t::decode_astc_block(d, self.bw, self.bh, out),
        }
    }
    pub fn gen(&self, r: &mut Rng, b: &mut [u8]) {
        (self.gen)(r, b, self.bw, self.bh)
    }
    pub fn gen_blocks(&self, r: &mut Rng, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n * self.bytes];
        for c in v.chunks_mut(self.bytes) {
            self.gen(r, c)
        }
        gen::relate(r, &mut v, self.bytes);
        v
    }
    pub fn oracle(&self, b: &[u8]) -> Vec<Px> {
        let mut v = Vec::with_capacity(self.bw * self.bh);
        (self.oracle)(b, self.bw, self.bh, &mut v);
        v
    }
    pub fn blocks(&self, w: usize, h: usize) -> (usize, usize) {
        (w.div_ceil(self.bw), h.div_ceil(self.bh))
    }
    pub fn need(&self, w: usize, h: usize) -> usize {
        let (x, y) = self.blocks(w, h);
        x * y * self.bytes
    }
}
fn put(o: &mut Vec<Px>, p: [u32; 16]) {
    o.extend(p.iter().map(|&v| full(v)));
}
pub fn bc6ref() -> &'static Bc6 {
    static B: OnceLock<Bc6> = OnceLock::new();
    B.get_or_init(Bc6::new)
}
fn o_bc6(b: &[u8], signed: bool, o: &mut Vec<Px>) {
    let r = bc6ref().decode(b, signed);
    if r.mode == 14 {
        // reserved modes: all channels zero; alpha is not pinned down
        o.extend([Px(0, 0x00ff_ffff); 16]);
    } else {
        o.extend(r.px.iter().map(|p| p.map_or(ANY, full)));
    }
}
fn o_etc(b: &[u8], k: etc::Kind, o: &mut Vec<Px>) {
    let r = etc::color(b, k);
    if r.mode == etc::Mode::Undefined {
        o.extend([ANY; 16]);
        return;
    }
    o.extend(r.px.iter().map(|&v| if r.punch && v >> 24 == 0 { Px(0, 0xff00_0000) } else { full(v) }));
}
fn signed_ok(b: &[u8]) -> bool {
    b[0] != 0x80
}
fn o_eacs(b: &[u8], two: bool, o: &mut Vec<Px>) {
    let r = etc::r11s(b);
    let g = if two { etc::r11s(&b[8..]) } else { [0; 16] };
    let mr = if signed_ok(b) { 0x00ff_0000 } else { 0 };
    let mg = if !two || signed_ok(&b[8..]) { 0x0000_ff00 } else { 0 };
    for i in 0..16 {
        o.push(Px(crate::refs::argb(255, r[i], g[i], 0), 0xff00_00ff | mr | mg));
    }
}
fn o_astc(b: &[u8], w: usize, h: usize, o: &mut Vec<Px>) {
    let (_, p) = astc::decode(b, w as u32, h as u32);
    o.extend(p.iter().map(|p| p.map_or(ANY, full)));
}

macro_rules! f {
    ($n:literal, $by:expr, $img:path, $blk:path, $gen:expr, $or:expr) => {
        Fmt { id: 0, name: $n, bytes: $by, bw: 4, bh: 4, img: Img::Plain($img), blk: Blk::Plain($blk), gen: $gen, oracle: $or }
    };
}
macro_rules! a {
    ($n:literal, $w:expr, $h:expr, $f:path) => {
        Fmt { id: 0, name: $n, bytes: 16, bw: $w, bh: $h, img: Img::Plain($f), blk: Blk::Astc, gen: gen::astc, oracle: o_astc }
    };
}
pub fn astc_any(bw: usize, bh: usize) -> Fmt {
    Fmt { id: 200, name: "astc_any", bytes: 16, bw, bh, img: Img::Astc, blk: Blk::Astc, gen: gen::astc, oracle: o_astc }
}
pub const FOOT: [(usize, usize); 14] = [
    (4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8), (10, 10), (12, 10), (12, 12),
];
pub fn all() -> &'static [Fmt] {
    static V: OnceLock<Vec<Fmt>> = OnceLock::new();
    V.get_or_init(|| {
        use bcn::ColorMode::*;
        let mut v = vec![
            f!("bc1", 8, t::decode_bc1, t::decode_bc1_block, gen::bc1, |b, _, _, o| put(o, bcn::bc1(b, Opaque))),
            f!("bc1a", 8, t::decode_bc1a, t::decode_bc1a_block, gen::bc1, |b, _, _, o| put(o, bcn::bc1(b, PunchThrough))),
            f!("bc2", 16, t::decode_bc2, t::decode_bc2_block, gen::bc2, |b, _, _, o| put(o, bcn::bc2(b))),
            f!("bc3", 16, t::decode_bc3, t::decode_bc3_block, gen::bc3, |b, _, _, o| put(o, bcn::bc3(b))),
            f!("bc4", 8, t::decode_bc4, t::decode_bc4_block, gen::chan, |b, _, _, o| put(o, bcn::bc4(b))),
            f!("bc5", 16, t::decode_bc5, t::decode_bc5_block, gen::bc5, |b, _, _, o| put(o, bcn::bc5(b))),
            f!("bc6_signed", 16, t::decode_bc6_signed, t::decode_bc6_block_signed, gen::bc6, |b, _, _, o| o_bc6(b, true, o)),
            f!("bc6_unsigned", 16, t::decode_bc6_unsigned, t::decode_bc6_block_unsigned, gen::bc6, |b, _, _, o| o_bc6(b, false, o)),
            f!("bc7", 16, t::decode_bc7, t::decode_bc7_block, gen::bc7, |b, _, _, o| put(o, bc7::decode(b).px)),
            f!("atc_rgb4", 8, t::decode_atc_rgb4, t::decode_atc_rgb4_block, gen::atc4, |b, _, _, o| put(o, bcn::atc_rgb4(b))),
            f!("atc_rgba8", 16, t::decode_atc_rgba8, t::decode_atc_rgba8_block, gen::atc8, |b, _, _, o| put(o, bcn::atc_rgba8(b))),
            f!("etc1", 8, t::decode_etc1, t::decode_etc1_block, gen::etc1, |b, _, _, o| o_etc(b, etc::Kind::Etc1, o)),
            f!("etc2_rgb", 8, t::decode_etc2_rgb, t::decode_etc2_rgb_block, gen::etc2, |b, _, _, o| o_etc(b, etc::Kind::Rgb, o)),
            f!("etc2_rgba1", 8, t::decode_etc2_rgba1, t::decode_etc2_rgba1_block, gen::etc2, |b, _, _, o| o_etc(b, etc::Kind::Rgba1, o)),
            f!("etc2_rgba8", 16, t::decode_etc2_rgba8, t::decode_etc2_rgba8_block, gen::etc2a, |b, _, _, o| {
                let c = etc::color(&b[8..], etc::Kind::Rgb).px;
                let a = etc::a8(b);
                o.extend((0..16).map(|i| full(c[i] & 0xff_ffff | a[i] << 24)));
            }),
            f!("eacr", 8, t::decode_eacr, t::decode_eacr_block, gen::eac, |b, _, _, o| put(o, etc::r11(b).map(|r| crate::refs::argb(255, r, 0, 0)))),
            f!("eacr_signed", 8, t::decode_eacr_signed, t::decode_eacr_signed_block, gen::eac, |b, _, _, o| o_eacs(b, false, o)),
            f!("eacrg", 16, t::decode_eacrg, t::decode_eacrg_block, gen::eac2, |b, _, _, o| {
                let (r, g) = (etc::r11(b), etc::r11(&b[8..]));
                o.extend((0..16).map(|i| full(crate::refs::argb(255, r[i], g[i], 0))));
            }),
            f!("eacrg_signed", 16, t::decode_eacrg_signed, t::decode_eacrg_signed_block, gen::eac2, |b, _, _, o| o_eacs(b, true, o)),
            a!("astc_4_4", 4, 4, t::decode_astc_4_4),
            a!("astc_5_4", 5, 4, t::decode_astc_5_4),
            a!("astc_5_5", 5, 5, t::decode_astc_5_5),
            a!("astc_6_5", 6, 5, t::decode_astc_6_5),
            a!("astc_6_6", 6, 6, t::decode_astc_6_6),
            a!("astc_8_5", 8, 5, t::decode_astc_8_5),
            a!("astc_8_6", 8, 6, t::decode_astc_8_6),
            a!("astc_8_8", 8, 8, t::decode_astc_8_8),
            a!("astc_10_5", 10, 5, t::decode_astc_10_5),
            a!("astc_10_6", 10, 6, t::decode_astc_10_6),
            a!("astc_10_8", 10, 8, t::decode_astc_10_8),
            a!("astc_10_10", 10, 10, t::decode_astc_10_10),
            a!("astc_12_10", 12, 10, t::decode_astc_12_10),
            a!("astc_12_12", 12, 12, t::decode_astc_12_12),
        ];
        for (i, f) in v.iter_mut().enumerate() {
            f.id = i as u32;
        }
        v
    })
}
pub fn by(name: &str) -> Fmt {
    *all().iter().find(|f| f.name == name).unwrap()
}
