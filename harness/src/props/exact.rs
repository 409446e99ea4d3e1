//! Exactness monitors: every decoded pixel is compared online with an independent
//! reference decoder (oracle), through the image API and through the block API.
use crate::formats::*;
use crate::mon::*;
use crate::refs::{astc as ra, bc6::Bc6, bc7, etc};

pub fn cover(ctx: &mut Ctx, f: &Fmt, b: &[u8]) -> String {
    match f.name {
        "bc1" | "bc1a" | "bc2" | "bc3" | "atc_rgb4" | "atc_rgba8" => {
            let c = &b[f.bytes - 8..];
            let p = u16::from_le_bytes([c[0], c[1]]);
            let q = u16::from_le_bytes([c[2], c[3]]);
            let k = if p > q { 0 } else if p == q { 1 } else { 2 };
            if f.name.starts_with("atc") {
                ctx.cov("atc color mode bit", (p >> 15) as u32);
            }
            ctx.cov("color0 >,=,< color1", k);
            if f.name == "bc3" || f.name == "atc_rgba8" {
                ctx.cov("alpha0 > alpha1", (b[0] > b[1]) as u32);
            }
            format!("{}", if f.name.starts_with("atc") { (p >> 15) as u32 } else { k })
        }
        "bc4" | "bc5" => {
            ctx.cov("endpoint0 > endpoint1", (b[0] > b[1]) as u32);
            format!("{}", (b[0] > b[1]) as u32)
        }
        "bc6_signed" | "bc6_unsigned" => {
            let m = Bc6::mode_of(b);
            ctx.cov(if f.name == "bc6_signed" { "bc6 signed mode" } else { "bc6 unsigned mode" }, m as u32);
            format!("mode{m}")
        }
        "bc7" => {
            let r = bc7::decode(b);
            ctx.cov("bc7 mode", r.mode);
            ctx.cov("bc7 mode,partition", r.mode << 8 | r.part);
            ctx.cov("bc7 mode,rotation,selector", r.mode << 8 | r.rot << 4 | r.sel);
            format!("mode{}", r.mode)
        }
        "etc1" | "etc2_rgb" | "etc2_rgba1" | "etc2_rgba8" => {
            let k = match f.name { "etc1" => etc::Kind::Etc1, "etc2_rgba1" => etc::Kind::Rgba1, _ => etc::Kind::Rgb };
            let c = &b[f.bytes - 8..];
            let r = etc::color(c, k);
            ctx.cov(match f.name { "etc1" => "etc1 mode", "etc2_rgba1" => "etc2 a1 mode (+8 punch)", _ => "etc2 mode" },
                r.mode as u32 | (r.punch as u32) << 3);
            if f.name == "etc2_rgba8" {
                ctx.cov("alpha multiplier", (b[0 + 1] >> 4) as u32);
                ctx.cov("alpha table", (b[1] & 15) as u32);
            }
            format!("{:?}{}", r.mode, if r.punch { "+punch" } else { "" })
        }
        "eacr" | "eacr_signed" | "eacrg" | "eacrg_signed" => {
            ctx.cov("eac multiplier", (b[1] >> 4) as u32);
            ctx.cov("eac table", (b[1] & 15) as u32);
            format!("mult{}", if b[1] >> 4 == 0 { "0" } else { "N" })
        }
        _ => {
            let i = ra::classify(b, f.bw as u32, f.bh as u32);
            ctx.cov("astc class", i.class as u32);
            if i.class == ra::Class::Legal {
                ctx.cov("astc legal block mode", i.mode_bits);
                ctx.cov("astc parts,dual", i.parts << 1 | i.dual as u32);
                ctx.cov("astc weight quant", i.wq as u32);
                ctx.cov("astc endpoint quant", i.cq as u32);
                ctx.cov("astc hdr", i.hdr as u32);
                for p in 0..i.parts as usize {
                    ctx.cov("astc cem", i.cems[p]);
                }
            }
            format!("{:?}{}", i.class, if i.hdr { "+hdr" } else { "" })
        }
    }
}

/// is this block one the property talks about?
pub type Keep = fn(&Fmt, &[u8]) -> bool;

/// decode `blocks` as one image, and compare each texel; returns #blocks compared
pub fn check_blocks(ctx: &mut Ctx, f: &Fmt, blocks: &[u8], keep: Option<Keep>) {
    let n = blocks.len() / f.bytes;
    if n == 0 {
        return;
    }
    let nx = [1usize, 2, 3, 4, 7, 8, 16][ctx.rng.below(7)].min(n);
    let ny = n.div_ceil(nx);
    let mut data = blocks.to_vec();
    data.resize(nx * ny * f.bytes, 0);
    if data.len() > blocks.len() {
        // pad with copies of the first block
        for k in n..nx * ny {
            data.copy_within(0..f.bytes, k * f.bytes);
        }
    }
    let (w, h) = (nx * f.bw, ny * f.bh);
    let mut img = vec![0xdead_beefu32; w * h];
    let r = guard_raw(|| f.image(&data, w, h, &mut img));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            ctx.fail(format!("{}:err", f.name), || format!("decode_{}({w}x{h}) returned Err({e})", f.name));
            return;
        }
        Err((msg, loc)) => {
            // find the block
            let mut o = vec![0u32; f.bw * f.bh];
            let mut found = false;
            for b in blocks.chunks(f.bytes) {
                if guard_raw(|| f.block(b, &mut o)).is_err() {
                    let k = cover(ctx, f, b);
                    ctx.fail(format!("{}:{}:{}", f.name, k, panic_sig("block", &msg, &loc)), || {
                        format!("decoding block {} panicked: {msg} at {loc} (footprint {}x{})", hex(b), f.bw, f.bh)
                    });
                    found = true;
                    break;
                }
            }
            if !found {
                ctx.fail(panic_sig(f.name, &msg, &loc), || format!("decode_{}({w}x{h}) panicked: {msg} at {loc}; data {}", f.name, hex(&data)));
            }
            return;
        }
    }
    let mut one = vec![0u32; f.bw * f.bh];
    // BC4/BC5 block decoders only own their channels, so start from opaque black
    for (k, b) in data.chunks(f.bytes).enumerate().take(n) {
        if let Some(keep) = keep {
            if !keep(f, b) {
                continue;
            }
        }
        let cls = cover(ctx, f, b);
        let want = f.oracle(b);
        ctx.evals += 1;
        ctx.seen(hash(b) ^ (f.id as u64) << 48);
        ctx.sample(|| format!("{} block {} ({cls}), texel0 = {:08x}", f.name, hex(b), want[0].0));
        let (bx, by) = (k % nx, k / nx);
        for y in 0..f.bh {
            for x in 0..f.bw {
                let g = img[(by * f.bh + y) * w + bx * f.bw + x];
                let Px(v, m) = want[y * f.bw + x];
                if (g ^ v) & m != 0 {
                    ctx.fail(format!("{}:{cls}", f.name), || {
                        format!("{} block {} footprint {}x{} texel ({x},{y}): decoder gives {g:08x}, format defines {v:08x} (mask {m:08x})", f.name, hex(b), f.bw, f.bh)
                    });
                }
            }
        }
        if k % 8 == 0 {
            one.fill(0xff00_0000);
            match guard_raw(|| f.block(b, &mut one)) {
                Err((msg, loc)) => ctx.fail(panic_sig(f.name, &msg, &loc), || format!("block {} panicked: {msg} at {loc}", hex(b))),
                Ok(()) => {
                    for i in 0..one.len() {
                        let Px(v, m) = want[i];
                        if (one[i] ^ v) & m != 0 {
                            ctx.fail(format!("{}:block-api:{cls}", f.name), || {
                                format!("{} block decoder, block {} texel {i}: {:08x}, format defines {v:08x}", f.name, hex(b), one[i])
                            });
                        }
                    }
                }
            }
        }
    }
}

pub fn random(ctx: &mut Ctx, fmts: &[&'static str], n: usize, keep: Option<Keep>) {
    for name in fmts {
        let f = by(name);
        let d = f.gen_blocks(&mut ctx.rng, n);
        check_blocks(ctx, &f, &d, keep);
    }
}

// ---------------------------------------------------------------- C05
const C05F: [&str; 4] = ["bc1", "bc1a", "bc2", "bc3"];
fn colour_pair(ctx: &mut Ctx, f: &Fmt, out: &mut Vec<u8>, p: u16, q: u16) {
    let mut b = vec![0u8; f.bytes];
    f.gen(&mut ctx.rng, &mut b);
    let o = f.bytes - 8;
    b[o..o + 2].copy_from_slice(&p.to_le_bytes());
    b[o + 2..o + 4].copy_from_slice(&q.to_le_bytes());
    let sh = ctx.rng.below(4) as u8;
    for k in 0..4 {
        b[o + 4 + k] = 0xe4u8.rotate_left(2 * ((sh as u32 + k as u32) % 4));
    }
    out.extend_from_slice(&b);
}
/// cases 0..64: every value of either endpoint (1024 per case); 64..144: every pair of values of each
/// colour channel in both orders
fn colour_sweep(ctx: &mut Ctx, f: &Fmt, idx: u64) {
    let mut d = vec![];
    if idx < 64 {
        for i in 0..1024u32 {
            let p = (idx as u32 * 1024 + i) as u16;
            let q = if i % 16 == 0 { p } else { ctx.rng.u32() as u16 };
            colour_pair(ctx, f, &mut d, p, q);
            colour_pair(ctx, f, &mut d, q, p);
        }
    } else {
        let k = idx as u16 - 64; // 0..80
        for i in 0..64u16 {
            let (p, q) = if k < 64 { (k << 5, i << 5) } else {
                let a = (k - 64) * 2 + (i >> 5);
                let b = i & 31;
                if ctx.rng.chance(1, 2) { (a, b) } else { (a << 11, b << 11) }
            };
            colour_pair(ctx, f, &mut d, p, q);
            colour_pair(ctx, f, &mut d, p | 0x8000, q);
            colour_pair(ctx, f, &mut d, p | 0x7fe0 & !0x07e0, q);
            colour_pair(ctx, f, &mut d, p, q | 0xf800);
        }
    }
    ctx.cov("exhaustive colour sweep batches", f.id);
    check_blocks(ctx, f, &d, None);
}
pub fn c05(ctx: &mut Ctx, idx: u64) {
    if idx < 144 * 4 {
        let f = by(C05F[(idx / 144) as usize]);
        colour_sweep(ctx, &f, idx % 144);
    } else {
        random(ctx, &C05F, 128, None);
    }
}
pub fn c09(ctx: &mut Ctx, idx: u64) {
    const F: [&str; 2] = ["atc_rgb4", "atc_rgba8"];
    if idx < 144 * 2 {
        let f = by(F[(idx / 144) as usize]);
        colour_sweep(ctx, &f, idx % 144);
    } else {
        random(ctx, &F, 256, None);
    }
}

// ---------------------------------------------------------------- C06
fn all_sel(ctx: &mut Ctx, b: &mut [u8]) {
    let sh = ctx.rng.below(8) as u64;
    let mut v = 0u64;
    for i in 0..16 {
        v |= ((i * 3 + sh + i / 8) & 7) << (3 * i);
    }
    b.copy_from_slice(&v.to_le_bytes()[..6]);
}
pub fn c06(ctx: &mut Ctx, idx: u64) {
    if idx < 256 {
        // every endpoint pair, every selector
        for name in ["bc4", "bc5", "bc3"] {
            let f = by(name);
            let mut d = vec![];
            for q in 0..256usize {
                let mut b = vec![0u8; f.bytes];
                f.gen(&mut ctx.rng, &mut b);
                b[0] = idx as u8;
                b[1] = q as u8;
                all_sel(ctx, &mut b[2..8]);
                if name == "bc5" {
                    b[8] = q as u8;
                    b[9] = idx as u8;
                    all_sel(ctx, &mut b[10..16]);
                }
                d.extend_from_slice(&b);
            }
            ctx.cov("exhaustive endpoint rows", f.id);
            if name == "bc3" { continue } // the alpha half belongs to C05
            check_blocks(ctx, &f, &d, None);
        }
    } else {
        random(ctx, &["bc4", "bc5"], 256, None);
    }
}

// ---------------------------------------------------------------- bit sweeps
/// every single bit set / cleared on three backgrounds, `fix` re-establishing the block mode
pub fn bit_sweep(ctx: &mut Ctx, f: &Fmt, keep: Option<Keep>, fix: impl Fn(&mut [u8])) {
    let mut d = vec![];
    let mut base = vec![0u8; f.bytes];
    f.gen(&mut ctx.rng, &mut base);
    for bg in 0..3 {
        for bit in 0..f.bytes * 8 {
            let mut b = match bg { 0 => vec![0; f.bytes], 1 => vec![0xff; f.bytes], _ => base.clone() };
            b[bit / 8] ^= 1 << (bit % 8);
            fix(&mut b);
            d.extend_from_slice(&b);
        }
    }
    ctx.covn("bit-sweep blocks", f.id, (d.len() / f.bytes) as u64);
    check_blocks(ctx, f, &d, keep);
}

// ---------------------------------------------------------------- C07
pub fn c07(ctx: &mut Ctx, idx: u64) {
    const F: [&str; 2] = ["bc6_signed", "bc6_unsigned"];
    if idx < 28 {
        let f = by(F[(idx % 2) as usize]);
        let (id, n) = Bc6::id_bits((idx / 2) as usize);
        bit_sweep(ctx, &f, None, |b| b[0] = b[0] & !((1u32 << n) - 1) as u8 | id as u8);
    } else if idx < 28 + 64 {
        // all 32 partitions of the two-subset modes
        let k = idx - 28;
        let f = by(F[(k % 2) as usize]);
        let part = (k / 2) as u32;
        let mut d = vec![];
        for mode in 0..10 {
            for _ in 0..16 {
                let mut b = vec![0u8; 16];
                f.gen(&mut ctx.rng, &mut b);
                let (id, n) = Bc6::id_bits(mode);
                b[0] = b[0] & !((1u32 << n) - 1) as u8 | id as u8;
                for i in 0..5 {
                    let p = 77 + i;
                    b[p / 8] = b[p / 8] & !(1 << (p % 8)) | ((part >> i & 1) as u8) << (p % 8);
                }
                d.extend_from_slice(&b);
            }
        }
        for b in d.chunks(16) {
            let p = bc6ref().decode(b, false).part;
            ctx.cov("bc6 partition", p);
        }
        check_blocks(ctx, &f, &d, None);
    } else if idx < 28 + 64 + 64 {
        // the reserved modes and extreme endpoints: fields all 0 / all 1 / sign bit only
        let f = by(F[(idx % 2) as usize]);
        let mut d = vec![];
        for mode in 0..14 {
            for _ in 0..24 {
                let mut b = vec![0u8; 16];
                for x in b.iter_mut() {
                    *x = *ctx.rng.pick(&[0u8, 0, 0xff, 0xff, 0x80, 0x01, 0x10, 0x7f]);
                }
                let (id, n) = Bc6::id_bits(mode);
                b[0] = b[0] & !((1u32 << n) - 1) as u8 | id as u8;
                d.extend_from_slice(&b);
            }
        }
        for id in [0x13u8, 0x17, 0x1b, 0x1f] {
            for _ in 0..8 {
                let mut b = ctx.rng.bytes(16);
                b[0] = b[0] & 0xe0 | id;
                d.extend_from_slice(&b);
            }
        }
        check_blocks(ctx, &f, &d, None);
    } else {
        random(ctx, &F, 256, None);
    }
}

// ---------------------------------------------------------------- C08
pub fn c08(ctx: &mut Ctx, idx: u64) {
    let f = by("bc7");
    if idx < 8 {
        bit_sweep(ctx, &f, None, |b| b[0] = ((b[0] as u32) << (idx + 1) | 1 << idx) as u8);
    } else if idx < 8 + 64 {
        // every partition of every subset mode
        let part = (idx - 8) as u32;
        let mut d = vec![];
        for mode in [0u32, 1, 2, 3, 7] {
            for _ in 0..24 {
                let mut b = vec![0u8; 16];
                crate::gen::dense(&mut ctx.rng, &mut b);
                let mut v = u128::from_le_bytes(b.clone().try_into().unwrap());
                let pb = if mode == 0 { 4 } else { 6 };
                v = v & !((1u128 << (mode + 1 + pb)) - 1) | 1u128 << mode | ((part & ((1 << pb) - 1)) as u128) << (mode + 1);
                d.extend_from_slice(&v.to_le_bytes());
            }
        }
        check_blocks(ctx, &f, &d, None);
    } else {
        random(ctx, &["bc7"], 512, None);
    }
}

// ---------------------------------------------------------------- C10
const C10F: [&str; 3] = ["etc1", "etc2_rgb", "etc2_rgba1"];
pub fn c10(ctx: &mut Ctx, idx: u64) {
    if idx < 9 {
        let f = by(C10F[(idx % 3) as usize]);
        for _ in 0..6 {
            bit_sweep(ctx, &f, None, |_| {});
        }
    } else if idx < 9 + 3 * 24 {
        // every (base, delta) value of every channel, tables and flip free
        let k = idx - 9;
        let f = by(C10F[(k % 3) as usize]);
        let ch = (k / 3 % 3) as usize;
        let mut d = vec![];
        for v in 0..=255u8 {
            for _ in 0..2 {
                let mut b = vec![0u8; 8];
                f.gen(&mut ctx.rng, &mut b);
                b[3] |= 2;
                for c in 0..3 {
                    if b[c] >> 3 < 4 || b[c] >> 3 > 27 {
                        b[c] = 0x40 | b[c] & 7;
                    }
                }
                b[ch] = v;
                d.extend_from_slice(&b);
                b[3] &= !2;
                d.extend_from_slice(&b);
            }
        }
        check_blocks(ctx, &f, &d, None);
    } else if idx < 9 + 72 + 3 {
        // every table pair x flip x mode bit with every selector
        let f = by(C10F[(idx % 3) as usize]);
        let mut d = vec![];
        for t in 0..256u32 {
            let mut b = vec![0u8; 8];
            f.gen(&mut ctx.rng, &mut b);
            b[3] = t as u8;
            for c in 0..3 { b[c] = (4 + ctx.rng.below(24) as u8) << 3 | ctx.rng.below(8) as u8 }
            b[4..].copy_from_slice(&[0x55, 0xcc, 0x33, 0xa5]);
            d.extend_from_slice(&b);
        }
        check_blocks(ctx, &f, &d, None);
    } else {
        random(ctx, &C10F, 256, None);
    }
}

// ---------------------------------------------------------------- C11
const C11F: [&str; 5] = ["etc2_rgba8", "eacr", "eacr_signed", "eacrg", "eacrg_signed"];
pub fn c11(ctx: &mut Ctx, idx: u64) {
    use texture2ddecoder as t;
    if idx < 256 {
        // every base x multiplier x table with every selector
        for name in C11F {
            let f = by(name);
            let mut d = vec![];
            for mt in 0..256u32 {
                let mut b = vec![0u8; f.bytes];
                f.gen(&mut ctx.rng, &mut b);
                let mut v = 0u64;
                let s = ctx.rng.below(8) as u64;
                for i in 0..16 { v |= ((i * 5 + s) & 7) << (3 * i) }
                let sel = v.to_be_bytes();
                b[0] = idx as u8;
                b[1] = mt as u8;
                b[2..8].copy_from_slice(&sel[2..]);
                if name.starts_with("eacrg") {
                    b[8] = (idx as u8).wrapping_add(1);
                    b[9] = mt as u8 ^ 0x5a;
                    b[10..16].copy_from_slice(&sel[2..]);
                }
                d.extend_from_slice(&b);
            }
            check_blocks(ctx, &f, &d, None);
        }
    } else {
        random(ctx, &C11F, 64, None);
        for name in C11F {
            let f = by(name);
            bit_sweep(ctx, &f, None, |_| {});
        }
        // single-channel helpers write exactly one channel
        for _ in 0..64 {
            let mut b = vec![0u8; 8];
            crate::gen::eac(&mut ctx.rng, &mut b, 4, 4);
            let bg = ctx.rng.u32() & 0x00ff_ffff | 0xff00_0000;
            for ch in 0..3usize {
                for signed in [false, true] {
                    if signed && b[0] == 0x80 { continue }
                    // channel 0 = blue byte .. 2 = red byte in the packed pixel; start from that byte = 0
                    let start = bg & !(0xff << (8 * ch));
                    let mut o = [start; 16];
                    let ok = ctx.guard("decode_eac_block", || hex(&b), || {
                        if signed { t::decode_eac_signed_block(&b, ch, &mut o) } else { t::decode_eac_block(&b, ch, &mut o) }
                    });
                    if ok.is_none() { continue }
                    let want = if signed { etc::r11s(&b) } else { etc::r11(&b) };
                    ctx.evals += 1;
                    for i in 0..16 {
                        if o[i] != start | want[i] << (8 * ch) {
                            ctx.fail(format!("decode_eac_block:signed={signed}:value"), || format!("block {} channel byte {ch} texel {i}: {:08x} want {:02x} merged into {start:08x}", hex(&b), o[i], want[i]));
                        }
                    }
                }
            }
            let mut o = [0x00123456u32; 16];
            if ctx.guard("decode_etc2_a8_block", || hex(&b), || t::decode_etc2_a8_block(&b, &mut o)).is_some() {
                let want = etc::a8(&b);
                ctx.evals += 1;
                for i in 0..16 {
                    if o[i] != want[i] << 24 | 0x123456 {
                        ctx.fail("decode_etc2_a8_block:value", || format!("block {} texel {i}: {:08x} want alpha {:02x} over 123456", hex(&b), o[i], want[i]));
                    }
                }
            }
        }
    }
}
