//! C27: what a call may cost.
use super::image::{all_images, Im};
use crate::alloc;
use crate::cost::{Cost, Meter};
use crate::crn;
use crate::formats::R;
use crate::mon::*;
use std::cell::RefCell;
use texture2ddecoder as t;

thread_local! {
    static M: RefCell<Meter> = RefCell::new(Meter::new());
    static IMS: Vec<Im> = all_images();
}
pub const ITEMS: u64 = 39 + 9 + 9 + 5;
/// constant part of every instruction bound: dispatch, checks, tables set up once per call
const SLACK: u64 = 20_000;
const STACK: u64 = 64 << 10;
const HEAP: u64 = 64 << 10;
// many times what the decoders need at the pinned commit
const CRN_FIXED: u64 = 1_000_000;
const CRN_TEXEL: u64 = 500;
const CRN_BYTE: u64 = 2_500;
// four palettes of 65535 entries, whatever the file's size
const HOSTILE_FIXED: u64 = 1_000_000_000;
const HOSTILE_BYTE: u64 = 50_000;
/// instructions per block
fn budget(im: &Im) -> u64 {
    let n = &im.name;
    let dear = n.starts_with("bc6") || n.starts_with("bc7") || n.starts_with("astc") || n.starts_with("pvrtc");
    (im.bw * im.bh) as u64 * if dear { 1500 } else { 500 } + if dear { 25_000 } else { 4_000 }
}

fn run(ctx: &mut Ctx, name: &str, what: &str, d: &[u8], w: usize, h: usize, px: usize, f: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> R) -> Option<(Cost, bool)> {
    let mut img = vec![0u32; px];
    let mut res: Option<R> = None;
    ctx.evals += 1;
    let c = M.with(|m| m.borrow_mut().run(&mut || res = Some(f(d, w, h, &mut img))));
    let c = match c {
        Ok(c) => c,
        Err((m, l)) => {
            ctx.fail(panic_sig(name, &m, &l), || format!("{name}, {what}, {w}x{h}, {} bytes: panicked: {m} at {l}", d.len()));
            return None;
        }
    };
    if ctx.verbose || std::env::var_os("COST_DUMP").is_some() {
        eprintln!("{name}\t{what}\t{w}x{h}\tok={}\tinstr={:?}\theap={}\tallocs={}\tstack={}\tper-texel={}", res.unwrap().is_ok(), c.instr, c.heap, c.allocs, c.stack, c.instr.unwrap_or(0) / (w.max(1) as u64).saturating_mul(h.max(1) as u64));
    }
    ctx.seen(mix(hash(d), mix(w as u64, h as u64) ^ px as u64));
    if let Some(n) = c.instr {
        ctx.covn("instructions observed", 0, n);
        ctx.cov("instructions per call, log2", 64 - n.leading_zeros());
    }
    ctx.cov("heap peak, log2", 64 - c.heap.leading_zeros());
    ctx.cov("stack depth, log2", 64 - c.stack.leading_zeros());
    if c.stack > STACK {
        ctx.fail(format!("stack:{name}"), || format!("{name}, {what}, {w}x{h}: used {} bytes of stack (bound {STACK})", c.stack));
    }
    Some((c, res.unwrap().is_ok()))
}
fn tile(pool: &[u8], bytes: usize, pw: usize, ph: usize, bx: usize, by: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(bx * by * bytes);
    for y in 0..by {
        for x in 0..bx {
            let k = (y % ph) * pw + x % pw;
            v.extend_from_slice(&pool[k * bytes..(k + 1) * bytes]);
        }
    }
    v
}
fn over(ctx: &mut Ctx, sig: String, a: Option<u64>, bound: u64, what: impl FnOnce() -> String) {
    if let Some(a) = a {
        if a > bound {
            ctx.fail(sig, || format!("{}: {a} instructions, bound {bound}", what()));
        }
    }
}
fn image(ctx: &mut Ctx, im: &Im, idx: u64) {
    let n = &im.name;
    let f = |d: &[u8], w: usize, h: usize, o: &mut [u32]| (im.dec)(d, w, h, o);
    let (bw, bh) = (im.bw, im.bh);
    let (pw, ph) = if im.pow2 { (8, 8) } else { (ctx.rng.range(6, 9), ctx.rng.range(6, 9)) };
    let mut r = ctx.rng.clone();
    let mut pool = im.data(&mut r, pw * ph * im.bytes);
    // an image of equal blocks (black borders, empty layers) is no dearer than any other
    let plain = idx / ITEMS % 4;
    match plain {
        1 => pool.fill(0),
        2 => pool.fill(if r.chance(1, 2) { 0xff } else { r.u8() }),
        3 => {
            // the second half repeats one block
            let b = if r.chance(1, 2) { vec![0; im.bytes] } else { pool[..im.bytes].to_vec() };
            for c in pool.chunks_mut(im.bytes).skip(pw * ph / 2) {
                c.copy_from_slice(&b);
            }
        }
        _ => {}
    }
    ctx.rng = r;
    ctx.cov("block pool", plain as u32);
    let k = 4;
    let (w, h) = (pw * bw, ph * bh);
    let Some((small, ok)) = run(ctx, n, "small", &pool, w, h, w * h, &f) else { return };
    if !ok {
        return ctx.fail(format!("rejected:{n}"), || format!("{n} {w}x{h} is rejected"));
    }
    let big_d = tile(&pool, im.bytes, pw, ph, k * pw, k * ph);
    let Some((big, _)) = run(ctx, n, "large", &big_d, k * w, k * h, k * k * w * h, &f) else { return };
    let bound = small.instr.map_or(0, |s| s * 16 * 3 / 2 + SLACK);
    over(ctx, format!("scale:{n}"), big.instr, bound, || format!("{n}: {w}x{h} takes {:?}, the same blocks four times as wide and high", small.instr));
    if !ctx.fails.is_empty() {
        return;
    }
    // one row, one column of as many blocks
    let nb = k * k * pw * ph;
    for (what, bx, by) in [("row", nb, 1), ("column", 1, nb)] {
        let d = tile(&pool, im.bytes, pw * ph, 1, nb, 1);
        let (w1, h1) = (bx * bw, by * bh);
        let Some((c, _)) = run(ctx, n, what, &d, w1, h1, w1 * h1, &f) else { return };
        over(ctx, format!("shape:{n}:{what}"), c.instr, big.instr.map_or(0, |b| b * 2 + SLACK), || format!("{n}: {nb} blocks in a {what}; in a rectangle {:?}", big.instr));
    }
    // more data and a larger buffer than needed
    let mut d = pool.clone();
    d.resize(pool.len() + (1 << 20), if plain == 0 { 0x77 } else { *pool.last().unwrap() });
    let Some((c, _)) = run(ctx, n, "surplus", &d, w, h, w * h + (1 << 18), &f) else { return };
    if c.heap > small.heap + 4096 {
        ctx.fail(format!("surplus-heap:{n}"), || format!("{n} {w}x{h}: heap peak {} with 1 MiB of surplus data and pixels; without {}", c.heap, small.heap));
    }
    over(ctx, format!("surplus:{n}"), c.instr, small.instr.map_or(0, |b| b * 5 / 4 + SLACK), || format!("{n} {w}x{h} with 1 MiB of surplus data and pixels; without {:?}", small.instr));
    // requests that must be refused
    for (what, dl, px) in [("short data", big_d.len() - 1, k * k * w * h), ("short image", big_d.len(), k * k * w * h - 1), ("no data", 0, k * k * w * h), ("no image", big_d.len(), 0)] {
        let Some((c, ok)) = run(ctx, n, what, &big_d[..dl], k * w, k * h, px, &f) else { return };
        if !ok {
            if c.heap > 4096 {
                ctx.fail(format!("refusal-heap:{n}"), || format!("{n} {}x{} refused for {what} after allocating {} bytes", k * w, k * h, c.heap));
            }
            over(ctx, format!("refusal:{n}"), c.instr, SLACK, || format!("{n} {}x{} refused for {what}", k * w, k * h));
        }
    }
    if im.pow2 {
        let (w, h) = (k * w - bw * ctx.rng.range(1, 7), k * h);
        let Some((c, ok)) = run(ctx, n, "no power of two", &big_d, w, h, w * h, &f) else { return };
        if !ok {
            over(ctx, format!("refusal:{n}"), c.instr, SLACK, || format!("{n} {w}x{h} refused for its size"));
            if c.heap > 4096 {
                ctx.fail(format!("refusal-heap:{n}"), || format!("{n} {w}x{h} refused for its size after allocating {} bytes", c.heap));
            }
        }
    }
    over(ctx, format!("budget:{n}"), big.instr, budget(im) * nb as u64 + SLACK, || format!("{n}: {nb} blocks"));
    for (what, c, blocks) in [("small", small, pw * ph), ("large", big, nb)] {
        // twice the picture
        let hb = HEAP + (128 + 8 * bw * bh) as u64 * blocks as u64;
        if c.heap > hb {
            ctx.fail(format!("heap:{n}"), || format!("{n}, {what}, {blocks} blocks: heap peak {} (bound {hb})", c.heap));
        }
    }
    if big.stack > small.stack + 4096 {
        ctx.fail(format!("stack-grows:{n}"), || format!("{n}: {} bytes of stack, {} for 16 times the blocks", small.stack, big.stack));
    }
    if let Some(i) = big.instr {
        ctx.cov("instructions per texel", (i / (k * k * w * h) as u64) as u32);
    }
}
fn crunch(ctx: &mut Ctx, unity: bool, fmt: u8) {
    let n = format!("{}{fmt}", if unity { "unity" } else { "classic" });
    let f = |d: &[u8], w: usize, h: usize, o: &mut [u32]| if unity { t::decode_unity_crunch(d, w, h, o) } else { t::decode_crunch(d, w, h, o) };
    let mut other: Option<crn::File> = None;
    for big in [false, true] {
        let mut r = ctx.rng.clone();
        let (w, h) = if big { (r.range(200, 300), r.range(200, 300)) } else { crn::dims(&mut r) };
        let faces = if r.chance(1, 4) { 2 } else { 1 };
        let file = crn::make(&mut r, fmt, unity, crn::Want { w, h, faces, big, gaps: false }, &mut |k, i| ctx.cov(k, i));
        ctx.rng = r;
        let len = file.bytes.len() as u64;
        let (bx, by) = file.grid();
        let texels = (bx * by * faces * 16) as u64;
        let (ib, hb) = (CRN_FIXED + CRN_TEXEL * texels + CRN_BYTE * len, HEAP + 3 * (texels / 16 * crn::block_bytes(fmt) as u64) + 32 * len);
        let Some((c, ok)) = run(ctx, &n, "file", &file.bytes, w, h, w * h, &f) else { return };
        if !ok {
            return ctx.fail(format!("rejected:{n}"), || format!("{n} {w}x{h} is rejected"));
        }
        over(ctx, format!("budget:{n}"), c.instr, ib, || format!("{n}: {texels} texels, file of {len} bytes"));
        if let Some(i) = c.instr {
            ctx.cov("crunch: instructions, percent of the bound", (i * 100 / ib) as u32);
        }
        if c.heap > hb {
            ctx.fail(format!("heap:{n}"), || format!("{n}: {texels} texels, file of {len} bytes: heap peak {} (bound {hb})", c.heap));
        }
        ctx.cov("crunch: heap peak, percent of the bound", (c.heap * 100 / hb) as u32);
        // bytes behind the file and pixels behind the image cost nothing
        let mut d = file.bytes.clone();
        d.resize(d.len() + (1 << 20), 0x77);
        let Some((s, _)) = run(ctx, &n, "surplus", &d, w, h, w * h + (1 << 18), &f) else { return };
        over(ctx, format!("surplus:{n}"), s.instr, c.instr.map_or(0, |b| b * 5 / 4 + SLACK), || format!("{n} {w}x{h} with 1 MiB of surplus data and pixels; without {:?}", c.instr));
        if s.heap > c.heap + (c.heap >> 2) + 4096 {
            ctx.fail(format!("surplus-heap:{n}"), || format!("{n} {w}x{h}: heap peak {} with 1 MiB of surplus data and pixels; without {}", s.heap, c.heap));
        }
        // damaged files: work and memory stay within what the file and its image could need
        let o = other.clone().unwrap_or_else(|| file.clone());
        for _ in 0..if big { 3 } else { 12 } {
            let mut r = ctx.rng.clone();
            let (d, kind) = super::crunch::corrupt(&mut r, &file, &o);
            ctx.rng = r;
            let len = d.len() as u64;
            let Some((c, ok)) = run(ctx, &n, "damaged", &d, w, h, w * h, &f) else { return };
            ctx.cov("damaged: kind, Ok", kind << 1 | ok as u32);
            let ib = HOSTILE_FIXED + HOSTILE_BYTE * len;
            over(ctx, format!("damaged:{n}"), c.instr, ib, || format!("{n}: damaged file (kind {kind}) of {len} bytes, ok={ok}: {}", hex(&d)));
            if let Some(i) = c.instr {
                ctx.cov("damaged: instructions, percent of the bound", (i * 100 / ib) as u32);
            }
        }
        other = Some(file);
    }
}
struct Call {
    what: &'static str,
    d: Vec<u8>,
    w: usize,
    h: usize,
    px: usize,
}
/// Makes the calls twice in the same order; the second time round nothing may be left on the heap.
/// (What the first round leaves may be a table made once, or results kept for equal arguments.)
fn kept(ctx: &mut Ctx, name: &str, calls: &[Call], f: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> R) {
    let mut img = vec![0u32; calls.iter().map(|c| c.px).max().unwrap_or(0)];
    for round in 0..2 {
        let mut net = 0;
        let mut first: Option<(usize, i64)> = None;
        for (i, c) in calls.iter().enumerate() {
            ctx.evals += 1;
            let l = alloc::live();
            let Ok(r) = guard_raw(|| f(&c.d, c.w, c.h, &mut img[..c.px])) else { return };
            let k = alloc::live() - l;
            net += k;
            if k > 0 && first.is_none() {
                first = Some((i, k));
            }
            if round == 1 {
                ctx.cov("kept memory: calls observed, Ok", r.is_ok() as u32);
            }
        }
        if round == 1 && net > 0 {
            let (i, k) = first.unwrap();
            let c = &calls[i];
            return ctx.fail(format!("kept:{name}"), || {
                format!("{name}: {} calls made for the second time leave {net} bytes allocated, call {i} ({}, {}x{}, {} bytes of data, {} pixels) {k}: {}", calls.len(), c.what, c.w, c.h, c.d.len(), c.px, hex(&c.d))
            });
        }
    }
}
fn kept_image(ctx: &mut Ctx, im: &Im) {
    let mut r = ctx.rng.clone();
    let mut calls = Vec::new();
    for i in 0..16 {
        let (bx, by) = if im.pow2 { (1 << r.range(0, 4), 1 << r.range(0, 4)) } else { (r.range(1, 6), r.range(1, 6)) };
        let cut = |r: &mut Rng, b: usize| if im.pow2 { 0 } else { r.range(0, b) };
        let (w, h) = (bx * im.bw - cut(&mut r, im.bw), by * im.bh - cut(&mut r, im.bh));
        let mut c = Call { what: "valid", d: im.data(&mut r, bx * by * im.bytes), w, h, px: w * h };
        match i % 8 {
            3 => (c.what, c.px) = ("short image", r.range(0, c.px)),
            4 => {
                let n = r.range(0, c.d.len());
                c.d.truncate(n);
                c.what = "short data";
            }
            5 => (c.what, c.w) = ("empty", 0),
            6 => (c.what, c.w) = ("one texel wider", c.w + 1),
            7 => (c.what, c.h) = ("too high", usize::MAX / 2),
            _ => {}
        }
        calls.push(c);
    }
    ctx.rng = r;
    kept(ctx, &im.name, &calls, &|d, w, h, o| (im.dec)(d, w, h, o));
}
fn kept_crunch(ctx: &mut Ctx, unity: bool, fmt: u8) {
    let n = format!("{}{fmt}", if unity { "unity" } else { "classic" });
    let mut calls = Vec::new();
    let mut r = ctx.rng.clone();
    let files: Vec<crn::File> = (0..3)
        .map(|i| {
            let (w, h) = crn::dims(&mut r);
            crn::make(&mut r, fmt, unity, crn::Want { w, h, faces: 1 + i % 2, big: false, gaps: false }, &mut |_, _| {})
        })
        .collect();
    for (i, f) in files.iter().enumerate() {
        let (w, h) = (f.w, f.h);
        let mut add = |what, d, w, h, px| calls.push(Call { what, d, w, h, px });
        add("valid", f.bytes.clone(), w, h, w * h);
        add("short image", f.bytes.clone(), w, h, (w * h).saturating_sub(1));
        for n in [0, 16, 70, f.bytes.len() / 2, f.bytes.len() - 1] {
            add("short data", f.bytes[..n.min(f.bytes.len())].to_vec(), w, h, w * h);
        }
        for _ in 0..4 {
            let (d, _) = super::crunch::corrupt(&mut r, f, &files[(i + 1) % files.len()]);
            add("damaged", d, w, h, w * h);
        }
    }
    ctx.rng = r;
    kept(ctx, &n, &calls, &|d, w, h, o| if unity { t::decode_unity_crunch(d, w, h, o) } else { t::decode_crunch(d, w, h, o) });
}
pub fn c27(ctx: &mut Ctx, idx: u64) {
    if !ctx.fails.is_empty() {
        return; // what costs too much is not worth waiting for twice
    }
    let k = idx % ITEMS;
    IMS.with(|v| {
        assert_eq!(v.len(), 39);
        match k {
            0..=38 => {
                kept_image(ctx, &v[k as usize]);
                if ctx.fails.is_empty() {
                    image(ctx, &v[k as usize], idx)
                }
            }
            _ => {
                let (unity, fmt) = match k {
                    39..=47 => (false, crn::CLASSIC[k as usize - 39]),
                    48..=56 => (true, crn::UNITY_DXT[k as usize - 48]),
                    _ => (true, crn::UNITY_ETC[k as usize - 57]),
                };
                kept_crunch(ctx, unity, fmt);
                if ctx.fails.is_empty() {
                    crunch(ctx, unity, fmt)
                }
            }
        }
    })
}
