//! C17..C21: crunch containers.
use crate::alloc;
use crate::crn::{self, File};
use crate::formats::R;
use crate::mon::*;
use texture2ddecoder as t;
use texture2ddecoder::CrnTextureInfo;

fn dec(f: &File, w: usize, h: usize, img: &mut [u32]) -> R {
    if f.unity { t::decode_unity_crunch(&f.bytes, w, h, img) } else { t::decode_crunch(&f.bytes, w, h, img) }
}
/// the texels of the blocks the file stands for
fn inner(fmt: u8, d: &[u8], w: usize, h: usize, img: &mut [u32]) -> R {
    match fmt {
        crn::DXT1 => t::decode_bc1(d, w, h, img),
        crn::DXT5A => t::decode_bc4(d, w, h, img),
        crn::DXN_XY | crn::DXN_YX => t::decode_bc5(d, w, h, img),
        crn::ETC1 | crn::ETC1S => t::decode_etc1(d, w, h, img),
        crn::ETC2 => t::decode_etc2_rgb(d, w, h, img),
        crn::ETC2A | crn::ETC2AS => t::decode_etc2_rgba8(d, w, h, img),
        _ => t::decode_bc3(d, w, h, img),
    }
}
fn describe(f: &File) -> String {
    format!("{} crunch file, format {}, {}x{}, {} faces, {} levels: {}", if f.unity { "Unity" } else { "classic" }, f.fmt, f.w, f.h, f.faces, f.levels, hex(&f.bytes))
}
fn check(ctx: &mut Ctx, f: &File) {
    let (bx, by) = f.grid();
    ctx.evals += 1;
    ctx.seen(hash(&f.bytes));
    ctx.cov("format", f.fmt as u32);
    ctx.cov("faces", f.faces as u32);
    ctx.cov("block columns odd,rows odd", (bx as u32 & 1) << 1 | (by as u32 & 1));
    ctx.sample(|| describe(f));
    // the whole of level 0, all faces below one another; then as the caller would ask for it
    let asks = if f.h % 4 == 0 || f.faces > 1 { vec![(bx * 4, by * 4 * f.faces), (f.w, f.h)] } else { vec![(f.w, f.h), (bx * 4, by * 4)] };
    for (w, h) in asks {
        let mut want = vec![0u32; w * h];
        let mut got = vec![0x5a5a_5a5au32; w * h];
        if inner(f.fmt, &f.blocks, w, h, &mut want).is_err() {
            continue; // C02's business
        }
        let name = format!("{}{}", if f.unity { "unity" } else { "classic" }, f.fmt);
        let Some(res) = ctx.guard(&name, || describe(f), || dec(f, w, h, &mut got)) else { return };
        match res {
            Err(e) => return ctx.fail(format!("rejected:{name}"), || format!("a well-formed file is rejected ({e}), asked {w}x{h}: {}", describe(f))),
            Ok(()) => {
                ctx.covn("texels compared", 0, (w * h) as u64);
                if let Some(k) = (0..w * h).find(|&k| got[k] != want[k]) {
                    let n = (0..w * h).filter(|&k| got[k] != want[k]).count();
                    return ctx.fail(format!("texel:{name}"), || format!("asked {w}x{h}: texel ({},{}) is {:08x}, the encoded blocks give {:08x} ({n} texels differ): {}", k % w, k / w, got[k], want[k], describe(f)));
                }
            }
        }
    }
}
fn gen(ctx: &mut Ctx, fmt: u8, unity: bool, big: bool) -> File {
    let mut r = ctx.rng.clone();
    let f = crn::any(&mut r, fmt, unity, big, &mut |k, i| ctx.cov(k, i));
    ctx.rng = r;
    f
}
pub fn c18(ctx: &mut Ctx, idx: u64) {
    let fmt = crn::CLASSIC[(idx % 9) as usize];
    let f = gen(ctx, fmt, false, idx / 9 % 4 == 0);
    check(ctx, &f);
}
pub fn c19(ctx: &mut Ctx, idx: u64) {
    let fmt = crn::UNITY_DXT[(idx % 9) as usize];
    let f = gen(ctx, fmt, true, idx / 9 % 4 == 0);
    check(ctx, &f);
}
pub fn c20(ctx: &mut Ctx, idx: u64) {
    let fmt = crn::UNITY_ETC[(idx % 5) as usize];
    let f = gen(ctx, fmt, true, idx / 5 % 4 == 0);
    check(ctx, &f);
    // the classic decoder has no ETC: Err, never a picture
    let mut g = f.clone();
    if ctx.rng.chance(1, 2) {
        g = gen(ctx, *ctx.rng.clone().pick(&crn::CLASSIC), false, false);
        g.bytes[18] = crn::ETC1 + ctx.rng.below(5) as u8;
        crn::seal(&mut g.bytes);
    }
    g.unity = false;
    let mut img = vec![0u32; g.w * g.h];
    ctx.evals += 1;
    let what = g.bytes[18];
    ctx.cov("classic refuses format", what as u32);
    if let Some(Ok(())) = ctx.guard("classic-etc", || describe(&g), || dec(&g, g.w, g.h, &mut img)) {
        ctx.fail("classic-accepts-etc", || format!("decode_crunch returned Ok for format {what}: {}", describe(&g)));
    }
}

// ---- C02, C03: the same buffer contract for the crunch decoders ------------------------------------
const SENT: [u32; 2] = [0x5aa5_1234, 0xa55a_edcb];
fn some_file(ctx: &mut Ctx) -> File {
    let unity = ctx.rng.chance(1, 2);
    let fmt = if unity {
        if ctx.rng.chance(1, 2) { *ctx.rng.clone().pick(&crn::UNITY_DXT) } else { *ctx.rng.clone().pick(&crn::UNITY_ETC) }
    } else {
        *ctx.rng.clone().pick(&crn::CLASSIC)
    };
    ctx.rng.u32();
    gen(ctx, fmt, unity, false)
}
fn call(ctx: &mut Ctx, f: &File, bytes: &[u8], w: usize, h: usize, img: &mut [u32]) -> Option<R> {
    // at any address, behind other bytes
    let off = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.below(16) };
    let mut d = ctx.rng.bytes(off);
    d.extend_from_slice(bytes);
    let d: Box<[u8]> = d.into();
    let name = if f.unity { "crunch:unity" } else { "crunch:classic" };
    ctx.evals += 1;
    ctx.guard(name, || format!("asked {w}x{h} of {}, at offset {off} of an allocation", describe(f)), || if f.unity { t::decode_unity_crunch(&d[off..], w, h, img) } else { t::decode_crunch(&d[off..], w, h, img) })
}
pub fn c02(ctx: &mut Ctx) {
    let f = some_file(ctx);
    let (bx, by) = f.grid();
    let bb = crn::block_bytes(f.fmt);
    ctx.seen(hash(&f.bytes));
    ctx.cov("crunch format", f.fmt as u32 | (f.unity as u32) << 8);
    let tag = if f.unity { "unity" } else { "classic" };
    for k in 0..10 {
        let r = &mut ctx.rng;
        let (w, h) = match k { 0 => (f.w, f.h), 1 => (bx * 4, by * 4), 2 => (r.range(1, f.w), r.range(1, f.h)), 3 => (f.h, f.w), 4 => (bx * 4 + 1, by * 4), 5 => (r.range(1, 2 * f.w), r.range(1, 2 * f.h * f.faces)),
            6 => (*r.pick(&[usize::MAX, usize::MAX - 2, 1 << 62, 1 << 33]), r.range(1, 9)), 7 => (r.range(1, 9), *r.pick(&[usize::MAX, usize::MAX / 4, 1 << 61, 1 << 32])), _ => (f.w, f.h) };
        let need = w.div_ceil(4).checked_mul(h.div_ceil(4)).and_then(|n| n.checked_mul(bb));
        let px = w.checked_mul(h);
        let len = match k { 8 => r.below(f.w * f.h), 9 => f.w * f.h - 1, _ => px.filter(|&n| n <= 1 << 20).map_or(50, |n| n + if r.chance(1, 2) { r.below(30) } else { 0 }) };
        let mut img = vec![SENT[1]; len].into_boxed_slice();
        let Some(res) = call(ctx, &f, &f.bytes, w, h, &mut img) else { return };
        // the file holds one picture per face: what lies between is left open
        let fits = px.is_some_and(|n| n <= len);
        let must = if fits && need.is_some_and(|n| n <= bx * by * bb) { Some(true) } else if !fits || need.map_or(true, |n| n > f.blocks.len()) { Some(false) } else { None };
        ctx.cov("crunch case,must,Ok", k << 3 | must.map_or(2, |m| m as u32) << 1 | res.is_ok() as u32);
        if must.is_some_and(|m| m != res.is_ok()) {
            return ctx.fail(format!("crunch:{tag}:{}", if res.is_ok() { "accepted" } else { "rejected" }), || format!("asked {w}x{h} into {len} pixels: Ok={} of {}", res.is_ok(), describe(&f)));
        }
        if res.is_err() && img.iter().any(|&p| p != SENT[1]) {
            return ctx.fail(format!("crunch:{tag}:err-wrote"), || format!("asked {w}x{h} into {len} pixels: image modified although Err was returned: {}", describe(&f)));
        }
    }
    // what cannot be decoded leaves the image alone
    let o = some_file(ctx);
    for _ in 0..6 {
        let mut r = ctx.rng.clone();
        let (b, _) = corrupt(&mut r, &f, &o);
        ctx.rng = r;
        let mut img = vec![SENT[1]; f.w * f.h];
        let Some(res) = call(ctx, &f, &b, f.w, f.h, &mut img) else { continue };
        ctx.cov("corrupted crunch file, Ok", res.is_ok() as u32);
        if res.is_err() && img.iter().any(|&p| p != SENT[1]) {
            return ctx.fail(format!("crunch:{tag}:err-wrote"), || format!("image modified although Err was returned: {}x{} data {}", f.w, f.h, hex(&b)));
        }
    }
}
pub fn c03(ctx: &mut Ctx, huge: bool) {
    let f = some_file(ctx);
    ctx.seen(hash(&f.bytes));
    ctx.cov("crunch format", f.fmt as u32 | (f.unity as u32) << 8);
    let tag = if f.unity { "unity" } else { "classic" };
    let px = f.w * f.h;
    let (pre, post) = (ctx.rng.below(40), ctx.rng.range(1, 70));
    let mut got: Vec<Vec<u32>> = vec![];
    for k in 0..4 {
        let mut v: Vec<u32> = (0..pre + px + post).map(|_| match k { 0 => SENT[0], 1 => SENT[1], _ => ctx.rng.u32() }).collect();
        let before = v.clone();
        let end = if k & 1 == 1 { pre + px + post } else { pre + px };
        let mut b = f.bytes.clone();
        if k >= 2 {
            // bytes behind the file are not part of it
            let n = ctx.rng.range(1, 300);
            b.extend(ctx.rng.bytes(n));
        }
        let Some(res) = call(ctx, &f, &b, f.w, f.h, &mut v[pre..end]) else { return };
        if let Err(e) = res {
            if k >= 2 {
                ctx.fail(format!("crunch:{tag}:trailing-rejected"), || format!("bytes behind the file: Err({e}): {}", describe(&f)));
            }
            return;
        }
        if v[..pre] != before[..pre] || v[pre + px..] != before[pre + px..] {
            return ctx.fail(format!("crunch:{tag}:outside"), || format!("pixels outside the image were written: {}", describe(&f)));
        }
        got.push(v[pre..pre + px].to_vec());
    }
    ctx.cov("crunch windows", 0);
    if huge && ctx.fails.is_empty() {
        let u = f.unity;
        super::image::huge(ctx, &format!("crunch:{tag}"), &f.bytes, (f.w, f.h), f.bytes.len(), px, &got[0], &|d, w, h, o| if u { t::decode_unity_crunch(d, w, h, o) } else { t::decode_crunch(d, w, h, o) });
    }
    if got.iter().any(|g| *g != got[0]) {
        ctx.fail(format!("crunch:{tag}:depends"), || format!("the pixels depend on the buffer's content or on bytes behind the file: {}", describe(&f)));
    }
}

// ---- C17 -------------------------------------------------------------------------------------------
struct Head {
    ok: Option<bool>, // None: outside the container's own limits, either answer is fine
    v: [u32; 9],      // width height levels faces bytes/block user0 user1 format
}
fn head(b: &[u8], size: u32) -> Head {
    let n = size as usize;
    let mut v = [0u32; 9];
    if n < 74 || b.len() < 74 || b.len() < n {
        return Head { ok: Some(false), v };
    }
    let g = |o: usize, k: usize| b[o..o + k].iter().fold(0u32, |a, &x| a << 8 | x as u32);
    v = [g(12, 2), g(14, 2), g(16, 1), g(17, 1), crn::block_bytes(b[18]) as u32, g(25, 4), g(29, 4), g(18, 1), 0];
    let table = 70 + 4 * v[2] as usize;
    if g(0, 2) != 0x4878 || g(2, 2) < 74 || g(6, 4) > size || v[7] > 15 || b.len() < table {
        return Head { ok: Some(false), v };
    }
    let sane = (1..=16).contains(&v[2]) && (1..=6).contains(&v[3]) && v[0] > 0 && v[1] > 0 && v[0] <= 4096 && v[1] <= 4096 && g(2, 2) as usize >= table && n >= table && g(6, 4) as usize >= table && v[7] < 15;
    Head { ok: sane.then_some(true), v }
}
fn query(ctx: &mut Ctx, b: &[u8], size: u32, kind: u32) {
    let mut i = CrnTextureInfo::default();
    if ctx.rng.chance(1, 2) {
        // the answer depends on the header alone, not on what the caller's structure held before
        let r = &mut ctx.rng;
        (i.width, i.height, i.levels, i.faces, i.bytes_per_block, i.userdata0, i.userdata1) = (r.u32(), r.u32(), r.u32(), r.u32(), r.u32(), r.u32(), r.u32());
        ctx.cov("reused structure", 1);
    }
    let h = head(b, size);
    ctx.evals += 1;
    ctx.seen(mix(hash(b), size as u64));
    ctx.cov("kind of header", kind);
    let d = || format!("size argument {size}, {} bytes: {}", b.len(), hex(&b[..b.len().min(160)]));
    let Some(r) = ctx.guard("info", d, || i.crnd_get_texture_info(b, size)) else { return };
    ctx.cov("model,answer", h.ok.map_or(2, |x| x as u32) << 1 | r as u32);
    if h.ok.is_some_and(|o| o != r) {
        return ctx.fail(format!("verdict:{}", r), || format!("returned {r}, the header is {}: {}", if r { "not valid" } else { "valid" }, d()));
    }
    if r {
        let g = [i.width, i.height, i.levels, i.faces, i.bytes_per_block, i.userdata0, i.userdata1, i.format as u32, 0];
        if g != h.v {
            let k = (0..9).find(|&k| g[k] != h.v[k]).unwrap();
            let n = ["width", "height", "levels", "faces", "bytes_per_block", "userdata0", "userdata1", "format"][k];
            ctx.fail(format!("field:{n}"), || format!("{n} is {} instead of {}: {}", g[k], h.v[k], d()));
        }
    }
}
pub fn c17(ctx: &mut Ctx, idx: u64) {
    let unity = idx & 1 == 1;
    let fmt = if unity { (idx / 2 % 15) as u8 } else { crn::CLASSIC[(idx / 2 % 9) as usize] };
    let base = if fmt == crn::DXT3 { let mut f = gen(ctx, crn::DXT5, true, false); f.bytes[18] = 1; crn::seal(&mut f.bytes); f } else { gen(ctx, fmt, unity, false) };
    query(ctx, &base.bytes, base.bytes.len() as u32, 0);
    ctx.sample(|| format!("{}", hex(&base.bytes[..90.min(base.bytes.len())])));
    // a larger picture than what is stored is still a valid header
    for _ in 0..20 {
        let mut b = base.bytes.clone();
        let r = &mut ctx.rng;
        for (o, hi) in [(12, 4096usize), (14, 4096)] {
            let v = if r.chance(1, 4) { *r.pick(&[1, 255, 256, 257, 4095, 4096]) } else { r.range(1, hi) };
            crn::be(&mut b, o, 2, v);
        }
        b[17] = r.range(1, 6) as u8;
        for o in [19, 21, 25, 29] {
            let v = r.u32() as usize;
            crn::be(&mut b, o, if o == 19 { 2 } else { 4 }, v);
        }
        if r.chance(1, 3) { let n = base.bytes.len(); let v = r.range(70 + 4 * b[16] as usize, n); crn::be(&mut b, 6, 4, v) }
        crn::seal(&mut b);
        query(ctx, &b, b.len() as u32, 1);
    }
    // random header bytes with a few fields kept valid
    for _ in 0..40 {
        let r = &mut ctx.rng;
        let n = match r.below(5) { 0 => r.below(80), 1 => 74, 2 => r.range(74, 140), _ => r.range(74, 600) };
        let mut b = r.bytes(n);
        if n >= 74 {
            if r.chance(15, 16) { crn::be(&mut b, 0, 2, 0x4878) }
            if r.chance(7, 8) { let v = r.range(70, 160); crn::be(&mut b, 2, 2, v) }
            if r.chance(7, 8) { let v = (n + 2).saturating_sub(r.below(8)); crn::be(&mut b, 6, 4, v) }
            if r.chance(7, 8) { b[16] = r.below(18) as u8 }
            if r.chance(7, 8) { b[18] = r.below(17) as u8 }
            if r.chance(1, 2) { b[17] = r.range(1, 6) as u8; b[12] &= 15; b[14] &= 15 }
        }
        let size = match r.below(6) { 0 => r.below(2 * n + 2) as u32, 1 => (n as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1), 2 if r.chance(1, 4) => u32::MAX, _ => n as u32 };
        query(ctx, &b, size, 2);
    }
    // truncation of a valid file: at every interesting length
    let n = base.bytes.len();
    for k in 0..24usize {
        let r = &mut ctx.rng;
        let cut = match k { 0 => 0, 1 => 73, 2 => 74, 3 => 70 + 4 * base.levels, 4 => 70 + 4 * base.levels - 1, 5 => n - 1, _ => r.below(n) }.min(n);
        let size = match r.below(3) { 0 => cut as u32, 1 => n as u32, _ => r.below(n + 2) as u32 };
        let b: Box<[u8]> = base.bytes[..cut].into();
        query(ctx, &b, size, 3);
    }
    // flipping any header bit
    for _ in 0..40 {
        let mut b = base.bytes.clone();
        for _ in 0..1 + ctx.rng.below(2) {
            let k = ctx.rng.below((70 + 4 * base.levels) * 8);
            b[k / 8] ^= 1 << (k % 8);
        }
        query(ctx, &b, b.len() as u32, 4);
    }
    // a caller's struct of another size is refused
    let mut i = CrnTextureInfo::default();
    i.struct_size = i.struct_size.wrapping_add(1 + ctx.rng.below(40) as u32);
    let s = i.struct_size;
    if let Some(true) = ctx.guard("info", || "struct size".into(), || i.crnd_get_texture_info(&base.bytes, base.bytes.len() as u32)) {
        ctx.fail("struct-size", || format!("accepted a struct_size of {s}"));
    }
}

// ---- C21 -------------------------------------------------------------------------------------------
pub fn corrupt(r: &mut Rng, f: &File, other: &File) -> (Vec<u8>, u32) {
    let mut b = f.bytes.clone();
    let n = b.len();
    let kind = r.below(13) as u32;
    match kind {
        0 => b.truncate(r.below(n)),
        1 => { for _ in 0..1 + r.below(8) { let k = r.below(n * 8); b[k / 8] ^= 1 << (k % 8) } }
        2 => { for _ in 0..1 + r.below(4) { let k = r.below((70 + 4 * f.levels) * 8); b[k / 8] ^= 1 << (k % 8) } }
        3 | 4 | 5 => {
            // one segment replaced by noise
            let (o, l) = *r.pick(&f.segs);
            if l > 0 {
                let from = if kind == 5 { r.below(l) } else { 0 };
                let x = match r.below(3) { 0 => r.bytes(l - from), 1 => vec![*r.pick(&[0u8, 255, 0x55, 0xaa]); l - from], _ => { let y = r.bytes(l); let m = r.bytes(l); y.iter().zip(&m).map(|(a, b)| a & b).take(l - from).collect() } };
                b[o + from..o + l].copy_from_slice(&x);
            }
        }
        6 => {
            // palette counts, offsets and sizes
            for _ in 0..1 + r.below(3) {
                let k = 33 + 8 * r.below(4);
                match r.below(3) {
                    0 => { let v = match r.below(4) { 0 => 0, 1 => 1, 2 => 65535, _ => r.below(20) }; crn::be(&mut b, k + 6, 2, v) }
                    1 => { let v = match r.below(3) { 0 => n - r.below(5).min(n), 1 => n + r.below(20), _ => r.below(1 << 24) }; crn::be(&mut b, k, 3, v) }
                    _ => { let v = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(1 << 24), _ => r.below(n) }; crn::be(&mut b, k + 3, 3, v) }
                }
            }
        }
        7 => {
            // dimensions, faces, levels, format
            for _ in 0..1 + r.below(3) {
                match r.below(5) {
                    0 => { let v = match r.below(4) { 0 => 0, 1 => 65535, _ => r.below(65536) }; crn::be(&mut b, 12, 2, v) }
                    1 => { let v = match r.below(4) { 0 => 0, 1 => 65535, _ => r.below(65536) }; crn::be(&mut b, 14, 2, v) }
                    2 => b[16] = r.edge8(),
                    3 => b[17] = r.edge8(),
                    _ => b[18] = r.below(17) as u8,
                }
            }
        }
        8 => { let v = r.below(n + 10); crn::be(&mut b, 70, 4, if r.chance(1, 5) { r.u32() as usize } else { v }) }
        9 => { let v = match r.below(3) { 0 => r.below(65536), 1 => 0, _ => r.below(f.segs[0].1 + 1) }; crn::be(&mut b, 65, 2, v) }
        10 => { let m = if r.chance(1, 2) { n + 4 } else { 1 << 24 }; let v = r.below(m); crn::be(&mut b, 67, 3, v) }
        11 => {
            // the header of one file on the body of another
            let k = r.range(12, 70);
            let m = k.min(other.bytes.len());
            b[12..m].copy_from_slice(&other.bytes[12..m]);
        }
        _ => {
            // two of a kind: a segment pointed at another one
            let (i, j) = (r.below(4), r.below(6));
            let (o, l) = f.segs[j];
            crn::be(&mut b, 33 + 8 * i, 3, o);
            crn::be(&mut b, 36 + 8 * i, 3, l);
        }
    }
    if r.chance(1, 4) {
        let n = b.len();
        if n > 10 { let v = r.below(n + 1); crn::be(&mut b, 6, 4, v) }
    }
    if b.len() > 12 && r.chance(1, 2) { crn::seal(&mut b) }
    (b, kind)
}
fn noise(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(3) { 0 => r.below(80), _ => r.range(74, 1500) };
    let mut b = r.bytes(n);
    if n > 74 {
        crn::be(&mut b, 0, 2, 0x4878);
        crn::be(&mut b, 2, 2, 74);
        crn::be(&mut b, 6, 4, n);
        let (w, h) = crn::dims(r);
        crn::be(&mut b, 12, 2, w);
        crn::be(&mut b, 14, 2, h);
        b[16] = 1;
        b[17] = 1 + r.below(2) as u8;
        b[18] = r.below(16) as u8;
        for i in 0..4 {
            { let v = r.range(74, n); crn::be(&mut b, 33 + 8 * i, 3, v); }
            { let v = r.below(200); crn::be(&mut b, 36 + 8 * i, 3, v); }
            { let v = r.below(30); crn::be(&mut b, 39 + 8 * i, 2, v); }
        }
        { let v = r.below(200); crn::be(&mut b, 65, 2, v); }
        { let v = r.range(74, n); crn::be(&mut b, 67, 3, v); }
        { let v = r.range(74, n); crn::be(&mut b, 70, 4, v); }
    }
    b
}
/// fixed part: palettes (65535 entries of every kind), Huffman tables, block row buffers
const FIXED: u64 = 8 << 20;
fn run_hostile(ctx: &mut Ctx, b: &[u8], kind: u32, ask: &[(usize, usize)]) {
    let b: Box<[u8]> = b.into();
    for unity in [false, true] {
        for &(w, h) in ask {
            let mut img = vec![0u32; w.saturating_mul(h).min(1 << 16)].into_boxed_slice();
            ctx.evals += 1;
            ctx.cov("corruption", kind);
            let name = if unity { "unity" } else { "classic" };
            let g = guard_raw(|| {
                alloc::watch(256 << 20, || if unity { t::decode_unity_crunch(&b, w, h, &mut img) } else { t::decode_crunch(&b, w, h, &mut img) })
            });
            match g {
                Err((m, l)) => ctx.fail(panic_sig(name, &m, &l), || format!("decode_{name} {w}x{h} panicked: {m} at {l}; corruption {kind}; data {}", hex(&b))),
                Ok((n, peak, r)) => {
                    let verdict = match r { Ok(()) => 0, Err(_) => 1 };
                    ctx.cov(if unity { "unity Ok/Err" } else { "classic Ok/Err" }, verdict);
                    ctx.cov("peak allocation, log2", 64 - peak.leading_zeros());
                    let _ = n;
                    let bound = FIXED + 160 * b.len() as u64;
                    if peak > bound {
                        ctx.fail(format!("memory:{name}"), || format!("decode_{name} {w}x{h} used {peak} bytes on a {}-byte file (bound {bound}); corruption {kind}; data {}", b.len(), hex(&b)));
                    }
                    if let Err(e) = r {
                        ctx.cov("distinct error texts", (hash(e.as_bytes()) & 0xffff) as u32);
                    }
                }
            }
        }
    }
    ctx.evals += 1;
    let mut i = CrnTextureInfo::default();
    ctx.guard("info", || hex(&b), || i.crnd_get_texture_info(&b, b.len() as u32));
    ctx.seen(hash(&b));
}
pub fn c21(ctx: &mut Ctx, idx: u64) {
    let unity = idx & 1 == 1;
    let fmts: Vec<u8> = if unity { (0..15).filter(|&f| f != 1).collect() } else { crn::CLASSIC.to_vec() };
    let fmt = fmts[(idx / 2 % fmts.len() as u64) as usize];
    let f = gen(ctx, fmt, unity, idx % 16 < 2);
    let o = gen(ctx, *ctx.rng.clone().pick(&fmts), unity, false);
    let (bx, by) = f.grid();
    for k in 0..20 {
        let (b, kind) = if k < 17 { corrupt(&mut ctx.rng, &f, &o) } else { (noise(&mut ctx.rng), 20) };
        let mut r = ctx.rng.clone();
        let asks = match r.below(8) {
            0 => vec![(bx * 4, by * 4 * f.faces)],
            1 => vec![(r.below(300), r.below(200))],
            2 => vec![(*r.pick(&[0, 1, usize::MAX, usize::MAX / 2, 1 << 33]), *r.pick(&[0, 1, 4, usize::MAX, 1 << 31]))],
            _ => vec![(f.w, f.h)],
        };
        ctx.rng = r;
        run_hostile(ctx, &b, kind, &asks);
    }
    ctx.sample(|| format!("17 corruptions of a {}", describe(&f)));
}

// ---- C28: the query and the decoders agree on what a crunch file is --------------------------------
struct Said {
    info: Option<CrnTextureInfo>,
    ok: [bool; 2], // classic, unity
}
fn ask_all(ctx: &mut Ctx, b: &[u8], w: usize, h: usize, kind: u32) -> Option<Said> {
    let d: Box<[u8]> = b.into();
    let mut i = CrnTextureInfo::default();
    let q = ctx.guard("info", || hex(b), || i.crnd_get_texture_info(&d, d.len() as u32))?;
    let mut ok = [false; 2];
    for unity in [false, true] {
        let mut img = vec![SENT[0]; w * h];
        let name = if unity { "unity" } else { "classic" };
        let r = ctx.guard(name, || format!("{w}x{h} kind {kind}: {}", hex(b)), || if unity { t::decode_unity_crunch(&d, w, h, &mut img) } else { t::decode_crunch(&d, w, h, &mut img) })?;
        ok[unity as usize] = r.is_ok();
    }
    ctx.evals += 1;
    ctx.seen(mix(hash(b), (w << 20 | h) as u64));
    ctx.cov("kind,query,classic,unity", kind << 3 | (q as u32) << 2 | (ok[0] as u32) << 1 | ok[1] as u32);
    Some(Said { info: q.then_some(i), ok })
}
fn agree(ctx: &mut Ctx, b: &[u8], w: usize, h: usize, kind: u32) {
    let Some(mut s) = ask_all(ctx, b, w, h, kind) else { return };
    let Some(i) = s.info.take() else {
        for (k, name) in ["classic", "unity"].into_iter().enumerate() {
            if s.ok[k] {
                ctx.fail(format!("disagree:{name}"), || format!("decode_{name} {w}x{h} returned Ok for a file the info query rejects: {}", hex(b)));
            }
        }
        return;
    };
    let (iw, ih, faces, levels) = (i.width, i.height, i.faces, i.levels);
    let f = i.format as u32 as u8;
    for k in 0..2 {
        if !s.ok[k] {
            continue;
        }
        let name = ["classic", "unity"][k];
        let have = (iw as usize).max(1).div_ceil(4) * (ih as usize).max(1).div_ceil(4) * faces as usize;
        if w.div_ceil(4) * h.div_ceil(4) > have {
            ctx.fail(format!("too-much:{name}"), || format!("decode_{name} returned Ok for {w}x{h}, the file says {}x{} with {} faces: {}", iw, ih, faces, hex(b)));
        }
        let can = crn::CLASSIC.contains(&f) || k == 1 && crn::UNITY_ETC.contains(&f);
        if !can || levels == 0 {
            ctx.fail(format!("cannot:{name}"), || format!("decode_{name} {w}x{h} returned Ok for format {f} with {} levels: {}", levels, hex(b)));
        }
    }
}
pub fn c28(ctx: &mut Ctx, idx: u64) {
    let unity = idx & 1 == 1;
    let fmts: Vec<u8> = if unity { (0..15).filter(|&f| f != 1).collect() } else { crn::CLASSIC.to_vec() };
    let fmt = fmts[(idx / 2 % fmts.len() as u64) as usize];
    let f = gen(ctx, fmt, unity, idx % 16 < 2);
    let o = gen(ctx, *ctx.rng.clone().pick(&fmts), unity, false);
    let n = f.bytes.len();
    ctx.sample(|| describe(&f));
    // the file itself, whole
    let Some(s) = ask_all(ctx, &f.bytes, f.w, f.h, 0) else { return };
    if s.info.is_none() || !s.ok[unity as usize] {
        return ctx.fail("whole", || format!("query {}, classic {}, unity {} on a well-formed file: {}", s.info.is_some(), s.ok[0], s.ok[1], describe(&f)));
    }
    // cut short anywhere: refused by all three
    let cuts: Vec<usize> = if n <= 400 && idx % 8 < 2 { (0..n).collect() } else {
        let mut v: Vec<usize> = f.segs.iter().flat_map(|&(o, l)| [o, o + l, (o + l).saturating_sub(1)]).collect();
        v.extend([0, 1, 73, 74, n - 1, n - 2]);
        for _ in 0..12 { v.push(ctx.rng.below(n)) }
        v.retain(|&k| k < n);
        v
    };
    for k in cuts {
        let (w, h) = if ctx.rng.chance(1, 4) { (1, 1) } else { (f.w, f.h) };
        let Some(s) = ask_all(ctx, &f.bytes[..k], w, h, 1) else { return };
        if s.info.is_some() || s.ok[0] || s.ok[1] {
            return ctx.fail(format!("cut:{}{}{}", s.info.is_some() as u8, s.ok[0] as u8, s.ok[1] as u8), || format!("query {}, classic {}, unity {} on the first {k} of {n} bytes: {}", s.info.is_some(), s.ok[0], s.ok[1], describe(&f)));
        }
    }
    // damaged in any way: what one of them accepts the query does not reject, and no more than the file holds
    for k in 0..20 {
        let mut r = ctx.rng.clone();
        let (b, kind) = if k < 17 { corrupt(&mut r, &f, &o) } else { (noise(&mut r), 20) };
        let (w, h) = match r.below(4) { 0 => (r.range(1, 80), r.range(1, 80)), 1 => (1, 1), _ => (f.w, f.h) };
        ctx.rng = r;
        agree(ctx, &b, w, h, 2 + kind);
    }
}
