//! Image-level contracts shared by every block format and by PVRTC:
//! C02 size contract, C03 footprint / independence, C04 tiling and cropping, C26 aliases.
use crate::huge::{trimmed, Alias, Huge};
use crate::formats::*;
use crate::gen;
use crate::mon::*;
use texture2ddecoder as t;

/// a format at image level only (block formats, arbitrary ASTC footprints, PVRTC, dispatchers)
pub struct Im {
    pub name: String,
    pub bytes: usize,
    pub bw: usize,
    pub bh: usize,
    pub pow2: bool,
    pub dec: Box<dyn Fn(&[u8], usize, usize, &mut [u32]) -> R>,
    pub fmt: Option<Fmt>,
}
impl Im {
    pub fn need(&self, w: usize, h: usize) -> usize {
        w.div_ceil(self.bw) * h.div_ceil(self.bh) * self.bytes
    }
    pub fn data(&self, r: &mut Rng, n: usize) -> Vec<u8> {
        match &self.fmt {
            Some(f) => f.gen_blocks(r, n / self.bytes),
            None => {
                let mut v = vec![0; n];
                for b in v.chunks_mut(8) {
                    gen::pvrtc(r, b);
                }
                gen::relate(r, &mut v, 8);
                v
            }
        }
    }
    pub fn dims(&self, r: &mut Rng) -> (usize, usize) {
        if self.pow2 {
            let side = |r: &mut Rng, b: usize| {
                let n = 1usize << r.below(4);
                let lo = if n == 1 { 1 } else { (n - 1) * b + 1 };
                if r.chance(1, 2) { n * b } else { r.range(lo, n * b) }
            };
            (side(r, self.bw), side(r, self.bh))
        } else {
            let side = |r: &mut Rng, b: usize| match r.below(6) {
                0 => 1,
                1 => b,
                2 => b * r.range(1, 5),
                3 => r.range(1, b),
                _ => r.range(1, 5 * b + 1),
            };
            (side(r, self.bw), side(r, self.bh))
        }
    }
}
pub fn all_images() -> Vec<Im> {
    let mut v: Vec<Im> = vec![];
    for f in all() {
        let f = *f;
        v.push(Im { name: f.name.into(), bytes: f.bytes, bw: f.bw, bh: f.bh, pow2: false, dec: Box::new(move |d, w, h, o| f.image(d, w, h, o)), fmt: Some(f) });
    }
    for signed in [false, true] {
        let f = by("bc6_signed");
        v.push(Im { name: format!("bc6(signed={signed})"), bytes: 16, bw: 4, bh: 4, pow2: false, dec: Box::new(move |d, w, h, o| t::decode_bc6(d, w, h, o, signed)), fmt: Some(f) });
    }
    for (two, n) in [(false, "pvrtc_4bpp"), (true, "pvrtc_2bpp")] {
        let bw = if two { 8 } else { 4 };
        v.push(Im { name: n.into(), bytes: 8, bw, bh: 4, pow2: true, dec: Box::new(if two { t::decode_pvrtc_2bpp } else { t::decode_pvrtc_4bpp }), fmt: None });
        v.push(Im { name: format!("pvrtc(2bpp={two})"), bytes: 8, bw, bh: 4, pow2: true, dec: Box::new(move |d, w, h, o| t::decode_pvrtc(d, w, h, o, two)), fmt: None });
    }
    v
}
thread_local! {
    static IMS: Vec<Im> = all_images();
}
pub fn with<R>(ctx: &mut Ctx, idx: u64, f: impl FnOnce(&mut Ctx, &Im, usize) -> R) -> R {
    IMS.with(|v| {
        let n = v.len() + 4; // + arbitrary ASTC footprints
        let k = (idx % n as u64) as usize;
        if k < v.len() {
            f(ctx, &v[k], k)
        } else {
            let (bw, bh) = loop {
                let (a, b) = (ctx.rng.range(1, 16), ctx.rng.range(1, 16));
                if a * b <= 144 {
                    break (a, b);
                }
            };
            let q = astc_any(bw, bh);
            let im = Im { name: "astc_any".into(), bytes: 16, bw, bh, pow2: false, dec: Box::new(move |d, w, h, o| q.image(d, w, h, o)), fmt: Some(q) };
            f(ctx, &im, v.len())
        }
    })
}
pub fn n_images() -> u64 {
    IMS.with(|v| v.len() as u64 + 4)
}

const SENT: [u32; 2] = [0x5aa5_1234, 0xa55a_edcb];

/// call a decoder with exactly-sized heap buffers placed so that red-zone tools see any overrun
fn run(ctx: &mut Ctx, im: &Im, data: &[u8], w: usize, h: usize, img: &mut [u32]) -> Option<R> {
    let d: Box<[u8]> = data.into();
    ctx.guard(&im.name, || format!("decode_{}({w}x{h}, {} data bytes, image len {})", im.name, d.len(), 0), || (im.dec)(&d, w, h, img))
}

fn run_at(ctx: &mut Ctx, im: &Im, data: &[u8], off: usize, w: usize, h: usize, img: &mut [u32]) -> Option<R> {
    let mut d = ctx.rng.bytes(off);
    d.extend_from_slice(data);
    let d: Box<[u8]> = d.into();
    ctx.guard(&im.name, || format!("decode_{}({w}x{h}, {} data bytes at offset {off} of an allocation)", im.name, data.len()), || (im.dec)(&d[off..], w, h, img))
}

pub fn c02(ctx: &mut Ctx, idx: u64) {
    if idx % 8 == 0 {
        super::crunch::c02(ctx);
    }
    with(ctx, idx, |ctx, im, k| {
        ctx.cov("decoder", k as u32);
        let (w, h) = im.dims(&mut ctx.rng);
        let need = im.need(w, h);
        let px = w * h;
        let extra = ctx.rng.range(1, 40);
        let full = im.data(&mut ctx.rng, need.div_ceil(im.bytes) * im.bytes);
        ctx.seen(mix(mix(k as u64, (w * 65536 + h) as u64), im.bw as u64 * 16 + im.bh as u64));
        ctx.sample(|| format!("decode_{} {w}x{h}: needs {need} bytes and {px} pixels", im.name));
        // exact sizes
        let mut exact = vec![SENT[0]; px].into_boxed_slice();
        match run(ctx, im, &full, w, h, &mut exact) {
            Some(Err(e)) => ctx.fail(format!("{}:exact-rejected", im.name), || format!("{w}x{h}: {need} bytes and {px} pixels are exactly enough, got Err({e})")),
            None => return,
            _ => {}
        }
        ctx.evals += 1;
        // longer data, longer image: same result
        let mut d2 = full.clone();
        d2.extend(ctx.rng.bytes(extra));
        let mut big = vec![SENT[0]; px + extra];
        match run(ctx, im, &d2, w, h, &mut big) {
            Some(Err(e)) => ctx.fail(format!("{}:longer-rejected", im.name), || format!("{w}x{h}: {} bytes for {need} needed: Err({e})", d2.len())),
            Some(Ok(())) => {
                if big[..px] != exact[..] {
                    ctx.fail(format!("{}:trailing-data", im.name), || format!("{w}x{h}: trailing bytes/longer image changed the decoded pixels; data {}", hex(&full)));
                }
            }
            None => {}
        }
        ctx.evals += 1;
        // short data: 1..all bytes missing
        let mut cuts = vec![need - 1, need.saturating_sub(im.bytes), 0, ctx.rng.below(need)];
        cuts.dedup();
        for c in cuts {
            let mut img = vec![SENT[1]; px + extra];
            match run(ctx, im, &full[..c], w, h, &mut img) {
                Some(Ok(())) => ctx.fail(format!("{}:short-data-accepted", im.name), || format!("{w}x{h}: {c} bytes accepted, {need} are needed")),
                Some(Err(_)) => {
                    ctx.cov("short data rejected", k as u32);
                    if img.iter().any(|&p| p != SENT[1]) {
                        ctx.fail(format!("{}:err-wrote", im.name), || format!("{w}x{h}: image modified although Err was returned (data {c} of {need})"));
                    }
                }
                None => {}
            }
            ctx.evals += 1;
        }
        // short image
        let mut cuts = vec![px - 1, 0, ctx.rng.below(px)];
        cuts.dedup();
        for c in cuts {
            let mut img = vec![SENT[1]; c].into_boxed_slice();
            match run(ctx, im, &full, w, h, &mut img) {
                Some(Ok(())) => ctx.fail(format!("{}:short-image-accepted", im.name), || format!("{w}x{h}: image of {c} pixels accepted, {px} are needed")),
                Some(Err(_)) => {
                    ctx.cov("short image rejected", k as u32);
                    if img.iter().any(|&p| p != SENT[1]) {
                        ctx.fail(format!("{}:err-wrote", im.name), || format!("{w}x{h}: image modified although Err was returned (image {c} of {px})"));
                    }
                }
                None => {}
            }
            ctx.evals += 1;
        }
        // empty images never touch anything
        for (a, b) in [(0, 0), (0, h), (w, 0)] {
            let mut img = vec![SENT[1]; extra];
            let _ = run(ctx, im, &full, a, b, &mut img);
            if img.iter().any(|&p| p != SENT[1]) {
                ctx.fail(format!("{}:empty-wrote", im.name), || format!("{a}x{b} wrote pixels"));
            }
            ctx.evals += 1;
        }
        // sizes no buffer can satisfy
        const H: [usize; 14] = [
            usize::MAX, usize::MAX - 1, usize::MAX - 3, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 62, 1 << 61, 1 << 34, 1 << 33,
            (1 << 32) + 1, 1 << 32, 1 << 31, 1 << 60, (1 << 32) - 1,
        ];
        for _ in 0..6 {
            let a = *ctx.rng.pick(&H);
            let b = if ctx.rng.chance(1, 2) { *ctx.rng.pick(&H) } else { ctx.rng.range(1, 64) };
            let (a, b) = if ctx.rng.chance(1, 2) { (a, b) } else { (b, a) };
            let mut img = vec![SENT[1]; extra];
            match run(ctx, im, &full, a, b, &mut img) {
                Some(Ok(())) => ctx.fail(format!("{}:huge-accepted", im.name), || format!("{a}x{b} accepted with {} bytes and {extra} pixels", full.len())),
                Some(Err(_)) => {
                    ctx.cov("unsatisfiable size rejected", k as u32);
                    if img.iter().any(|&p| p != SENT[1]) {
                        ctx.fail(format!("{}:err-wrote", im.name), || format!("{a}x{b}: image modified although Err was returned"));
                    }
                }
                None => {}
            }
            ctx.evals += 1;
        }
        // PVRTC: block counts must be powers of two
        if im.pow2 {
            for _ in 0..4 {
                let nx = ctx.rng.range(1, 12);
                let ny = ctx.rng.range(1, 12);
                let (a, b) = (nx * im.bw - ctx.rng.below(im.bw), ny * im.bh - ctx.rng.below(im.bh));
                let d = im.data(&mut ctx.rng, nx * ny * 8);
                let mut img = vec![SENT[1]; a * b];
                let p2 = nx.is_power_of_two() && ny.is_power_of_two();
                if let Some(r) = run(ctx, im, &d, a, b, &mut img) {
                    if r.is_ok() != p2 {
                        ctx.fail(format!("{}:pow2", im.name), || format!("{nx}x{ny} blocks: Ok={}, power-of-two={p2}", r.is_ok()));
                    }
                    if r.is_err() && img.iter().any(|&p| p != SENT[1]) {
                        ctx.fail(format!("{}:err-wrote", im.name), || format!("{nx}x{ny} blocks: image modified although Err was returned"));
                    }
                }
                ctx.cov("block count power of two", p2 as u32);
                ctx.evals += 1;
            }
        }
        // ASTC footprints that cannot be
        if im.name == "astc_any" {
            for (a, b) in [(0, 0), (0, 5), (5, 0), (12, 13), (13, 12), (145, 1), (1, 145), (usize::MAX, 2), (2, usize::MAX), (1 << 32, 1 << 32), (1 << 33, 1 << 31), (16, 16)] {
                let mut img = vec![SENT[1]; 64];
                let d = ctx.rng.bytes(4096);
                let r = ctx.guard("astc footprint", || format!("decode_astc block {a}x{b}"), || t::decode_astc(&d, 8, 8, a, b, &mut img));
                if let Some(Ok(())) = r {
                    ctx.fail("astc:footprint-accepted", || format!("ASTC footprint {a}x{b} accepted"));
                }
                if img.iter().any(|&p| p != SENT[1]) {
                    ctx.fail("astc:footprint-wrote", || format!("ASTC footprint {a}x{b} wrote pixels"));
                }
                ctx.cov("bad footprint rejected", 0);
                ctx.evals += 1;
            }
        }
    })
}

pub fn c03(ctx: &mut Ctx, idx: u64) {
    if idx % 16 == 0 {
        super::crunch::c03(ctx, idx < 16 * 60);
    }
    with(ctx, idx, |ctx, im, k| {
        ctx.cov("decoder", k as u32);
        let (w, h) = im.dims(&mut ctx.rng);
        let px = w * h;
        let need = im.need(w, h);
        let d = im.data(&mut ctx.rng, need);
        ctx.seen(hash(&d) ^ k as u64);
        ctx.sample(|| format!("decode_{} {w}x{h} into {px} + guard pixels, two prior fills; data {}", im.name, hex(&d[..d.len().min(32)])));
        let pre = ctx.rng.range(0, 70);
        let post = ctx.rng.range(1, 70);
        // guarded windows with different prior contents
        let mut bufs: Vec<Vec<u32>> = vec![];
        for fill in 0..3 {
            let mut v: Vec<u32> = (0..pre + px + post).map(|_| match fill { 0 => SENT[0], 1 => SENT[1], _ => ctx.rng.u32() }).collect();
            let before = v.clone();
            // even fills get exactly w*h pixels, odd ones the tail as well
            let end = if fill == 1 { pre + px + post } else { pre + px };
            let win = &mut v[pre..end];
            // the last time at an odd address, behind other bytes
            let off = if fill == 2 { ctx.rng.below(16) } else { 0 };
            let Some(r) = run_at(ctx, im, &d, off, w, h, win) else { return };
            ctx.cov("data offset", off as u32);
            if let Err(e) = r {
                ctx.fail(format!("{}:err", im.name), || format!("{w}x{h}: Err({e}) on well-sized input"));
                return;
            }
            if v[..pre] != before[..pre] || v[pre + px..] != before[pre + px..] {
                ctx.fail(format!("{}:footprint", im.name), || format!("{w}x{h}: pixels outside width*height were modified"));
            }
            ctx.covn("guard pixels checked", 0, (pre + post) as u64);
            bufs.push(v[pre..pre + px].to_vec());
            ctx.evals += 1;
        }
        for j in 1..3 {
            if bufs[j] != bufs[0] {
                let p = (0..px).find(|&i| bufs[j][i] != bufs[0][i]).unwrap();
                ctx.fail(format!("{}:prior-content", im.name), || {
                    format!("{w}x{h}: pixel ({},{}) depends on what the image held before: {:08x} / {:08x}; data {}", p % w, p / w, bufs[0][p], bufs[j][p], hex(&d))
                });
            }
        }
        // block decoders: exactly bw*bh pixels, independent of prior content
        if let Some(f) = im.fmt {
            let n = f.bw * f.bh;
            for b in d.chunks(f.bytes).take(6) {
                let own = match f.name { "bc4" => 0x00ff_0000u32, "bc5" => 0x00ff_ff00, _ => !0 };
                let mut res: Vec<Vec<u32>> = vec![];
                for fill in 0..2 {
                    let mut v = vec![SENT[fill]; n + 9];
                    let g = ctx.guard(f.name, || format!("block {}", hex(b)), || f.block(b, &mut v));
                    if g.is_none() { return }
                    if v[n..].iter().any(|&p| p != SENT[fill]) {
                        ctx.fail(format!("{}:block-footprint", f.name), || format!("{} block decoder wrote past {n} pixels; block {}", f.name, hex(b)));
                    }
                    // bytes after the block are never looked at
                    let mut longer = b.to_vec();
                    longer.extend(ctx.rng.bytes(16));
                    let mut u = vec![SENT[fill]; n];
                    let g = ctx.guard(f.name, || format!("block {}", hex(b)), || f.block(&longer, &mut u));
                    if g.is_none() { return }
                    // a long stream and a long buffer at once: still one block's texels
                    let k = ctx.rng.range(1, 4) * f.bytes + ctx.rng.below(9);
                    longer.extend(ctx.rng.bytes(k));
                    let m = ctx.rng.range(1, 4 * n);
                    let mut wide = vec![SENT[fill]; n + m];
                    let g = ctx.guard(f.name, || format!("block {}", hex(b)), || f.block(&longer, &mut wide));
                    if g.is_none() { return }
                    if wide[n..].iter().any(|&p| p != SENT[fill]) {
                        ctx.fail(format!("{}:block-footprint-long", f.name), || format!("{} block decoder given {} bytes and {} pixels wrote past {n} pixels; block {}", f.name, longer.len(), n + m, hex(b)));
                    }
                    if wide[..n] != v[..n] {
                        ctx.fail(format!("{}:block-tail-long", f.name), || format!("{} block decoder's texels depend on surplus data or buffer; block {}", f.name, hex(b)));
                    }
                    if u[..] != v[..n] {
                        ctx.fail(format!("{}:block-tail", f.name), || format!("{} block decoder looks past its {} bytes; block {}", f.name, f.bytes, hex(b)));
                    }
                    v.truncate(n);
                    for i in 0..n {
                        if v[i] & !own != SENT[fill] & !own {
                            ctx.fail(format!("{}:block-channel", f.name), || format!("{} block decoder modified a channel it does not own; block {}", f.name, hex(b)));
                        }
                    }
                    res.push(v.iter().map(|p| p & own).collect());
                    ctx.evals += 1;
                }
                if res[0] != res[1] {
                    ctx.fail(format!("{}:block-prior-content", f.name), || format!("{} block decoder output depends on the buffer's prior content; block {}", f.name, hex(b)));
                }
            }
        }
        if idx % 8 == 0 && idx / 8 < 86 && ctx.fails.is_empty() {
            huge(ctx, &im.name, &d, (w, h), need, px, &bufs[0], &|d, w, h, o| (im.dec)(d, w, h, o));
            if let Some(f) = im.fmt {
                let n = f.bw * f.bh;
                let mut v = vec![0; n];
                if ctx.guard(f.name, || format!("block {}", hex(&d[..f.bytes])), || f.block(&d, &mut v)).is_some() {
                    huge(ctx, &format!("{}_block", im.name), &d[..f.bytes], (f.bw, f.bh), f.bytes, n, &v, &|d, _, _, o| { f.block(d, o); Ok(()) });
                }
            }
        }
    })
}

/// C03: the same with slices of more than 2^32 bytes or pixels; one worker at a time does this
pub fn huge(ctx: &mut Ctx, name: &str, d: &[u8], (w, h): (usize, usize), need: usize, px: usize, want: &[u32], f: &dyn Fn(&[u8], usize, usize, &mut [u32]) -> R) {
    const G: usize = 1 << 32;
    for data in [true, false] {
        let what = if data { "data" } else { "image" };
        let n = G + *ctx.rng.pick(&[0, 1, if data { need } else { px } - 1]);
        let (Some(mut a), Some(mut b)) = (Huge::new(if data { n } else { d.len() }, d), Huge::new(if data { px } else { n }, &[0u32])) else {
            ctx.cov("huge slices unavailable", data as u32);
            continue;
        };
        let at = |i: usize| format!("{name} {w}x{h} with {n} elements of {what}; data begins {}", hex(&d[..i.min(d.len())]));
        let Some(r) = ctx.guard(name, || at(64), || f(a.get(), w, h, b.get())) else { return };
        ctx.evals += 1;
        ctx.cov("huge slices: data", data as u32);
        if let Err(e) = r {
            return ctx.fail(format!("{name}:huge-{what}"), || format!("Err({e}) for {}", at(64)));
        }
        let got = b.get();
        if got[..px] != want[..px] {
            return ctx.fail(format!("{name}:huge-{what}-pixels"), || format!("other pixels for {}", at(4096)));
        }
        if !data && (got[px..px + 4096].iter().any(|&p| p != 0) || got[n - 4096..].iter().any(|&p| p != 0)) {
            return ctx.fail(format!("{name}:huge-{what}-footprint"), || format!("pixels behind the image were written: {}", at(4096)));
        }
    }
}

/// C04: images of more than 2^32 pixels, looked at around the places where 31 and 32 bits of an offset are used up
fn vast(ctx: &mut Ctx, idx: u64) {
    const G: usize = 1 << 32;
    const PERIOD: usize = (2 << 20) - 4096; // no power of two: blocks 2^k apart differ
    let astc = idx >= 3;
    let f = if astc { by("astc_4_4") } else { by(["bc2", "bc3", "bc5", "atc_rgba8"][ctx.rng.below(4)]) };
    let (w, h) = match idx % 3 {
        0 => (ctx.rng.range(65540, 65700), ctx.rng.range(65540, 65700)),
        1 => (G + ctx.rng.range(1, 999), 1),
        _ => (1, G + ctx.rng.range(1, 999)),
    };
    let n = w * h;
    let (nx, ny) = (w.div_ceil(f.bw), h.div_ceil(f.bh));
    let rows = |y: usize| (y * w).min(n - 1);
    let own = [0, rows(h / 2 + 1), G / 2, G, rows(h - 1), n - 1];
    let (Some(mut a), Some(mut b)) = (Alias::<u8>::new(nx * ny * f.bytes, PERIOD, &[]), Alias::<u32>::new(n, PERIOD, &own)) else {
        return ctx.cov("vast images unavailable", idx as u32);
    };
    let (sa, sb) = (a.shared(), b.shared());
    let d = a.get();
    for (k, c) in d[..PERIOD].chunks_mut(f.bytes).enumerate() {
        c.copy_from_slice(&ctx.rng.bytes(f.bytes));
        if astc && k % 64 != 0 {
            // constant color: fast to decode
            c[..8].copy_from_slice(&[0xfc, 0xfd, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
        }
    }
    let d = &*d;
    let img = b.get();
    ctx.evals += 1;
    ctx.cov("vast image", idx as u32);
    let Some(r) = ctx.guard(f.name, || format!("an image of {w}x{h}"), || trimmed(&[&sa, &sb], || f.image(d, w, h, img))) else { return };
    if r.is_err() {
        return ctx.fail(format!("{}:err", f.name), || format!("{w}x{h}: Err on well-sized input"));
    }
    let mut o = vec![0u32; f.bw * f.bh];
    let mut at = usize::MAX;
    for c in own {
        for p in c.saturating_sub(4000)..(c + 4000).min(n) {
            let (x, y) = (p % w, p / w);
            let k = y / f.bh * nx + x / f.bw;
            if k != at {
                at = k;
                o.fill(0xff00_0000);
                f.block(&d[k * f.bytes..][..f.bytes], &mut o);
            }
            let want = o[y % f.bh * f.bw + x % f.bw];
            if img[p] != want {
                return ctx.fail(format!("{}:vast", f.name), || format!("{w}x{h}: pixel ({x},{y}) is {:08x}, its block decodes to {want:08x}: {}", img[p], hex(&d[k * f.bytes..][..f.bytes])));
            }
        }
    }
}

/// C04: image == block decodes laid out row-major and cropped
pub fn c04(ctx: &mut Ctx, idx: u64) {
    // one worker does these, one after another
    let big: &[u64] = match (idx, ctx.thorough) { (0, _) => &[3], (8, _) => &[0], (16, true) => &[4], (24, true) => &[1], _ => &[] };
    for &k in big {
        if cfg!(debug_assertions) || std::env::var_os("ASAN_OPTIONS").is_some() || !ctx.fails.is_empty() {
            break;
        }
        vast(ctx, k);
    }
    with(ctx, idx, |ctx, im, k| {
        if im.pow2 {
            // PVRTC has no block API: a cropped image is the top-left part of the uncropped one
            let (w, h) = im.dims(&mut ctx.rng);
            let (bx, by) = (w.div_ceil(im.bw) * im.bw, h.div_ceil(4) * 4);
            let d = im.data(&mut ctx.rng, im.need(w, h));
            let mut a = vec![SENT[0]; w * h];
            let mut b = vec![SENT[1]; bx * by];
            let (Some(ra), Some(rb)) = (run(ctx, im, &d, w, h, &mut a), run(ctx, im, &d, bx, by, &mut b)) else { return };
            if ra.is_err() || rb.is_err() {
                ctx.fail(format!("{}:err", im.name), || format!("{w}x{h}: Err on well-sized input"));
                return;
            }
            ctx.evals += 1;
            ctx.seen(hash(&d) ^ (w * 4096 + h) as u64);
            ctx.cov("decoder", k as u32);
            for y in 0..h {
                for x in 0..w {
                    if a[y * w + x] != b[y * bx + x] {
                        ctx.fail(format!("{}:crop", im.name), || format!("{w}x{h}: pixel ({x},{y}) differs from the uncropped {bx}x{by} decode; data {}", hex(&d)));
                        return;
                    }
                }
            }
            return;
        }
        let f = im.fmt.unwrap();
        let (w, h) = if ctx.rng.chance(1, 12) {
            (ctx.rng.range(1, 20 * im.bw), ctx.rng.range(1, 3 * im.bh))
        } else if ctx.rng.chance(1, 90) {
            // real texture sizes, and sides beyond what 8 and 16 bits count
            let r = &mut ctx.rng;
            let n = 2 * im.bw.max(im.bh);
            let (a, b) = match r.below(6) {
                // more than 65536 blocks, in a row or altogether; more than 2^20 bytes of them
                4 if r.chance(1, 9) => { let n = 65536 * im.bw.max(im.bh); (r.range(n - 20, n + 60), r.range(1, 2)) }
                5 if r.chance(1, 9) => { let n = 262 * im.bw.max(im.bh); (r.range(n, n + 9), r.range(n, n + 9)) }
                0 => (r.range(250, 300), r.range(250, 300)),
                1 => (r.range(1020, 1030), r.range(1, n)),
                2 => (r.range(4090, 4100), r.range(1, n)),
                _ => (r.range(65530, 65545), r.range(1, 6)),
            };
            ctx.cov("large image", (a * b > 1 << 20) as u32 * 8 + (a > 200000) as u32 * 4 + (a > 60000) as u32 * 2 + (a > 1000) as u32);
            if ctx.rng.chance(1, 2) { (a, b) } else { (b, a) }
        } else {
            im.dims(&mut ctx.rng)
        };
        let d = im.data(&mut ctx.rng, im.need(w, h));
        let (nx, ny) = (w.div_ceil(im.bw), h.div_ceil(im.bh));
        let mut want = vec![0u32; w * h];
        let mut o = vec![0u32; im.bw * im.bh];
        let bf = match im.name.as_str() {
            "bc6(signed=true)" => by("bc6_signed"),
            "bc6(signed=false)" => by("bc6_unsigned"),
            _ => f,
        };
        for j in 0..ny {
            for i in 0..nx {
                let b = &d[(j * nx + i) * im.bytes..][..im.bytes];
                o.fill(0xff00_0000);
                if ctx.guard(&im.name, || format!("block {}", hex(b)), || bf.block(b, &mut o)).is_none() {
                    return;
                }
                for y in j * im.bh..h.min((j + 1) * im.bh) {
                    for x in i * im.bw..w.min((i + 1) * im.bw) {
                        want[y * w + x] = o[(y - j * im.bh) * im.bw + x - i * im.bw];
                    }
                }
            }
        }
        let mut img = vec![SENT[0]; w * h];
        let Some(r) = run(ctx, im, &d, w, h, &mut img) else { return };
        ctx.evals += 1;
        ctx.seen(hash(&d) ^ (w * 4096 + h) as u64);
        ctx.cov("decoder", k as u32);
        ctx.cov("cropped right", (w % im.bw != 0) as u32);
        ctx.cov("cropped bottom", (h % im.bh != 0) as u32);
        ctx.sample(|| format!("decode_{} {w}x{h} = {nx}x{ny} blocks {}x{}", im.name, im.bw, im.bh));
        if r.is_err() {
            ctx.fail(format!("{}:err", im.name), || format!("{w}x{h}: Err on well-sized input"));
            return;
        }
        if let Some(p) = (0..w * h).find(|&p| img[p] != want[p]) {
            ctx.fail(format!("{}:tiling", im.name), || {
                format!("{w}x{h}: pixel ({},{}) is {:08x}, its block decodes to {:08x}; data {}", p % w, p / w, img[p], want[p], hex(&d))
            });
        }
    })
}

/// C26: the convenience entry points are the general ones with the parameters filled in
pub fn c26(ctx: &mut Ctx, idx: u64) {
    type D = Box<dyn Fn(&[u8], usize, usize, &mut [u32]) -> R>;
    fn img(r: &mut Ctx, name: &'static str, bytes: usize, bw: usize, bh: usize, d: Vec<u8>, w: usize, h: usize, a: D, b: D, k: u32) {
        let short = r.rng.chance(1, 8);
        let d = if short { &d[..d.len() - bytes] } else { &d[..] };
        let mut x = vec![SENT[0]; w * h];
        let mut y = vec![SENT[0]; w * h];
        let pa = r.guard(name, || hex(d), || a(d, w, h, &mut x));
        let pb = r.guard(name, || hex(d), || b(d, w, h, &mut y));
        r.evals += 1;
        r.cov("alias pair", k);
        r.seen(hash(d) ^ mix(k as u64, (w * 4096 + h) as u64));
        r.sample(|| format!("{name} {w}x{h} footprint {bw}x{bh}: both entry points on {} bytes", d.len()));
        if pa.map(|e| e.is_ok()) != pb.map(|e| e.is_ok()) || x != y {
            r.fail(format!("alias:{name}"), || format!("{name} {w}x{h}: the two entry points disagree; data {}", hex(d)));
        }
    }
    let k = idx % 20;
    let side = |r: &mut Rng, b: usize| r.range(1, 4 * b);
    if k < 14 {
        let f = all().iter().filter(|f| f.name.starts_with("astc_")).nth(k as usize).copied().unwrap();
        let (w, h) = (side(&mut ctx.rng, f.bw), side(&mut ctx.rng, f.bh));
        let d = f.gen_blocks(&mut ctx.rng, f.need(w, h) / 16);
        let (bw, bh) = FOOT[k as usize];
        img(ctx, f.name, 16, bw, bh, d, w, h, Box::new(move |d, w, h, o| f.image(d, w, h, o)), Box::new(move |d, w, h, o| t::decode_astc(d, w, h, bw, bh, o)), k as u32);
    } else if k < 16 {
        let s = k == 15;
        let f = by(if s { "bc6_signed" } else { "bc6_unsigned" });
        let (w, h) = (side(&mut ctx.rng, 4), side(&mut ctx.rng, 4));
        let d = f.gen_blocks(&mut ctx.rng, f.need(w, h) / 16);
        let blocks = d.clone();
        img(ctx, f.name, 16, 4, 4, d, w, h, Box::new(move |d, w, h, o| f.image(d, w, h, o)), Box::new(move |d, w, h, o| t::decode_bc6(d, w, h, o, s)), k as u32);
        for b in blocks.chunks(16) {
            let (mut x, mut y) = ([0u32; 16], [0u32; 16]);
            ctx.guard("bc6 block", || hex(b), || f.block(b, &mut x));
            ctx.guard("bc6 block", || hex(b), || t::decode_bc6_block(b, &mut y, s));
            ctx.evals += 1;
            if x != y {
                ctx.fail(format!("alias:bc6-block:{s}"), || format!("decode_bc6_block(signed={s}) disagrees with its alias; block {}", hex(b)));
            }
        }
    } else if k < 18 {
        let two = k == 17;
        let bw = if two { 8 } else { 4 };
        let (w, h) = (bw << ctx.rng.below(4), 4 << ctx.rng.below(4));
        let mut d = vec![0u8; w * h / (bw * 4) * 8];
        for b in d.chunks_mut(8) { gen::pvrtc(&mut ctx.rng, b) }
        let al: ImgFn = if two { t::decode_pvrtc_2bpp } else { t::decode_pvrtc_4bpp };
        img(ctx, if two { "pvrtc_2bpp" } else { "pvrtc_4bpp" }, 8, bw, 4, d, w, h, Box::new(al), Box::new(move |d, w, h, o| t::decode_pvrtc(d, w, h, o, two)), k as u32);
    } else {
        // composed block formats are their parts
        for _ in 0..32 {
            let mut b = vec![0u8; 16];
            let f = by(["bc5", "eacrg", "eacrg_signed", "etc2_rgba8", "atc_rgba8", "bc3"][ctx.rng.below(6)]);
            f.gen(&mut ctx.rng, &mut b);
            let (mut x, mut p, mut q) = ([0xff00_0000u32; 16], [0xff00_0000u32; 16], [0xff00_0000u32; 16]);
            let (lo, hi) = b.split_at(8);
            let r = guard_raw(|| {
                f.block(&b, &mut x);
                match f.name {
                    "bc5" => { t::decode_bc4_block(lo, &mut p); t::decode_bc4_block(hi, &mut q); }
                    "eacrg" => { t::decode_eacr_block(lo, &mut p); t::decode_eacr_block(hi, &mut q); }
                    "eacrg_signed" => { t::decode_eacr_signed_block(lo, &mut p); t::decode_eacr_signed_block(hi, &mut q); }
                    "etc2_rgba8" => { t::decode_etc2_rgb_block(hi, &mut p); q = p; t::decode_etc2_a8_block(lo, &mut q); }
                    "atc_rgba8" => { t::decode_atc_rgb4_block(hi, &mut p); t::decode_bc4_block(lo, &mut q); }
                    _ => { t::decode_bc4_block(lo, &mut q); }
                }
            });
            if let Err((m, l)) = r {
                ctx.fail(panic_sig(f.name, &m, &l), || format!("block {} panicked {m}", hex(&b)));
                continue;
            }
            ctx.evals += 1;
            ctx.cov("composed pair", f.id);
            ctx.seen(hash(&b) ^ f.id as u64);
            for i in 0..16 {
                let (got, want) = match f.name {
                    "bc5" | "eacrg" | "eacrg_signed" => (x[i], p[i] | (q[i] >> 8 & 0xff00)),
                    "etc2_rgba8" => (x[i], q[i]),
                    "atc_rgba8" => (x[i], p[i] & 0xff_ffff | (q[i] & 0xff_0000) << 8),
                    _ => (x[i] >> 24, q[i] >> 16 & 0xff),
                };
                if got != want {
                    ctx.fail(format!("compose:{}", f.name), || format!("{} block {} texel {i}: {got:08x}, its parts give {want:08x}", f.name, hex(&b)));
                }
            }
        }
    }
}
