//! C01: no decoder panics, whatever the bytes.
use super::image::with;
use crate::formats::*;
use crate::gen;
use crate::mon::*;

fn hostile(r: &mut Rng, b: &mut [u8]) {
    match r.below(4) {
        0 => r.fill(b),
        1 => gen::dense(r, b),
        2 => { for x in b.iter_mut() { *x = r.edge8() } }
        _ => { let p = r.bytes(1 + r.clone().below(16)); for (i, x) in b.iter_mut().enumerate() { *x = p[i % p.len()] } }
    }
}
pub fn c01(ctx: &mut Ctx, idx: u64) {
    with(ctx, idx, |ctx, im, k| {
        for _ in 0..4 {
            let (w, h) = im.dims(&mut ctx.rng);
            let need = im.need(w, h);
            let mut d = if ctx.rng.chance(1, 2) { im.data(&mut ctx.rng, need) } else { vec![0; need] };
            if ctx.rng.chance(2, 3) {
                let mut h = vec![0; need];
                hostile(&mut ctx.rng, &mut h);
                let m = ctx.rng.below(3);
                for i in 0..need {
                    d[i] = match m { 0 => h[i], 1 => d[i] ^ (h[i] & h[(i + 1) % need]), _ => if ctx.rng.chance(1, 6) { h[i] } else { d[i] } };
                }
            }
            let d: Box<[u8]> = d.into();
            let mut img = vec![0u32; w * h].into_boxed_slice();
            let r = guard_raw(|| (im.dec)(&d, w, h, &mut img));
            ctx.evals += 1;
            ctx.cov("decoder", k as u32);
            ctx.seen(mix(hash(&d), (k * 65536 + w * 256 + h) as u64));
            ctx.sample(|| format!("decode_{} {w}x{h} on {}", im.name, hex(&d[..d.len().min(64)])));
            match r {
                Ok(Ok(())) => ctx.cov("returned Ok/Err", 0),
                Ok(Err(_)) => ctx.cov("returned Ok/Err", 1),
                Err((m, l)) => {
                    let mut culprit = String::new();
                    if let Some(f) = im.fmt {
                        let mut o = vec![0u32; f.bw * f.bh];
                        for b in d.chunks(f.bytes) {
                            if guard_raw(|| f.block(b, &mut o)).is_err() {
                                culprit = format!("block {} (footprint {}x{})", hex(b), f.bw, f.bh);
                                break;
                            }
                        }
                    }
                    ctx.fail(panic_sig(&im.name, &m, &l), || format!("decode_{} {w}x{h} panicked: {m} at {l}; {culprit}; data {}", im.name, hex(&d)));
                }
            }
            if let Some(f) = im.fmt {
                // block API: exact-size buffers
                let mut o = vec![0u32; f.bw * f.bh].into_boxed_slice();
                for b in d.chunks(f.bytes).take(8) {
                    let b: Box<[u8]> = b.into();
                    ctx.evals += 1;
                    ctx.guard(&im.name, || format!("block {} footprint {}x{}", hex(&b), f.bw, f.bh), || f.block(&b, &mut o));
                }
            }
        }
        // tiny / odd arguments: never a panic, whatever the verdict
        for _ in 0..8 {
            let d = { let n = ctx.rng.below(64); ctx.rng.bytes(n) };
            let (w, h) = (ctx.rng.below(40), ctx.rng.below(40));
            let mut img = vec![0u32; ctx.rng.below(200)];
            ctx.evals += 1;
            ctx.guard(&im.name, || format!("decode_{} {w}x{h} image {} data {}", im.name, img.len(), hex(&d)).clone(), || (im.dec)(&d, w, h, &mut img.clone()));
            img.clear();
        }
    })
}
#[allow(unused)]
fn _t(_: Fmt) {}
