//! C12 (LDR), C13 (HDR + void extent), C14 (illegal encodings), C15/C16 (PVRTC)
use super::exact::check_blocks;
use crate::formats::*;
use crate::gen;
use crate::mon::*;
use crate::refs::{astc as ra, pvrtc};
use texture2ddecoder as t;

fn is_void(c: ra::Class) -> bool {
    matches!(c, ra::Class::VoidLdr | ra::Class::VoidHdr | ra::Class::VoidOdd)
}
fn keep_ldr(f: &Fmt, b: &[u8]) -> bool {
    let i = ra::classify(b, f.bw as u32, f.bh as u32);
    i.class == ra::Class::Legal && !i.hdr
}
fn keep_hdr(f: &Fmt, b: &[u8]) -> bool {
    let i = ra::classify(b, f.bw as u32, f.bh as u32);
    i.class == ra::Class::Legal && i.hdr || is_void(i.class)
}
fn keep_illegal(f: &Fmt, b: &[u8]) -> bool {
    ra::classify(b, f.bw as u32, f.bh as u32).illegal()
}
fn setbits(b: &mut [u8], pos: usize, n: usize, v: u32) {
    for i in 0..n {
        let k = pos + i;
        b[k / 8] = b[k / 8] & !(1 << (k % 8)) | ((v >> i & 1) as u8) << (k % 8);
    }
}
fn foot(idx: u64) -> Fmt {
    let (w, h) = FOOT[(idx % 14) as usize];
    *all().iter().find(|f| f.name.starts_with("astc_") && f.bw == w && f.bh == h).unwrap()
}
const LDR: [u32; 10] = [0, 1, 4, 5, 6, 8, 9, 10, 12, 13];
const HDR: [u32; 6] = [2, 3, 7, 11, 14, 15];

/// every usable block mode of the footprint x partition count x some endpoint modes
fn mode_sweep(ctx: &mut Ctx, f: &Fmt, cems: &[u32], keep: crate::props::exact::Keep) {
    let modes = gen::astc_modes(f.bw, f.bh);
    let mut d = vec![];
    for &m in modes.iter() {
        for parts in 1..=4u32 {
            let c = *ctx.rng.pick(cems);
            let mut b = vec![0u8; 16];
            gen::dense(&mut ctx.rng, &mut b);
            setbits(&mut b, 0, 11, m as u32);
            setbits(&mut b, 11, 2, parts - 1);
            if parts == 1 { setbits(&mut b, 13, 4, c) } else { setbits(&mut b, 23, 6, c << 2) }
            d.extend_from_slice(&b);
        }
    }
    for ch in d.chunks(512 * 16) {
        check_blocks(ctx, f, ch, Some(keep));
    }
}
/// partition patterns: every seed, for 2/3/4 partitions; endpoints made clearly different
fn part_sweep(ctx: &mut Ctx, f: &Fmt, parts: u32, lo: u32, n: u32) {
    let modes = gen::astc_modes(f.bw, f.bh);
    // block modes with few weight bits leave room for the endpoints
    let mut d = vec![];
    for seed in lo..lo + n {
        for _ in 0..8 {
            let mut b = ctx.rng.bytes(16);
            setbits(&mut b, 0, 11, *ctx.rng.pick(&modes) as u32);
            setbits(&mut b, 11, 2, parts - 1);
            setbits(&mut b, 13, 10, seed);
            setbits(&mut b, 23, 6, (*ctx.rng.pick(&[0u32, 0, 0, 4, 6, 8])) << 2);
            if keep_ldr(f, &b) {
                ctx.cov("astc partition parts<<10|seed", parts << 10 | seed);
                d.extend_from_slice(&b);
                break;
            }
        }
    }
    check_blocks(ctx, f, &d, Some(keep_ldr));
}
/// multi-partition blocks with mixed endpoint modes (extra mode bits below the weights)
fn mixed_cems(ctx: &mut Ctx, f: &Fmt, want_hdr: bool, keep: crate::props::exact::Keep) {
    let modes = gen::astc_modes(f.bw, f.bh);
    let mut d = vec![];
    for _ in 0..200 {
        let mut b = vec![0u8; 16];
        gen::dense(&mut ctx.rng, &mut b);
        let m = ra::block_mode(*ctx.rng.pick(&modes) as u32).unwrap();
        let mi = modes.iter().find(|&&k| { let q = ra::block_mode(k as u32).unwrap(); q.gw == m.gw && q.gh == m.gh && q.wq == m.wq && q.dual == m.dual }).copied().unwrap();
        setbits(&mut b, 0, 11, mi as u32);
        let parts = 2 + ctx.rng.below(3) as u32;
        setbits(&mut b, 11, 2, parts - 1);
        // class selector 1..3
        setbits(&mut b, 23, 2, 1 + ctx.rng.below(3) as u32);
        if keep(f, &b) || ctx.rng.chance(1, 4) {
            let i = ra::classify(&b, f.bw as u32, f.bh as u32);
            if i.class == ra::Class::Legal && i.hdr == want_hdr {
                ctx.cov("astc mixed-cem parts,dual", i.parts << 1 | i.dual as u32);
                d.extend_from_slice(&b);
            }
        }
    }
    check_blocks(ctx, f, &d, Some(keep));
}
fn legal_batch(ctx: &mut Ctx, f: &Fmt, n: usize, hdr: bool, keep: crate::props::exact::Keep) {
    let mut d = vec![];
    for _ in 0..n {
        let mut b = vec![0u8; 16];
        if gen::astc_legal(&mut ctx.rng, &mut b, f.bw, f.bh, Some(hdr)) {
            d.extend_from_slice(&b);
        }
    }
    check_blocks(ctx, f, &d, Some(keep));
}

pub fn c12(ctx: &mut Ctx, idx: u64) {
    let f = foot(idx);
    let k = idx / 14;
    if k < 3 {
        mode_sweep(ctx, &f, &LDR, keep_ldr);
    } else if k < 3 + 12 {
        // seeds: 12 slices of (parts 2..4) x 256
        let j = (k - 3) as u32;
        part_sweep(ctx, &f, 2 + j % 3, (j / 3) * 256, 256);
    } else if k % 3 == 0 {
        mixed_cems(ctx, &f, false, keep_ldr);
    } else {
        legal_batch(ctx, &f, 128, false, keep_ldr);
    }
}
pub fn c13(ctx: &mut Ctx, idx: u64) {
    let f = foot(idx);
    let k = idx / 14;
    if k < 3 {
        mode_sweep(ctx, &f, &HDR, keep_hdr);
    } else if k == 3 {
        // void extents: every half value of one channel pair
        let lo = (idx % 14) as u32 * 4682;
        let mut d = vec![];
        for h in (lo..(lo + 4682).min(65536)).step_by(2) {
            for hdr in [0xffu8, 0xfd] {
                let mut b = vec![0xffu8; 16];
                b[0] = 0xfc;
                b[1] = hdr;
                for c in 0..4u32 {
                    let v = (h + (c & 1)).wrapping_add(ctx.rng.below(2) as u32 * 0x8000) as u16;
                    b[8 + 2 * c as usize..10 + 2 * c as usize].copy_from_slice(&v.to_le_bytes());
                }
                d.extend_from_slice(&b);
            }
        }
        ctx.cov("void-extent value slices", (idx % 14) as u32);
        check_blocks(ctx, &f, &d, Some(keep_hdr));
    } else {
        match k % 4 {
            0 => mixed_cems(ctx, &f, true, keep_hdr),
            1 => {
                let mut d = vec![0u8; 16 * 64];
                for b in d.chunks_mut(16) {
                    gen::astc_void(&mut ctx.rng, b);
                }
                check_blocks(ctx, &f, &d, Some(keep_hdr));
            }
            _ => legal_batch(ctx, &f, 128, true, keep_hdr),
        }
    }
}
pub fn c14(ctx: &mut Ctx, idx: u64) {
    let f = foot(idx);
    let k = idx / 14;
    let mut d = vec![];
    if k < 2 {
        // every 11-bit block mode, every partition count
        for m in 0..2048u32 {
            for parts in 0..4u32 {
                let mut b = ctx.rng.bytes(16);
                setbits(&mut b, 0, 11, m);
                setbits(&mut b, 11, 2, parts);
                if keep_illegal(&f, &b) {
                    d.extend_from_slice(&b);
                }
            }
        }
        ctx.cov("footprints with all 2048x4 mode words", (idx % 14) as u32);
    } else {
        // random bits around legal blocks: too many endpoint values / too few bits show up in multi-part blocks
        let modes = gen::astc_modes(f.bw, f.bh);
        for _ in 0..1024 {
            let mut b = vec![0u8; 16];
            gen::dense(&mut ctx.rng, &mut b);
            setbits(&mut b, 0, 11, *ctx.rng.pick(&modes) as u32);
            setbits(&mut b, 11, 2, ctx.rng.below(4) as u32);
            if ctx.rng.chance(1, 2) { setbits(&mut b, 23, 6, (8 + ctx.rng.below(8) as u32) << 2) }
            if keep_illegal(&f, &b) {
                d.extend_from_slice(&b);
            }
        }
    }
    for ch in d.chunks(512 * 16) {
        check_blocks(ctx, &f, ch, Some(keep_illegal));
    }
}

// ---------------------------------------------------------------- PVRTC
fn pv(ctx: &mut Ctx, nx: usize, ny: usize, two: bool, data: &[u8]) {
    let bw = if two { 8 } else { 4 };
    let (w, h) = (nx * bw, ny * 4);
    let name = if two { "pvrtc_2bpp" } else { "pvrtc_4bpp" };
    let mut img = vec![0xdeadbeefu32; w * h];
    let r = ctx.guard(name, || format!("{w}x{h} data {}", hex(data)), || if two { t::decode_pvrtc_2bpp(data, w, h, &mut img) } else { t::decode_pvrtc_4bpp(data, w, h, &mut img) });
    match r {
        None => return,
        Some(Err(e)) => {
            ctx.fail(format!("{name}:err"), || format!("{w}x{h}: Err({e})"));
            return;
        }
        _ => {}
    }
    let mut cov = pvrtc::Cover::default();
    let want = pvrtc::decode(data, nx, ny, two, &mut cov);
    ctx.covn("standard-mode blocks", 0, cov.std_blocks as u64);
    ctx.covn("modulation-mode blocks", 0, cov.mod_blocks as u64);
    ctx.covn("punch-through texels", 0, cov.punch as u64);
    if two {
        ctx.covn("texels interpolated h,v,hv", 0, cov.horiz as u64);
        ctx.covn("texels interpolated h,v,hv", 1, cov.vert as u64);
        ctx.covn("texels interpolated h,v,hv", 2, cov.both as u64);
    }
    ctx.cov("block grid log2(nx)<<4|log2(ny)", nx.trailing_zeros() << 4 | ny.trailing_zeros());
    ctx.evals += (nx * ny) as u64;
    for (i, b) in data.chunks(8).enumerate() {
        ctx.seen(mix(hash(b), mix(i as u64, (nx * 4096 + ny) as u64)));
    }
    ctx.sample(|| format!("{name} {nx}x{ny} blocks, first block {}, pixel0 {:08x}", hex(&data[..8]), want[0]));
    if let Some(p) = (0..w * h).find(|&p| img[p] != want[p]) {
        let (x, y) = (p % w, p / w);
        let o = pvrtc::morton(x / bw, y / 4, nx, ny) * 8;
        let kind = if nx == ny { "square" } else if nx > ny { "wide" } else { "tall" };
        ctx.fail(format!("{name}:{kind}:mode{}", data[o + 4] & 1), || {
            format!("{name} {nx}x{ny} blocks: pixel ({x},{y}) is {:08x}, the format defines {:08x}; its block {}; data {}", img[p], want[p], hex(&data[o..o + 8]), hex(&data[..data.len().min(8192)]))
        });
        return;
    }
    // the same blocks as a picture that ends within its last blocks
    if ctx.rng.chance(1, 2) {
        let (cw, ch) = (w - ctx.rng.below(bw), h - ctx.rng.below(4));
        let mut img = vec![0xdeadbeefu32; cw * ch];
        let r = ctx.guard(name, || format!("{cw}x{ch} data {}", hex(data)), || if two { t::decode_pvrtc_2bpp(data, cw, ch, &mut img) } else { t::decode_pvrtc_4bpp(data, cw, ch, &mut img) });
        ctx.cov("cropped columns,rows", ((w - cw) * 4 + h - ch) as u32);
        match r {
            None => {}
            Some(Err(e)) => ctx.fail(format!("{name}:crop-err"), || format!("{cw}x{ch}: Err({e})")),
            _ => {
                if let Some(p) = (0..cw * ch).find(|&p| img[p] != want[p / cw * w + p % cw]) {
                    ctx.fail(format!("{name}:crop"), || format!("{name} {cw}x{ch}: pixel ({},{}) is {:08x}, the format defines {:08x}; data {}", p % cw, p / cw, img[p], want[p / cw * w + p % cw], hex(&data[..data.len().min(8192)])));
                }
            }
        }
    }
}
fn pv_case(ctx: &mut Ctx, idx: u64, two: bool) {
    // every grid from 1x1 to 32x32 (powers of two), then random ones
    const LONG: [(usize, usize); 22] = [
        (64, 1), (1, 64), (64, 64), (128, 2), (2, 128), (256, 256), (1, 256), (256, 1), (512, 1), (1, 512), (512, 4), (4, 512), (1024, 1), (1, 1024), (512, 512), (4096, 2),
        (1024, 1024), (2048, 512), (512, 2048), (1 << 17, 1), (1, 1 << 17), (1 << 16, 4),
    ];
    let (nx, ny) = if idx < 36 { (1usize << (idx % 6), 1usize << (idx / 6)) } else if idx < 58 { LONG[idx as usize - 36] } else if idx == 58 && ctx.thorough { (2048, 2048) } else if idx % 512 == 511 { LONG[ctx.rng.below(14)] } else { (1 << ctx.rng.below(5), 1 << ctx.rng.below(5)) };
    let mut d = vec![0u8; nx * ny * 8];
    let uniform = ctx.rng.chance(1, 6);
    for b in d.chunks_mut(8) {
        gen::pvrtc(&mut ctx.rng, b);
    }
    gen::relate(&mut ctx.rng, &mut d, 8);
    if uniform {
        // same colours everywhere: isolates modulation
        let c: Vec<u8> = d[4..8].to_vec();
        for b in d.chunks_mut(8) {
            let m = b[4] & 1;
            b[4..8].copy_from_slice(&c);
            b[4] = b[4] & 0xfe | m;
        }
    } else if ctx.rng.chance(1, 6) {
        // same modulation everywhere: isolates the colour upscale
        for b in d.chunks_mut(8) {
            b[..4].fill(*[0u8, 0xff, 0x55, 0xaa].get(idx as usize % 4).unwrap());
        }
    }
    pv(ctx, nx, ny, two, &d);
    if idx < 64 {
        // single-bit probes in a 2x2 grid (and a 1-bit cleared one)
        let bit = idx as usize % 64;
        for (nx, ny) in [(2usize, 2usize), (4, 2)] {
            for bg in [0u8, 0xff] {
                for pos in 0..nx * ny {
                    let mut d = vec![bg; nx * ny * 8];
                    d[pos * 8 + bit / 8] ^= 1 << (bit % 8);
                    pv(ctx, nx, ny, two, &d);
                }
            }
        }
        ctx.cov("bit probes", bit as u32);
    }
}
pub fn c15(ctx: &mut Ctx, idx: u64) {
    pv_case(ctx, idx, false)
}
pub fn c16(ctx: &mut Ctx, idx: u64) {
    pv_case(ctx, idx, true)
}
