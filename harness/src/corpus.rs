//! Recordings of decodes for the other builds, interpreters and language bindings to replay.
use crate::crn;
use crate::formats::{all, by, FOOT};
use crate::gen;
use crate::mon::*;
use crate::ops::{Args, Kind, Op};
use crate::rec::{store, Rec, POISON};

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Tiny,
    Small,
    Mid,
}
/// blocks of one operation: bytes, footprint, generator of `n` blocks
fn geometry(r: &mut Rng, o: &Op) -> (usize, usize, usize) {
    let n = match o.name { "bc6_s" => "bc6_signed", "bc6_u" => "bc6_unsigned", n => n };
    match n {
        "astc" => {
            let (w, h) = if o.kind == Kind::Block || r.chance(1, 2) { *r.pick(&FOOT) } else { loop { let q = (r.range(1, 16), r.range(1, 16)); if q.0 * q.1 <= 144 { break q } } };
            (16, w, h)
        }
        "pvrtc_2bpp" => (8, 8, 4),
        "pvrtc_4bpp" => (8, 4, 4),
        "pvrtc" => (8, *r.pick(&[4, 8]), 4),
        _ => { let f = by(n); (f.bytes, f.bw, f.bh) }
    }
}
fn blocks(r: &mut Rng, o: &Op, bytes: usize, bw: usize, bh: usize, n: usize) -> Vec<u8> {
    let mut v = vec![0; n * bytes];
    let name = match o.name { "bc6_s" => "bc6_signed", "bc6_u" => "bc6_unsigned", n => n };
    for b in v.chunks_mut(bytes) {
        if r.chance(1, 12) {
            r.fill(b)
        } else if name.starts_with("pvrtc") {
            gen::pvrtc(r, b)
        } else if name == "astc" {
            gen::astc(r, b, bw, bh)
        } else {
            by(name).gen(r, b)
        }
    }
    gen::relate(r, &mut v, bytes);
    v
}
pub fn make(r: &mut Rng, o: &Op, op: usize, size: Size) -> Rec {
    let mut rec = Rec { op, w: 0, h: 0, bw: 4, bh: 4, data: vec![], ok: false, out: vec![] };
    let mut len;
    if o.name.contains("crunch") {
        let unity = match o.name { "crunch" => r.chance(1, 10), "unity_crunch" => !r.chance(1, 10), _ => r.chance(1, 2) };
        let fmt = if unity { *r.pick(&[0u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]) } else { *r.pick(&crn::CLASSIC) };
        let m = match size { Size::Tiny => 12, Size::Small => 24, Size::Mid => 64 };
        let (w, h) = (r.range(1, m), r.range(1, m));
        let faces = if r.chance(5, 6) { 1 } else { 2 };
        let mut f = crn::make(r, fmt, unity, crn::Want { w, h, faces, big: size == Size::Mid, gaps: false }, &mut |_, _| ());
        if r.chance(1, 4) {
            for _ in 0..1 + r.below(3) {
                let n = f.bytes.len();
                let lim = if r.chance(1, 3) { 78 * 8 } else { n * 8 };
                let k = r.below(lim);
                f.bytes[k / 8] ^= 1 << (k % 8);
            }
        } else if r.chance(1, 12) {
            let n = r.below(f.bytes.len());
            f.bytes.truncate(n);
        }
        rec.data = f.bytes;
        (rec.w, rec.h) = (w as u64, h as u64);
        len = if o.kind == Kind::Info { 8 } else { w * h };
    } else {
        let (by, bw, bh) = geometry(r, o);
        (rec.bw, rec.bh) = (bw, bh);
        if o.kind == Kind::Block {
            rec.data = blocks(r, o, by, bw, bh, 1);
            len = bw * bh;
        } else {
            let m = match size { Size::Tiny => 2, Size::Small => 4, Size::Mid => 9 };
            let side = |r: &mut Rng, b: usize| if o.name.starts_with("pvrtc") {
                let n = 1usize << r.below(if size == Size::Mid { 4 } else if size == Size::Small { 3 } else { 2 });
                if r.chance(1, 2) { n * b } else { r.range(if n == 1 { 1 } else { (n - 1) * b + 1 }, n * b) }
            } else if r.chance(1, 3) { b * r.range(1, m) } else { r.range(1, m * b) };
            let (mut w, mut h) = (side(r, bw), side(r, bh));
            if size == Size::Mid && r.chance(1, if o.name.starts_with("pvrtc") { 24 } else { 200 }) {
                // long and large ones
                let (nx, ny) = if o.name.starts_with("pvrtc") { if r.chance(1, 30) { (512, 256) } else { *r.pick(&[(32, 32), (64, 16), (128, 1), (1, 128), (512, 2), (2, 512), (64, 64), (1024, 1), (1, 2048), (4096, 1)]) } } else { *r.pick(&[(300, 1), (1, 300), (1100, 2), (2, 1100), (40, 40), (5000, 1), (1, 5000)]) };
                (w, h) = (nx * bw - r.below(bw), ny * bh - r.below(bh));
            }
            (rec.w, rec.h) = (w as u64, h as u64);
            rec.data = blocks(r, o, by, bw, bh, w.div_ceil(bw) * h.div_ceil(bh));
            len = w * h;
            if r.chance(1, 12) {
                match r.below(3) {
                    0 => { let n = r.below(rec.data.len()); rec.data.truncate(n) }
                    1 => len = r.below(len),
                    _ => {
                        let (a, b) = *r.pick(&[(1u64 << 16, 1u64 << 16), (1 << 30, 4), (4, 1 << 30), (0x4000_0001, 4), (1 << 32, 1), (3, 1 << 31), (0xffff_ffff, 0xffff_ffff), (1 << 31, 1 << 31), (1 << 62, 4), (4, 1 << 62), (u64::MAX, 1), (1, u64::MAX), (0, 0), (0, 5), (7, 0), (u64::MAX, u64::MAX), (1 << 33, 1 << 31), (0x1_0000_0004, 4)]);
                        (rec.w, rec.h) = (a, b);
                    }
                }
            }
        }
    }
    if r.chance(1, 4) {
        len += r.below(5);
    }
    run(o, &mut rec, len);
    rec
}
/// fills in what this build does
pub fn run(o: &Op, rec: &mut Rec, len: usize) {
    let mut out = vec![POISON; len];
    let a = Args { data: &rec.data, w: rec.w as usize, h: rec.h as usize, bw: rec.bw, bh: rec.bh };
    rec.ok = guard_raw(|| (o.run)(&a, &mut out)).unwrap_or(Err("panic")).is_ok();
    rec.out = out.iter().flat_map(|x| x.to_le_bytes()).collect();
}
/// t2dmon corpus OUT seed n size [python]
pub fn main(a: &[String]) {
    install_hook();
    let _ = all();
    let ops = crate::ops::ops();
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    let size = match a[3].as_str() { "tiny" => Size::Tiny, "small" => Size::Small, _ => Size::Mid };
    let py = a.get(4).is_some_and(|x| x == "python");
    let mut v = vec![];
    let mut hs = vec![];
    let pick: Vec<usize> = (0..ops.len()).filter(|&i| !py || ops[i].kind == Kind::Image && !matches!(ops[i].name, "bc6_s" | "bc6_u" | "pvrtc")).collect();
    let mut oks = 0;
    for i in 0..n {
        let k = pick[i % pick.len()];
        let mut r = Rng::new(mix(mix(seed, 0xc0ffee), i as u64));
        let mut rec = make(&mut r, &ops[k], k, size);
        if py {
            // the binding makes its own buffer, of exactly this size
            match rec.w.checked_mul(rec.h).filter(|&n| n < 1 << 24) {
                Some(n) => run(&ops[k], &mut rec, n as usize),
                None => rec.out.clear(),
            }
        }
        oks += rec.ok as usize;
        hs.push(mix(hash(&rec.data), mix(k as u64, mix(rec.w, rec.h))));
        store(&rec, &mut v);
    }
    hs.sort_unstable();
    hs.dedup();
    std::fs::write(&a[0], v).unwrap();
    println!("{{\"records\":{n},\"distinct\":{},\"ok\":{oks},\"ops\":{}}}", hs.len(), pick.len());
}
