//! Coverage-guided: one block format per input, every texel compared with the reference decoder.
//! The guidance comes from the decoder and from the reference, so that branches of either draw inputs.
#![no_main]
#![allow(dead_code)]
use libfuzzer_sys::fuzz_target;
#[path = "../../harness/src/formats.rs"]
mod formats;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/mon.rs"]
mod mon;
#[path = "../../harness/src/refs/mod.rs"]
mod refs;

/// T2D_FUZZ: "" = panics and sanitizer reports only; else the names (prefixes) of the formats to compare
fn wanted() -> &'static (bool, Vec<usize>) {
    static W: std::sync::OnceLock<(bool, Vec<usize>)> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let v = std::env::var("T2D_FUZZ").unwrap_or_default();
        let names = formats::all().iter().map(|f| f.name).chain(["pvrtc_2bpp", "pvrtc_4bpp"]);
        let l = names.enumerate().filter(|(_, n)| v.is_empty() || v.split(',').any(|p| n.starts_with(p) && (!p.ends_with('!')) || p.strip_suffix('!') == Some(n))).map(|x| x.0).collect();
        (!v.is_empty(), l)
    })
}
/// the kind of ASTC block under judgement: T2D_ASTC=ldr|hdr|illegal
fn class(f: &formats::Fmt, b: &[u8]) -> bool {
    use refs::astc::Class;
    static W: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let i = refs::astc::classify(b, f.bw as u32, f.bh as u32);
    match W.get_or_init(|| std::env::var("T2D_ASTC").unwrap_or_default()).as_str() {
        "ldr" => i.class == Class::Legal && !i.hdr,
        "hdr" => i.class == Class::Legal && i.hdr || matches!(i.class, Class::VoidLdr | Class::VoidHdr | Class::VoidOdd),
        "illegal" => i.illegal(),
        _ => true,
    }
}
fuzz_target!(|d: &[u8]| {
    if d.len() < 9 {
        return;
    }
    let all = formats::all();
    let (exact, list) = wanted();
    let n = d[0] as usize % (all.len() + 2);
    let k = if list.contains(&n) { n } else { list[n % list.len()] };
    let (arg, d) = (d[0] as usize / (all.len() + 2), &d[1..]);
    if k >= all.len() {
        // PVRTC: up to 8 blocks
        let two = k == all.len();
        let n = (d.len() / 8).min(8);
        if n == 0 { return }
        let n: usize = 1 << n.ilog2();
        let nx = 1 << arg.min(n.ilog2() as usize);
        let (nx, ny) = (nx, n / nx);
        let d: Box<[u8]> = d[..n * 8].into();
        let (w, h) = (nx * if two { 8 } else { 4 }, ny * 4);
        let mut o = vec![0; w * h].into_boxed_slice();
        texture2ddecoder::decode_pvrtc(&d, w, h, &mut o, two).unwrap();
        let want = refs::pvrtc::decode(&d, nx, ny, two, &mut Default::default());
        assert!(!exact || *o == *want, "decode_pvrtc {w}x{h}");
        return;
    }
    let f = &all[k];
    if d.len() < f.bytes {
        return;
    }
    let b: Box<[u8]> = d[..f.bytes].into();
    let exact = *exact && (!f.name.starts_with("astc") || class(f, &b));
    let mut o = vec![0x5a5a5a5a; f.bw * f.bh].into_boxed_slice();
    f.image(&b, f.bw, f.bh, &mut o).unwrap();
    for (i, e) in f.oracle(&b).iter().enumerate() {
        assert!(!exact || (o[i] ^ e.0) & e.1 == 0, "decode_{} texel {i} is {:08x}, expected {:08x}", f.name, o[i], e.0);
    }
    let mut p = vec![0; f.bw * f.bh].into_boxed_slice();
    f.block(&b, &mut p);
});
