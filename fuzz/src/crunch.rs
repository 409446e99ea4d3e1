//! Coverage-guided: any bytes as a crunch file. Monitors: panic, overflow checks, AddressSanitizer, allocation budget, libFuzzer's timeout.
#![no_main]
use libfuzzer_sys::fuzz_target;
use texture2ddecoder as t;
#[allow(dead_code)]
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fuzz_target!(|d: &[u8]| {
    let d: Box<[u8]> = d.into();
    let mut i = t::CrnTextureInfo::default();
    let known = i.crnd_get_texture_info(&d, d.len() as u32);
    let (mut w, mut h) = (8, 8);
    if d.len() >= 16 {
        let (a, b) = ((d[12] as usize) << 8 | d[13] as usize, (d[14] as usize) << 8 | d[15] as usize);
        if known {
            assert_eq!((i.width as usize, i.height as usize), (a, b), "info");
        }
        if a * b <= 1 << 16 {
            (w, h) = (a, b);
        }
    }
    for unity in [false, true] {
        let mut p = vec![0x5a5a5a5a; w * h].into_boxed_slice();
        let mut q = vec![0xa5a5a5a5; w * h].into_boxed_slice();
        let run = |o: &mut [u32]| if unity { t::decode_unity_crunch(&d, w, h, o) } else { t::decode_crunch(&d, w, h, o) };
        let (_, peak, r) = alloc::watch(256 << 20, || run(&mut p));
        assert!(peak <= (8 << 20) + 160 * d.len() as u64, "memory {peak} for {}", d.len());
        let s = run(&mut q);
        assert_eq!(r, s, "verdict depends on the image's content");
        if r.is_ok() {
            assert!(p == q, "pixels depend on the image's content");
        } else {
            assert!(p.iter().all(|&x| x == 0x5a5a5a5a), "a refused file changes the image");
        }
    }
});
