//! Structured block generators: uniform bits hardly ever reach the interesting corners
//! (equal endpoints, swapped order, reserved modes, clamps), so each format has its own.
use crate::mon::Rng;
use crate::refs::{astc as ra, bc6::Bc6};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

/// payload bytes of varying density
pub fn dense(r: &mut Rng, b: &mut [u8]) {
    match r.below(10) {
        0 => { r.fill(b); let m = r.bytes(b.len()); for i in 0..b.len() { b[i] &= m[i] } }
        1 => { r.fill(b); let m = r.bytes(b.len()); for i in 0..b.len() { b[i] |= m[i] } }
        2 => { let v = *r.pick(&[0u8, 0xff, 0x55, 0xaa]); b.fill(v); for _ in 0..r.below(4) { let k = r.below(b.len() * 8); b[k / 8] ^= 1 << (k % 8) } }
        3 => { for x in b.iter_mut() { *x = r.edge8() } }
        _ => r.fill(b),
    }
}
fn c16(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => 0,
        1 => 0xffff,
        2 => *r.pick(&[0x001f, 0x07e0, 0xf800, 0x7fff, 0x8000, 1, 0x0020, 0x0800]),
        _ => r.u32() as u16,
    }
}
pub fn bc1(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    let p = c16(r);
    let q = match r.below(6) {
        0 => p,
        1 => p.wrapping_add(1),
        2 => p.wrapping_sub(1),
        3 => p ^ (1 << r.below(16)),
        _ => c16(r),
    };
    b[..2].copy_from_slice(&p.to_le_bytes());
    b[2..4].copy_from_slice(&q.to_le_bytes());
    if r.chance(1, 8) { b[4..8].fill(0xe4) } else { r.fill(&mut b[4..8]) }
}
pub fn chan(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    b[0] = r.edge8();
    b[1] = match r.below(5) { 0 => b[0], 1 => b[0].wrapping_add(1), 2 => b[0].wrapping_sub(1), _ => r.edge8() };
    if r.chance(1, 8) {
        // every selector value appears
        let mut v = 0u64;
        for i in 0..16 { v |= ((i as u64 + r.below(8) as u64) & 7) << (3 * i) }
        b[2..8].copy_from_slice(&v.to_le_bytes()[..6]);
    } else {
        dense(r, &mut b[2..8]);
    }
}
pub fn bc2(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    dense(r, &mut b[..8]);
    bc1(r, &mut b[8..], 4, 4);
}
pub fn bc3(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    chan(r, &mut b[..8], 4, 4);
    bc1(r, &mut b[8..], 4, 4);
}
pub fn bc5(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    chan(r, &mut b[..8], 4, 4);
    chan(r, &mut b[8..], 4, 4);
}
pub fn bc6(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    dense(r, b);
    let k = r.below(15);
    if k < 14 {
        let (id, n) = Bc6::id_bits(k);
        b[0] = b[0] & !((1u32 << n) - 1) as u8 | id as u8;
    } else {
        b[0] = b[0] & 0xe0 | *r.pick(&[0x13u8, 0x17, 0x1b, 0x1f]);
    }
}
pub fn bc7(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    dense(r, b);
    if r.chance(1, 40) {
        b[0] = 0;
    } else {
        let k = r.below(8);
        b[0] = ((b[0] as u32) << (k + 1) | 1 << k) as u8;
    }
}
pub fn atc4(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    bc1(r, b, 4, 4);
}
pub fn atc8(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    chan(r, &mut b[..8], 4, 4);
    bc1(r, &mut b[8..], 4, 4);
}
pub fn etc1(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    dense(r, &mut b[..8]);
    if b[3] & 2 != 0 {
        // keep base + delta in range (out of range is not ETC1)
        for c in 0..3 {
            let v = (b[c] >> 3) as i32;
            let d = ((b[c] & 7) ^ 4) as i32 - 4;
            if !(0..32).contains(&(v + d)) {
                b[c] ^= 4;
            }
        }
    }
}
pub fn etc2(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    dense(r, &mut b[..8]);
    let force = r.below(5);
    if force < 3 {
        if r.chance(3, 4) { b[3] |= 2 }
        for c in 0..=force {
            let over = c == force;
            let up = r.chance(1, 2);
            b[c] = match (over, up) {
                (true, true) => { let d = 1 + r.below(3) as u8; (31 - r.below(d as usize) as u8) << 3 | d }
                (true, false) => { let d = 1 + r.below(4) as u8; (r.below(d as usize) as u8) << 3 | (8 - d) }
                (false, _) => { let v = 4 + r.below(24) as u8; v << 3 | r.below(8) as u8 }
            };
        }
    } else if force == 3 {
        b[3] &= !2;
    }
}
pub fn eac(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    b[0] = r.edge8();
    b[1] = (if r.chance(1, 5) { 0 } else { r.below(16) as u8 }) << 4 | r.below(16) as u8;
    dense(r, &mut b[2..8]);
}
pub fn eac2(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    eac(r, &mut b[..8], 4, 4);
    eac(r, &mut b[8..], 4, 4);
}
pub fn etc2a(r: &mut Rng, b: &mut [u8], _: usize, _: usize) {
    eac(r, &mut b[..8], 4, 4);
    etc2(r, &mut b[8..], 4, 4);
}

type Modes = std::sync::Arc<Vec<u16>>;
/// block modes usable with a footprint
pub fn astc_modes(bw: usize, bh: usize) -> Modes {
    static M: OnceLock<Mutex<HashMap<(usize, usize), Modes>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    let mut g = m.lock().unwrap();
    g.entry((bw, bh))
        .or_insert_with(|| {
            let mut v = vec![];
            for k in 0..2048u32 {
                if k & 0x1ff == 0x1fc { continue }
                if let Some(q) = ra::block_mode(k) {
                    let n = q.gw * q.gh * (1 + q.dual as u32);
                    let bits = ra::ise_bits(n, ra::WQ[q.wq]);
                    if n <= 64 && (24..=96).contains(&bits) && q.gw as usize <= bw && q.gh as usize <= bh {
                        v.push(k as u16);
                    }
                }
            }
            std::sync::Arc::new(v)
        })
        .clone()
}
fn setbits(b: &mut [u8], pos: usize, n: usize, v: u32) {
    for i in 0..n {
        let k = pos + i;
        b[k / 8] = b[k / 8] & !(1 << (k % 8)) | ((v >> i & 1) as u8) << (k % 8);
    }
}
/// legal block with probability close to one; `hdr`: None any, Some(x) only (non-)HDR endpoint modes
pub fn astc_legal(r: &mut Rng, b: &mut [u8], bw: usize, bh: usize, hdr: Option<bool>) -> bool {
    let modes = astc_modes(bw, bh);
    if modes.is_empty() {
        r.fill(b);
        return false;
    }
    for _ in 0..12 {
        dense(r, b);
        let m = *r.pick(&modes) as u32;
        setbits(b, 0, 11, m);
        let parts = match r.below(8) { 0..=2 => 1, 3 | 4 => 2, 5 | 6 => 3, _ => 4 };
        setbits(b, 11, 2, parts - 1);
        const L: [u32; 10] = [0, 1, 4, 5, 6, 8, 9, 10, 12, 13];
        const H: [u32; 6] = [2, 3, 7, 11, 14, 15];
        if parts == 1 {
            let c = match hdr {
                Some(true) => *r.pick(&H),
                Some(false) => *r.pick(&L),
                None => r.below(16) as u32,
            };
            setbits(b, 13, 4, c);
        } else {
            // bits 13..22 partition index, 23.. cem field
            let same = r.chance(1, 2);
            if same {
                let c = match hdr {
                    Some(true) => *r.pick(&H),
                    Some(false) => *r.pick(&L),
                    None => r.below(16) as u32,
                };
                setbits(b, 23, 6, c << 2);
            }
        }
        let i = ra::classify(b, bw as u32, bh as u32);
        if i.class == ra::Class::Legal && hdr.is_none_or(|h| h == i.hdr) {
            return true;
        }
    }
    false
}
pub fn astc_void(r: &mut Rng, b: &mut [u8]) {
    dense(r, b);
    b[0] = 0xfc;
    b[1] = 0xfd | (r.below(2) as u8) << 1;
    if r.chance(3, 4) {
        b[2..8].fill(0xff);
        b[1] |= 0xfc;
    }
    if b[1] & 2 != 0 && r.chance(1, 2) {
        // halves around the interesting range
        for c in 0..4 {
            let h = (r.range(0x1c00, 0x3c40)) as u16;
            b[8 + 2 * c..10 + 2 * c].copy_from_slice(&h.to_le_bytes());
        }
    }
}
pub fn astc(r: &mut Rng, b: &mut [u8], bw: usize, bh: usize) {
    match r.below(16) {
        0 => dense(r, b),
        1 => astc_void(r, b),
        2 => { r.fill(b); setbits(b, 0, 11, r.clone().below(2048) as u32) }
        _ => { astc_legal(r, b, bw, bh, None); }
    }
}
/// PVRTC block (8 bytes LE: modulation, colours)
pub fn pvrtc(r: &mut Rng, b: &mut [u8]) {
    dense(r, b);
    match r.below(4) {
        0 => b[4] |= 1,
        1 => b[4] &= 0xfe,
        _ => {}
    }
    if r.chance(1, 3) {
        b[5] = b[5] & 0x7f | (r.below(2) as u8) << 7;
        b[7] = b[7] & 0x7f | (r.below(2) as u8) << 7;
    }
}
/// make blocks of one stream resemble each other: equal, or equal but for a few bits, bytes or halves.
/// State carried from one block to the next (caches, skipped work, stale scratch) shows on such streams.
pub fn relate(r: &mut Rng, v: &mut [u8], bs: usize) {
    if r.chance(3, 4) {
        return;
    }
    let n = v.len() / bs;
    for i in 1..n {
        if r.chance(1, 4) {
            continue;
        }
        let j = if r.chance(2, 3) { i - 1 } else { r.below(i) };
        let own = v[i * bs..][..bs].to_vec();
        v.copy_within(j * bs..(j + 1) * bs, i * bs);
        let b = &mut v[i * bs..][..bs];
        match r.below(6) {
            0 => {}
            1 => b[bs / 2..].copy_from_slice(&own[bs / 2..]),
            2 => b[..bs / 2].copy_from_slice(&own[..bs / 2]),
            3 => {
                let k = 1 + r.below(bs - 1);
                b[k..].copy_from_slice(&own[k..]);
            }
            4 => {
                let k = r.below(bs);
                b[k] = own[k];
            }
            _ => {
                let k = r.below(bs * 8);
                b[k / 8] ^= 1 << (k % 8);
            }
        }
    }
}
