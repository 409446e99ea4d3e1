pub mod astc;
pub mod bc6;
pub mod bc7;
pub mod bcn;
pub mod etc;
pub mod pvrtc;

pub fn argb(a: u32, r: u32, g: u32, b: u32) -> u32 {
    debug_assert!(a < 256 && r < 256 && g < 256 && b < 256);
    a << 24 | r << 16 | g << 8 | b
}

/// little-endian bit cursor over a block
pub struct Bits {
    v: u128,
    pub pos: u32,
}
impl Bits {
    pub fn new(b: &[u8]) -> Self {
        let mut a = [0u8; 16];
        let n = b.len().min(16);
        a[..n].copy_from_slice(&b[..n]);
        Bits { v: u128::from_le_bytes(a), pos: 0 }
    }
    pub fn get(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        let r = if self.pos >= 128 { 0 } else { (self.v >> self.pos) as u64 as u32 };
        self.pos += n;
        if n >= 32 { r } else { r & ((1u32 << n) - 1) }
    }
}

/// IEEE half (as bits) -> 8 bit, clamped to [0,1], truncated after scaling by 255.
/// Done in exact integer arithmetic. `None` for NaN.
pub fn half_to_u8(h: u32) -> Option<u32> {
    let (s, e, m) = (h >> 15 & 1, h >> 10 & 31, h & 1023);
    if e == 31 && m != 0 {
        return None;
    }
    if s == 1 {
        return Some(0);
    }
    if e >= 15 {
        return Some(255); // >= 1.0 (or +inf)
    }
    // value = mant * 2^(exp), exp <= -11 ; v*255 floored
    let (mant, sh) = if e == 0 { (m as u64, 24) } else { ((m | 1024) as u64, 25 - e) };
    Some(((mant * 255) >> sh) as u32)
}
