//! Recorded decodes: arguments and the result another build gave.
pub struct Rec {
    pub op: usize,
    pub w: u64,
    pub h: u64,
    pub bw: usize,
    pub bh: usize,
    pub data: Vec<u8>,
    pub ok: bool,
    /// output buffer afterwards, as little-endian numbers (prefilled with POISON)
    pub out: Vec<u8>,
}
pub const POISON: u32 = 0x5a5a_5a5a;
#[allow(dead_code)]
pub fn store(r: &Rec, v: &mut Vec<u8>) {
    v.push(r.op as u8);
    v.push(r.bw as u8);
    v.push(r.bh as u8);
    v.push(r.ok as u8);
    v.extend(r.w.to_le_bytes());
    v.extend(r.h.to_le_bytes());
    v.extend((r.data.len() as u32).to_le_bytes());
    v.extend((r.out.len() as u32).to_le_bytes());
    v.extend(&r.data);
    v.extend(&r.out);
}
