//! Every public decoder behind one numbered operation. Included by the player and by the monitor.
use texture2ddecoder as t;

pub type R = Result<(), &'static str>;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// decode_<name>(data, width, height, image)
    Image,
    /// decode_<name>_block(data, texels)
    Block,
    /// crnd_get_texture_info
    Info,
}
pub struct Args<'a> {
    pub data: &'a [u8],
    pub w: usize,
    pub h: usize,
    pub bw: usize,
    pub bh: usize,
}
#[allow(dead_code)]
pub struct Op {
    pub name: &'static str,
    pub kind: Kind,
    /// the decoder promises not to allocate
    pub heapless: bool,
    pub run: fn(&Args, &mut [u32]) -> R,
}
macro_rules! img {
    ($n:literal, $f:ident) => { Op { name: $n, kind: Kind::Image, heapless: true, run: |a, o| t::$f(a.data, a.w, a.h, o) } };
}
macro_rules! blk {
    ($n:literal, $f:ident) => { Op { name: $n, kind: Kind::Block, heapless: true, run: |a, o| { t::$f(a.data, o); Ok(()) } } };
}
pub fn ops() -> &'static [Op] {
    OPS
}
static OPS: &[Op] = &[
    img!("bc1", decode_bc1),
    img!("bc1a", decode_bc1a),
    img!("bc2", decode_bc2),
    img!("bc3", decode_bc3),
    img!("bc4", decode_bc4),
    img!("bc5", decode_bc5),
    img!("bc6_signed", decode_bc6_signed),
    img!("bc6_unsigned", decode_bc6_unsigned),
    img!("bc7", decode_bc7),
    img!("atc_rgb4", decode_atc_rgb4),
    img!("atc_rgba8", decode_atc_rgba8),
    img!("etc1", decode_etc1),
    img!("etc2_rgb", decode_etc2_rgb),
    img!("etc2_rgba1", decode_etc2_rgba1),
    img!("etc2_rgba8", decode_etc2_rgba8),
    img!("eacr", decode_eacr),
    img!("eacr_signed", decode_eacr_signed),
    img!("eacrg", decode_eacrg),
    img!("eacrg_signed", decode_eacrg_signed),
    img!("astc_4_4", decode_astc_4_4),
    img!("astc_5_4", decode_astc_5_4),
    img!("astc_5_5", decode_astc_5_5),
    img!("astc_6_5", decode_astc_6_5),
    img!("astc_6_6", decode_astc_6_6),
    img!("astc_8_5", decode_astc_8_5),
    img!("astc_8_6", decode_astc_8_6),
    img!("astc_8_8", decode_astc_8_8),
    img!("astc_10_5", decode_astc_10_5),
    img!("astc_10_6", decode_astc_10_6),
    img!("astc_10_8", decode_astc_10_8),
    img!("astc_10_10", decode_astc_10_10),
    img!("astc_12_10", decode_astc_12_10),
    img!("astc_12_12", decode_astc_12_12),
    Op { name: "astc", kind: Kind::Image, heapless: true, run: |a, o| t::decode_astc(a.data, a.w, a.h, a.bw, a.bh, o) },
    Op { name: "bc6_s", kind: Kind::Image, heapless: true, run: |a, o| t::decode_bc6(a.data, a.w, a.h, o, true) },
    Op { name: "bc6_u", kind: Kind::Image, heapless: true, run: |a, o| t::decode_bc6(a.data, a.w, a.h, o, false) },
    blk!("bc1", decode_bc1_block),
    blk!("bc1a", decode_bc1a_block),
    blk!("bc2", decode_bc2_block),
    blk!("bc3", decode_bc3_block),
    blk!("bc4", decode_bc4_block),
    blk!("bc5", decode_bc5_block),
    blk!("bc6_signed", decode_bc6_block_signed),
    blk!("bc6_unsigned", decode_bc6_block_unsigned),
    blk!("bc7", decode_bc7_block),
    blk!("atc_rgb4", decode_atc_rgb4_block),
    blk!("atc_rgba8", decode_atc_rgba8_block),
    blk!("etc1", decode_etc1_block),
    blk!("etc2_rgb", decode_etc2_rgb_block),
    blk!("etc2_rgba1", decode_etc2_rgba1_block),
    blk!("etc2_rgba8", decode_etc2_rgba8_block),
    blk!("eacr", decode_eacr_block),
    blk!("eacr_signed", decode_eacr_signed_block),
    blk!("eacrg", decode_eacrg_block),
    blk!("eacrg_signed", decode_eacrg_signed_block),
    Op { name: "astc", kind: Kind::Block, heapless: true, run: |a, o| { t::decode_astc_block(a.data, a.bw, a.bh, o); Ok(()) } },
    // with the alloc feature PVRTC keeps a table of unpacked blocks
    Op { name: "pvrtc_2bpp", kind: Kind::Image, heapless: !cfg!(feature = "alloc"), run: |a, o| t::decode_pvrtc_2bpp(a.data, a.w, a.h, o) },
    Op { name: "pvrtc_4bpp", kind: Kind::Image, heapless: !cfg!(feature = "alloc"), run: |a, o| t::decode_pvrtc_4bpp(a.data, a.w, a.h, o) },
    Op { name: "pvrtc", kind: Kind::Image, heapless: !cfg!(feature = "alloc"), run: |a, o| t::decode_pvrtc(a.data, a.w, a.h, o, a.bw == 8) },
    #[cfg(feature = "alloc")]
    Op { name: "crunch", kind: Kind::Image, heapless: false, run: |a, o| t::decode_crunch(a.data, a.w, a.h, o) },
    #[cfg(feature = "alloc")]
    Op { name: "unity_crunch", kind: Kind::Image, heapless: false, run: |a, o| t::decode_unity_crunch(a.data, a.w, a.h, o) },
    #[cfg(feature = "alloc")]
    Op {
        name: "crunch_info",
        kind: Kind::Info,
        heapless: false,
        run: |a, o| {
            let mut i = t::CrnTextureInfo::default();
            if !i.crnd_get_texture_info(a.data, a.data.len() as u32) {
                return Err("no");
            }
            o[..8].copy_from_slice(&[i.width, i.height, i.levels, i.faces, i.bytes_per_block, i.userdata0, i.userdata1, i.format as u32]);
            Ok(())
        },
    },
];
