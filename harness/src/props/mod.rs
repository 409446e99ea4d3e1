pub mod astcp;
pub mod cost;
pub mod crunch;
pub mod exact;
pub mod image;
pub mod total;

use crate::mon::Ctx;
pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, u64),
    pub rule: &'static str,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 108000, thorough: 2400000, run: total::c01,
        rule: "one evaluation = one decoder call on hostile bytes (uniform, structured, sparse, mutated fixture-like) with random dimensions; distinct = distinct (decoder, data) hashes" },
    Prop { id: "C02", quick: 144000, thorough: 1152000, run: image::c02,
        rule: "one evaluation = one decoder call with a chosen data length / image length / dimension; distinct = distinct (decoder, width, height, footprint)" },
    Prop { id: "C03", quick: 288000, thorough: 2304000, run: image::c03,
        rule: "one evaluation = one decode into a guarded window with a chosen prior content; distinct = distinct (decoder, data)" },
    Prop { id: "C04", quick: 576000, thorough: 4608000, run: image::c04,
        rule: "one evaluation = one image compared with the tiling of its block decodes; distinct = distinct (data, width, height)" },
    Prop { id: "C05", quick: 144000, thorough: 1152000, run: exact::c05,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct (format, block)" },
    Prop { id: "C06", quick: 144000, thorough: 1152000, run: exact::c06,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct (format, block)" },
    Prop { id: "C07", quick: 108000, thorough: 900000, run: exact::c07,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct (format, block)" },
    Prop { id: "C08", quick: 108000, thorough: 900000, run: exact::c08,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct blocks" },
    Prop { id: "C09", quick: 144000, thorough: 1152000, run: exact::c09,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct (format, block)" },
    Prop { id: "C10", quick: 144000, thorough: 1152000, run: exact::c10,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct (format, block)" },
    Prop { id: "C11", quick: 72000, thorough: 576000, run: exact::c11,
        rule: "one evaluation = one block whose 16 texels were all compared with the reference; distinct = distinct (format, block)" },
    Prop { id: "C12", quick: 120000, thorough: 1200000, run: astcp::c12,
        rule: "one evaluation = one legal LDR block, all texels compared with the reference; distinct = distinct (footprint, block)" },
    Prop { id: "C13", quick: 120000, thorough: 1200000, run: astcp::c13,
        rule: "one evaluation = one legal block with an HDR endpoint mode, or a void-extent block, all texels compared; distinct = distinct (footprint, block)" },
    Prop { id: "C14", quick: 54000, thorough: 432000, run: astcp::c14,
        rule: "one evaluation = one illegal encoding, all texels compared with the error colour; distinct = distinct (footprint, block)" },
    Prop { id: "C15", quick: 144000, thorough: 1152000, run: astcp::c15,
        rule: "one evaluation = one block of an image compared pixel by pixel with the reference; distinct = distinct (grid, position, block)" },
    Prop { id: "C16", quick: 144000, thorough: 1152000, run: astcp::c16,
        rule: "one evaluation = one block of an image compared pixel by pixel with the reference; distinct = distinct (grid, position, block)" },
    Prop { id: "C17", quick: 288000, thorough: 4000000, run: crunch::c17,
        rule: "one evaluation = one header query whose verdict and fields were compared with the header model; distinct = distinct (bytes, size argument)" },
    Prop { id: "C18", quick: 360000, thorough: 4000000, run: crunch::c18,
        rule: "one evaluation = one generated classic crunch file whose texels were all compared with those of the blocks it encodes; distinct = distinct files" },
    Prop { id: "C19", quick: 480000, thorough: 4000000, run: crunch::c19,
        rule: "one evaluation = one generated Unity crunch file (DXT) whose texels were all compared with those of the blocks it encodes; distinct = distinct files" },
    Prop { id: "C20", quick: 360000, thorough: 4000000, run: crunch::c20,
        rule: "one evaluation = one generated Unity crunch file (ETC) whose texels were all compared with those of the blocks it encodes, or one file the classic decoder must refuse; distinct = distinct files" },
    Prop { id: "C21", quick: 72000, thorough: 2400000, run: crunch::c21,
        rule: "one evaluation = one decoder or info call on a corrupted crunch file under the panic, CPU-time and allocation monitors; distinct = distinct files" },
    Prop { id: "C27", quick: 248, thorough: 2480, run: cost::c27,
        rule: "one evaluation = one call whose instructions, heap peak and stack depth were measured; distinct = distinct (data, size)" },
    Prop { id: "C28", quick: 48000, thorough: 2400000, run: crunch::c28,
        rule: "one evaluation = one byte string put to the info query and to both decoders, whose three answers were compared; distinct = distinct (bytes, requested size)" },
    Prop { id: "C26", quick: 288000, thorough: 2304000, run: image::c26,
        rule: "one evaluation = one pair of entry points run on the same input; distinct = distinct (pair, data)" },
];
