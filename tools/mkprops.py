import json
P=[]
def prop(id,title,stmt,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
FIX="The tests decode one well-formed fixture per format and check only that decoding does not fail; "
ALL=["src/astc.rs","src/atc.rs","src/bcn.rs","src/bcn/*.rs","src/etc.rs","src/etc/*.rs","src/pvrtc.rs","src/macros.rs","src/color.rs","src/bitreader.rs"]
prop("C01","Texture decoders never panic, abort or hang on any block bytes",
 "Every image decoder and block decoder for BCn, ATC, ETC/EAC, ASTC and PVRTC returns normally for every possible content of the input, every width/height and every buffer of at least the documented size, in optimized builds and in builds with overflow checks. Untrusted texture bytes never cause a panic, arithmetic overflow, out-of-bounds access or endless loop.",
 ["inputs","configurations"],"all block contents, all dimensions, all supported formats and ASTC footprints (any block_width x block_height up to 144 texels), release and overflow-checked builds",
 FIX+"they contain no reserved modes, illegal encodings or arithmetic extremes, and cannot range over 2^64..2^128 block values.",
 ALL,[("table lookups and shifts derived from block bits","src/astc.rs decode_block_params, src/bcn/bc6.rs, src/bcn/bc7.rs, src/bitreader.rs"),("block iteration and copy","src/macros.rs, src/color.rs copy_block_buffer")],["return of every decode_* function"])
prop("C02","Buffer-size contract: Ok exactly when the buffers suffice, else Err",
 "For a non-empty image a decoder returns Ok exactly when the data holds all the blocks of the image and the output holds width x height pixels (PVRTC also requires power-of-two block counts), and otherwise returns Err; it never panics on short buffers, zero or overflowing dimensions, and accepts surplus data or a larger image buffer. When it returns Err the output buffer is unchanged. The same holds for the crunch decoders, where the data are the blocks a well-formed file holds.",
 ["inputs"],"all combinations of data length, image length, width and height, including 0, 1, non-multiples of the block size, usize::MAX and products that overflow",
 FIX+"every test passes exactly sized buffers and never looks at the error result.",
 ["src/macros.rs","src/astc.rs","src/pvrtc.rs","src/lib.rs"],[("length checks before decoding","src/macros.rs block_decoder!, src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc")],["Result of decode_*","output slice before/after"])
prop("C03","Decoders write exactly the image's pixels and nothing else",
 "A successful image decode writes all of the first width x height pixels and leaves every other element of the output slice unchanged, and the pixels written do not depend on the buffer's previous content; a block decoder writes only its block's texels (and, for single-channel EAC/BC4/BC5 block decoders, only the channels it owns). Decoding never reads beyond the blocks of the image, so trailing data has no influence. Crunch decoders too write the image only, and bytes behind the file do not matter, however many (also past 2^32).",
 ["inputs","histories"],"all formats, dimensions, prior buffer contents and trailing data",
 FIX+"they always decode into a fresh zeroed buffer of the exact size, so stale pixels, missed edges and overruns are invisible.",
 ["src/macros.rs","src/color.rs","src/astc.rs","src/pvrtc.rs","src/bcn.rs","src/atc.rs","src/etc/eac.rs"],[("copy_block_buffer clipping","src/color.rs"),("per-block scratch buffer","src/macros.rs, src/bcn.rs")],["output slice with guard zones"])
prop("C04","An image is the row-major tiling of its blocks, cropped to its size",
 "For every block format the image decoder's pixel (x, y) equals texel (x mod bw, y mod bh) of the block at position (x/bw, y/bh) in row-major block order, for any width and height, including sizes that are not multiples of the block size. Changing one block changes no pixel outside it.",
 ["inputs"],"all formats, all widths and heights from 1 up, all block contents",
 FIX+"fixtures have block-aligned sizes and no pixel is compared.",
 ["src/macros.rs","src/color.rs","src/astc.rs"],[("block loop and row copy","src/macros.rs block_decoder!, src/color.rs copy_block_buffer")],["image of decode_* vs decode_*_block"])
X="inputs"
def fmt(id,title,stmt,text,files,mech):
    prop(id,title,stmt,["inputs"],text,FIX+"no pixel value is ever compared, so a wrong table entry, bit position or rounding in a mode passes.",files,mech,["texels written by the image and block decoders"])
fmt("C05","BC1, BC1A, BC2 and BC3 blocks decode to the texels the format defines",
 "Every BC1, BC1 with punch-through alpha, BC2 and BC3 block decodes to exactly the 16 texels the S3TC definition gives: RGB565 expansion by bit replication, the four-color palette or (BC1 only, color0 <= color1) the three-color palette with black (transparent in BC1A), explicit 4-bit alpha for BC2 and the 8- or 6-value interpolated alpha for BC3.",
 "all 2^64 / 2^128 block values",["src/bcn/bc1.rs","src/bcn/bc2.rs","src/bcn/bc3.rs","src/color.rs"],[("palette construction","src/bcn/bc1.rs"),("alpha palette","src/bcn/bc3.rs")])
fmt("C06","BC4 and BC5 blocks decode to the values the format defines",
 "Every BC4 and BC5 block decodes each texel's red (and green) value exactly as the 8-value (end0 > end1) or 6-value plus 0 and 255 interpolation defines, at the right texel, with the remaining channels as documented (zero, alpha opaque) in the image decoder.",
 "all block values",["src/bcn/bc4.rs","src/bcn/bc5.rs","src/bcn/bc3.rs","src/bcn.rs"],[("interpolated channel","src/bcn/bc3.rs decode_bc3_alpha")])
fmt("C07","BC6H blocks decode to the texels the format defines, in every mode",
 "Every unsigned and signed BC6H block decodes to the RGB half floats that the 14 modes, 32 partitions, delta endpoints, unquantization and interpolation define, converted to 8 bits per channel by clamping; the reserved modes decode to black. Alpha is opaque.",
 "all 2^128 block values, all 14 modes plus reserved ones, both signednesses",["src/bcn/bc6.rs","src/bcn/consts.rs","src/f16.rs"],[("mode field extraction, unquantize, finish_unquantize","src/bcn/bc6.rs"),("half to float","src/f16.rs")])
fmt("C08","BC7 blocks decode to the texels the format defines, in every mode",
 "Every BC7 block decodes to exactly the 16 RGBA texels its mode defines: partitions, p-bits, endpoint expansion, anchor indices, two index sets, channel rotation and index selection; the reserved mode decodes to transparent black.",
 "all 2^128 block values, modes 0 to 7 and reserved, all 64 partitions, all rotations",["src/bcn/bc7.rs","src/bcn/consts.rs","src/bitreader.rs"],[("mode table, partitions and anchors","src/bcn/bc7.rs, src/bcn/consts.rs")])
fmt("C09","ATC RGB4 and RGBA8 blocks decode to the texels the format defines",
 "Every ATC block decodes to the four-color palette its mode bit selects (RGB555/565 end points with 1/3 and 2/3 mixes, or the black / color - 1/4 variant), clamped to the byte range, with 2-bit selectors per texel; ATC RGBA8 adds the interpolated 8-bit alpha of the leading 8 bytes.",
 "all block values",["src/atc.rs","src/bcn/bc3.rs","src/color.rs"],[("palette","src/atc.rs decode_atc_block")])
fmt("C10","ETC1, ETC2 RGB and ETC2 RGB-A1 blocks decode to the format's texels",
 "Every ETC1 block (individual and differential, either flip, all 8 tables) and every ETC2 RGB or RGB-A1 block (also T, H and planar modes, selected by overflowing differentials) decodes to exactly the 16 texels the Khronos definition gives; with the A1 opaque bit clear, selector 2 is transparent.",
 "all 2^64 block values",["src/etc/etc1.rs","src/etc/etc2.rs","src/etc/consts.rs"],[("mode selection by overflow","src/etc/etc2.rs"),("modifier tables","src/etc/consts.rs")])
fmt("C11","ETC2 RGBA8 and EAC R/RG (signed, unsigned) blocks decode as defined",
 "Every ETC2 RGBA8 block decodes its alpha from base, multiplier, table and 3-bit selectors, and every EAC R11/RG11 block, signed or unsigned, its 11-bit values (multiplier 0 included) reduced to 8 bits; color of RGBA8 follows ETC2 RGB, and values land at the texels the column-major selector order defines.",
 "all block values, all 16 tables and multipliers",["src/etc/eac.rs","src/etc/etc2.rs","src/etc/consts.rs","src/etc.rs"],[("EAC value and selector walk","src/etc/eac.rs")])
fmt("C12","Legal LDR ASTC blocks decode as defined, for all 14 footprints",
 "Every legal ASTC block with LDR endpoint modes decodes to exactly the texels of the ASTC definition for its footprint: block mode, weight grid and infill, dual plane, 1 to 4 partitions with the hash-based partition pattern, trit/quint integer sequences and every LDR color endpoint mode.",
 "all legal blocks of all 14 two-dimensional footprints (every block mode, every quantization level, all 1024 partition seeds)",["src/astc.rs","src/bitreader.rs"],[("decode_block_params / decode_endpoints / decode_weights / select_partition / applicate_color","src/astc.rs")])
fmt("C13","HDR ASTC endpoints and void-extent blocks decode as defined",
 "Every legal ASTC block that uses an HDR endpoint mode, alone or mixed with LDR partitions, and every void-extent block (LDR and half-float) decodes to the defined color, clamped to 8 bits per channel.",
 "all legal blocks with endpoint modes 2, 3, 7, 11, 14, 15, all void-extent constant values",["src/astc.rs","src/f16.rs"],[("decode_endpoints_hdr7/hdr11, select_color_hdr, void extent","src/astc.rs")])
fmt("C14","Illegal ASTC encodings decode to the error color over the whole block",
 "Every illegal ASTC encoding (reserved block mode, weight grid larger than the footprint, more than 64 weights, weight data below 24 or above 96 bits, dual plane with four partitions, more than 18 endpoint values or too few bits for them) decodes to opaque magenta in every texel of the block, and to nothing else.",
 "all illegal blocks for each footprint",["src/astc.rs"],[("legality tests","src/astc.rs decode_block_params, decode_astc_block")])
fmt("C15","PVRTC 4bpp images decode as defined, including wrap-around and Morton order",
 "Every PVRTC 4-bpp image with power-of-two block counts decodes to exactly the defined pixels: Morton-ordered blocks (rectangular too), 5-bit endpoint expansion with opaque and translucent forms, bilinear upscaling with wrap-around at all borders, standard and punch-through modulation.",
 "all block contents, all power-of-two grids from 1x1",["src/pvrtc.rs"],[("Morton index, neighbour blending, modulation","src/pvrtc.rs")])
fmt("C16","PVRTC 2bpp images decode as defined, including interpolated modulation",
 "Every PVRTC 2-bpp image with power-of-two block counts decodes to exactly the defined pixels: 1-bit modulation, checkerboard 2-bit modulation with horizontal, vertical or four-neighbour interpolation across block borders with wrap-around, and bilinear 8x4 upscaling of the end-point colors.",
 "all block contents, all power-of-two grids from 1x1",["src/pvrtc.rs"],[("2bpp modulation interpolation","src/pvrtc.rs")])
prop("C17","Crunch header query reports the header's values and rejects bad headers",
 "Reading the texture info of a crunch file yields exactly the width, height, level count, face count, format, bytes per block and user data its header stores, returning true; a buffer that is shorter than a header, has another signature, a header size below the format's minimum, a stored file size above the given size, a level table that does not fit or an unknown format gives false, and no buffer makes it panic.",
 ["inputs"],"all byte strings of any length, all valid headers",
 "The tests query one file; field positions, limits and truncated headers are never varied.",
 ["src/crunch/crn_decomp.rs","src/crunch/crn_consts.rs","src/crunch/crn_utils.rs"],[("header parse and validation","src/crunch/crn_decomp.rs crnd_get_header, crnd_get_texture_info")],["CrnTextureInfo fields, return value"])
prop("C18","Classic crunch DXT textures decode to the encoded texels",
 "Decoding a classic crunch file (DXT1, DXT5 and its swizzles, DXT5A, DXN) yields the image obtained by decoding the DXT blocks the file encodes: palettes, Huffman tables, chunk encodings, serpentine order, edge chunks and the first level/face are all resolved exactly.",
 ["inputs"],"all well-formed files: any palette contents and sizes, code-length tables, chunk encodings, segment order, dimensions including non-multiples of 8, levels and faces",
 "One fixture per codec is decoded and only checked for not failing.",
 ["src/crunch/*.rs","src/crunch.rs","src/crnlib.rs"],[("static huffman model, symbol codec","src/crunch/crn_static_huffman_data_model.rs, src/crunch/crn_symbol_codec.rs"),("unpackers","src/crunch/crn_unpacker.rs")],["decode_crunch output"])
prop("C19","Unity crunch DXT textures decode to the encoded texels",
 "Decoding a Unity-variant crunch file with a DXT format yields the image obtained by decoding the DXT blocks the file encodes, resolving the variant's block references (copy from the left, above or chunk), delta palettes and absolute selector indices exactly.",
 ["inputs"],"all well-formed files: any palettes, code-length tables, reference patterns, dimensions, levels and faces",
 "One fixture is decoded and only checked for not failing.",
 ["src/unitycrunch/*.rs","src/unitycrunch.rs","src/crunch/crn_symbol_codec.rs","src/crunch/crn_static_huffman_data_model.rs"],[("unpackers","src/unitycrunch/crn_unpacker.rs")],["decode_unity_crunch output"])
prop("C20","Unity crunch ETC textures decode to the encoded texels",
 "Decoding a Unity-variant crunch file with an ETC1, ETC1S, ETC2, ETC2A or ETC2AS format yields the image obtained by decoding the ETC blocks the file encodes, including differential/individual sub-block endpoints, flips and alpha selector orientation; the classic decoder rejects these formats with Err.",
 ["inputs"],"all well-formed files with ETC formats",
 "No ETC crunch fixture's pixels are compared.",
 ["src/unitycrunch/*.rs","src/crunch.rs"],[("ETC unpackers","src/unitycrunch/crn_unpacker.rs unpack_etc1, unpack_etc2a")],["decode_unity_crunch output"])
prop("C21","Malformed crunch data never panics, hangs or exhausts memory",
 "For any byte string and any requested size, both crunch decoders and the info query return (Ok or Err) without panicking, aborting or looping forever, in release and overflow-checked builds, using memory bounded by a small multiple of the data length plus the caller's image size. A file truncated or corrupted so that required data is missing never reads outside the supplied slice.",
 ["inputs","fault_sequences"],"arbitrary bytes, and every kind of corruption or truncation of well-formed files",
 "No test passes malformed crunch data.",
 ["src/crunch/*.rs","src/unitycrunch/*.rs","src/crnlib.rs","src/crunch.rs","src/unitycrunch.rs"],[("bounds of codec buffers, Huffman table construction, palette indices","src/crunch/*.rs")],["return of decode_crunch, decode_unity_crunch, crnd_get_texture_info","allocator"])
prop("C22","Decoded pixels do not depend on target word size or byte order",
 "Every decoder gives the same pixels on 32-bit and 64-bit, little- and big-endian targets (each output u32 having the same value, alpha in its top byte down to blue in its lowest), and no execution has undefined behaviour.",
 ["configurations","inputs"],"targets of either word size and endianness; all formats",
 "Tests run only on x86-64.",
 ["src/color.rs","src/bitreader.rs","src/etc/*.rs","src/crunch/*.rs","src/bcn/*.rs"],[("cfg(target_endian) branches and integer widths","src/color.rs, src/etc, src/crunch")],["output of every decoder under an interpreter for another target"])
prop("C23","The no-alloc build offers the same block formats with the same results",
 "Built without the alloc feature the crate compiles without the standard library and its texture decoders give the same results as the default build; block decoders, and image decoders of formats other than PVRTC and crunch, never allocate heap memory in either build.",
 ["configurations","inputs"],"both feature sets; all formats and inputs",
 "The tests only build the default feature set and do not observe the allocator.",
 ["Cargo.toml","src/lib.rs","src/pvrtc.rs"],[("cfg(feature = alloc)","src/lib.rs, src/pvrtc.rs")],["build result, allocator, decoder output"])
prop("C24","Decoding is deterministic and safe to run from many threads at once",
 "The result of a decode depends only on its arguments: repeating it, interleaving other decodes, or running any number of decodes concurrently in different threads gives bit-identical pixels, with no data race, and optimized and overflow-checked builds agree.",
 ["schedules","histories"],"all decoders, call sequences and thread interleavings",
 "Tests decode once per process and thread and never compare results.",
 ["src/**/*.rs"],[("absence of shared mutable state","all decoders")],["decoder outputs across threads and repetitions"])
prop("C25","Python bindings return the decoder's pixels as BGRA bytes or raise an error",
 "Each Python decode function returns exactly width x height x 4 bytes equal to the Rust decoder's pixels in B, G, R, A order; short data, impossible sizes or malformed crunch data raise an ordinary Python exception, never a panic or crash, and the module stays usable.",
 ["inputs","histories"],"all bound functions, all inputs",
 "The Python tests decode one fixture per format and compare nothing but the absence of errors.",
 ["bindings/python/src/lib.rs"],[("macro-generated wrappers","bindings/python/src/lib.rs")],["bytes returned to Python, exceptions"])
prop("C26","Alternative entry points for the same format agree",
 "Entry points that name the same decoding give identical results: the fixed-footprint ASTC functions and the general one, the PVRTC bit-depth functions and the general one, BC6H signed/unsigned and the general one, block decoders and the general block API, RGBA8 formats and the composition of their color and alpha blocks, BC5 and two BC4 halves, RG and two R EAC halves.",
 ["inputs"],"all blocks and dimensions, all pairs of equivalent entry points",
 FIX+"each entry point is called at most once and nothing is compared.",
 ["src/astc.rs","src/pvrtc.rs","src/bcn.rs","src/bcn/*.rs","src/etc/*.rs","src/atc.rs"],[("macro-generated and composed decoders","src/astc.rs astc_decode_func!, src/macros.rs")],["outputs of both entry points"])
prop("C27","Decoding cost grows in proportion to the image",
 "A decode costs a bounded number of instructions per texel whatever the image's size and shape (one row, one column, square), heap bounded by the block count and stack that does not grow with the image; data behind what the image needs and pixels behind it cost nothing, an impossible request of a block or PVRTC decoder is refused without decoding, a damaged crunch file costs no more than its size and palettes allow, and whether it succeeds or fails a call keeps no memory once it has returned.",
 ["inputs"],"all formats, contents, shapes and sizes; damaged crunch files",
 "The tests decode one picture size per format and measure nothing.",
 ["src/**/*.rs"],[("per-image loops and buffers","src/macros.rs, src/pvrtc.rs, src/crunch.rs, src/unitycrunch.rs"),("palette and level buffers","src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs")],["instructions, heap peak, stack depth of each call; bytes still allocated after it"])
prop("C28","Crunch query and decoders agree on what a decodable file is",
 "What a crunch decoder decodes, the info query accepts: a well-formed file cut short anywhere is rejected by the query and by both decoders, and whenever a decoder returns Ok for any bytes the query is true for them, the file has at least one level, its format is one that decoder supports, and the requested image needs no more blocks than the stored width, height and faces give.",
 ["inputs","fault_sequences"],"all well-formed files, all their prefixes, all damaged files, all requested sizes",
 "No test cuts or damages a crunch file, or compares the query with the decoders.",
 ["src/crunch/*.rs","src/unitycrunch/*.rs","src/crunch.rs","src/unitycrunch.rs","src/crnlib.rs"],[("header validation shared by query and decoders","src/crunch/crn_decomp.rs, src/unitycrunch/crn_decomp.rs"),("level unpacking","src/crunch.rs crunch_unpack_level, src/unitycrunch.rs")],["CrnTextureInfo, return values of decode_crunch and decode_unity_crunch"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
