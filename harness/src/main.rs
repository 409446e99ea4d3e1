mod alloc;
mod corpus;
mod cost;
mod crn;
mod formats;
mod gen;
mod huge;
mod mon;
#[path = "../../player/src/ops.rs"]
mod ops;
mod props;
#[path = "../../player/src/rec.rs"]
mod rec;
mod refs;

use mon::*;
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::Instant;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// t2dmon work PROP k=v..   keys: seed, tier, shard (i/n), secs, out, status, hash, case
/// t2dmon merge FILE..      number of distinct 64-bit hashes over the files
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("work") => work(&a[2], &a[3..]),
        Some("merge") => {
            let mut v: Vec<u64> = vec![];
            for f in &a[2..] {
                let b = std::fs::read(f).unwrap();
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        // dev aid: blocks on stdin -> texels (u32 LE) on stdout, by the oracle or the decoder
        Some("dump") => {
            use std::io::Read;
            let f = formats::by(&a[2]);
            let mut d = vec![];
            std::io::stdin().read_to_end(&mut d).unwrap();
            let mut o = vec![];
            for b in d.chunks_exact(f.bytes) {
                let mut px = vec![0xff000000u32; f.bw * f.bh];
                if a[3] == "ref" {
                    px = f.oracle(b).iter().map(|p| p.0).collect();
                } else {
                    f.block(b, &mut px);
                }
                for p in px {
                    o.extend_from_slice(&p.to_le_bytes());
                }
            }
            std::io::stdout().write_all(&o).unwrap();
        }
        Some("gen") => {
            let f = formats::by(&a[2]);
            let mut r = Rng::new(a[3].parse().unwrap());
            std::io::stdout().write_all(&f.gen_blocks(&mut r, a[4].parse().unwrap())).unwrap();
        }
        // t2dmon crn FORMAT unity|classic W H FACES big|small N SEED > files (w, h, length, bytes); W or H 0: random
        Some("crn") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let mut r = Rng::new(n(9));
            for _ in 0..n(8) {
                let (rw, rh) = crn::dims(&mut r);
                let (w, h) = (if n(4) == 0 { rw } else { n(4) as usize }, if n(5) == 0 { rh } else { n(5) as usize });
                let f = crn::make(&mut r, n(2) as u8, a[3] == "unity", crn::Want { w, h, faces: n(6) as usize, big: a[7] == "big", gaps: false }, &mut |_, _| ());
                let mut o = vec![];
                for x in [w, h, f.bytes.len()] {
                    o.extend((x as u32).to_le_bytes());
                }
                o.extend(f.bytes);
                std::io::stdout().write_all(&o).unwrap();
            }
        }
        // seeds for the coverage-guided fuzzers: seeds crunch|blocks DIR N SEED
        Some("seeds") => {
            let mut r = Rng::new(a[5].parse().unwrap());
            let _ = formats::all();
            for k in 0..a[4].parse::<usize>().unwrap() {
                let b = if a[2] == "crunch" {
                    let unity = k % 2 == 1;
                    let fmts: Vec<u8> = if unity { (0..15).filter(|&f| f != 1).collect() } else { crn::CLASSIC.to_vec() };
                    let (w, h) = (r.range(1, 24), r.range(1, 24));
                    let faces = 1 + r.chance(1, 4) as usize;
                    crn::make(&mut r, fmts[k / 2 % fmts.len()], unity, crn::Want { w, h, faces, big: false, gaps: false }, &mut |_, _| ()).bytes
                } else {
                    let all = formats::all();
                    let n = all.len() + 2;
                    let f = k % n;
                    let mut b = vec![(f + n * r.below(4)) as u8];
                    if f < all.len() {
                        b.extend(all[f].gen_blocks(&mut r, 1));
                    } else {
                        let mut d = vec![0; 8 << r.below(4)];
                        for c in d.chunks_mut(8) {
                            gen::pvrtc(&mut r, c);
                        }
                        b.extend(d);
                    }
                    b
                };
                std::fs::write(format!("{}/{k}", a[3]), b).unwrap();
            }
        }
        Some("corpus") => corpus::main(&a[2..]),
        Some("ops") => {
            for (i, o) in ops::ops().iter().enumerate() {
                println!("{i} {} {:?}", o.name, o.kind);
            }
        }
        Some("props") => {
            for p in props::PROPS {
                println!("{}\t{}\t{}\t{}", p.id, p.quick, p.thorough, p.rule);
            }
        }
        _ => {
            eprintln!("usage: t2dmon work|merge|props");
            std::process::exit(2);
        }
    }
}
fn work(prop: &str, kv: &[String]) {
    let m: HashMap<&str, &str> = kv.iter().filter_map(|s| s.split_once('=')).collect();
    let get = |k: &str, d: u64| m.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let p = props::PROPS.iter().find(|p| p.id == prop).unwrap_or_else(|| {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    });
    let seed = get("seed", 1);
    let thorough = m.get("tier") == Some(&"thorough");
    let n = if thorough { p.thorough } else { p.quick };
    let (si, sn) = m.get("shard").and_then(|s| s.split_once('/')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap_or((0u64, 1u64));
    let secs = get("secs", 1_000_000) as f64;
    let status = m.get("status").map(|f| std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(f).unwrap());
    let out = m.get("out").copied();
    install_hook();
    let mut ctx = Ctx::new(seed, thorough);
    let t0 = Instant::now();
    let range: Vec<u64> = match m.get("case") {
        Some(c) => vec![c.parse().unwrap()],
        None => vec![],
    };
    let skip: Vec<u64> = m.get("skip").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let phash = hash(prop.as_bytes());
    let mut done = 0u64;
    let mut last = 0u64;
    let mut it: Box<dyn Iterator<Item = u64>> = if range.is_empty() { Box::new((0..n).filter(move |i| i % sn == si)) } else { Box::new(range.into_iter()) };
    let mut truncated = false;
    for i in &mut it {
        if skip.contains(&i) {
            continue;
        }
        if t0.elapsed().as_secs_f64() > secs {
            truncated = true;
            break;
        }
        if let Some(s) = &status {
            let _ = s.write_at(&i.to_le_bytes(), 0);
        }
        ctx.case = i;
        ctx.rng = Rng::new(mix(mix(seed, phash), i));
        match guard_raw(|| (p.run)(&mut ctx, i)) {
            Ok(()) => {}
            Err((m, l)) if l.contains("/repo/src/") => ctx.fail(panic_sig("unguarded", &m, &l), || format!("the code under test panicked: {m} at {l}")),
            Err((m, l)) => {
                // a panic outside a guarded call is a bug of the harness
                eprintln!("HARNESS PANIC in {prop} case {i}: {m} at {l}");
                std::process::exit(3);
            }
        }
        done += 1;
        last = i;
    }
    if let Some(s) = &status {
        let _ = s.write_at(&u64::MAX.to_le_bytes(), 0);
    }
    let mut cov: std::collections::BTreeMap<&str, std::collections::BTreeMap<u32, u64>> = Default::default();
    for ((k, i), c) in &ctx.cover {
        *cov.entry(k).or_default().entry(*i).or_insert(0) += c;
    }
    let mut s = format!("{{\"prop\":{},\"cases\":{done},\"planned\":{n},\"last\":{last},\"truncated\":{truncated},\"evals\":{},\"secs\":{:.3},", esc(prop), ctx.evals, t0.elapsed().as_secs_f64());
    s.push_str("\"cover\":{");
    s.push_str(&cov.iter().map(|(k, v)| format!("{}:{{{}}}", esc(k), v.iter().map(|(i, c)| format!("\"{i}\":{c}")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    s.push_str("},\"fails\":[");
    s.push_str(&ctx.fails.iter().map(|(k, f)| format!("{{\"sig\":{},\"count\":{},\"case\":{},\"detail\":{}}}", esc(k), f.count, f.case, esc(&f.detail))).collect::<Vec<_>>().join(","));
    s.push_str("],\"samples\":[");
    s.push_str(&ctx.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("]}");
    if let Some(h) = m.get("hash") {
        let mut f = std::io::BufWriter::new(std::fs::File::create(h).unwrap());
        for x in &ctx.hashes {
            f.write_all(&x.to_le_bytes()).unwrap();
        }
    }
    match out {
        Some(o) => std::fs::write(o, s).unwrap(),
        None => println!("{s}"),
    }
}
