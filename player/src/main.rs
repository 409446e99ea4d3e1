//! Replays recorded decodes in this build / target / interpreter and compares with what the
//! recording build produced. Prints one "BAD <index> <op> <what>" line per kind of mismatch
//! and a final "DONE ..." line with what was observed.
mod ops;

use ops::{ops, Args, Kind, Op};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufReader, Read};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

const POISON: u32 = 0x5a5a_5a5a;
/// a record of ../rec.rs
struct Rec {
    op: usize,
    w: u64,
    h: u64,
    bw: usize,
    bh: usize,
    data: Vec<u8>,
    ok: bool,
    out: Vec<u8>,
}
fn next(f: &mut impl Read) -> Option<Rec> {
    let mut h = [0u8; 28];
    f.read_exact(&mut h).ok()?;
    let u32_ = |k: usize| u32::from_le_bytes(h[k..k + 4].try_into().unwrap()) as usize;
    let u64_ = |k: usize| u64::from_le_bytes(h[k..k + 8].try_into().unwrap());
    let (mut data, mut out) = (vec![0; u32_(20)], vec![0; u32_(24)]);
    f.read_exact(&mut data).unwrap();
    f.read_exact(&mut out).unwrap();
    Some(Rec { op: h[0] as usize, bw: h[1] as usize, bh: h[2] as usize, ok: h[3] != 0, w: u64_(4), h: u64_(12), data, out })
}

struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = N.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// runs a record; Err(what) on any difference from the recording
fn play(o: &Op, r: &Rec, allocs: Option<&mut u64>) -> Result<(), String> {
    // a width this target's usize cannot hold is as good as its largest one
    let us = |x: u64| usize::try_from(x).unwrap_or(usize::MAX);
    let a = Args { data: &r.data, w: us(r.w), h: us(r.h), bw: r.bw, bh: r.bh };
    let mut out = vec![POISON; r.out.len() / 4];
    let n0 = N.with(|c| c.get());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)(&a, &mut out)));
    let n1 = N.with(|c| c.get());
    let res = match res {
        Err(_) => return Err("panicked".into()),
        Ok(x) => x,
    };
    if let Some(t) = allocs {
        *t += n1 - n0;
    }
    if o.heapless && n1 != n0 {
        return Err(format!("allocated {} times", n1 - n0));
    }
    if res.is_ok() != r.ok {
        return Err(format!("returned {res:?}, recorded {}", if r.ok { "Ok" } else { "Err" }));
    }
    for k in 0..out.len() {
        let want = u32::from_le_bytes(r.out[4 * k..4 * k + 4].try_into().unwrap());
        if out[k] != want {
            return Err(format!("element {k} is {:08x}, recorded {want:08x}", out[k]));
        }
    }
    Ok(())
}
fn bad(i: usize, o: &Op, r: &Rec, what: &str) {
    let hex: String = r.data.iter().take(400).map(|x| format!("{x:02x}")).collect();
    println!("BAD {i} {}{} {what}; {}x{} bw {} bh {} data {hex}", o.name, if o.kind == Kind::Block { "_block" } else { "" }, r.w, r.h, r.bw, r.bh);
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().find_map(|x| x.strip_prefix(k)?.strip_prefix('=')?.parse().ok()).unwrap_or(d);
    let ops = ops();
    if a[1] == "ops" {
        for o in ops {
            println!("{} {:?}", o.name, o.kind);
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let mut file = BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let mut total = 0;
    // operations this build does not have (crunch without alloc) come last in the list
    let mut recs: Vec<(usize, Rec)> = vec![];
    if a[1] != "run" {
        while let Some(r) = next(&mut file) {
            if r.op < ops.len() {
                recs.push((total, r));
            }
            total += 1;
        }
    }
    let (mut plays, mut allocs, mut kinds) = (0u64, 0u64, BTreeSet::new());
    let mut extra = String::new();
    let nbad = AtomicUsize::new(0);
    let report = |i: usize, r: &Rec, w: &str| {
        if nbad.fetch_add(1, Relaxed) < 20 {
            bad(i, &ops[r.op], r, w);
        }
    };
    match a[1].as_str() {
        // each record once, in order
        "run" => {
            let (first, step) = (get("first", 0) as usize, get("step", 1) as usize);
            let until = get("secs", 1 << 40);
            let t0 = std::time::Instant::now();
            while let Some(r) = next(&mut file) {
                let i = total;
                total += 1;
                if r.op >= ops.len() || i < first || (i - first) % step != 0 {
                    continue;
                }
                if t0.elapsed().as_secs() >= until {
                    break;
                }
                if let Err(w) = play(&ops[r.op], &r, Some(&mut allocs)) {
                    report(i, &r, &w);
                }
                plays += 1;
                kinds.insert(r.op);
            }
        }
        // one process, every history: shuffled passes, and A B A triples
        "history" => {
            let mut g = Rng(get("seed", 1));
            let mut orders = BTreeSet::new();
            let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for (k, (_, r)) in recs.iter().enumerate() {
                by.entry(r.op).or_default().push(k);
            }
            let by: Vec<Vec<usize>> = by.into_values().collect();
            for _ in 0..get("rounds", 4) {
                let mut o: Vec<usize> = (0..recs.len()).collect();
                for i in (1..o.len()).rev() {
                    o.swap(i, g.below(i + 1));
                }
                for k in 0..o.len() {
                    let (i, r) = &recs[o[k]];
                    // half the time something of the same operation goes in between
                    let s = if g.below(2) == 0 { *{ let v = &by[by.iter().position(|v| recs[v[0]].1.op == r.op).unwrap()]; &v[g.below(v.len())] } } else { o[g.below(o.len())] };
                    for (n, (i, r)) in [(0, (i, r)), (1, (&recs[s].0, &recs[s].1)), (2, (i, r))] {
                        if let Err(w) = play(&ops[r.op], r, None) {
                            report(*i, r, &format!("(step {n} of a history) {w}"));
                        }
                        plays += 1;
                    }
                    orders.insert((recs[o[k]].1.op, recs[s].1.op));
                    kinds.insert(r.op);
                }
            }
            extra = format!(" op_pairs={}", orders.len());
        }
        // one process, each operation very often (a call counter of 16 bits wraps)
        "long" => {
            let n = get("plays", 70000) as usize;
            let mut g = Rng(get("seed", 1));
            let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for (k, (_, r)) in recs.iter().enumerate() {
                by.entry(r.op).or_default().push(k);
            }
            let mut most = u64::MAX;
            for (op, v) in &mut by {
                if op % get("step", 1) as usize != get("first", 0) as usize {
                    continue;
                }
                v.sort_by_key(|&k| recs[k].1.data.len() + recs[k].1.out.len());
                let few = v.len().min(12);
                let mut bads = 0;
                let mut done = 0;
                for k in 0..n {
                    let (i, r) = &recs[v[if k % 64 == 63 { g.below(v.len()) } else { g.below(few) }]];
                    done += 1;
                    if let Err(w) = play(&ops[r.op], r, None) {
                        report(*i, r, &format!("(call {k} of this operation) {w}"));
                        bads += 1;
                        if bads > 2 {
                            break;
                        }
                    }
                }
                plays += done;
                most = most.min(done);
                kinds.insert(*op);
            }
            extra = format!(" calls_per_op={}", if most == u64::MAX { 0 } else { most });
        }
        // many threads at once, on shared inputs
        "threads" => {
            let n = get("threads", 8) as usize;
            let rounds = get("rounds", 200) as usize;
            let burst = get("burst", 20) as usize;
            let seed = get("seed", 1);
            let bar = Barrier::new(n);
            let count = AtomicUsize::new(0);
            let active: Vec<AtomicUsize> = (0..ops.len()).map(|_| AtomicUsize::new(0)).collect();
            let pairs = Mutex::new(BTreeSet::new());
            let same = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for t in 0..n {
                    let (recs, ops, bar, count, active, pairs, same, report) = (&recs, &ops, &bar, &count, &active, &pairs, &same, &report);
                    s.spawn(move || {
                        let mut own = Rng(seed ^ (t as u64 + 1) << 32);
                        let mut mine = BTreeSet::new();
                        for k in 0..rounds {
                            // all threads draw the same plan for the round
                            let mut g = Rng(seed.wrapping_add(k as u64 * 77));
                            let plan = g.below(3);
                            let focus = g.below(recs.len());
                            let fop = recs[focus].1.op;
                            let like: Vec<usize> = (0..recs.len()).filter(|&i| recs[i].1.op == fop).collect();
                            bar.wait();
                            for _ in 0..burst {
                                let i = match plan {
                                    0 => focus,
                                    1 => like[own.below(like.len())],
                                    _ => own.below(recs.len()),
                                };
                                let (i, r) = &recs[i];
                                // what else is running right now (relaxed: the monitor must not order the threads)
                                for (q, c) in active.iter().enumerate() {
                                    if c.load(Relaxed) > 0 {
                                        mine.insert((r.op, q));
                                    }
                                }
                                if active[r.op].fetch_add(1, Relaxed) > 0 {
                                    same.fetch_add(1, Relaxed);
                                }
                                let w = play(&ops[r.op], r, None);
                                active[r.op].fetch_sub(1, Relaxed);
                                if let Err(w) = w {
                                    report(*i, r, &format!("(in thread {t} of {n}) {w}"));
                                }
                                count.fetch_add(1, Relaxed);
                                if own.below(8) == 0 {
                                    std::thread::yield_now();
                                }
                            }
                        }
                        pairs.lock().unwrap().extend(mine);
                    });
                }
            });
            plays = count.load(Relaxed) as u64;
            kinds.extend(recs.iter().map(|r| r.1.op));
            extra = format!(" overlapping_op_pairs={} same_op_overlaps={}", pairs.lock().unwrap().len(), same.load(Relaxed));
        }
        m => panic!("unknown mode {m}"),
    }
    println!("DONE plays={plays} records={total} ops={} allocs={allocs} bad={}{extra}", kinds.len(), nbad.load(Relaxed));
}
