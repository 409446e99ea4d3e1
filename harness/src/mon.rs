//! Monitor core: deterministic PRNG, per-case context, verdict bookkeeping, counters.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng([u64; 2]);
fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xd6e8feb86659fd93);
    splitmix(&mut s) ^ splitmix(&mut s).rotate_left(17)
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64 ^ (b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    let mut c = b.chunks_exact(8);
    for k in &mut c {
        h = (h ^ u64::from_le_bytes(k.try_into().unwrap())).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    for &k in c.remainder() {
        h = (h ^ k as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 29;
    }
    h ^ (h >> 31)
}
pub fn hash32(b: &[u32]) -> u64 {
    let mut h = 0x77777777_12345671u64 ^ (b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for &k in b {
        h = (h ^ k as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h ^ (h >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s) | 1])
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let [a, mut b] = self.0;
        let r = a.wrapping_add(b).rotate_left(17).wrapping_add(a);
        b ^= a;
        self.0 = [a.rotate_left(49) ^ b ^ (b << 21), b.rotate_left(28)];
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// byte with a bias to the values where codecs change behaviour
    pub fn edge8(&mut self) -> u8 {
        match self.below(8) {
            0 => 0,
            1 => 255,
            2 => [1, 2, 127, 128, 129, 254, 0x80, 0x7f][self.below(8)],
            _ => self.u8(),
        }
    }
}

pub struct Fail {
    pub count: u64,
    pub case: u64,
    pub detail: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub case: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub evals: u64,
    pub hashes: Vec<u64>,
    pub cover: HashMap<(&'static str, u32), u64>,
    pub fails: BTreeMap<String, Fail>,
    pub samples: Vec<String>,
}
const MAX_HASH: usize = 1_500_000;

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx {
            rng: Rng::new(seed),
            seed,
            case: 0,
            thorough,
            verbose: false,
            evals: 0,
            hashes: vec![],
            cover: HashMap::new(),
            fails: BTreeMap::new(),
            samples: vec![],
        }
    }
    #[inline]
    pub fn cov(&mut self, k: &'static str, i: u32) {
        *self.cover.entry((k, i)).or_insert(0) += 1;
    }
    #[inline]
    pub fn covn(&mut self, k: &'static str, i: u32, n: u64) {
        *self.cover.entry((k, i)).or_insert(0) += n;
    }
    #[inline]
    pub fn seen(&mut self, h: u64) {
        if self.hashes.len() < MAX_HASH {
            self.hashes.push(h);
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl FnOnce() -> String) {
        let case = self.case;
        let e = self.fails.entry(sig.into());
        match e {
            std::collections::btree_map::Entry::Occupied(mut o) => o.get_mut().count += 1,
            std::collections::btree_map::Entry::Vacant(v) => {
                v.insert(Fail { count: 1, case, detail: detail() });
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 400 {
                let mut n = 400;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("..");
            }
            self.samples.push(s);
        }
    }
    /// Run code under test; a panic is recorded as a failure `panic:<what>:<file>:<kind>`.
    pub fn guard<R>(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match guard_raw(f) {
            Ok(r) => Some(r),
            Err((msg, loc)) => {
                self.fail(panic_sig(what, &msg, &loc), || format!("panicked: {msg} at {loc}; {}", input()));
                None
            }
        }
    }
}
pub fn panic_sig(what: &str, msg: &str, loc: &str) -> String {
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let kind: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("panic:{what}:{file}:{kind}")
}
pub fn guard_raw<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(4096) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 4096 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
