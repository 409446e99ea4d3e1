//! What one call costs: instructions (counted by callgrind, when running under it), heap peak and
//! allocations (the counting allocator) and stack depth (a painted stack of our own).
use crate::alloc;
use crate::mon::guard_raw;
use std::arch::asm;
use std::ffi::c_void;

#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub instr: Option<u64>,
    pub heap: u64,
    pub allocs: u64,
    pub stack: u64,
}
/// valgrind client request (amd64 magic sequence); 0 when not under valgrind
fn request(n: u64, arg: u64) -> u64 {
    let a = [n, arg, 0, 0, 0, 0];
    let mut r = 0u64;
    unsafe {
        asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") a.as_ptr(), inout("rdx") r, inout("rdi") 0u64 => _);
    }
    r
}
const CT: u64 = 0x4354_0000;
pub fn valgrind() -> bool {
    request(0x1001, 0) != 0
}
fn start() {
    request(CT + 4, 0);
    request(CT + 1, 0);
}
extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    fn pthread_attr_init(a: *mut [u64; 16]) -> i32;
    fn pthread_attr_setstack(a: *mut [u64; 16], p: *mut c_void, n: usize) -> i32;
    fn pthread_create(t: *mut u64, a: *const [u64; 16], f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> i32;
    fn pthread_join(t: u64, r: *mut *mut c_void) -> i32;
}
const STACK: usize = 2 << 20;
const PAGE: usize = 4096;
pub struct Meter {
    base: *mut u8,
    prefix: Option<String>,
    idle: u64,
}
struct Job<'a> {
    f: &'a mut dyn FnMut(),
    prefix: Option<&'a str>,
    out: Option<Result<(u64, u64, u64), (String, String)>>,
}
extern "C" fn entry(p: *mut c_void) -> *mut c_void {
    let j = unsafe { &mut *(p as *mut Job) };
    let f = &mut j.f;
    let on = j.prefix.is_some();
    j.out = Some(guard_raw(|| {
        let (n, peak, _) = alloc::watch(1 << 30, || {
            if on {
                start();
            }
            f();
            if on {
                // counts are frozen here; the file is read by the caller's side
                request(CT + 3, c"cost".as_ptr() as u64);
                request(CT + 5, 0);
            }
        });
        (n, peak, 0)
    }));
    std::ptr::null_mut()
}
impl Meter {
    /// prefix of callgrind's dump files, when under it
    pub fn new() -> Meter {
        let base = unsafe { mmap(std::ptr::null_mut(), STACK + PAGE, 3, 0x22, -1, 0) } as *mut u8;
        assert!(!base.is_null() && base as isize != -1);
        unsafe { mprotect(base as *mut c_void, PAGE, 0) };
        let prefix = valgrind().then(|| std::env::var("CG_OUT").expect("CG_OUT"));
        let mut m = Meter { base, prefix, idle: 0 };
        m.run(&mut || ()).unwrap(); // first use of the thread machinery
        m.idle = m.run(&mut || ()).unwrap().stack;
        m
    }
    /// Err: the call panicked
    pub fn run(&mut self, f: &mut dyn FnMut()) -> Result<Cost, (String, String)> {
        let stack = unsafe { std::slice::from_raw_parts_mut(self.base.add(PAGE), STACK) };
        stack.fill(0xa5);
        let mut j = Job { f, prefix: self.prefix.as_deref(), out: None };
        unsafe {
            let mut attr = [0u64; 16];
            let mut t = 0u64;
            assert_eq!(pthread_attr_init(&mut attr), 0);
            assert_eq!(pthread_attr_setstack(&mut attr, stack.as_mut_ptr() as *mut c_void, STACK), 0);
            assert_eq!(pthread_create(&mut t, &attr, entry, &mut j as *mut _ as *mut c_void), 0);
            assert_eq!(pthread_join(t, &mut std::ptr::null_mut()), 0);
        }
        let (allocs, heap, _) = j.out.take().unwrap()?;
        let instr = self.prefix.as_deref().map(read_dumps);
        let low = stack.iter().position(|&b| b != 0xa5).unwrap_or(STACK);
        Ok(Cost { instr, heap, allocs, stack: ((STACK - low) as u64).saturating_sub(self.idle) })
    }
}
/// instructions in the dumps written since the last call
fn read_dumps(prefix: &str) -> u64 {
    let (dir, base) = prefix.rsplit_once('/').unwrap();
    let mut total = None;
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let n = e.file_name().into_string().unwrap();
        if !n.starts_with(base) {
            continue;
        }
        let t = std::fs::read_to_string(e.path()).unwrap();
        let _ = std::fs::remove_file(e.path());
        if t.lines().any(|l| l.starts_with("desc: Trigger: Client Request")) {
            let v = t.lines().find_map(|l| l.strip_prefix("totals: ").or_else(|| l.strip_prefix("summary: "))).and_then(|l| l.split_whitespace().next()?.parse::<u64>().ok());
            total = Some(total.unwrap_or(0) + v.unwrap_or(0));
        }
    }
    total.expect("callgrind wrote no dump")
}
