//! The player without an operating system's runtime: no std, no libc, and without the `alloc`
//! feature no heap either. Runs as a static Linux program on x86-64 and i686 (32-bit usize).
//! Reads recorded decodes from stdin, replays them, prints BAD lines and a DONE line.
#![no_std]
#![no_main]
#[cfg(feature = "alloc")]
extern crate alloc;

use core::arch::{asm, global_asm};
use core::fmt::Write;
#[path = "../../player/src/ops.rs"]
mod ops;
use ops::{ops, Args, Kind};

#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and rsp, -16", "call {m}", "ud2", m = sym start);
#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call {m}", "ud2", m = sym start);

const READ: usize = 0;
const WRITE: usize = 1;
const EXIT: usize = 2;
#[cfg(target_arch = "x86_64")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe { asm!("syscall", inlateout("rax") [0usize, 1, 231][n] as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _) };
    r
}
#[cfg(target_arch = "x86")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe { asm!("int 0x80", inlateout("eax") [3usize, 4, 252][n] as isize => r, in("ebx") a, in("ecx") b, in("edx") c) };
    r
}
struct Out;
impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        sys(WRITE, 1, s.as_ptr() as usize, s.len());
        Ok(())
    }
}
static mut NOW: (usize, &str) = (0, "");
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    let (k, n) = unsafe { NOW };
    let _ = writeln!(Out, "BAD {k} {n} panicked: {} at {:?}", i.message(), i.location());
    exit(4)
}
fn exit(c: usize) -> ! {
    sys(EXIT, c, 0, 0);
    loop {}
}

const IN: usize = 192 << 20;
static mut INPUT: [u8; IN] = [0; IN];
const OUT: usize = 1 << 22;
static mut OUTBUF: [u32; OUT] = [0; OUT];

#[cfg(feature = "alloc")]
mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    /// an arena, emptied after every decode
    pub struct Arena;
    const N: usize = 512 << 20;
    static mut MEM: [u8; N] = [0; N];
    pub static mut USED: usize = 0;
    unsafe impl GlobalAlloc for Arena {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let base = &raw mut MEM as *mut u8 as usize;
            let p = (base + USED + l.align() - 1) & !(l.align() - 1);
            match p.checked_add(l.size()) {
                Some(e) if e <= base + N => {
                    USED = e - base;
                    p as *mut u8
                }
                _ => core::ptr::null_mut(),
            }
        }
        unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
    }
    #[global_allocator]
    static A: Arena = Arena;
}

extern "C" fn start() -> ! {
    let input: &'static mut [u8] = unsafe { &mut *&raw mut INPUT };
    let outbuf: &'static mut [u32] = unsafe { &mut *&raw mut OUTBUF };
    let mut n = 0;
    loop {
        let r = sys(READ, 0, input[n..].as_mut_ptr() as usize, IN - n);
        if r <= 0 {
            break;
        }
        n += r as usize;
        if n == IN {
            exit(5);
        }
    }
    let b: &[u8] = &input[..n];
    let u32_ = |k: usize| u32::from_le_bytes(b[k..k + 4].try_into().unwrap());
    let u64_ = |k: usize| u64::from_le_bytes(b[k..k + 8].try_into().unwrap());
    let us = |x: u64| usize::try_from(x).unwrap_or(usize::MAX);
    let ops = ops();
    #[cfg(feature = "alloc")]
    let mark = unsafe { heap::USED };
    let (mut k, mut i, mut plays, mut bad) = (0, 0usize, 0usize, 0usize);
    while k < b.len() {
        let (d, o) = (u32_(k + 20) as usize, u32_(k + 24) as usize);
        let p = k + 28;
        if (b[k] as usize) < ops.len() {
            let op = &ops[b[k] as usize];
            unsafe { NOW = (i, op.name) };
            let out = &mut outbuf[..o / 4];
            out.fill(0x5a5a_5a5a);
            let a = Args { data: &b[p..p + d], w: us(u64_(k + 4)), h: us(u64_(k + 12)), bw: b[k + 1] as usize, bh: b[k + 2] as usize };
            let r = (op.run)(&a, out);
            plays += 1;
            let mut what = None;
            if r.is_ok() != (b[k + 3] != 0) {
                what = Some((0, r.is_ok() as u32, b[k + 3] as u32, "Ok flag"));
            } else {
                for j in 0..out.len() {
                    let want = u32_(p + d + 4 * j);
                    if out[j] != want {
                        what = Some((j, out[j], want, "element"));
                        break;
                    }
                }
            }
            if let Some((j, g, w, t)) = what {
                bad += 1;
                if bad <= 20 {
                    let _ = write!(Out, "BAD {i} {}{} {t} {j} is {g:08x}, recorded {w:08x}; {}x{} bw {} bh {} data ", op.name, if op.kind == Kind::Block { "_block" } else { "" }, a.w, a.h, a.bw, a.bh);
                    for x in a.data.iter().take(300) {
                        let _ = write!(Out, "{x:02x}");
                    }
                    let _ = writeln!(Out);
                }
            }
            #[cfg(feature = "alloc")]
            unsafe {
                heap::USED = mark
            }
        }
        i += 1;
        k = p + d + o;
    }
    let _ = writeln!(Out, "DONE plays={plays} records={i} bits={} alloc={} bad={bad}", usize::BITS, cfg!(feature = "alloc") as u32);
    exit(0)
}
