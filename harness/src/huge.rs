//! A slice of more than 2^32 elements that costs only the pages touched.
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
}
pub struct Huge<T: Copy> {
    p: *mut T,
    n: usize,
}
impl<T: Copy> Huge<T> {
    /// None where the system does not give that much address space
    pub fn new(n: usize, head: &[T]) -> Option<Self> {
        // private, anonymous, no swap reserved
        let p = unsafe { mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), 3, 0x4022, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        let mut h = Huge { p: p as *mut T, n };
        h.get()[..head.len()].copy_from_slice(head);
        Some(h)
    }
    pub fn get(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
}
impl<T: Copy> Drop for Huge<T> {
    fn drop(&mut self) {
        unsafe { munmap(self.p as *mut u8, self.n * std::mem::size_of::<T>()) };
    }
}

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn close(fd: i32) -> i32;
    fn madvise(p: *mut u8, n: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;
/// A slice of many gigabytes that repeats one stretch of memory, except around chosen places, which have
/// memory of their own.
pub struct Alias<T: Copy> {
    p: *mut u8,
    bytes: usize,
    n: usize,
    /// what may be dropped from the page table at any time: the memory is shared
    shared: Vec<(usize, usize)>,
    _t: std::marker::PhantomData<T>,
}
impl<T: Copy> Alias<T> {
    /// `period` bytes (whole pages) repeat; `own` are element indices
    pub fn new(n: usize, period: usize, own: &[usize]) -> Option<Self> {
        const OWN: usize = 32 * PAGE;
        let bytes = (n * std::mem::size_of::<T>()).div_ceil(PAGE) * PAGE;
        unsafe {
            let fd = memfd_create(c"alias".as_ptr() as *const u8, 1);
            if fd < 0 {
                return None;
            }
            let p = mmap(std::ptr::null_mut(), bytes, 0, 0x4022, -1, 0);
            if ftruncate(fd, period as i64) != 0 || p as isize == -1 {
                close(fd);
                return None;
            }
            let mut a = Alias { p, bytes, n, shared: vec![], _t: std::marker::PhantomData };
            let mut ok = true;
            let mut free = 0;
            let mut o = 0;
            while o < bytes && ok {
                // shared, fixed
                ok = mmap(p.add(o), period.min(bytes - o), 3, 0x11, fd, 0) as isize != -1;
                o += period;
            }
            let mut own: Vec<usize> = own.iter().map(|i| (i * std::mem::size_of::<T>() / PAGE * PAGE).saturating_sub(OWN / 2)).collect();
            own.sort();
            for at in own {
                // private, fixed, anonymous
                ok &= mmap(p.add(at), OWN.min(bytes - at), 3, 0x32, -1, 0) as isize != -1;
                if at > free {
                    a.shared.push((p as usize + free, at - free));
                }
                free = at + OWN;
            }
            if free < bytes {
                a.shared.push((p as usize + free, bytes - free));
            }
            close(fd);
            ok.then_some(a)
        }
    }
    pub fn get(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut T, self.n) }
    }
    pub fn shared(&self) -> Vec<(usize, usize)> {
        self.shared.clone()
    }
}
/// Runs `f` while every page of the shared stretches is unmapped again soon after its use, so that the process
/// does not seem to hold gigabytes.
pub fn trimmed<R>(a: &[&[(usize, usize)]], f: impl FnOnce() -> R) -> R {
    use std::sync::atomic::{AtomicBool, Ordering};
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                for &(p, n) in a.iter().copied().flatten() {
                    unsafe { madvise(p as *mut u8, n, 4) };
                }
                std::thread::sleep(std::time::Duration::from_millis(100));
            }
        });
        let _end = End(&done); // also when `f` panics
        f()
    })
}
struct End<'a>(&'a std::sync::atomic::AtomicBool);
impl Drop for End<'_> {
    fn drop(&mut self) {
        self.0.store(true, std::sync::atomic::Ordering::Relaxed);
    }
}
impl<T: Copy> Drop for Alias<T> {
    fn drop(&mut self) {
        unsafe { munmap(self.p, self.bytes) };
    }
}
