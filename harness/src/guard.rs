//! Buffers whose neighbouring pages cannot be touched.
use std::ops::{Deref, DerefMut};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn close(fd: i32) -> i32;
}

const PAGE: usize = 4096;

/// A slice that ends at (or starts at) an inaccessible page. With `tail` the byte after the
/// last element faults; without it the byte before the first one does. The rest of its pages
/// is filled with a canary that `intact` checks.
pub struct Guarded<T: Copy> {
    base: *mut u8,
    total: usize,
    ptr: *mut T,
    len: usize,
}

const CANARY: u8 = 0xA7;

impl<T: Copy> Guarded<T> {
    pub fn new(data: &[T], tail: bool) -> Guarded<T> {
        let bytes = data.len() * std::mem::size_of::<T>();
        let inner = ((bytes + PAGE - 1) / PAGE).max(1) * PAGE;
        let total = inner + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap");
            std::ptr::write_bytes(base.add(PAGE), CANARY, inner);
            let off = if tail { PAGE + inner - bytes } else { PAGE };
            let ptr = base.add(off) as *mut T;
            std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
            assert_eq!(mprotect(base, PAGE, 0), 0);
            assert_eq!(mprotect(base.add(PAGE + inner), PAGE, 0), 0);
            Guarded { base, total, ptr, len: data.len() }
        }
    }

    /// Make the slice read-only: a store through it faults.
    pub fn freeze(&self) {
        unsafe { assert_eq!(mprotect(self.base.add(PAGE), self.total - 2 * PAGE, 1), 0); }
    }

    /// The number of bytes outside the slice, in its own pages, which have changed.
    pub fn damage(&self) -> usize {
        let lo = self.ptr as usize;
        let hi = lo + self.len * std::mem::size_of::<T>();
        let mut n = 0;
        for i in PAGE..self.total - PAGE {
            let a = self.base as usize + i;
            if a < lo || a >= hi {
                unsafe {
                    if *(a as *const u8) != CANARY { n += 1; }
                }
            }
        }
        n
    }
}

impl<T: Copy> Deref for Guarded<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}

impl<T: Copy> DerefMut for Guarded<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}

impl<T: Copy> Drop for Guarded<T> {
    fn drop(&mut self) {
        unsafe { munmap(self.base, self.total); }
    }
}

/// An allocator that hands out memory filled with a poison byte, so that memory the library
/// never wrote shows up as a wrong value.
pub struct Poison;

/// The poison; 0 leaves fresh memory as it is, for memcheck to see; BUMP never reuses memory, which
/// takes few instructions.
pub static POISON: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0xC3);

pub const BUMP: usize = 0xB000;
const ARENA: usize = 16 << 30;
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static BASE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Allocate from an arena from now on. For programs with one thread.
pub fn bump_allocator() {
    use std::sync::atomic::Ordering::Relaxed;
    unsafe {
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let b = mmap(std::ptr::null_mut(), ARENA, 3, 0x4022, -1, 0);
        assert!(b as isize != -1, "mmap");
        BASE.store(b as usize, Relaxed);
        NEXT.store(b as usize, Relaxed);
    }
    POISON.store(BUMP, Relaxed);
}

unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let b = POISON.load(std::sync::atomic::Ordering::Relaxed);
        if b == BUMP {
            use std::sync::atomic::Ordering::Relaxed;
            let p = (NEXT.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
            if p + l.size() > BASE.load(Relaxed) + ARENA { return std::ptr::null_mut(); }
            NEXT.store(p + l.size(), Relaxed);
            return p as *mut u8;
        }
        let p = std::alloc::System.alloc(l);
        if b != 0 && !p.is_null() && l.size() < (1 << 20) {
            std::ptr::write_bytes(p, b as u8, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if (p as usize).wrapping_sub(BASE.load(std::sync::atomic::Ordering::Relaxed)) < ARENA && POISON.load(std::sync::atomic::Ordering::Relaxed) == BUMP { return; }
        std::alloc::System.dealloc(p, l)
    }
}

/// A slice of more elements than 32 bits count, of zeroes but for windows of recognisable values
/// around the multiples of 2^31 and at the end; ends at an inaccessible page.
pub struct Huge<T: Copy> {
    base: *mut u8,
    total: usize,
    ptr: *mut T,
    len: usize,
    window: usize,
}

impl<T: crate::Elem> Huge<T> {
    pub fn new(len: usize, window: usize) -> Huge<T> {
        let bytes = len * std::mem::size_of::<T>();
        let inner = (bytes + PAGE - 1) / PAGE * PAGE;
        let total = inner + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x4022, -1, 0);
            assert!(base as isize != -1, "mmap");
            let ptr = base.add(PAGE + inner - bytes) as *mut T;
            assert_eq!(mprotect(base, PAGE, 0), 0);
            assert_eq!(mprotect(base.add(PAGE + inner), PAGE, 0), 0);
            let h = Huge { base, total, ptr, len, window };
            for m in 0..=len >> 31 {
                let b = m << 31;
                for i in b.saturating_sub(window)..(b + window).min(len) { *ptr.add(i) = h.at(i); }
            }
            for i in len - window..len { *ptr.add(i) = h.at(i); }
            h
        }
    }

    /// What was written to element `i`.
    pub fn at(&self, i: usize) -> T {
        let near = (i + self.window) % (1 << 31);
        if i >= self.len - self.window || near < 2 * self.window { T::ramp(i) } else { T::from_bits64(0) }
    }

    /// What was written to the elements from `a` to before `b`.
    pub fn part(&self, a: usize, b: usize) -> Vec<T> {
        (a..b).map(|i| self.at(i)).collect()
    }
}

impl<T: Copy> Deref for Huge<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}

impl<T: Copy> DerefMut for Huge<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}

impl<T: Copy> Drop for Huge<T> {
    fn drop(&mut self) {
        unsafe { munmap(self.base, self.total); }
    }
}

/// A buffer of any length to write to, which takes little memory: the last `own` elements have
/// memory of their own, all others share a few pages (so only those are to be looked at).
pub struct Ring<T: Copy> {
    base: *mut u8,
    total: usize,
    ptr: *mut T,
    len: usize,
}

impl<T: crate::Elem> Ring<T> {
    pub fn new(len: usize, own: usize) -> Ring<T> {
        const CHUNK: usize = 1 << 24;
        let bytes = len * std::mem::size_of::<T>();
        let inner = (bytes + PAGE - 1) / PAGE * PAGE;
        let total = inner + 2 * PAGE;
        let shared = inner.saturating_sub(own * std::mem::size_of::<T>()) / CHUNK * CHUNK;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x4022, -1, 0);
            assert!(base as isize != -1, "mmap");
            let fd = memfd_create(b"ring\0".as_ptr(), 0);
            assert!(fd >= 0 && ftruncate(fd, CHUNK as i64) == 0, "memfd");
            for k in 0..shared / CHUNK {
                // MAP_SHARED | MAP_FIXED
                let at = base.add(PAGE + k * CHUNK);
                assert!(mmap(at, CHUNK, 3, 0x11, fd, 0) == at, "mmap of a part");
            }
            close(fd);
            let ptr = base.add(PAGE + inner - bytes) as *mut T;
            assert_eq!(mprotect(base, PAGE, 0), 0);
            assert_eq!(mprotect(base.add(PAGE + inner), PAGE, 0), 0);
            Ring { base, total, ptr, len }
        }
    }
}

impl<T: Copy> Deref for Ring<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}

impl<T: Copy> DerefMut for Ring<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}

impl<T: Copy> Drop for Ring<T> {
    fn drop(&mut self) {
        unsafe { munmap(self.base, self.total); }
    }
}
