//! Sweeps: an operation observed at every 32-bit value, or at every pair of 16-bit values.
use crate::{Ctx, Elem};
use std::mem::size_of;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// Looks at the operands lo..hi; what it objects to.
pub type Look = fn(u64, u64) -> Option<String>;

/// An order of the 32-bit values in which every part has values from all over.
#[inline(always)]
pub fn spread(i: u64) -> u32 { (i as u32).wrapping_mul(0x9E37_79B1) }

/// Whether this run is for the sweeps.
pub fn sweeping(c: &Ctx) -> bool { c.args.iter().any(|a| a == "sweep") }

impl Ctx {
    /// All of 2^32 operands, or in the quick tier one in `part`.
    pub fn sweep(&mut self, key: &str, part: u64, look: Look) {
        const BLOCK: u64 = 1 << 20;
        let blocks = (1u64 << 32) / BLOCK;
        let take = if self.thorough { blocks } else { blocks / part };
        let first = if take == blocks { 0 } else { self.rng.below(blocks as usize) as u64 };
        case!(self, "sweep of {}: {} operands from {}", key, take * BLOCK, first * BLOCK);
        let next = Arc::new(AtomicU64::new(0));
        let live = Arc::new(AtomicUsize::new(0));
        let found: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        let n = 8;
        let ts: Vec<_> = (0..n).map(|_| {
            let (next, live, found) = (next.clone(), live.clone(), found.clone());
            live.fetch_add(1, Ordering::SeqCst);
            std::thread::spawn(move || {
                loop {
                    let b = next.fetch_add(1, Ordering::SeqCst);
                    if b >= take { break; }
                    let b = (first + b) % blocks;
                    let r = match catch_unwind(AssertUnwindSafe(|| look(b * BLOCK, (b + 1) * BLOCK))) {
                        Ok(r) => r,
                        Err(_) => Some("panicked".to_string()),
                    };
                    if r.is_some() {
                        *found.lock().unwrap() = r;
                        next.store(blocks, Ordering::SeqCst);
                    }
                }
                live.fetch_sub(1, Ordering::SeqCst);
            })
        }).collect();
        let mut last = 0;
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(2));
            let now = next.load(Ordering::SeqCst);
            if now != last { last = now; self.alive(); }
        }
        for t in ts { let _ = t.join(); }
        let f = found.lock().unwrap().take();
        self.eval(take * BLOCK);
        self.count("operands_swept", take * BLOCK);
        if take == blocks { self.count("exhaustive_sweeps", 1); }
        self.distinct(&("sweep", key));
        if let Some(s) = f { self.fail(&format!("{}:sweep", key), s); }
    }
}

#[inline(always)]
fn read<V: Copy, T: Copy>(v: &V, l: usize) -> T { unsafe { std::ptr::read_unaligned((v as *const V as *const T).add(l)) } }

/// An operation on vectors of 32-bit lanes (or narrower) at the values from `i` on, one for each lane.
#[inline(always)]
pub fn look1<V: Copy, R: Copy, T: Elem, U: Elem, F: Fn(V) -> R, G: Fn(T, U) -> bool>(lo: u64, hi: u64, op: F, ok: G) -> Option<String> {
    let w = size_of::<V>() / size_of::<T>();
    if size_of::<R>() != w * size_of::<U>() { return Some("another number of lanes".to_string()); }
    let mut a = [T::from_bits64(0); 64];
    let mut i = lo;
    while i < hi {
        for l in 0..w { a[l] = T::from_bits64(spread(i + l as u64) as u64); }
        let r = op(read::<_, V>(&a, 0));
        let mut bad = false;
        for l in 0..w { bad |= !ok(a[l], read(&r, l)); }
        if bad {
            let l = (0..w).position(|l| !ok(a[l], read(&r, l))).unwrap_or(0);
            return Some(format!("lane {} of {:?}: {:?} gives {:?}", l, &a[..w], a[l], read::<R, U>(&r, l)));
        }
        i += w as u64;
    }
    None
}

/// An operation on pairs of lanes of 16 bits.
#[inline(always)]
pub fn look2<V: Copy, R: Copy, T: Elem, U: Elem, F: Fn(V, V) -> R, G: Fn(T, T, U) -> bool>(lo: u64, hi: u64, op: F, ok: G) -> Option<String> {
    let w = size_of::<V>() / size_of::<T>();
    if size_of::<R>() != w * size_of::<U>() { return Some("another number of lanes".to_string()); }
    let (mut a, mut b) = ([T::from_bits64(0); 64], [T::from_bits64(0); 64]);
    let mut i = lo;
    while i < hi {
        for l in 0..w {
            let x = spread(i + l as u64);
            a[l] = T::from_bits64((x >> 16) as u64);
            b[l] = T::from_bits64((x & 0xFFFF) as u64);
        }
        let r = op(read::<_, V>(&a, 0), read::<_, V>(&b, 0));
        let mut bad = false;
        for l in 0..w { bad |= !ok(a[l], b[l], read(&r, l)); }
        if bad {
            let l = (0..w).position(|l| !ok(a[l], b[l], read(&r, l))).unwrap_or(0);
            return Some(format!("lane {}: {:?} and {:?} give {:?}", l, a[l], b[l], read::<R, U>(&r, l)));
        }
        i += w as u64;
    }
    None
}

/// A horizontal operation: every pair of 16-bit neighbours, in the first and in the second operand in turn.
#[inline(always)]
pub fn across2<V: Copy, T: Elem, F: Fn(V, V) -> V, G: Fn(T, T, T) -> bool>(lo: u64, hi: u64, op: F, ok: G) -> Option<String> {
    let w = size_of::<V>() / size_of::<T>();
    let mut a = [[T::from_bits64(0); 64]; 2];
    let mut i = lo;
    while i < hi {
        for l in 0..w {
            let x = spread(i + l as u64);
            a[l % 2][l / 2 * 2] = T::from_bits64((x >> 16) as u64);
            a[l % 2][l / 2 * 2 + 1] = T::from_bits64((x & 0xFFFF) as u64);
        }
        let r = op(read::<_, V>(&a[0], 0), read::<_, V>(&a[1], 0));
        let mut bad = false;
        for l in 0..w { bad |= !ok(a[l % 2][l / 2 * 2], a[l % 2][l / 2 * 2 + 1], read(&r, l)); }
        if bad {
            let l = (0..w).position(|l| !ok(a[l % 2][l / 2 * 2], a[l % 2][l / 2 * 2 + 1], read(&r, l))).unwrap_or(0);
            return Some(format!("lane {}: {:?} and {:?} give {:?}", l, a[l % 2][l / 2 * 2], a[l % 2][l / 2 * 2 + 1], read::<V, T>(&r, l)));
        }
        i += w as u64;
    }
    None
}

/// `sweep!(c, key, part, |lo, hi| body)`
#[macro_export]
macro_rules! sweep {
    ($c:expr, $key:expr, $part:expr, |$lo:ident, $hi:ident| $b:expr) => {{
        #[inline(never)]
        fn look($lo: u64, $hi: u64) -> Option<String> { $b }
        $c.sweep($key, $part, look);
    }};
}
