//! Shared machinery of the monitors: the event/violation recorder, the guarded
//! buffers, the element model and the table of types.
#![allow(clippy::all)]
#![allow(unused_macros)]

extern crate faster;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Arguments, Debug, Write as _};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Set `$c`'s current case.
#[macro_export]
macro_rules! case {
    ($c:expr, $($a:tt)*) => { $c.case(format_args!($($a)*)) };
}

pub mod guard;
pub mod elem;
pub mod model;
#[macro_use]
pub mod types;
#[macro_use]
pub mod sweep;
pub use elem::*;
pub use guard::*;
pub use model::*;
pub use sweep::*;
pub use std::hash::{Hash, Hasher};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[global_allocator]
static ALLOC: Poison = Poison;

/// xorshift64* / splitmix generator; every workload derives from the seed.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// A number in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
}

pub struct Viol {
    pub key: String,
    pub case: String,
    pub detail: String,
    pub count: u64,
}

/// The recorder: what the workload did, what the monitors saw, what they object to.
pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    pub events: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    viols: Vec<Viol>,
    viol_idx: HashMap<String, usize>,
    samples: Vec<String>,
    out: String,
    shm: *mut u8,
    case: String,
    cases: u64,
    next_sample: u64,
    pub digest: u64,
    pub args: Vec<String>,
}

pub const SHM_LEN: usize = 4096;

impl Ctx {
    /// Args: OUT-JSON SHM-FILE TIER SEED [extra...]
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        assert!(a.len() >= 5, "usage: OUT SHM TIER SEED");
        let seed: u64 = a[4].parse().unwrap();
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&a[2]).unwrap();
        f.set_len(SHM_LEN as u64).unwrap();
        use std::os::unix::io::AsRawFd;
        let shm = unsafe { mmap(std::ptr::null_mut(), SHM_LEN, 3, 1, f.as_raw_fd(), 0) };
        assert!(shm as isize != -1);
        unsafe { LAST_PANIC = shm.add(SHM_LEN - 1024); }
        quiet_panics();
        Ctx {
            thorough: a[3] == "thorough",
            seed,
            rng: Rng::new(seed),
            evals: 0,
            events: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            viols: Vec::new(),
            viol_idx: HashMap::new(),
            samples: Vec::new(),
            out: a[1].clone(),
            shm,
            case: String::with_capacity(512),
            cases: 0,
            next_sample: 5,
            digest: 0xcbf2_9ce4_8422_2325,
            args: a[5..].to_vec(),
        }
    }

    /// Pick a bound by tier.
    pub fn pick(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    /// `k` lengths of a number of vectors and a remainder, both of which matter to someone: one vector
    /// more or less than a power of two, few elements more or less than a whole vector.
    pub fn lens(&mut self, w: usize, k: usize, max: usize) -> Vec<usize> {
        let near = |r: &mut Rng| (1usize << r.range(2, 9)) + r.below(3) - 1;
        (0..k).map(|i| {
            let q = if i % 4 == 3 { self.rng.range(4, max / w + 4) } else { near(&mut self.rng) };
            // Longer than `max` is one in eight only
            let q = if q * w > max && i % 8 != 0 { self.rng.range(3, (max / w).max(3)) } else { q };
            let r = match self.rng.below(8) { 0 => 0, 1 => 1, 2 => w - 1, 3 => 2, 4 => w / 2, 5 => w / 2 + 1, _ => self.rng.below(w) };
            q * w + r % w
        }).collect()
    }

    /// Lengths beyond what a 16-bit counter holds. Not in the unoptimised builds, for their time.
    pub fn big(&mut self, w: usize) -> Vec<usize> {
        if cfg!(debug_assertions) { return Vec::new(); }
        let mut l = vec![65536 + self.rng.range(0, 3 * w)];
        if self.thorough {
            for _ in 0..4 { l.push(self.rng.range(60_000, 200_000)); }
            l.push(65536 * w + self.rng.range(0, 3 * w));
        }
        l
    }

    /// Name the case that is about to run: what the driver reports if the process dies in it.
    pub fn case(&mut self, a: Arguments) {
        self.case.clear();
        let _ = self.case.write_fmt(a);
        self.cases += 1;
        if self.cases == self.next_sample {
            self.next_sample = self.next_sample * 7 / 2 + 3;
            let s = self.case.clone();
            self.sample(s);
        }
        self.beat();
    }

    fn beat(&mut self) {
        let b = self.case.as_bytes();
        let n = b.len().min(SHM_LEN - 1100);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.shm.add(16), n);
            *(self.shm.add(8) as *mut u64) = n as u64;
            let p = self.shm as *mut u64;
            p.write_volatile(p.read_volatile().wrapping_add(1));
        }
    }

    /// Still going.
    pub fn alive(&mut self) { self.beat(); }

    pub fn case_str(&self) -> &str {
        &self.case
    }

    /// One oracle evaluation.
    #[inline]
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }

    /// `n` observed events under a name.
    pub fn count(&mut self, name: &str, n: u64) {
        self.events += n;
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
            return;
        }
        self.counters.insert(name.to_string(), n);
    }

    /// Remember a non-trivial situation that was actually reached.
    pub fn distinct<T: Hash>(&mut self, t: &T) {
        if self.distinct.len() < 2_000_000 {
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            t.hash(&mut h);
            self.distinct.insert(h.0);
        }
    }

    pub fn fail(&mut self, key: &str, detail: String) {
        let i = match self.viol_idx.get(key) {
            Some(i) => *i,
            None => {
                if self.viols.len() >= 400 {
                    return;
                }
                self.viols.push(Viol { key: key.to_string(), case: self.case.clone(), detail, count: 0 });
                self.viol_idx.insert(key.to_string(), self.viols.len() - 1);
                self.viols.len() - 1
            }
        };
        self.viols[i].count += 1;
    }

    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }

    /// Run `f`; a panic is an error the library raised.
    pub fn guarded<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.beat();
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Ok(r),
            Err(e) => {
                let s = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                    else { "?".to_string() };
                Err(s)
            }
        }
    }

    /// Run `f`, for which a panic is a violation.
    pub fn no_panic<R>(&mut self, key: &str, f: impl FnOnce() -> R) -> Option<R> {
        match self.guarded(f) {
            Ok(r) => Some(r),
            Err(e) => {
                let k = format!("{}:panic", key);
                self.fail(&k, format!("panicked: {}", e));
                None
            }
        }
    }

    /// Run `f`, which has to panic.
    pub fn must_panic<R: Debug>(&mut self, key: &str, f: impl FnOnce() -> R) {
        self.evals += 1;
        match self.guarded(f) {
            Ok(r) => {
                let mut d = format!("{:?}", r);
                if d.len() > 300 { d.truncate(d.char_indices().take(300).last().map(|x| x.0).unwrap_or(0)); }
                self.fail(key, format!("accepted, returned {}", d));
            }
            Err(_) => self.count("rejections_observed", 1),
        }
    }

    /// Compare an observed sequence with the oracle's, bit for bit.
    #[inline(never)]
    pub fn same<T: Elem>(&mut self, key: &str, got: &[T], want: &[T]) -> bool {
        self.evals += 1;
        self.events += want.len() as u64;
        if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.bits() == b.bits()) {
            return true;
        }
        let at = got.iter().zip(want).position(|(a, b)| a.bits() != b.bits());
        let d = format!("first difference at {:?}; got len {} {}; want len {} {}",
                        at, got.len(), short(got, at), want.len(), short(want, at));
        self.fail(key, d);
        false
    }

    pub fn same_val<T: PartialEq + Debug>(&mut self, key: &str, got: T, want: T) -> bool {
        self.evals += 1;
        self.events += 1;
        if got == want {
            return true;
        }
        self.fail(key, format!("got {:?}; want {:?}", got, want));
        false
    }

    pub fn mix(&mut self, x: u64) {
        self.digest = (self.digest ^ x).wrapping_mul(0x1000_0000_01b3).rotate_left(5);
    }

    /// Write the result file; the driver decides.
    pub fn finish(mut self) -> ! {
        let n = INTERLUDES.load(std::sync::atomic::Ordering::Relaxed);
        if n > 0 { self.count("pipelines_run_inside_closures", n); }
        let mut s = String::new();
        s.push_str("{");
        let _ = write!(s, "\"evaluations\":{},\"events\":{},\"distinct\":{},\"cases\":{},\"digest\":\"{:016x}\",", self.evals,
                       self.events, self.distinct.len(), self.cases, self.digest);
        s.push_str("\"counters\":{");
        for (i, (k, v)) in self.counters.iter().enumerate() {
            if i > 0 { s.push(','); }
            let _ = write!(s, "{}:{}", js(k), v);
        }
        s.push_str("},\"samples\":[");
        for (i, v) in self.samples.iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&js(v));
        }
        s.push_str("],\"violations\":[");
        for (i, v) in self.viols.iter().enumerate() {
            if i > 0 { s.push(','); }
            let _ = write!(s, "{{\"key\":{},\"case\":{},\"detail\":{},\"count\":{}}}", js(&v.key), js(&v.case), js(&v.detail), v.count);
        }
        s.push_str("]}\n");
        let mut f = std::fs::File::create(&self.out).unwrap();
        f.write_all(s.as_bytes()).unwrap();
        std::process::exit(0)
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
        }
    }
}

fn short<T: Debug>(x: &[T], at: Option<usize>) -> String {
    let lo = at.unwrap_or(0).saturating_sub(2).min(x.len());
    let hi = (lo + 24).min(x.len());
    format!("[{}..]{:?}", lo, &x[lo..hi])
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static mut LAST_PANIC: *mut u8 = std::ptr::null_mut();

/// Panics are not printed; the last one is left where the driver finds it.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        struct Buf([u8; 1000], usize);
        impl std::fmt::Write for Buf {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                for b in s.bytes() {
                    if self.1 < 1000 { self.0[self.1] = b; self.1 += 1; }
                }
                Ok(())
            }
        }
        let mut b = Buf([0; 1000], 0);
        let _ = write!(b, "{}", i);
        unsafe {
            if !LAST_PANIC.is_null() {
                std::ptr::copy_nonoverlapping(b.0.as_ptr(), LAST_PANIC, 1000);
            }
        }
    }));
}

/// What closures do now and then besides their work, in the same thread; see interlude.rs.
static INTERLUDE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static INTERLUDES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
thread_local! { static CALLS: std::cell::Cell<(usize, bool)> = std::cell::Cell::new((0, false)); }

pub fn interludes(f: fn(usize)) {
    INTERLUDE.store(f as usize, std::sync::atomic::Ordering::Relaxed);
}

/// Called whenever lanes are read or mapped, which closures do.
#[inline(never)]
fn interlude() {
    let f = INTERLUDE.load(std::sync::atomic::Ordering::Relaxed);
    if f == 0 { return; }
    let (n, inside) = CALLS.with(|c| c.get());
    if inside { return; }
    CALLS.with(|c| c.set((n + 1, false)));
    if n % 17 != 16 { return; }
    struct Leave(usize);
    impl Drop for Leave { fn drop(&mut self) { CALLS.with(|c| c.set((self.0, false))); } }
    let _leave = Leave(n + 1);
    CALLS.with(|c| c.set((n + 1, true)));
    INTERLUDES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    unsafe { std::mem::transmute::<usize, fn(usize)>(f)(n / 17); }
}


/// The lanes of a vector as they lie in memory, independent of the library's accessors.
#[inline(never)]
pub fn lanes<V: faster::Packed>(v: &V) -> Vec<V::Scalar> {
    assert_eq!(std::mem::size_of::<V>(), std::mem::size_of::<V::Scalar>() * V::WIDTH);
    interlude();
    let p = v as *const V as *const V::Scalar;
    (0..V::WIDTH).map(|i| unsafe { *p.add(i) }).collect()
}

/// A vector with these lanes, independent of the library's accessors.
#[inline(never)]
pub fn vec_of<V: faster::Packed>(l: &[V::Scalar]) -> V {
    assert_eq!(l.len(), V::WIDTH);
    let mut v = V::default();
    let p = &mut v as *mut V as *mut V::Scalar;
    for i in 0..l.len() {
        unsafe { *p.add(i) = l[i]; }
    }
    v
}

/// Apply a scalar function to every lane, independent of the library's accessors.
#[inline(never)]
pub fn map_lanes<V: faster::Packed>(v: V, mut f: impl FnMut(V::Scalar) -> V::Scalar) -> V {
    interlude();
    let mut r = v;
    let p = &mut r as *mut V as *mut V::Scalar;
    for i in 0..V::WIDTH {
        unsafe { *p.add(i) = f(*p.add(i)); }
    }
    r
}

