//! C21: threads on neighbouring slices, with delays inside the closures, watched from the elements between them.
extern crate faster;
#[macro_use]
extern crate vh;
#[path = "../ops.rs"]
mod ops;
use faster::arch::current::vecs as fv;
use faster::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use vh::*;

extern "C" {
    fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
    fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
}

type Job<'a> = Box<dyn FnOnce() + Send + 'a>;

extern "C" fn start(arg: *mut u8) -> *mut u8 {
    let j = unsafe { Box::from_raw(arg as *mut Job) };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (*j)())).is_ok() { 1 as *mut u8 } else { std::ptr::null_mut() }
}

/// Run the jobs at once (without the standard library's own synchronisation, which ThreadSanitizer
/// does not see); the number of those which panicked.
fn at_once(jobs: Vec<Job>) -> usize {
    let mut ts = Vec::new();
    for j in jobs {
        let mut t = 0usize;
        let p = Box::into_raw(Box::new(j)) as *mut u8;
        unsafe { assert_eq!(pthread_create(&mut t, std::ptr::null(), start, p), 0); }
        ts.push(t);
    }
    let mut bad = 0;
    for t in ts {
        let mut r = std::ptr::null_mut();
        unsafe { assert_eq!(pthread_join(t, &mut r), 0); }
        if r.is_null() { bad += 1; }
    }
    bad
}

/// What a worker does between two vectors: nothing, a delay, or giving way until somebody else has had a turn.
struct Turns<'a> { clock: &'a AtomicUsize, rng: Rng, log: Vec<usize>, calm: bool }
impl<'a> Turns<'a> {
    fn new(clock: &'a AtomicUsize, seed: u64, calm: bool) -> Turns<'a> { Turns { clock, rng: Rng::new(seed), log: Vec::new(), calm } }
    #[inline(never)]
    fn take(&mut self) {
        let now = self.clock.fetch_add(1, Ordering::Relaxed);
        if self.log.len() < 4096 { self.log.push(now); }
        if self.calm { return; }
        match self.rng.below(16) {
            0 => std::thread::yield_now(),
            1 | 2 => for _ in 0..self.rng.below(200) { std::sync::atomic::spin_loop_hint() },
            3 => for _ in 0..300 {
                if self.clock.load(Ordering::Relaxed) > now + 1 { break; }
                std::sync::atomic::spin_loop_hint()
            },
            _ => (),
        }
    }
}

/// The order in which the threads had their turns.
fn interleaving(logs: &[Vec<usize>]) -> (u64, u64) {
    let mut all: Vec<(usize, usize)> = Vec::new();
    for (i, l) in logs.iter().enumerate() { for t in l { all.push((*t, i)); } }
    all.sort();
    let (mut h, mut switches) = (7u64, 0);
    for w in all.windows(2) { if w[0].1 != w[1].1 { switches += 1; } h = (h ^ w[1].1 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 31; }
    (h, switches)
}

/// Cuts `n` elements into parts and gaps: (start, length, is a part).
fn cut(r: &mut Rng, n: usize, w: usize) -> Vec<(usize, usize, bool)> {
    let mut v = Vec::new();
    let mut at = 0;
    let mut part = r.chance(2);
    while at < n {
        let l = if part { match r.below(4) { 0 => r.range(1, w), 1 => w * r.range(1, 6), 2 => r.range(w, 3 * w + 1), _ => r.range(1, 12 * w) } } else { r.range(1, 3) };
        let l = l.min(n - at);
        v.push((at, l, part));
        at += l;
        // Parts may touch each other
        part = if part { r.chance(3) } else { true };
    }
    v
}

macro_rules! neighbours {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
            const W: usize = <fv::$vs as Packed>::WIDTH;
            const TY: &'static str = stringify!($t);
            let tsan = $c.args.iter().any(|x| x == "tsan");
            for round in 0..if tsan { $c.pick(10, 80) } else { $c.pick(150, 3000) } {
                let n = $c.rng.range(4 * W, 30 * W);
                let pieces = cut(&mut $c.rng, n, W);
                let d: Vec<$t> = data(&mut $c.rng, n);
                let dv: Vec<$t> = data(&mut $c.rng, W);
                let def: fv::$vs = vec_of(&dv);
                let tail = $c.rng.chance(2);
                let reps = $c.rng.range(1, 12);
                let fill = $c.rng.chance(2);
                let mut buf = Guarded::new(&d, tail);
                let e: Vec<$t> = data(&mut $c.rng, n);
                let shared = Guarded::new(&e, !tail);
                shared.freeze();
                case!($c, "{} neighbours round {} len={} pieces={} reps={} {}", TY, round, n, pieces.len(), reps, if fill { "fill" } else { "in place" });
                let key = format!("{}:{}", if fill { "fill" } else { "in-place" }, TY);
                $c.distinct(&(TY, W, n, pieces.len(), fill));
                let (clock, stop) = (AtomicUsize::new(0), AtomicBool::new(false));
                let left = AtomicUsize::new(pieces.iter().filter(|p| p.2).count());
                let mut logs: Vec<Vec<usize>> = vec![Vec::new(); pieces.len()];
                let mut hits: Vec<(u64, u64)> = vec![(0, 0); pieces.len()];
                let mut jobs: Vec<Job> = Vec::new();
                {
                    let mut rest = &mut buf[..];
                    let inp = &shared[..];
                    for ((p, log), hit) in pieces.iter().zip(logs.iter_mut()).zip(hits.iter_mut()) {
                        let (mine, others) = { let r = rest; r.split_at_mut(p.1) };
                        rest = others;
                        let (at, seed) = (p.0, $c.rng.next());
                        let (clock, stop, left) = (&clock, &stop, &left);
                        if p.2 {
                            jobs.push(Box::new(move || {
                                let mut turns = Turns::new(clock, seed, false);
                                let inp = &inp[at..at + mine.len()];
                                for i in 0..reps {
                                    let t = &mut turns;
                                    let m = &mut *mine;
                                    if fill {
                                        match i % 4 {
                                            0 => { inp.simd_iter(def).simd_map(|v| { t.take(); map_lanes(v, |x| x.f()) }).scalar_fill(m); }
                                            1 => { let r = inp.simd_iter(def).simd_map(|v| { t.take(); map_lanes(v, |x| x.g()) }).scalar_collect(); m.copy_from_slice(&r); }
                                            2 => { (inp.simd_iter(def), inp.simd_iter(def)).zip().simd_map(|(a, b)| { t.take(); let (a, b) = (lanes(&a), lanes(&b)); let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect(); vec_of::<fv::$vs>(&l) }).scalar_fill(m); }
                                            _ => { let mut it = inp.simd_iter(def); let mut at = 0; while let Some(v) = it.next() { t.take(); v.store(m, at); at += W; } if let Some((v, k)) = it.end() { for j in k..W { m[at + j - k] = v.extract(j); } } }
                                        }
                                    } else {
                                        m.simd_iter_mut(def).simd_for_each(|v| { t.take(); *v = map_lanes(*v, |x| x.f()); });
                                    }
                                }
                                *log = turns.log;
                                if left.fetch_sub(1, Ordering::Relaxed) == 1 { stop.store(true, Ordering::Relaxed); }
                            }));
                        } else {
                            // Somebody else's elements: constant ones, or ones which are written all the time
                            let writes = seed % 2 == 0;
                            jobs.push(Box::new(move || {
                                let p = mine.as_mut_ptr();
                                let old: Vec<$t> = mine.to_vec();
                                let (mut looks, mut wrong) = (0u64, 0u64);
                                while !stop.load(Ordering::Relaxed) {
                                    for i in 0..old.len() {
                                        unsafe {
                                            let want = if writes { let x = <$t>::ramp(looks as usize + i); std::ptr::write_volatile(p.add(i), x); for _ in 0..looks % 7 { std::sync::atomic::spin_loop_hint() } x } else { old[i] };
                                            if std::ptr::read_volatile(p.add(i)).bits() != want.bits() { wrong += 1; }
                                        }
                                    }
                                    looks += 1;
                                    // Somebody has to do the work
                                    if looks % 32 == 0 { std::thread::yield_now(); }
                                }
                                if writes { mine.copy_from_slice(&old); }
                                *hit = (looks, wrong);
                            }));
                        }
                    }
                }
                let bad = at_once(jobs);
                if bad != 0 { $c.fail(&format!("{}:panic", key), format!("{} threads panicked", bad)); }
                let mut want = d.clone();
                for &(at, l, part) in &pieces {
                    if !part { continue; }
                    for i in at..at + l {
                        want[i] = if fill { match (reps - 1) % 4 { 0 => e[i].f(), 1 => e[i].g(), 2 => e[i].h2(e[i]), _ => e[i] } } else { let mut x = want[i]; for _ in 0..reps { x = x.f(); } x };
                    }
                }
                $c.same(&key, &buf, &want);
                if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", buf.damage())); }
                let (looks, wrong) = hits.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
                $c.eval(looks);
                $c.events += looks + logs.iter().map(|l| l.len() as u64).sum::<u64>();
                $c.count("looks_at_neighbours", looks);
                if wrong != 0 { $c.fail(&format!("{}:interference", key), format!("elements between the parts were different {} times in {} looks", wrong, looks)); }
                let (h, switches) = interleaving(&logs);
                $c.count("turns_changing_threads", switches);
                if switches > 0 { $c.count("runs_interleaved", 1); }
                $c.distinct(&("interleaving", h));
            }
        }
        go($c);
    }};
}

/// Everybody reads the same data through their own iterators, which also change hands.
macro_rules! readers {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
            const W: usize = <fv::$vs as Packed>::WIDTH;
            const TY: &'static str = stringify!($t);
            let tsan = $c.args.iter().any(|x| x == "tsan");
            for round in 0..if tsan { $c.pick(4, 40) } else { $c.pick(40, 800) } {
                let n = $c.rng.range(0, 20 * W);
                let threads = $c.rng.range(2, 8);
                case!($c, "{} readers round {} len={} threads={}", TY, round, n, threads);
                let d: Vec<$t> = data(&mut $c.rng, n);
                let dv: Vec<$t> = data(&mut $c.rng, W);
                let def: fv::$vs = vec_of(&dv);
                let shared = Guarded::new(&d, true);
                shared.freeze();
                let clock = AtomicUsize::new(0);
                let k = $c.rng.range(0, n);
                let work = |turns: &mut Turns| -> Vec<u64> {
                    let s = &shared[..];
                    let mut out: Vec<u64> = Vec::new();
                    for _ in 0..6 {
                        let mut it = s.simd_iter(def);
                        it.advance(k);
                        out.extend(it.clone().simd_map(|v| { turns.take(); map_lanes(v, |x| x.f()) }).scalar_collect().iter().map(|x| x.bits()));
                        out.push(s.simd_iter(def).simd_reduce(0u64, |a, v| { turns.take(); a.wrapping_mul(31).wrapping_add(lanes(&v)[W - 1].bits()) }));
                        let (mut a, mut b) = s.stride_two((def, def));
                        out.extend(a.scalar_collect().iter().map(|x| x.bits()));
                        turns.take();
                        out.extend(b.scalar_collect().iter().map(|x| x.bits()));
                        let mut it = s.simd_iter(def);
                        { let mut u = it.unroll(3); while let Some(c) = u.next() { turns.take(); for v in c { out.push(lanes(v)[0].bits()); } } }
                        out.extend(s.simd_iter(def).unpack().map(|x| x.bits()));
                    }
                    out
                };
                let mut calm = Turns::new(&clock, 0, true);
                let want = work(&mut calm);
                let mut logs: Vec<Vec<usize>> = vec![Vec::new(); threads];
                let mut outs: Vec<Vec<u64>> = vec![Vec::new(); threads];
                let mut jobs: Vec<Job> = Vec::new();
                for (log, out) in logs.iter_mut().zip(outs.iter_mut()) {
                    let seed = $c.rng.next();
                    let (w, clock) = (Everybody(&work), &clock);
                    jobs.push(Box::new(move || {
                        let w = w;
                        let mut turns = Turns::new(clock, seed, false);
                        *out = (w.0)(&mut turns);
                        *log = turns.log;
                    }));
                }
                let bad = at_once(jobs);
                let key = format!("readers:{}", TY);
                if bad != 0 { $c.fail(&format!("{}:panic", key), format!("{} threads panicked", bad)); }
                for o in &outs { $c.eval(o.len() as u64 + 1); if *o != want { $c.fail(&key, "a thread's results differ from those of the same work done alone".to_string()); } }
                let (h, switches) = interleaving(&logs);
                $c.count("turns_changing_threads", switches);
                $c.distinct(&("interleaving", h));

                // An iterator which is used by one thread after another
                let key = format!("handed-over:{}", TY);
                let mut buf = Guarded::new(&d, false);
                {
                    let mut it = Some((&mut buf[..]).simd_iter_mut(def));
                    let mut hands = 0;
                    let mut bad = 0;
                    while it.as_ref().unwrap().scalar_pos() + W <= n && hands < 4 {
                        let mut i = it.take().unwrap();
                        let back = &mut it;
                        bad += at_once(vec![Box::new(move || { i.next(); *back = Some(i); })]);
                        hands += 1;
                        if bad != 0 { break; }
                    }
                    if let Some(mut i) = it {
                        bad += at_once(vec![Box::new(move || i.simd_for_each(|v| *v = map_lanes(*v, |x| x.f())))]);
                    }
                    if bad != 0 { $c.fail(&key, "a thread panicked".to_string()); }
                    let mut want = d.clone();
                    for i in hands * W..n { want[i] = want[i].f(); }
                    $c.same(&key, &buf, &want);
                }
            }
        }
        go($c);
    }};
}

struct Everybody<'a, F: 'a>(&'a F);
impl<'a, F> Clone for Everybody<'a, F> { fn clone(&self) -> Self { Everybody(self.0) } }
impl<'a, F> Copy for Everybody<'a, F> {}
// The work shares frozen memory, counters and plain values only
unsafe impl<'a, F> Send for Everybody<'a, F> {}

struct Digest { h: u64, n: u64, seed: u64, rounds: usize }
impl ops::Sink for Digest {
    fn put(&mut self, _: &'static str, _: &'static str, bytes: &[u8], float: usize) {
        self.n += 1;
        if float == 0 { for b in bytes { self.h = (self.h ^ *b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15); self.h ^= self.h >> 29; } }
    }
    fn rounds(&self) -> usize { self.rounds }
    fn seed(&self) -> u64 { self.seed }
    fn approximations(&self) -> bool { true }
}

fn everything(seed: u64, rounds: usize) -> (u64, u64) {
    let mut d = Digest { h: 1, n: 0, seed, rounds };
    ops::vectors(&mut d);
    ops::iterators(&mut d);
    (d.h, d.n)
}

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    natural_types!(neighbours, cx);
    natural_types!(readers, cx);
    let tsan = c.args.iter().any(|x| x == "tsan");
    // Every operation and pipeline, by several threads with different operands
    for round in 0..if tsan { 1 } else { c.pick(8, 100) } {
        let rounds = if tsan { 3 } else { c.pick(12, 60) };
        case!(c, "every operation by eight threads, round {}", round);
        let seeds: Vec<u64> = (0..8).map(|_| c.rng.next()).collect();
        let want: Vec<(u64, u64)> = seeds.iter().map(|s| everything(*s, rounds)).collect();
        let mut got = vec![(0, 0); 8];
        {
            let mut jobs: Vec<Job> = Vec::new();
            for (g, s) in got.iter_mut().zip(&seeds) { let s = *s; jobs.push(Box::new(move || *g = everything(s, rounds))); }
            let bad = at_once(jobs);
            if bad != 0 { c.fail("everything:panic", format!("{} threads panicked", bad)); }
        }
        for i in 0..8 {
            c.eval(got[i].1);
            c.distinct(&seeds[i]);
            if got[i] != want[i] { c.fail("everything", format!("thread {} had other results than it has alone", i)); }
        }
    }
    c.finish()
}
