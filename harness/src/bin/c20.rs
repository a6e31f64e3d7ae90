//! C20: closures which panic at every call they get.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::*;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

/// What the closures panic with.
struct Boom(usize);

/// Counts calls and panics at one of them.
struct Fuse<'a> { calls: Cell<usize>, at: usize, loud: bool, dropped: &'a Cell<usize> }
impl<'a> Fuse<'a> {
    fn new(at: usize, loud: bool, dropped: &'a Cell<usize>) -> Fuse<'a> { Fuse { calls: Cell::new(0), at, loud, dropped } }
    #[inline(never)]
    fn tick(&self) {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.at {
            // Some with a message and the panic hook, others without
            if self.loud { panic!(Boom(n)); } else { resume_unwind(Box::new(Boom(n))); }
        }
    }
}
impl<'a> Drop for Fuse<'a> {
    fn drop(&mut self) { self.dropped.set(self.dropped.get() + 1); }
}

/// Runs it; the call at which it panicked, if it did.
fn trap<R>(c: &mut Ctx, key: &str, f: impl FnOnce() -> R) -> Result<R, usize> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => match e.downcast::<Boom>() {
            Ok(b) => { c.count("panics_caught", 1); Err(b.0) }
            Err(_) => { c.fail(&format!("{}:other-panic", key), "another panic than the closure's reached the caller".to_string()); Err(usize::max_value()) }
        },
    }
}

/// The panic must reach the caller iff the call was reached.
fn reached<R>(c: &mut Ctx, key: &str, r: &Result<R, usize>, at: usize, calls: usize) {
    c.eval(1);
    match *r {
        Ok(_) if at < calls => c.fail(&format!("{}:swallowed", key), format!("call {} of {} panicked and nobody was told", at, calls)),
        Err(n) if n != at => c.fail(&format!("{}:call", key), format!("panicked at call {} instead of {}", n, at)),
        _ => (),
    }
}

/// Every element is as it was or has its result.
fn settled<T: Elem>(c: &mut Ctx, key: &str, got: &[T], old: &[T], new: &[T]) -> usize {
    let mut done = 0;
    c.eval(got.len() as u64);
    for i in 0..got.len() {
        let g = got[i].bits();
        if i < new.len() && g == new[i].bits() { done += 1; continue; }
        if g != old[i].bits() {
            c.fail(&format!("{}:mixed", key), format!("element {} of {} is {:?}: neither {:?}, which it was, nor its result", i, got.len(), got[i], old[i]));
            return done;
        }
    }
    done
}

/// What was taken before and at the call that panicked is gone, everything else is still to come.
fn resumed(c: &mut Ctx, key: &str, pos: usize, at: usize, w: usize, n: usize) {
    c.eval(1);
    let (a, b) = ((at * w).min(n), ((at + 1) * w).min(n));
    if pos != a && pos != b { c.fail(&format!("{}:position", key), format!("after call {} panicked the position is {} of {}", at, pos, n)); }
}

macro_rules! panics {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
            const W: usize = <fv::$vs as Packed>::WIDTH;
            const TY: &'static str = stringify!($t);
            let mut lens: Vec<usize> = vec![0, 1, 2, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W, 3 * W + W / 2, 4 * W - 1];
            for _ in 0..$c.pick(30, 300) { lens.push($c.rng.range(0, 7 * W)); }
            for &n in lens.iter() {
                let calls = (n + W - 1) / W;
                for at in 0..=calls {
                    let tail = !$c.rng.chance(3);
                    let loud = $c.rng.chance(4);
                    case!($c, "{} len={} panic at call {} tail-guard={} loud={}", TY, n, at, tail, loud);
                    $c.distinct(&(TY, W, n, at));
                    let d: Vec<$t> = data(&mut $c.rng, n);
                    let dv: Vec<$t> = data(&mut $c.rng, W);
                    let def: fv::$vs = vec_of(&dv);
                    let want: Vec<$t> = mapf(&d);
                    let src = Guarded::new(&d, tail);
                    src.freeze();

                    // Filling, and going on with the same iterator
                    for all in 0..2 {
                        let extra = $c.rng.below(2 * W) + all * W;
                        let old: Vec<$t> = data(&mut $c.rng, n + extra);
                        let mut buf = Guarded::new(&old, tail);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let key = format!("fill{}:{}", if all == 1 { "-all" } else { "" }, TY);
                        let mut it = (&src[..]).simd_iter(def).simd_map(move |v| { fuse.tick(); map_lanes(v, |x| x.f()) });
                        let r = trap($c, &key, || { if all == 1 { it.scalar_fill_all(&mut buf[..]).len() } else { it.scalar_fill(&mut buf[..]).len() } });
                        reached($c, &key, &r, at, calls);
                        if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", buf.damage())); }
                        if r.is_err() {
                            settled($c, &key, &buf, &old, &want);
                            resumed($c, &key, it.scalar_pos(), at, W, n);
                            let p = it.scalar_pos();
                            let rest = $c.no_panic(&key, || it.scalar_collect());
                            if let Some(rest) = rest { $c.same(&format!("{}:rest", key), &rest, &want[p.min(n)..]); }
                        }
                        drop(it);
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                    }

                    // Collecting, from a slice and from a vector the iterator owns, twice in a row
                    for owned in 0..2 {
                        let key = format!("collect:{}", TY);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let f = move |v: fv::$vs| { fuse.tick(); map_lanes(v, |x| x.f()) };
                        let (r, p, rest);
                        if owned == 1 {
                            let mut it = d.clone().into_simd_iter(def).simd_map(f);
                            r = trap($c, &key, || it.scalar_collect());
                            p = it.scalar_pos();
                            rest = if r.is_err() { $c.no_panic(&key, || it.scalar_collect_all()) } else { None };
                        } else {
                            let mut it = (&src[..]).simd_iter(def).simd_map(f);
                            r = trap($c, &key, || it.scalar_collect_all());
                            p = it.scalar_pos();
                            rest = if r.is_err() { $c.no_panic(&key, || it.scalar_collect_all()) } else { None };
                        }
                        reached($c, &key, &r, at, calls);
                        if r.is_err() {
                            resumed($c, &key, p, at, W, n);
                            let e = flat(&expected(&d[p.min(n)..], &dv));
                            if let Some(rest) = rest { $c.same(&format!("{}:rest", key), &rest, &mapf(&e)); }
                        }
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                    }

                    // In place, from an iterator that may have been used before
                    for how in 0..3 {
                        let k = match how { 0 => 0, 1 => $c.rng.range(0, n), _ => W.min(n) };
                        let key = format!("for-each:{}", TY);
                        let mut buf = Guarded::new(&d, tail);
                        let calls = (n - k + W - 1) / W;
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let half = $c.rng.below(3);
                        let (r, p, again, p2);
                        {
                            let m = &mut buf[..];
                            let mut it = m.simd_iter_mut(def);
                            it.advance(k);
                            let fr = &fuse;
                            r = trap($c, &key, || it.simd_for_each(|v| {
                                // Before, after or amid the changes the closure makes to its argument
                                match half {
                                    0 => { *v = map_lanes(*v, |x| x.f()); fr.tick(); }
                                    1 => { fr.tick(); *v = map_lanes(*v, |x| x.f()); }
                                    _ => { let r = map_lanes(*v, |x| x.f()); *v = map_lanes(r, |x| x.g()); fr.tick(); *v = r; }
                                }
                            }));
                            p = it.scalar_pos();
                            // The rest is still there to be changed
                            again = if r.is_err() { $c.no_panic(&key, || it.simd_for_each(|v| *v = map_lanes(*v, |x| x.g()))).is_some() } else { false };
                            p2 = it.scalar_pos();
                        }
                        reached($c, &key, &r, at, calls);
                        if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the slice changed", buf.damage())); }
                        if r.is_err() {
                            resumed($c, &key, p - k.min(p), at, W, n - k);
                            let p = p.min(n);
                            let mut new = d.clone();
                            for i in k..p { new[i] = new[i].f(); }
                            if again {
                                $c.same_val(&format!("{}:end", key), p2, n);
                                for i in p..n { new[i] = new[i].g(); }
                                $c.same(&format!("{}:rest", key), &buf[p..], &new[p..]);
                            }
                            settled($c, &key, &buf[..p], &d[..p], &new[..p]);
                            $c.same(&format!("{}:before", key), &buf[..k], &d[..k]);
                        }
                        drop(fuse);
                    }

                    // Reducing and looking
                    {
                        let key = format!("reduce:{}", TY);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut it = (&src[..]).simd_iter(def);
                        let mut seen: Vec<Vec<$t>> = Vec::new();
                        let r = trap($c, &key, || it.simd_reduce(Vec::new(), |mut a: Vec<u64>, v| { fuse.tick(); a.push(lanes(&v)[0].bits()); seen.push(lanes(&v)); a }));
                        reached($c, &key, &r, at, calls);
                        if r.is_err() {
                            resumed($c, &key, it.scalar_pos(), at, W, n);
                            let p = it.scalar_pos();
                            let s = &mut seen;
                            s.clear();
                            $c.no_panic(&key, || it.simd_do_each(|v| s.push(lanes(&v))));
                            presented($c, &format!("{}:rest", key), &seen, &d[p.min(n)..], &dv);
                        }
                        let key = format!("do-each:{}", TY);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut it = (&src[..]).simd_iter(def);
                        dropped.set(0);
                        // The closures own what they panic with
                        let r = trap($c, &key, || it.simd_do_each(move |_| fuse.tick()));
                        reached($c, &key, &r, at, calls);
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                        if r.is_err() { resumed($c, &key, it.scalar_pos(), at, W, n); }
                        // So does the accumulator
                        let key = format!("reduce:{}", TY);
                        dropped.set(0);
                        let gone = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let acc = Fuse::new(usize::max_value(), false, &gone);
                        let mut it = (&src[..]).simd_iter(def);
                        let r = trap($c, &key, || it.simd_reduce(acc, move |a: Fuse, v| { fuse.tick(); a.calls.set(a.calls.get() + lanes(&v).len()); a }));
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                        if let Ok(ref a) = r { $c.same_val(&format!("{}:accumulator", key), a.calls.get(), calls * W); $c.same_val(&format!("{}:accumulator-kept", key), gone.get(), 0); }
                        drop(r);
                        $c.same_val(&format!("{}:accumulator-dropped", key), gone.get(), 1);
                        // And the closure of a loop in place
                        let key = format!("for-each:{}", TY);
                        dropped.set(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut buf = Guarded::new(&d, tail);
                        let r = trap($c, &key, || { let m = &mut buf[..]; m.simd_iter_mut(def).simd_for_each(move |v| { fuse.tick(); *v = map_lanes(*v, |x| x.f()) }) });
                        reached($c, &key, &r, at, calls);
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                        if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the slice changed", buf.damage())); }
                        settled($c, &key, &buf[..], &d, &want);
                    }

                    // One step at a time, and several at once
                    {
                        let key = format!("next:{}", TY);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut it = (&src[..]).simd_iter(def).simd_map(move |v| { fuse.tick(); map_lanes(v, |x| x.f()) });
                        let mut got: Vec<$t> = Vec::new();
                        let mut booms = 0;
                        for i in 0..calls {
                            let p = it.scalar_pos();
                            let r = trap($c, &key, || { if let Some(v) = it.next() { Some(lanes(&v)) } else { it.end().map(|(v, m)| lanes(&v)[m..].to_vec()) } });
                            match r {
                                Ok(Some(l)) => { $c.same(&key, &l, &want[p.min(n)..(p + l.len()).min(n)]); got.extend(l); }
                                Ok(None) => { $c.eval(1); if p < n { $c.fail(&key, format!("no vector after {} of {}", p, n)); } }
                                Err(k) => { booms += 1; $c.same_val(&key, k, at); resumed($c, &key, it.scalar_pos(), at, W, n); }
                            }
                            if i > calls { break; }
                        }
                        $c.same_val(&key, booms, if at < calls { 1 } else { 0 });
                        let key = format!("unroll:{}", TY);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut it = (&src[..]).simd_iter(def).simd_map(move |v| { fuse.tick(); map_lanes(v, |x| x.f()) });
                        let amt = $c.rng.range(1, 8);
                        let r = trap($c, &key, || {
                            let mut u = it.unroll(amt);
                            let mut m = 0;
                            while let Some(s) = u.next() { m += s.len(); }
                            m
                        });
                        if let Err(k) = r { $c.same_val(&key, k, at); }
                        let p = it.scalar_pos();
                        if r.is_err() { if let Some(rest) = $c.no_panic(&key, || it.scalar_collect()) { $c.same(&format!("{}:rest", key), &rest, &want[p.min(n)..]); } }
                    }

                    // Zips, whose inputs stay together
                    {
                        let key = format!("zip:{}", TY);
                        let e: Vec<$t> = data(&mut $c.rng, n);
                        let src2 = Guarded::new(&e, tail);
                        src2.freeze();
                        let old: Vec<$t> = data(&mut $c.rng, n + 3);
                        let mut buf = Guarded::new(&old, tail);
                        let want: Vec<$t> = d.iter().zip(&e).map(|(x, y)| x.h2(*y)).collect();
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let h = |a: fv::$vs, b: fv::$vs| { let (a, b) = (lanes(&a), lanes(&b)); let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect(); vec_of::<fv::$vs>(&l) };
                        let mut it = ((&src[..]).simd_iter(def), (&src2[..]).simd_iter(def)).zip().simd_map(move |(a, b)| { fuse.tick(); h(a, b) });
                        let r = trap($c, &key, || it.scalar_fill(&mut buf[..]).len());
                        reached($c, &key, &r, at, calls);
                        if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", buf.damage())); }
                        if r.is_err() {
                            let done = settled($c, &key, &buf, &old, &want);
                            let rest = $c.no_panic(&key, || it.scalar_collect());
                            if let Some(rest) = rest {
                                let (a, b) = (n - (at * W).min(n), n - ((at + 1) * W).min(n));
                                $c.eval(1);
                                if rest.len() != a && rest.len() != b { $c.fail(&format!("{}:rest", key), format!("{} elements after call {} of {} (done {})", rest.len(), at, n, done)); }
                                else { $c.same(&format!("{}:rest", key), &rest, &want[n - rest.len()..]); }
                            }
                        }
                        drop(it);
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut it = ((&src[..]).simd_iter(def), (&src2[..]).simd_iter(def), (&src[..]).simd_iter(def)).zip();
                        let key = format!("zip-reduce:{}", TY);
                        let mut seen: Vec<Vec<$t>> = Vec::new();
                        let r = trap($c, &key, || it.simd_reduce(0u64, |s, (a, b, _)| { fuse.tick(); s ^ lanes(&a)[0].bits() ^ lanes(&b)[0].bits() }));
                        reached($c, &key, &r, at, calls);
                        if r.is_err() {
                            let s = &mut seen;
                            let mut split = 0u64;
                            let sp = &mut split;
                            $c.no_panic(&key, || it.simd_do_each(|(a, _, x)| { if lanes(&a).iter().zip(&lanes(&x)).any(|(p, q)| p.bits() != q.bits()) { *sp += 1; } s.push(lanes(&a)) }));
                            $c.same_val(&format!("{}:apart", key), split, 0);
                            let left: usize = seen.len();
                            $c.eval(1);
                            if left != calls - at && left != calls - at - 1 { $c.fail(&format!("{}:rest", key), format!("{} vectors after call {} of {}", left, at, calls)); }
                            else { let from = ((calls - left) * W).min(n); presented($c, &format!("{}:rest", key), &seen, &d[from..], &dv); }
                        }
                    }

                    // The scalars of an adapter
                    {
                        let key = format!("adapter:{}", TY);
                        let dropped = Cell::new(0);
                        // At an element instead of a vector
                        let boom = if at >= calls { n } else { at * W + $c.rng.below(W.min(n - at * W)) };
                        let fuse = Fuse::new(boom, loud, &dropped);
                        let old: Vec<$t> = data(&mut $c.rng, n + 2);
                        let mut buf = Guarded::new(&old, tail);
                        {
                            let mut it = SIMDAdapter { iter: d.iter().map(move |x| { fuse.tick(); *x }), scratch: def, default: def, position: 0 };
                            let r = trap($c, &key, || it.scalar_fill(&mut buf[..]).len());
                            reached($c, &key, &r, boom, n);
                            if r.is_err() {
                                settled($c, &key, &buf, &old, &d);
                                // What it still yields is made of its elements
                                let rest = $c.no_panic(&key, || it.scalar_collect());
                                if let Some(rest) = rest {
                                    $c.eval(1);
                                    if rest.len() > n { $c.fail(&format!("{}:rest", key), format!("{} of {} elements after a panic", rest.len(), n)); }
                                }
                            }
                        }
                        if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", buf.damage())); }
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                    }

                    // Strides
                    {
                        let key = format!("stride:{}", TY);
                        let k = $c.rng.range(2, 5);
                        let s = &src[..];
                        let mut its = s.stride(k, &vec![def; k]);
                        let j = $c.rng.below(k);
                        let it = its.remove(j);
                        let all: Vec<$t> = { let mut i2 = s.stride(k, &vec![def; k]); i2.remove(j).scalar_collect() };
                        let m = all.len();
                        let want = mapf(&all);
                        let calls = (m + W - 1) / W;
                        let old: Vec<$t> = data(&mut $c.rng, m + 1);
                        let mut buf = Guarded::new(&old, tail);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut it = it.simd_map(move |v| { fuse.tick(); map_lanes(v, |x| x.f()) });
                        let r = trap($c, &key, || it.scalar_fill(&mut buf[..]).len());
                        reached($c, &key, &r, at, calls);
                        if buf.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", buf.damage())); }
                        if r.is_err() {
                            settled($c, &key, &buf, &old, &want);
                            let rest = $c.no_panic(&key, || it.scalar_collect());
                            if let Some(rest) = rest {
                                let (a, b) = (m - (at * W).min(m), m - ((at + 1) * W).min(m));
                                $c.eval(1);
                                if rest.len() != a && rest.len() != b { $c.fail(&format!("{}:rest", key), format!("{} elements after call {} of {}", rest.len(), at, m)); }
                                else { $c.same(&format!("{}:rest", key), &rest, &want[m - rest.len()..]); }
                            }
                        }
                        drop(it);
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                    }

                    // A reduction over the lanes of a vector
                    if at < W {
                        let key = format!("scalar-reduce:{}", TY);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let r = trap($c, &key, || def.scalar_reduce(0u64, move |a, x| { fuse.tick(); a ^ x.bits() }));
                        reached($c, &key, &r, at, W);
                        $c.same_val(&format!("{}:dropped", key), dropped.get(), 1);
                    }

                    // Pipelines run while a panic unwinds
                    {
                        struct OnDrop<'a, 'b> { src: &'a [$t], def: fv::$vs, out: &'b mut Vec<$t> }
                        impl<'a, 'b> Drop for OnDrop<'a, 'b> {
                            fn drop(&mut self) {
                                *self.out = self.src.simd_iter(self.def).simd_map(|v| map_lanes(v, |x| x.f())).scalar_collect();
                            }
                        }
                        let key = format!("unwinding:{}", TY);
                        let dropped = Cell::new(0);
                        let fuse = Fuse::new(at, loud, &dropped);
                        let mut out: Vec<$t> = Vec::new();
                        let o = &mut out;
                        let r = trap($c, &key, || {
                            let g = OnDrop { src: &src[..], def, out: o };
                            (&src[..]).simd_iter(def).simd_do_each(|_| fuse.tick());
                            drop(g);
                        });
                        reached($c, &key, &r, at, calls);
                        $c.same(&key, &out, &want);
                    }
                    if src.iter().zip(&d).any(|(a, b)| a.bits() != b.bits()) { $c.fail("source", "the source changed".to_string()); }
                }
            }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(panics, cx);
    c.finish()
}
