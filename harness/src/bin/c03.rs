//! C03: in-place for-each.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::*;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

macro_rules! for_each {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mut lens: Vec<usize> = (0..=$c.pick(3 * W + 2, 8 * W + 2)).collect();
        { let k = $c.pick(8, 100); lens.extend($c.lens(W, k, 900)); }
        lens.extend($c.big(W));
        for &n in lens.iter() {
            // How much of the iterator is consumed before, and how
            let mut starts = vec![(0usize, 0usize), (n, 0), (1.min(n), 0), (n.saturating_sub(1), 0), (n.saturating_sub(W), 0), (n / W * W, 1)];
            for _ in 0..$c.pick(6, 30) {
                starts.push(($c.rng.range(0, n), $c.rng.below(3)));
            }
            if n > 2000 { starts.truncate($c.rng.range(7, 8)); starts.drain(0..5); starts.push((0, 0)); }
            for &(k, how) in starts.iter() {
                let d: Vec<$t> = data(&mut $c.rng, n);
                let dv: Vec<$t> = data(&mut $c.rng, W);
                let def: fv::$vs = vec_of(&dv);
                let tail = !$c.rng.chance(3);
                let mut buf = Guarded::new(&d, tail);
                let mut seen: Vec<Vec<$t>> = Vec::new();
                case!($c, "for-each {} len={} consumed={} how={} tail-guard={}", stringify!($t), n, k, how, tail);
                let key = format!("for-each:{}", stringify!($t));
                let mut torn = 0u64;
                let (base, dref) = (buf.as_ptr() as usize, &d);
                let m = &mut buf[..];
                let seen_r = &mut seen;
                let torn_r = &mut torn;
                let pos = $c.no_panic(&key, move || {
                    let mut it = m.simd_iter_mut(def);
                    match how {
                        0 => it.advance(k),
                        1 => { for _ in 0..k / W { it.next(); } it.advance(k - k / W * W) }
                        _ => { it.advance(k % W); for _ in 0..k / W { it.next(); } }
                    }
                    let mut calls = 0usize;
                    it.simd_for_each(|v| {
                        seen_r.push(lanes(v));
                        // While the closure runs: consumed elements keep their value, finished ones
                        // have their result, the others are untouched
                        // (of long slices, all of it now and then, else the neighbourhood)
                        let at = k + calls * W;
                        let (from, to) = if n <= 2000 || calls % 4096 == 0 { (0, n) } else { (at.saturating_sub(3 * W), (at + 3 * W).min(n)) };
                        for i in from..to {
                            let x = unsafe { std::ptr::read_volatile((base as *const $t).add(i)) };
                            let want = if i >= k && i < k + calls * W { dref[i].f() } else { dref[i] };
                            if x.bits() != want.bits() { *torn_r += 1; }
                        }
                        calls += 1;
                        *v = map_lanes(*v, |x| x.f());
                    });
                    it.scalar_pos()
                });
                $c.distinct(&(stringify!($t), W, n, k));
                if buf.damage() != 0 {
                    $c.fail(&format!("{}:outside", key), format!("{} bytes next to the slice changed", buf.damage()));
                }
                if let Some(pos) = pos {
                    let mut want = d.clone();
                    for i in k..n { want[i] = want[i].f(); }
                    $c.same(&key, &buf, &want);
                    presented($c, &format!("{}:seen", key), &seen, &d[k..], &dv);
                    $c.same_val(&format!("{}:pos", key), pos, n);
                    $c.same_val(&format!("{}:meanwhile", key), torn, 0);
                }
                $c.count("closure_calls", seen.len() as u64);
            }
        }
        }
        go($c);
    }};
}

/// The arithmetic a user writes, through the other ways to get a mutable iterator.
macro_rules! operators {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        for n in 0..$c.pick(70, 400) {
            let d: Vec<$t> = (0..n).map(|_| ($c.rng.below(11) as u8) as $t).collect();
            case!($c, "operators {} len={}", stringify!($t), n);
            let key = format!("operators:{}", stringify!($t));
            let want: Vec<$t> = d.iter().map(|x| *x * 3 as $t + 7 as $t).collect();
            let mut a = d.clone();
            $c.no_panic(&key, || a.simd_iter_mut(fv::$vs(9 as $t)).simd_for_each(|v| *v = *v * fv::$vs(3 as $t) + fv::$vs(7 as $t)));
            $c.same(&key, &a, &want);
            let mut a = d.clone();
            $c.no_panic(&key, || (&mut a[..]).simd_iter_mut(fv::$vs(9 as $t)).simd_for_each(|v| { *v *= fv::$vs(3 as $t); *v += fv::$vs(7 as $t) }));
            $c.same(&key, &a, &want);
            let mut a = d.clone();
            {
                let mut m = &mut a[..];
                let mm = &mut m;
                $c.no_panic(&key, move || mm.simd_iter_mut(fv::$vs(9 as $t)).simd_for_each(|v| *v = *v * fv::$vs(3 as $t) + fv::$vs(7 as $t)));
            }
            $c.same(&key, &a, &want);
            // Twice over the same data
            let want: Vec<$t> = d.iter().map(|x| *x + 2 as $t).collect();
            let mut a = d.clone();
            for _ in 0..2 {
                $c.no_panic(&key, || a.simd_iter_mut(fv::$vs(9 as $t)).simd_for_each(|v| *v += fv::$vs(1 as $t)));
            }
            $c.same(&key, &a, &want);
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(for_each, cx);
    natural_types!(operators, cx);
    c.finish()
}
