//! C04: every element is presented once; only the last vector is padded, at its front.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::iters::SIMDAdapter;
use faster::*;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

/// next() until None, then end(), then both once more.
macro_rules! pull {
    ($c:ident, $key:expr, $it:expr, $t:ident, $d:expr, $dv:expr, $strict:expr) => {{
        let mut it = $it;
        let r = $c.no_panic($key, || {
            let len = if it.scalar_pos() == 0 { Some(ExactSizeIterator::len(&it)) } else { None };
            let mut seen: Vec<Vec<$t>> = Vec::new();
            while let Some(v) = it.next() { seen.push(lanes(&v)); if seen.len() > 100_000 { break; } }
            let full = seen.len();
            let mut n = None;
            if let Some((v, k)) = it.end() { seen.push(lanes(&v)); n = Some(k); }
            let more = it.next().is_some() as u32 + it.end().is_some() as u32 + it.next().is_some() as u32;
            (seen, full, n, more, len)
        });
        if let Some((seen, full, n, more, len)) = r {
            let w = $dv.len();
            presented($c, $key, &seen, $d, $dv);
            $c.same_val(&format!("{}:after", $key), more, 0);
            // The exact size of a fresh iterator is its number of whole vectors
            if let Some(len) = len { $c.same_val(&format!("{}:len", $key), len, $d.len() / w); }
            if let Some(n) = n {
                $c.same_val(&format!("{}:padding", $key), n, (w - $d.len() % w) % w);
            }
            if $strict {
                $c.same_val(&format!("{}:full", $key), (full, n.is_some()), ($d.len() / w, $d.len() % w != 0));
            }
        }
    }};
}

macro_rules! do_each {
    ($c:ident, $key:expr, $it:expr, $t:ident, $d:expr, $dv:expr) => {{
        let mut it = $it;
        let mut seen: Vec<Vec<$t>> = Vec::new();
        if $c.no_panic($key, || it.simd_do_each(|v| seen.push(lanes(&v)))).is_some() {
            presented($c, $key, &seen, $d, $dv);
            let more = it.next().is_some() || it.end().is_some();
            $c.same_val(&format!("{}:after", $key), more, false);
        }
    }};
}

macro_rules! reduce {
    ($c:ident, $key:expr, $it:expr, $t:ident, $d:expr, $dv:expr) => {{
        let mut it = $it;
        let mut seen: Vec<Vec<$t>> = Vec::new();
        // The accumulator is a running hash and count: order matters
        let r = $c.no_panic($key, || it.simd_reduce((7u64, 0usize), |(h, n), v| {
            let l = lanes(&v);
            let h = l.iter().fold(h, |h, x| h.wrapping_mul(31).wrapping_add(x.bits()));
            seen.push(l);
            (h, n + 1)
        }));
        if let Some(r) = r {
            presented($c, $key, &seen, $d, $dv);
            let e = expected($d, $dv);
            let h = e.iter().fold(7u64, |h, l| l.iter().fold(h, |h, x| h.wrapping_mul(31).wrapping_add(x.bits())));
            $c.same_val(&format!("{}:fold", $key), r, (h, e.len()));
        }
    }};
}

macro_rules! all_ways {
    ($c:ident, $name:expr, $it:expr, $t:ident, $d:expr, $dv:expr, $strict:expr) => {{
        let d: &[$t] = $d;
        let dv: &[$t] = $dv;
        let k = format!("pull:{}:{}", $name, stringify!($t));
        pull!($c, &k, $it, $t, d, dv, $strict);
        let k = format!("do-each:{}:{}", $name, stringify!($t));
        do_each!($c, &k, $it, $t, d, dv);
        let k = format!("reduce:{}:{}", $name, stringify!($t));
        reduce!($c, &k, $it, $t, d, dv);
    }};
}

macro_rules! presents {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mut lens: Vec<usize> = (0..=$c.pick(4 * W + 2, 10 * W + 2)).collect();
        { let k = $c.pick(10, 200); lens.extend($c.lens(W, k, 1500)); }
        lens.extend($c.big(W));
        for &n in lens.iter() {
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let fd = mapf(&d);
            let fdv = mapf(&dv);
            let tail = !$c.rng.chance(3);
            let mut g = Guarded::new(&d, tail);
            $c.distinct(&(stringify!($t), W, n));
            case!($c, "slice {} len={} tail-guard={}", stringify!($t), n, tail);
            all_ways!($c, "slice", (&g[..]).simd_iter(def), $t, &d, &dv, true);
            case!($c, "vec {} len={}", stringify!($t), n);
            all_ways!($c, "vec", d.clone().into_simd_iter(def), $t, &d, &dv, true);
            case!($c, "slice-mut {} len={} tail-guard={}", stringify!($t), n, tail);
            all_ways!($c, "slice-mut", (&mut g[..]).simd_iter_mut(def), $t, &d, &dv, true);
            case!($c, "map {} len={} tail-guard={}", stringify!($t), n, tail);
            all_ways!($c, "map", (&g[..]).simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f())), $t, &fd, &fdv, true);
            // Scalars packed by an adapter, whose scratch vector holds something else
            let junk: fv::$vs = vec_of(&data::<$t>(&mut $c.rng, W));
            case!($c, "adapter {} len={}", stringify!($t), n);
            all_ways!($c, "adapter", SIMDAdapter { iter: d.iter().cloned(), scratch: junk, default: def, position: 0 }, $t, &d, &dv, true);
            // From somewhere in the middle
            let at = if n > 0 { $c.rng.range(1, n) } else { 0 };
            case!($c, "advanced {} len={} at={}", stringify!($t), n, at);
            macro_rules! from { ($it:expr) => {{ let mut it = $it; it.advance(at); it }} }
            all_ways!($c, "advanced", from!((&g[..]).simd_iter(def)), $t, &d[at..], &dv, true);
            all_ways!($c, "advanced-map", from!((&g[..]).simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f()))), $t, &fd[at..], &fdv, true);
            all_ways!($c, "advanced-adapter", from!(SIMDAdapter { iter: d.iter().cloned(), scratch: junk, default: def, position: 0 }), $t, &d[at..], &dv, true);
            if n < 6 * W {
                case!($c, "strides {} len={}", stringify!($t), n);
                let r = &g[..];
                let (a, b) = r.stride_two((def, def));
                let (da, db): (Vec<$t>, Vec<$t>) = ((0..n / 2).map(|i| d[2 * i]).collect(), (0..n / 2).map(|i| d[2 * i + 1]).collect());
                all_ways!($c, "stride-a", a.clone(), $t, &da, &dv, false);
                all_ways!($c, "stride-b", b.clone(), $t, &db, &dv, false);
            }
            if bits_eq(&g, &d) == false || g.damage() != 0 {
                $c.fail(&format!("input:{}", stringify!($t)), "the input changed".to_string());
            }
            // Zips: both inputs with their own default
            let e: Vec<$t> = data(&mut $c.rng, n);
            let ev: Vec<$t> = data(&mut $c.rng, W);
            let edef: fv::$vs = vec_of(&ev);
            case!($c, "zip {} len={}", stringify!($t), n);
            let key = format!("zip:{}", stringify!($t));
            for way in 0..3 {
                let mut sa: Vec<Vec<$t>> = Vec::new();
                let mut sb: Vec<Vec<$t>> = Vec::new();
                let r = $c.no_panic(&key, || {
                    let mut z = ((&g[..]).simd_iter(def), (&e[..]).simd_iter(edef)).zip();
                    match way {
                        0 => z.simd_do_each(|(a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); }),
                        1 => { z.simd_reduce((), |_, (a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); }); }
                        _ => {
                            while let Some((a, b)) = z.next() { sa.push(lanes(&a)); sb.push(lanes(&b)); }
                            if let Some(((a, b), k)) = z.end() {
                                sa.push(lanes(&a)); sb.push(lanes(&b));
                                assert!(k == W - n % W, "padding {}", k);
                            }
                        }
                    }
                    z.next().is_some() || z.end().is_some()
                });
                if let Some(more) = r {
                    presented($c, &format!("{}:first", key), &sa, &d, &dv);
                    presented($c, &format!("{}:second", key), &sb, &e, &ev);
                    $c.same_val(&format!("{}:after", key), more, false);
                }
            }
        }
        }
        go($c);
    }};
}

/// Maps whose vectors have other numbers of lanes: the closure is given every vector of the input
/// once, and what it returns is handed on.
macro_rules! recasts {
    ($c:ident, $t:ident, $vs:ident, $o:ident, $m:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let (ib, ob) = (std::mem::size_of::<$t>(), std::mem::size_of::<$o>());
        let mut lens: Vec<usize> = (0..=$c.pick(2 * W + 2, 8 * W + 2)).collect();
        { let k = $c.pick(4, 40); lens.extend($c.lens(W, k, 900)); }
        for &n in lens.iter() {
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            // Whole elements only, or else a lane is half padding
            if n * ib % ob != 0 { continue; }
            let at = match $c.rng.below(3) { 0 => 0, _ => { let k = $c.rng.below(n + 1); if ob > ib { k / (ob / ib) * (ob / ib) } else { k } } };
            $c.distinct(&("recast", stringify!($t), stringify!($o), n, at));
            let want: Vec<Vec<$o>> = expected(&d[at..], &dv).iter().map(|v| unsafe {
                (0..W * ib / ob).map(|i| std::ptr::read_unaligned((v.as_ptr() as *const u8).add(i * ob) as *const $o)).collect()
            }).collect();
            let key = format!("recast:{}->{}", stringify!($t), stringify!($o));
            for way in 0..4 {
                case!($c, "{} len={} at={} way={}", key, n, at, way);
                let mut seen: Vec<Vec<$o>> = Vec::new();
                let mut given = 0usize;
                let r = $c.no_panic(&key, || {
                    let mut m = (&d[..]).simd_iter(def).simd_map(|v| { given += 1; v.$m() });
                    m.advance(at);
                    match way {
                        0 => m.simd_do_each(|v| seen.push(lanes(&v))),
                        1 => { let k = m.simd_reduce(0usize, |k, v| { seen.push(lanes(&v)); k + 1 }); assert!(k == want.len(), "a reduction over {} vectors", k); }
                        2 => {
                            while let Some(v) = m.next() { seen.push(lanes(&v)); }
                            if let Some((v, k)) = m.end() {
                                seen.push(lanes(&v));
                                assert!(k == (W - (n - at) % W) % W * ib / ob, "padding {}", k);
                            }
                            assert!(m.next().is_none() && m.end().is_none(), "more after the end");
                        }
                        _ => {
                            // And another map on top
                            let mut m = m.simd_map(|v| { seen.push(lanes(&v)); v });
                            m.simd_do_each(|_| ());
                        }
                    }
                });
                if r.is_some() {
                    $c.same_val(&format!("{}:closure-calls", key), given, want.len());
                    $c.same(&key, &flat(&seen), &flat(&want));
                    $c.count("vectors_observed", seen.len() as u64);
                }
            }
        }
        }
        go($c);
    }};
}

macro_rules! recasts_from {
    ($c:ident, $t:ident, $vs:ident) => {
        recasts!($c, $t, $vs, u8, be_u8s); recasts!($c, $t, $vs, i16, be_i16s);
        recasts!($c, $t, $vs, u32, be_u32s); recasts!($c, $t, $vs, i64, be_i64s);
    };
}

/// The reductions a user writes.
macro_rules! sums {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        for n in 0..$c.pick(5 * W, 30 * W) {
            let d: Vec<$t> = (0..n).map(|_| ($c.rng.below(2) as u8) as $t).collect();
            case!($c, "sum {} len={}", stringify!($t), n);
            let key = format!("sum:{}", stringify!($t));
            let total = d.iter().filter(|x| **x != 0 as $t).count();
            if let Some(s) = $c.no_panic(&key, || (&d[..]).simd_iter(fv::$vs(0 as $t)).simd_reduce(fv::$vs(0 as $t), |a, v| a + v)) {
                let s: usize = lanes(&s).iter().map(|x| *x as usize).sum();
                $c.same_val(&key, s, total);
            }
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(presents, cx);
    recasts_from!(cx, u8, u8s); recasts_from!(cx, i16, i16s); recasts_from!(cx, u16, u16s);
    recasts_from!(cx, u32, u32s); recasts_from!(cx, i64, i64s); recasts_from!(cx, u64, u64s);
    natural_types!(sums, cx);
    c.finish()
}
