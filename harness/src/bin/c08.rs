//! C08: de-interleaving and iteration over interleaved pairs.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::*;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

macro_rules! destride {
    ($c:ident, $t:ident, $v:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$v as Packed>::WIDTH;
        for r in 0..$c.pick(400, 20000) {
            let d: Vec<$t> = if r % 4 == 0 { (0..4 * W).map(|i| <$t>::from_bits64(i as u64 + r as u64)).collect() } else { data(&mut $c.rng, 4 * W) };
            case!($c, "destride {} round {}", stringify!($v), r);
            let v: Vec<fv::$v> = d.chunks(W).map(|x| vec_of(x)).collect();
            let key = format!("destride_two:{}", stringify!($v));
            if let Some((a, b)) = $c.no_panic(&key, || v[0].destride_two(v[1])) {
                let (wa, wb): (Vec<$t>, Vec<$t>) = ((0..W).map(|i| d[2 * i]).collect(), (0..W).map(|i| d[2 * i + 1]).collect());
                $c.same(&key, &lanes(&a), &wa);
                $c.same(&key, &lanes(&b), &wb);
            }
            let key = format!("destride_four:{}", stringify!($v));
            if let Some((a, b, e, f)) = $c.no_panic(&key, || v[0].destride_four(v[1], v[2], v[3])) {
                for (k, x) in [a, b, e, f].iter().enumerate() {
                    let w: Vec<$t> = (0..W).map(|i| d[4 * i + k]).collect();
                    $c.same(&key, &lanes(x), &w);
                }
            }
            $c.distinct(&(stringify!($v), d.iter().map(|x| x.bits()).collect::<Vec<_>>()));
        }
        }
        go($c);
    }};
}

macro_rules! pairs {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mut lens: Vec<usize> = (0..=$c.pick(5 * W + 2, 12 * W)).collect();
        { let k = $c.pick(20, 400); lens.extend($c.lens(W, k, 1500)); lens.extend($c.lens(2 * W, k / 2, 1500)); }
        lens.extend($c.big(W).iter().map(|n| n * 2 + n % 2));
        for &n in lens.iter() {
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let (x, y): (Vec<$t>, Vec<$t>) = ((0..n / 2).map(|i| d[2 * i]).collect(), (0..n / 2).map(|i| d[2 * i + 1]).collect());
            let tail = !$c.rng.chance(3);
            let g = Guarded::new(&d, tail);
            g.freeze();
            let key = format!("pairs:{}", stringify!($t));
            $c.distinct(&("pairs", stringify!($t), W, n));
            for way in 0..6 {
                case!($c, "stride_zip {} len={} way={} tail-guard={}", stringify!($t), n, way, tail);
                let mut sa: Vec<Vec<$t>> = Vec::new();
                let mut sb: Vec<Vec<$t>> = Vec::new();
                let mut from = 0;
                let r = $c.no_panic(&key, || {
                    let mut z = (&g[..]).simd_iter(def).stride_zip();
                    assert!((z.scalar_len(), z.scalar_pos(), z.vector_pos()) == (n / 2, 0, 0), "lengths {} {}", z.scalar_len(), z.scalar_pos());
                    assert!(ExactSizeIterator::len(&z) == n / 2 / W, "exact size {}", ExactSizeIterator::len(&z));
                    match way {
                        0 => z.simd_do_each(|(a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); }),
                        1 => { let k = z.simd_reduce(0usize, |k, (a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); k + 1 }); assert!(k == sa.len()); }
                        2 | 3 => {
                            while let Some((a, b)) = z.next() {
                                sa.push(lanes(&a)); sb.push(lanes(&b));
                                assert!(z.scalar_pos() == sa.len() * W, "position {}", z.scalar_pos());
                            }
                            if way == 3 { assert!(z.next().is_none()); }
                            assert!(sa.len() == n / 2 / W, "{} full steps", sa.len());
                            if let Some(((a, b), k)) = z.end() {
                                sa.push(lanes(&a)); sb.push(lanes(&b));
                                assert!(k == W - n / 2 % W, "padding {}", k);
                            }
                            assert!(z.next().is_none() && z.end().is_none());
                        }
                        4 => {
                            from = (n / 2).min(W + 1);
                            z.advance(from);
                            assert!(z.scalar_pos() == from);
                            z.simd_do_each(|(a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); });
                        }
                        _ => {
                            let want: Vec<$t> = x.iter().zip(&y).map(|(a, b)| a.h2(*b)).collect();
                            let got = z.simd_map(|(a, b)| {
                                let (a, b) = (lanes(&a), lanes(&b));
                                let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect();
                                sa.push(a); sb.push(b);
                                vec_of::<fv::$vs>(&l)
                            }).scalar_collect();
                            assert!(bits_eq(&got, &want), "collected {:?} instead of {:?}", got, want);
                        }
                    }
                });
                if r.is_some() {
                    presented($c, &format!("{}:first", key), &sa, &x[from..], &dv);
                    presented($c, &format!("{}:second", key), &sb, &y[from..], &dv);
                }
            }
            // Pairs from a vector, from the middle of an iterator, and from a stride
            let pre = $c.rng.below(n + 1).min(7);
            case!($c, "stride_zip {} len={} of an iterator at {}", stringify!($t), n, pre);
            let m = (n - pre) / 2;
            let mut sa: Vec<Vec<$t>> = Vec::new();
            let mut sb: Vec<Vec<$t>> = Vec::new();
            let r = $c.no_panic(&key, || {
                let mut it = d.clone().into_simd_iter(def);
                it.advance(pre);
                let mut z = it.stride_zip();
                assert!((z.scalar_pos(), z.vector_pos()) == (0, 0), "starts at {} {}", z.scalar_pos(), z.vector_pos());
                for k in 1..n % 4 + 1 {
                    if let Some((a, b)) = z.next() {
                        sa.push(lanes(&a)); sb.push(lanes(&b));
                        assert!((z.scalar_pos(), z.vector_pos()) == (k * W, k), "after {} steps at {} {}", k, z.scalar_pos(), z.vector_pos());
                    } else { break; }
                }
                z.simd_do_each(|(a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); })
            });
            if r.is_some() {
                let (x, y): (Vec<$t>, Vec<$t>) = ((0..m).map(|i| d[pre + 2 * i]).collect(), (0..m).map(|i| d[pre + 2 * i + 1]).collect());
                presented($c, &format!("{}:middle-first", key), &sa, &x, &dv);
                presented($c, &format!("{}:middle-second", key), &sb, &y, &dv);
            }
            case!($c, "stride_zip {} of a stride of {}", stringify!($t), n);
            let mut got: Vec<Vec<$t>> = Vec::new();
            let r = $c.no_panic(&key, || {
                let s = &g[..];
                let (a, _) = s.stride_two((def, def));
                a.stride_zip().simd_do_each(|(a, b)| { got.push(lanes(&a)); got.push(lanes(&b)); })
            });
            if r.is_some() {
                let s: Vec<$t> = (0..n / 2).map(|i| d[2 * i]).collect();
                let (x, y): (Vec<$t>, Vec<$t>) = ((0..n / 4).map(|i| s[2 * i]).collect(), (0..n / 4).map(|i| s[2 * i + 1]).collect());
                let a: Vec<Vec<$t>> = got.iter().step_by(2).cloned().collect();
                let b: Vec<Vec<$t>> = got.iter().skip(1).step_by(2).cloned().collect();
                presented($c, &format!("{}:stride-first", key), &a, &x, &dv);
                presented($c, &format!("{}:stride-second", key), &b, &y, &dv);
            }
        }
        }
        go($c);
    }};
}

/// Pairs beyond the first 2^32 elements.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = ((1usize << 32) + 12 * W + $c.rng.below(6 * W)) / 2 * 2 + 2;
        case!($c, "huge {} of {}", stringify!($t), n);
        let h = Huge::<$t>::new(n, 60 * W);
        let s: &[$t] = &h;
        let dv: Vec<$t> = data(&mut $c.rng, W);
        let def: fv::$vs = vec_of(&dv);
        let key = format!("huge:{}", stringify!($t));
        for round in 0..$c.pick(9, 90) {
            let b = [1usize << 31, 1 << 32, n][round % 3];
            let p = (b - $c.rng.below(4 * W) - 2) / 2;
            case!($c, "{} len={} advance({})", key, n, p);
            let r = $c.no_panic(&key, || {
                let mut z = s.simd_iter(def).stride_zip();
                let l = (z.scalar_len(), z.vector_len());
                z.advance(p);
                let q = z.scalar_pos();
                let mut seen = (Vec::new(), Vec::new());
                if n - 2 * p < 50 * W { z.simd_do_each(|(x, y)| { seen.0.push(lanes(&x)); seen.1.push(lanes(&y)); }); }
                else if let Some((x, y)) = z.next() { seen.0.push(lanes(&x)); seen.1.push(lanes(&y)); }
                (l, q, seen)
            });
            if let Some((l, q, seen)) = r {
                $c.same_val(&format!("{}:lengths", key), l, (n / 2, n / 2 / W));
                $c.same_val(&format!("{}:position", key), q, p);
                let to = if n - 2 * p < 50 * W { n / 2 } else { p + W };
                let (x, y): (Vec<$t>, Vec<$t>) = ((p..to).map(|i| h.at(2 * i)).collect(), (p..to).map(|i| h.at(2 * i + 1)).collect());
                presented($c, &format!("{}:first", key), &seen.0, &x, &dv);
                presented($c, &format!("{}:second", key), &seen.1, &y, &dv);
                $c.count("huge_pairs", 1);
            }
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    destride!(cx, u8, u8x16); destride!(cx, u8, u8x32); destride!(cx, i8, i8x16); destride!(cx, i8, i8x32);
    destride!(cx, u16, u16x8); destride!(cx, u16, u16x16); destride!(cx, i16, i16x8); destride!(cx, i16, i16x16);
    destride!(cx, u32, u32x4); destride!(cx, u32, u32x8); destride!(cx, i32, i32x4); destride!(cx, i32, i32x8);
    pairs!(cx, u8, u8s); pairs!(cx, i8, i8s); pairs!(cx, u16, u16s); pairs!(cx, i16, i16s); pairs!(cx, u32, u32s); pairs!(cx, i32, i32s);
    huge!(cx, u8, u8s);
    huge!(cx, i16, i16s);
    c.finish()
}
