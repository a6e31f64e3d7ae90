//! C06: zipped iterators advance in lockstep; unequal lengths are refused.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::*;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

#[inline(never)]
fn fold<T: Elem>(ls: &[Vec<T>]) -> Vec<T> {
    let mut r = ls[0].clone();
    for l in &ls[1..] {
        for (a, b) in r.iter_mut().zip(l) { *a = a.h2(*b); }
    }
    r
}

#[inline(never)]
fn judge<T: Elem>(c: &mut Ctx, key: &str, seen: &[Vec<Vec<T>>], ins: &[Vec<T>], dvs: &[Vec<T>]) {
    for i in 0..ins.len() {
        let s: Vec<Vec<T>> = seen.iter().map(|x| x[i].clone()).collect();
        if !presented(c, &format!("{}:input{}", key, i), &s, &ins[i], &dvs[i]) { return; }
    }
}

/// One arity over one type, through every consumer.
macro_rules! arity {
    ($c:ident, $t:ident, $vs:ident, $n:expr, ($($x:ident $i:tt),*)) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mut lens: Vec<usize> = vec![0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W];
        for _ in 0..$c.pick(6, 150) { lens.push($c.rng.range(0, 6 * W)); }
        lens.extend($c.lens(W, 2, 700));
        if $c.thorough || $c.rng.chance(6) { lens.extend($c.big(W)); }
        for &n in lens.iter() {
            let ins: Vec<Vec<$t>> = (0..$n).map(|_| data(&mut $c.rng, n)).collect();
            let dvs: Vec<Vec<$t>> = (0..$n).map(|_| data(&mut $c.rng, W)).collect();
            let defs: Vec<fv::$vs> = dvs.iter().map(|d| vec_of(d)).collect();
            let gs: Vec<Guarded<$t>> = ins.iter().map(|d| { let g = Guarded::new(d, n % 2 == 0); g.freeze(); g }).collect();
            let key = format!("arity{}:{}", $n, stringify!($t));
            $c.distinct(&(stringify!($t), $n, W, n));
            macro_rules! mk { () => { ($((&gs[$i][..]).simd_iter(defs[$i])),*).zip() } }
            for way in 0..5 {
                case!($c, "{} len={} way={}", key, n, way);
                let mut seen: Vec<Vec<Vec<$t>>> = Vec::new();
                let r = $c.no_panic(&key, || {
                    let mut z = mk!();
                    let l = (z.scalar_pos(), z.scalar_len(), z.vector_len(), z.width());
                    assert!(l == (0, n, n / W, W), "positions {:?}", l);
                    assert!(ExactSizeIterator::len(&z) == n / W, "exact size {}", ExactSizeIterator::len(&z));
                    match way {
                        0 => z.simd_do_each(|($($x),*)| seen.push(vec![$(lanes(&$x)),*])),
                        1 => {
                            let k = z.simd_reduce(0usize, |k, ($($x),*)| { seen.push(vec![$(lanes(&$x)),*]); k + 1 });
                            assert!(k == (n + W - 1) / W);
                        }
                        2 => {
                            while let Some(($($x),*)) = z.next() { seen.push(vec![$(lanes(&$x)),*]); assert!(z.scalar_pos() == seen.len() * W); }
                            if let Some((($($x),*), k)) = z.end() { seen.push(vec![$(lanes(&$x)),*]); assert!(k == W - n % W); }
                            assert!(z.scalar_pos() == n);
                        }
                        3 => {
                            let k = n.min(W / 2 + 1);
                            z.advance(k);
                            assert!(z.scalar_pos() == k);
                            z.simd_do_each(|($($x),*)| seen.push(vec![$(lanes(&$x)),*]));
                        }
                        _ => {
                            let ($($x),*) = z.default();
                            let l = vec![$(lanes(&$x)),*];
                            for (a, b) in l.iter().zip(&dvs) { assert!(bits_eq(a, b), "default"); }
                            let mut m = z.simd_map(|($($x),*)| { let l = vec![$(lanes(&$x)),*]; let r = vec_of::<fv::$vs>(&fold(&l)); seen.push(l); r });
                            let got = m.scalar_collect();
                            let want = fold(&ins);
                            assert!(bits_eq(&got, &want), "collected {:?} instead of {:?}", got, want);
                        }
                    }
                });
                if r.is_some() {
                    if way == 3 {
                        let k = n.min(W / 2 + 1);
                        let rest: Vec<Vec<$t>> = ins.iter().map(|x| x[k..].to_vec()).collect();
                        judge($c, &format!("{}:advanced", key), &seen, &rest, &dvs);
                    } else {
                        judge($c, &key, &seen, &ins, &dvs);
                    }
                    $c.count("steps_observed", seen.len() as u64);
                }
            }
            // Two others, whose lengths make up for each other, and two which agree with each other only
            if $n > 2 && n > 0 {
                for &same in [false, true].iter() {
                    let d = $c.rng.range(1, n.min(2 * W));
                    let j = $c.rng.below($n);
                    let k = (j + $c.rng.range(1, $n - 1)) % $n;
                    let mut bad = ins.clone();
                    bad[j] = data(&mut $c.rng, n + d);
                    bad[k] = data(&mut $c.rng, if same { n + d } else { n - d });
                    case!($c, "{} unequal lengths: {} and [{}]={} and [{}]={}", key, n, j, bad[j].len(), k, bad[k].len());
                    let key = format!("unequal{}:{}", $n, stringify!($t));
                    $c.must_panic(&key, || { let _z = ($((&bad[$i][..]).simd_iter(defs[$i])),*).zip(); });
                }
            }
            // One input of another length, in each place
            for j in 0..$n {
                for &d in [1usize, W, $c.rng.range(1, 2 * W + 1)].iter() {
                    for &shorter in [false, true].iter() {
                        if shorter && d > n { continue; }
                        let mut bad = ins.clone();
                        bad[j] = data(&mut $c.rng, if shorter { n - d } else { n + d });
                        case!($c, "{} unequal lengths: {} and [{}]={}", key, n, j, bad[j].len());
                        let k = format!("unequal{}:{}", $n, stringify!($t));
                        $c.must_panic(&k, || { let _z = ($((&bad[$i][..]).simd_iter(defs[$i])),*).zip(); });
                    }
                }
            }
        }
        }
        go($c);
    }};
}

macro_rules! arities {
    ($c:ident, $t:ident, $vs:ident) => {
        arity!($c, $t, $vs, 2, (a 0, b 1)); arity!($c, $t, $vs, 3, (a 0, b 1, c 2));
        arity!($c, $t, $vs, 4, (a 0, b 1, c 2, d 3)); arity!($c, $t, $vs, 5, (a 0, b 1, c 2, d 3, e 4));
        arity!($c, $t, $vs, 6, (a 0, b 1, c 2, d 3, e 4, f 5)); arity!($c, $t, $vs, 7, (a 0, b 1, c 2, d 3, e 4, f 5, g 6));
        arity!($c, $t, $vs, 8, (a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7)); arity!($c, $t, $vs, 9, (a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7, i 8));
        arity!($c, $t, $vs, 10, (a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7, i 8, j 9));
        arity!($c, $t, $vs, 11, (a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7, i 8, j 9, k 10));
        arity!($c, $t, $vs, 12, (a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7, i 8, j 9, k 10, l 11));
        arity!($c, $t, $vs, 13, (a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7, i 8, j 9, k 10, l 11, m 12));
    };
}

/// Every pair of unequal lengths, and every equal one, for two inputs.
macro_rules! pairs {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let top = $c.pick(2 * W + 2, 4 * W + 2);
        let d: Vec<$t> = data(&mut $c.rng, top + 1);
        let z = fv::$vs(0 as $t);
        for a in 0..=top {
            case!($c, "length pairs {} {}", stringify!($t), a);
            for b in 0..=top {
                let key = format!("pairs:{}", stringify!($t));
                if a == b {
                    let r = $c.no_panic(&key, || { let mut n = 0; ((&d[..a]).simd_iter(z), (&d[..b]).simd_iter(z)).zip().simd_do_each(|_| n += 1); n });
                    if let Some(r) = r { $c.same_val(&key, r, (a + W - 1) / W); }
                } else {
                    $c.must_panic(&key, || { let _z = ((&d[..a]).simd_iter(z), (&d[..b]).simd_iter(z)).zip(); });
                }
            }
            $c.distinct(&("pairs", stringify!($t), W, a));
        }
        // Lengths which differ by round numbers
        let long: Vec<$t> = data(&mut $c.rng, 70_000);
        for &by in [W, 128, 256, 512, 32_768, 65_535, 65_536, 65_536 + W].iter() {
            for _ in 0..$c.pick(3, 12) {
                let a = $c.rng.below(3 * W);
                let b = a + by;
                case!($c, "lengths {} and {} {}", a, b, stringify!($t));
                let key = format!("pairs:{}", stringify!($t));
                $c.must_panic(&key, || { let _z = ((&long[..a]).simd_iter(z), (&long[..b]).simd_iter(z)).zip(); });
                $c.must_panic(&key, || { let _z = ((&long[..b]).simd_iter(z), (&long[..a]).simd_iter(z)).zip(); });
                $c.must_panic(&key, || { let _z = ((&long[..a]).simd_iter(z), (&long[..a]).simd_iter(z), (&long[..b]).simd_iter(z)).zip(); });
            }
        }
        // Vectors and strides as inputs
        for n in 0..$c.pick(6 * W, 20 * W) {
            let extra = $c.rng.below(3);
            let d: Vec<$t> = data(&mut $c.rng, 3 * n + extra);
            let e: Vec<$t> = data(&mut $c.rng, n);
            let dvs: Vec<Vec<$t>> = (0..5).map(|_| data(&mut $c.rng, W)).collect();
            let defs: Vec<fv::$vs> = dvs.iter().map(|d| vec_of(d)).collect();
            let g = Guarded::new(&d, true);
            g.freeze();
            let r = &g[..];
            case!($c, "strides and a vector {} len={}", stringify!($t), n);
            $c.distinct(&("strides", stringify!($t), W, n));
            let key = format!("sources:{}", stringify!($t));
            let ins: Vec<Vec<$t>> = (0..3).map(|k| (0..n).map(|i| d[3 * i + k]).collect()).chain(Some(e.clone())).collect();
            let mut seen: Vec<Vec<Vec<$t>>> = Vec::new();
            let first = $c.rng.chance(2);
            let ok = $c.no_panic(&key, || {
                let (a, b, c) = r.stride_three((defs[0], defs[1], defs[2]));
                if first {
                    (a, b, c, e.clone().into_simd_iter(defs[3])).zip().simd_do_each(|(a, b, c, e)| seen.push(vec![lanes(&a), lanes(&b), lanes(&c), lanes(&e)]));
                } else {
                    (e.clone().into_simd_iter(defs[3]), a, b, c).zip().simd_do_each(|(e, a, b, c)| seen.push(vec![lanes(&a), lanes(&b), lanes(&c), lanes(&e)]));
                }
            });
            if ok.is_some() { judge($c, &key, &seen, &ins, &dvs); }
            // An odd number of elements leaves the strides shorter than the slice
            if n % 3 != 0 && n > 0 {
                $c.must_panic(&key, || {
                    let s = &e[..];
                    let (a, _, _) = s.stride_three((defs[0], defs[1], defs[2]));
                    let _z = (s.simd_iter(defs[0]), a).zip();
                });
            }
        }
        }
        go($c);
    }};
}

/// Different element types with the same number of lanes.
macro_rules! mixed {
    ($c:ident, $o:ident, $ov:ident, ($($x:ident $t:ident $vs:ident),*)) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$ov as Packed>::WIDTH;
        for n in 0..$c.pick(4 * W + 2, 20 * W) {
            $(let $x: Vec<$t> = data(&mut $c.rng, n);)*
            let key = concat!("mixed:", $(stringify!($t), "+"),*);
            case!($c, "{} len={}", key, n);
            $c.distinct(&(key, W, n));
            let want: Vec<$o> = (0..n).map(|i| { let mut h = 0u64; $(h = h.wrapping_mul(31).wrapping_add($x[i].bits());)* $o::from_bits64(h) }).collect();
            let got = $c.no_panic(key, || {
                ($((&$x[..]).simd_iter(fv::$vs(1 as $t))),*).zip().simd_map(|($($x),*)| {
                    $(let $x = lanes(&$x);)*
                    let l: Vec<$o> = (0..W).map(|i| { let mut h = 0u64; $(h = h.wrapping_mul(31).wrapping_add($x[i].bits());)* $o::from_bits64(h) }).collect();
                    vec_of::<fv::$ov>(&l)
                }).scalar_collect()
            });
            if let Some(g) = got { $c.same(key, &g, &want); }
        }
        }
        go($c);
    }};
}

/// Lengths and positions beyond 32 bits.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = (1usize << 32) + 12 * W + $c.rng.below(3 * W) + 1;
        case!($c, "huge {} of {}", stringify!($t), n);
        let h = Huge::<$t>::new(n, 50 * W);
        let s: &[$t] = &h;
        let (dv, ev): (Vec<$t>, Vec<$t>) = (data(&mut $c.rng, W), data(&mut $c.rng, W));
        let (def, edef): (fv::$vs, fv::$vs) = (vec_of(&dv), vec_of(&ev));
        let key = format!("huge:{}", stringify!($t));
        for round in 0..$c.pick(9, 90) {
            let b = [1usize << 31, 1 << 32, n][round % 3];
            let p = b - $c.rng.below(4 * W) - 1;
            case!($c, "{} len={} advance({})", key, n, p);
            // The second input is shifted by some elements
            let k = $c.rng.below(2 * W) + 1;
            let m = n - k;
            let p = p.min(m);
            let mut z = ((&s[..m]).simd_iter(def), (&s[k..]).simd_iter(edef)).zip();
            let r = $c.no_panic(&key, || {
                let l = (z.scalar_len(), z.vector_len(), z.scalar_pos());
                z.advance(p);
                let v = if let Some((x, y)) = z.next() { Some((lanes(&x), lanes(&y))) } else { None };
                let q = (z.scalar_pos(), z.vector_pos());
                let mut seen = (Vec::new(), Vec::new());
                if m - p < 45 * W { z.simd_do_each(|(x, y)| { seen.0.push(lanes(&x)); seen.1.push(lanes(&y)); }); }
                (l, v, q, seen)
            });
            if let Some((l, v, q, seen)) = r {
                $c.same_val(&format!("{}:lengths", key), l, (m, m / W, 0));
                let whole = m - p >= W;
                let after = if whole { p + W } else { p };
                $c.same_val(&format!("{}:position", key), q, (after, after / W));
                $c.same_val(&format!("{}:next", key), v.is_some(), whole);
                if let Some((x, y)) = v {
                    $c.same(&format!("{}:first", key), &x, &h.part(p, p + W));
                    $c.same(&format!("{}:second", key), &y, &h.part(p + k, p + k + W));
                }
                if m - p < 45 * W {
                    presented($c, &format!("{}:first", key), &seen.0, &h.part(after, m), &dv);
                    presented($c, &format!("{}:second", key), &seen.1, &h.part(after + k, m + k), &ev);
                }
                $c.count("huge_zips", 1);
            }
            let a = $c.rng.below(3 * W);
            let o = [1usize << 31, 1 << 32, (1 << 32) + W][round % 3];
            let key = format!("{}:unequal", key);
            case!($c, "lengths {} and {} {}", a, a + o, stringify!($t));
            $c.must_panic(&key, || { let _z = ((&s[..a]).simd_iter(def), (&s[..a + o]).simd_iter(def)).zip(); });
            $c.must_panic(&key, || { let _z = ((&s[..a + o]).simd_iter(def), (&s[..a]).simd_iter(def)).zip(); });
            $c.must_panic(&key, || { let _z = ((&s[..a]).simd_iter(def), (&s[..a]).simd_iter(def), (&s[..a + o]).simd_iter(def)).zip(); });
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    arities!(cx, u8, u8s);
    arities!(cx, f32, f32s);
    arities!(cx, i64, i64s);
    natural_types!(pairs, cx);
    mixed!(cx, i8, i8s, (a u8 u8s, b i8 i8s));
    mixed!(cx, u16, u16s, (a u16 u16s, b i16 i16s, c u16 u16s));
    mixed!(cx, f32, f32s, (a u32 u32s, b i32 i32s, c f32 f32s));
    mixed!(cx, u32, u32s, (a f32 f32s, b i32 i32s, c u32 u32s, d f32 f32s));
    mixed!(cx, f64, f64s, (a i64 i64s, b u64 u64s));
    mixed!(cx, i64, i64s, (a f64 f64s, b i64 i64s, c u64 u64s, d u64 u64s, e f64 f64s));
    // The results have as many lanes as the inputs but another size
    if <fv::u32s as Packed>::WIDTH == 4 {
        mixed!(cx, f64, f64x4, (a u32 u32s, b i32 i32s));
        mixed!(cx, u8, u8x16, (a u8 u8s, b i8 i8s));
    } else {
        mixed!(cx, i64, i64x8, (a u32 u32s, b f32 f32s));
        mixed!(cx, u16, u16x32, (a u8 u8s, b i8 i8s));
        mixed!(cx, i8, i8x16, (a u16 u16s, b i16 i16s));
        mixed!(cx, u16, u16x8, (a u32 u32s, b f32 f32s));
    }
    huge!(cx, u8, u8s);
    huge!(cx, f32, f32s);
    c.finish()
}
