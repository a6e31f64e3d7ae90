//! C17: floating-point operations.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::abs::Abs;
use faster::intrin::cmp::Cmp;
use faster::intrin::recip::Recip;
use faster::intrin::round::Round;
use faster::intrin::rsqrt::Rsqrt;
use faster::intrin::sqrt::Sqrt;
use faster::vecs::Packable;
use faster::*;
use vh::*;

extern "C" {
    fn sqrt(x: f64) -> f64;
    fn floor(x: f64) -> f64;
    fn ceil(x: f64) -> f64;
    fn trunc(x: f64) -> f64;
}

trait Float: Elem {
    fn wide(self) -> f64;
    fn narrow(x: f64) -> Self;
    fn tiny() -> f64;
    fn huge() -> f64;
}
impl Float for f32 {
    fn wide(self) -> f64 { self as f64 }
    fn narrow(x: f64) -> f32 { x as f32 }
    fn tiny() -> f64 { std::f32::MIN_POSITIVE as f64 }
    fn huge() -> f64 { std::f32::MAX as f64 }
}
impl Float for f64 {
    fn wide(self) -> f64 { self }
    fn narrow(x: f64) -> f64 { x }
    fn tiny() -> f64 { std::f64::MIN_POSITIVE }
    fn huge() -> f64 { std::f64::MAX }
}

#[inline(never)]
fn canon<T: Elem>(x: &[T]) -> Vec<T> {
    x.iter().map(|v| if *v != *v { T::from_bits64(if T::BYTES == 4 { 0x7FC0_0000 } else { 0x7FF8_0000_0000_0000 }) } else { *v }).collect()
}

/// Values of every magnitude, with the interesting fractions.
#[inline(never)]
fn values<T: Float>(c: &mut Ctx, w: usize) -> Vec<Vec<T>> {
    let n = c.pick(6000, 400000);
    let mut all: Vec<Vec<T>> = operands::<T>(&mut c.rng, w, n / 2).into_iter().map(|x| x.0).collect();
    for _ in 0..n / 2 {
        all.push((0..w).map(|_| {
            let whole = (c.rng.next() >> (11 + c.rng.below(53) as u32)) as f64;
            let frac = [0.0, 0.5, 0.25, 0.75, 0.125, 1e-6, 0.4999999, 0.5000001][c.rng.below(8)];
            let s = if c.rng.chance(2) { -1.0 } else { 1.0 };
            T::narrow(s * (whole + frac))
        }).collect());
    }
    // Around every power of two: its neighbours, and the halves next to it
    let mut near: Vec<T> = Vec::new();
    for e in 0..70 {
        let b = (2.0f64).powi(e - 3);
        for d in [0.0, 0.25, 0.5, 0.75, 1.0, 1.5].iter() {
            near.push(T::narrow(b + d));
            near.push(T::narrow(b - d));
        }
        let x = T::narrow(b).bits();
        for d in 1..4 { near.push(T::from_bits64(x + d)); near.push(T::from_bits64(x - d)); }
        let h = T::narrow(b + 0.5).bits();
        near.push(T::from_bits64(h + 1));
        near.push(T::from_bits64(h - 1));
    }
    for i in 0..near.len() {
        let k = c.rng.below(w);
        for sign in [1.0, -1.0].iter() {
            all.push((0..w).map(|l| { let x = if l == k { near[i] } else { near[c.rng.below(near.len())] }; T::narrow(sign * x.wide()) }).collect());
        }
    }
    all
}

/// An exactly specified operation on each lane.
#[inline(never)]
fn exact<V: Packed<Scalar = T>, T: Packable + Float, F: Fn(&V) -> V, G: Fn(f64) -> f64>(c: &mut Ctx, name: &str, op: &str, f: F, g: G) {
    let w = V::WIDTH;
    let k = format!("{}:{}", name, op);
    for a in values::<T>(c, w) {
        let v: V = vec_of(&a);
        case!(c, "{:?}.{}()", v, op);
        c.distinct(&(T::NAME, w, op, a[0].bits(), a[w - 1].bits()));
        let want: Vec<T> = a.iter().map(|x| T::narrow(g(x.wide()))).collect();
        if let Some(r) = c.no_panic(&k, || f(&v)) {
            // The sign of a zero that a fraction rounds to is not promised
            let (mut got, mut want) = (canon(&lanes(&r)), canon(&want));
            for x in got.iter_mut().chain(want.iter_mut()) { if op != "abs" && op != "sqrt" && x.wide() == 0.0 { *x = T::narrow(0.0); } }
            if !c.same(&k, &got, &want) { break; }
        }
    }
}

#[inline(never)]
fn rounding<V: Packed<Scalar = T> + Round, T: Packable + Float>(c: &mut Ctx, name: &str) {
    let k = format!("{}:round", name);
    let w = V::WIDTH;
    for a in values::<T>(c, w) {
        let v: V = vec_of(&a);
        case!(c, "{:?}.round()", v);
        c.distinct(&(T::NAME, w, "round", a[0].bits(), a[w - 1].bits()));
        if let Some(r) = c.no_panic(&k, || Round::round(&v)) {
            for (x, y) in a.iter().zip(&lanes(&r)) {
                c.eval(1);
                let (x, y) = (x.wide(), y.wide());
                let ok = if x.is_nan() { y.is_nan() } else if x.is_infinite() { x == y } else {
                    // An integer, and none is nearer (both differences are exact)
                    let (lo, hi) = unsafe { (floor(x), ceil(x)) };
                    (y == lo || y == hi) && (x - y).abs() <= (x - lo).abs() && (x - y).abs() <= (hi - x).abs()
                };
                if !ok { c.fail(&k, format!("{:e} rounds to {:e}", x, y)); }
            }
            c.count("lanes", w as u64);
        }
    }
}

#[inline(never)]
fn extrema<V: Packed<Scalar = T> + Cmp, T: Packable + Float>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    let n = c.pick(5000, 300000);
    for (a, b) in operands::<T>(&mut c.rng, w, n) {
        let (va, vb): (V, V) = (vec_of(&a), vec_of(&b));
        case!(c, "{:?}.min({:?})", va, vb);
        c.distinct(&(T::NAME, w, "min", a[0].bits(), b[w - 1].bits()));
        let min = c.no_panic(&format!("{}:min", name), || lanes(&Cmp::min(&va, vb)));
        let max = c.no_panic(&format!("{}:max", name), || lanes(&Cmp::max(&va, vb)));
        if let (Some(min), Some(max)) = (min, max) {
            for l in 0..w {
                let (x, y) = (a[l].wide(), b[l].wide());
                if x.is_nan() || y.is_nan() { continue; }
                // Which of two zeroes is the smaller is not promised
                c.same_val(&format!("{}:min", name), min[l].wide(), if x < y { x } else { y });
                c.same_val(&format!("{}:max", name), max[l].wide(), if x > y { x } else { y });
            }
        }
    }
}

/// An approximation of a function.
#[inline(never)]
fn approx<V: Packed<Scalar = f32>, F: Fn(&V) -> V, G: Fn(f64) -> f64>(c: &mut Ctx, name: &str, op: &str, f: F, g: G) {
    let w = V::WIDTH;
    let k = format!("{}:{}", name, op);
    let mut all = values::<f32>(c, w);
    // The whole range of exponents
    for e in 1..255u32 {
        for s in 0..2u32 {
            all.push((0..w).map(|_| f32::from_bits(s << 31 | e << 23 | (c.rng.next() as u32 >> 9))).collect());
        }
    }
    for a in all {
        let v: V = vec_of(&a);
        case!(c, "{:?}.{}()", v, op);
        c.distinct(&(w, op, a[0].to_bits(), a[w - 1].to_bits()));
        if let Some(r) = c.no_panic(&k, || f(&v)) {
            for (x, y) in a.iter().zip(&lanes(&r)) {
                c.eval(1);
                let t = g(*x as f64);
                let ok = if *x == 0.0 {
                    (*y as f64).is_infinite() && (op != "recip" || y.is_sign_negative() == x.is_sign_negative())
                } else if x.classify() == std::num::FpCategory::Subnormal {
                    true
                } else if x.is_nan() || t.is_nan() {
                    y.is_nan()
                } else if x.is_infinite() {
                    *y == 0.0
                } else if t.abs() < 1.0005 * f32::tiny() || t.abs() > 0.9995 * f32::huge() {
                    true
                } else {
                    ((*y as f64 - t) / t).abs() <= 0.0005
                };
                if !ok { c.fail(&k, format!("{:e} gives {:e}, not {:e}", x, y, t)); }
            }
            c.count("lanes", w as u64);
        }
    }
}

macro_rules! types { ($c:ident: $($t:ident $v:ident),*) => { $(
    exact::<fv::$v, $t, _, _>($c, stringify!($v), "abs", |v| Abs::abs(v), |x| f64::from_bits(x.to_bits() & !0 >> 1));
    exact::<fv::$v, $t, _, _>($c, stringify!($v), "sqrt", |v| Sqrt::sqrt(v), |x| unsafe { sqrt(x) });
    exact::<fv::$v, $t, _, _>($c, stringify!($v), "floor", |v| Round::floor(v), |x| unsafe { floor(x) });
    exact::<fv::$v, $t, _, _>($c, stringify!($v), "ceil", |v| Round::ceil(v), |x| unsafe { ceil(x) });
    exact::<fv::$v, $t, _, _>($c, stringify!($v), "trunc", |v| Round::trunc(v), |x| unsafe { trunc(x) });
    rounding::<fv::$v, $t>($c, stringify!($v));
    extrema::<fv::$v, $t>($c, stringify!($v));
)* } }

/// The integer a value is truncated to, without the machine's rounding instructions.
#[inline(always)]
fn cut(x: f32) -> f32 {
    let a = f32::from_bits(x.to_bits() & !0 >> 1);
    // From 2^23 on there are no fractions
    if a < 8388608.0 { (x as i32) as f32 } else { x }
}
#[inline(always)]
fn close(x: f32, y: f32, t: f64) -> bool {
    if x == 0.0 { y.to_bits() & !0 >> 1 == 0x7F80_0000 }
    else if x.to_bits() & !0 >> 1 < 0x0080_0000 { true }
    else if t != t { y != y }
    else if x.to_bits() & !0 >> 1 == 0x7F80_0000 { y == 0.0 }
    else { let m = t.abs(); if m < 1.1761e-38 || m > 3.4011e38 { true } else { (y as f64 - t).abs() <= 0.0005 * m } }
}
/// Every f32 (in the quick tier one in 4).
macro_rules! sweeps { ($c:ident: $($v:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), ":abs"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Abs::abs(&v), |x, r| r.to_bits() == x.to_bits() & !0 >> 1 || (x != x && r != r)));
    sweep!($c, concat!(stringify!($v), ":sqrt"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Sqrt::sqrt(&v), |x, r| { let t = x.sqrt(); r.to_bits() == t.to_bits() || (r != r && t != t) }));
    sweep!($c, concat!(stringify!($v), ":trunc"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Round::trunc(&v), |x, r| r == cut(x) || (x != x && r != r)));
    sweep!($c, concat!(stringify!($v), ":floor"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Round::floor(&v), |x, r| { let t = cut(x); r == if t > x { t - 1.0 } else { t } || (x != x && r != r) }));
    sweep!($c, concat!(stringify!($v), ":ceil"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Round::ceil(&v), |x, r| { let t = cut(x); r == if t < x { t + 1.0 } else { t } || (x != x && r != r) }));
    // An integer no further than a half away (the difference is exact as an f64)
    sweep!($c, concat!(stringify!($v), ":round"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Round::round(&v), |x, r| (r == cut(r) && (r == x || (r as f64 - x as f64).abs() <= 0.5)) || (x != x && r != r)));
    sweep!($c, concat!(stringify!($v), ":recip"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Recip::recip(&v), |x, r| close(x, r, 1.0 / x as f64)));
    sweep!($c, concat!(stringify!($v), ":rsqrt"), 4, |lo, hi| look1::<fv::$v, fv::$v, f32, f32, _, _>(lo, hi, |v| Rsqrt::rsqrt(&v), |x, r| close(x, r, 1.0 / (x as f64).sqrt())));
)* } }

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    if sweeping(cx) {
        sweeps!(cx: f32x4, f32x8);
        c.finish()
    }
    types!(cx: f32 f32x4, f64 f64x2, f32 f32x8, f64 f64x4);
    approx::<fv::f32x4, _, _>(cx, "f32x4", "recip", |v| Recip::recip(v), |x| 1.0 / x);
    approx::<fv::f32x8, _, _>(cx, "f32x8", "recip", |v| Recip::recip(v), |x| 1.0 / x);
    approx::<fv::f32x4, _, _>(cx, "f32x4", "rsqrt", |v| Rsqrt::rsqrt(v), |x| 1.0 / unsafe { sqrt(x) });
    approx::<fv::f32x8, _, _>(cx, "f32x8", "rsqrt", |v| Rsqrt::rsqrt(v), |x| 1.0 / unsafe { sqrt(x) });
    c.finish()
}
