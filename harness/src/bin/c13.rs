//! C13: horizontal operations.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::hadd::HAdd;
use faster::intrin::hsub::HSub;
use faster::intrin::popcnt::Popcnt;
use faster::intrin::saturating_hadd::SaturatingHAdd;
use faster::intrin::saturating_hsub::SaturatingHSub;
use faster::intrin::sum::{Sum, UpcastSum};
use faster::vecs::Packable;
use faster::*;
use vh::*;

/// The lanes of a horizontal operation: pairs of the first and of the second operand in turn.
fn across<T: Copy, U>(a: &[T], b: &[T], f: impl Fn(T, T) -> U) -> Vec<U> {
    let mut r = Vec::new();
    for i in 0..a.len() / 2 {
        r.push(f(a[2 * i], a[2 * i + 1]));
        r.push(f(b[2 * i], b[2 * i + 1]));
    }
    r
}

#[inline(never)]
fn horizontal<V: Packed<Scalar = T>, T: Packable + Int, F: Fn(&V, V) -> V, G: Fn(i128, i128) -> T>(c: &mut Ctx, name: &str, op: &str, f: F, g: G) {
    let w = V::WIDTH;
    let k = format!("{}:{}", name, op);
    let n = c.pick(1500, 60000);
    for (a, b) in operands::<T>(&mut c.rng, w, n) {
        let (va, vb): (V, V) = (vec_of(&a), vec_of(&b));
        case!(c, "{:?}.{}({:?})", va, op, vb);
        c.distinct(&(T::NAME, w, a[0].bits(), b[0].bits(), a[w - 1].bits()));
        let want = across(&a, &b, |x, y| g(x.wide(), y.wide()));
        if let Some(r) = c.no_panic(&k, || f(&va, vb)) {
            if !c.same(&k, &lanes(&r), &want) { break; }
        }
    }
}

#[inline(never)]
fn sums<V: Packed<Scalar = T> + Sum + UpcastSum, T: Packable + Int>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    let n = c.pick(3000, 100000);
    let (e, o) = (T::edges(), operands::<T>(&mut c.rng, w, n));
    let mut all: Vec<Vec<T>> = o.into_iter().map(|x| x.0).collect();
    // All lanes at the same extreme: the largest sums there are
    for x in e.iter() {
        all.push(vec![*x; w]);
        for l in 0..w {
            let mut v = vec![*x; w];
            v[l] = e[c.rng.below(e.len())];
            all.push(v);
        }
    }
    // Single lanes
    for l in 0..w {
        let mut v = vec![T::wrap(0); w];
        v[l] = T::rand(&mut c.rng);
        all.push(v);
    }
    for a in all {
        let v: V = vec_of(&a);
        case!(c, "{:?}.sum()", v);
        c.distinct(&(T::NAME, w, a[0].bits(), a[w - 1].bits(), a[w / 2].bits()));
        let exact: i128 = a.iter().map(|x| x.wide()).sum();
        let k = format!("{}:sum", name);
        if let Some(r) = c.no_panic(&k, || Sum::sum(&v)) { c.same(&k, &[r], &[T::wrap(exact)]); }
        if exact >= i64::LO && exact <= i64::HI && a.iter().all(|x| x.wide() <= i64::HI) {
            let k = format!("{}:sum_upcast", name);
            if let Some(r) = c.no_panic(&k, || UpcastSum::sum_upcast(&v)) { c.same(&k, &[r], &[exact as i64]); }
        }
        // Small lanes so that the sums of 64-bit lanes fit
        if T::BYTES == 8 {
            let s: Vec<T> = a.iter().map(|x| T::wrap(x.wide() / 128)).collect();
            let exact: i128 = s.iter().map(|x| x.wide()).sum();
            let v: V = vec_of(&s);
            let k = format!("{}:sum_upcast", name);
            if let Some(r) = c.no_panic(&k, || UpcastSum::sum_upcast(&v)) { c.same(&k, &[r], &[exact as i64]); }
        }
    }
}

#[inline(never)]
fn bits<V: Packed<Scalar = T> + Popcnt, T: Packable + Int>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    let n = c.pick(2000, 60000);
    let mut all: Vec<Vec<T>> = operands::<T>(&mut c.rng, w, n).into_iter().map(|x| x.0).collect();
    for b in 0..8 * T::BYTES * w {
        // Each bit of the vector alone, and alone missing
        for inv in 0..2 {
            let mut v = vec![T::from_bits64(if inv == 0 { 0 } else { !0 }); w];
            let l = b / (8 * T::BYTES);
            v[l] = T::from_bits64(v[l].bits() ^ 1u64 << (b % (8 * T::BYTES)));
            all.push(v);
        }
    }
    for a in all {
        let v: V = vec_of(&a);
        case!(c, "{:?}.count_ones()", v);
        c.distinct(&(T::NAME, w, a[0].bits(), a[w - 1].bits(), "bits"));
        let want: usize = a.iter().map(|x| x.bits().count_ones() as usize).sum();
        let k = format!("{}:count_ones", name);
        if let Some(r) = c.no_panic(&k, || Popcnt::count_ones(&v)) { c.same_val(&k, r, want); }
        let k = format!("{}:count_zeroes", name);
        if let Some(r) = c.no_panic(&k, || v.count_zeroes()) { c.same_val(&k, r, w * 8 * T::BYTES - want); }
    }
}

macro_rules! ints {
    ($c:ident, $t:ident, $v:ident) => {
        horizontal::<fv::$v, $t, _, _>($c, stringify!($v), "hadd", |a, b| HAdd::hadd(a, b), |x, y| <$t as Int>::wrap(x + y));
        horizontal::<fv::$v, $t, _, _>($c, stringify!($v), "hsub", |a, b| HSub::hsub(a, b), |x, y| <$t as Int>::wrap(x - y));
        horizontal::<fv::$v, $t, _, _>($c, stringify!($v), "saturating_hadd", |a, b| SaturatingHAdd::saturating_hadd(a, b), |x, y| <$t as Int>::clamp(x + y));
        horizontal::<fv::$v, $t, _, _>($c, stringify!($v), "saturating_hsub", |a, b| SaturatingHSub::saturating_hsub(a, b), |x, y| <$t as Int>::clamp(x - y));
        sums::<fv::$v, $t>($c, stringify!($v));
        bits::<fv::$v, $t>($c, stringify!($v));
    };
}

macro_rules! floats { ($c:ident: $($t:ident $v:ident),*) => { $( {
    #[inline(never)]
    fn go(c: &mut Ctx) {
        const W: usize = <fv::$v as Packed>::WIDTH;
        let name = stringify!($v);
        let n = c.pick(3000, 100000);
        for (a, b) in operands::<$t>(&mut c.rng, W, n) {
            let (va, vb): (fv::$v, fv::$v) = (vec_of(&a), vec_of(&b));
            case!(c, "{:?}.hadd({:?})", va, vb);
            c.distinct(&(name, a[0].to_bits(), b[0].to_bits(), a[W - 1].to_bits()));
            // One addition of two numbers is correctly rounded; a NaN is a NaN
            let canon = |x: &[$t]| x.iter().map(|v| if v.is_nan() { std::$t::NAN } else { *v }).collect::<Vec<$t>>();
            let k = format!("{}:hadd", name);
            if let Some(r) = c.no_panic(&k, || HAdd::hadd(&va, vb)) { c.same(&k, &canon(&lanes(&r)), &canon(&across(&a, &b, |x, y| x + y))); }
            let k = format!("{}:hsub", name);
            if let Some(r) = c.no_panic(&k, || HSub::hsub(&va, vb)) { c.same(&k, &canon(&lanes(&r)), &canon(&across(&a, &b, |x, y| x - y))); }
        }
        // Sums of lanes which are added exactly in any order
        for i in 0..c.pick(4000, 100000) {
            let a: Vec<$t> = (0..W).map(|l| {
                if i < W { if l == i { 3.0 } else { 0.0 } } else { (c.rng.below(1 << 18) as i64 - (1 << 17)) as $t / if i % 2 == 0 { 1.0 } else { 8.0 } }
            }).collect();
            let v: fv::$v = vec_of(&a);
            case!(c, "{:?}.sum()", v);
            c.distinct(&(name, a[0].to_bits(), a[W - 1].to_bits(), "sum"));
            let want: f64 = a.iter().map(|x| *x as f64).sum();
            let k = format!("{}:sum", name);
            if let Some(r) = c.no_panic(&k, || Sum::sum(&v)) { c.same_val(&k, r as f64, want); }
            if i % 2 == 0 || i < W {
                let k = format!("{}:sum_upcast", name);
                if let Some(r) = c.no_panic(&k, || UpcastSum::sum_upcast(&v)) { c.same_val(&k, r, want as i64); }
            }
            // ... and of lanes which are not: within what rounding allows
            let a: Vec<$t> = (0..W).map(|_| ((c.rng.next() >> 12) as $t / (1u64 << 51) as $t - 1.0) * (2.0 as $t).powi(c.rng.below(40) as i32 - 20)).collect();
            let v: fv::$v = vec_of(&a);
            case!(c, "{:?}.sum()", v);
            let exact: f64 = a.iter().map(|x| *x as f64).sum();
            let abs: f64 = a.iter().map(|x| (*x as f64).abs()).sum();
            let k = format!("{}:sum-rounding", name);
            if let Some(r) = c.no_panic(&k, || Sum::sum(&v)) {
                c.eval(1);
                let lim = 2.0 * W as f64 * (std::$t::EPSILON as f64) * abs;
                if !((r as f64 - exact).abs() <= lim) { c.fail(&k, format!("{:?}, which is {} +- {}", r, exact, lim)); }
            }
        }
    }
    go($c);
} )* } }

/// Every pair of 16-bit neighbours.
macro_rules! sweeps { ($c:ident: $($t:ident $v:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), ":hadd"), 8, |lo, hi| across2::<fv::$v, $t, _, _>(lo, hi, |a, b| HAdd::hadd(&a, b), |x, y, r| r == x.wrapping_add(y)));
    sweep!($c, concat!(stringify!($v), ":hsub"), 8, |lo, hi| across2::<fv::$v, $t, _, _>(lo, hi, |a, b| HSub::hsub(&a, b), |x, y, r| r == x.wrapping_sub(y)));
    sweep!($c, concat!(stringify!($v), ":saturating_hadd"), 8, |lo, hi| across2::<fv::$v, $t, _, _>(lo, hi, |a, b| SaturatingHAdd::saturating_hadd(&a, b),
        |x, y, r| r as i32 == (x as i32 + y as i32).max(std::$t::MIN as i32).min(std::$t::MAX as i32)));
    sweep!($c, concat!(stringify!($v), ":saturating_hsub"), 8, |lo, hi| across2::<fv::$v, $t, _, _>(lo, hi, |a, b| SaturatingHSub::saturating_hsub(&a, b),
        |x, y, r| r as i32 == (x as i32 - y as i32).max(std::$t::MIN as i32).min(std::$t::MAX as i32)));
)* } }

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    if sweeping(cx) {
        sweeps!(cx: u16 u16x8, i16 i16x8, u16 u16x16, i16 i16x16, u16 u16x32, i16 i16x32);
        c.finish()
    }
    int_vectors!(ints, cx);
    floats!(cx: f32 f32x4, f64 f64x2, f32 f32x8, f64 f64x4, f32 f32x16, f64 f64x8);
    c.finish()
}
