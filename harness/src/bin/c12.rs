//! C12: lane-wise integer arithmetic.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::abs::Abs;
use faster::intrin::cmp::Cmp;
use faster::intrin::saturating_add::SaturatingAdd;
use faster::intrin::saturating_sub::SaturatingSub;
use faster::vecs::Packable;
use faster::*;
use vh::*;

/// Every pair of operands to try: exhaustive for 8 bits.
#[inline(never)]
fn pairs<T: Int>(c: &mut Ctx, w: usize) -> Vec<(Vec<T>, Vec<T>)> {
    let n = c.pick(3000, 200000);
    let mut p = operands(&mut c.rng, w, n);
    if T::BYTES == 1 {
        let k = c.rng.below(65536);
        let all: Vec<(T, T)> = (0..65536usize).map(|i| {
            let i = (i + k) % 65536;
            (T::from_bits64(i as u64), T::from_bits64((i >> 8) as u64))
        }).collect();
        for ch in all.chunks(w) {
            p.push((ch.iter().map(|x| x.0).collect(), ch.iter().map(|x| x.1).collect()));
        }
    }
    p
}

#[inline(never)]
fn binary<V: Packed<Scalar = T>, T: Packable + Int, F: Fn(&V, V) -> V, G: Fn(i128, i128) -> i128>(c: &mut Ctx, name: &str, op: &str, f: F, g: G) {
    let w = V::WIDTH;
    let k = format!("{}:{}", name, op);
    for (a, b) in pairs::<T>(c, w) {
        let (va, vb): (V, V) = (vec_of(&a), vec_of(&b));
        case!(c, "{:?}.{}({:?})", va, op, vb);
        let want: Vec<T> = a.iter().zip(&b).map(|(x, y)| T::clamp(g(x.wide(), y.wide()))).collect();
        c.distinct(&(T::NAME, w, a[0].bits(), b[0].bits(), a[w - 1].bits()));
        if let Some(r) = c.no_panic(&k, || f(&va, vb)) {
            if !c.same(&k, &lanes(&r), &want) { break; }
        }
    }
}

#[inline(never)]
fn absolute<V, U, T, S>(c: &mut Ctx, name: &str) where V: Packed<Scalar = T> + Abs<Out = U>, U: Packed<Scalar = S>, T: Packable + Int, S: Packable + Int {
    let w = V::WIDTH;
    let k = format!("{}:abs", name);
    let mut all: Vec<Vec<T>> = operands::<T>(&mut c.rng, w, 2000).into_iter().map(|x| x.0).collect();
    if T::BYTES <= 2 {
        let n = 1usize << (8 * T::BYTES);
        let o = c.rng.below(n);
        let v: Vec<T> = (0..n).map(|i| T::from_bits64((i + o) as u64)).collect();
        for ch in v.chunks(w) { all.push(ch.to_vec()); }
    }
    if c.thorough { for _ in 0..300000 { all.push((0..w).map(|_| T::rand(&mut c.rng)).collect()); } }
    for a in all {
        let v: V = vec_of(&a);
        case!(c, "{:?}.abs()", v);
        c.distinct(&(T::NAME, w, a[0].bits(), a[w - 1].bits()));
        let want: Vec<S> = a.iter().map(|x| S::wrap(x.wide().abs())).collect();
        if let Some(r) = c.no_panic(&k, || Abs::abs(&v)) {
            if !c.same(&k, &lanes(&r), &want) { break; }
        }
    }
}

macro_rules! cmps { ($c:ident: $($t:ident $v:ident),*) => { $(
    binary::<fv::$v, $t, _, _>($c, stringify!($v), "min", |a, b| Cmp::min(a, b), |x, y| x.min(y));
    binary::<fv::$v, $t, _, _>($c, stringify!($v), "max", |a, b| Cmp::max(a, b), |x, y| x.max(y));
)* } }
macro_rules! sats { ($c:ident: $($t:ident $v:ident),*) => { $(
    binary::<fv::$v, $t, _, _>($c, stringify!($v), "saturating_add", |a, b| SaturatingAdd::saturating_add(a, b), |x, y| x + y);
    binary::<fv::$v, $t, _, _>($c, stringify!($v), "saturating_sub", |a, b| SaturatingSub::saturating_sub(a, b), |x, y| x - y);
)* } }
macro_rules! abss { ($c:ident: $($t:ident $u:ident $v:ident),*) => { $(
    absolute::<fv::$v, _, $t, $u>($c, stringify!($v));
)* } }

/// Every pair of 16-bit lanes, every 32-bit lane.
macro_rules! sweeps { ($c:ident: $($t:ident $v:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), ":min"), 6, |lo, hi| look2::<fv::$v, fv::$v, $t, $t, _, _>(lo, hi, |a, b| Cmp::min(&a, b), |x, y, r| r == if x < y { x } else { y }));
    sweep!($c, concat!(stringify!($v), ":max"), 6, |lo, hi| look2::<fv::$v, fv::$v, $t, $t, _, _>(lo, hi, |a, b| Cmp::max(&a, b), |x, y, r| r == if x > y { x } else { y }));
    sweep!($c, concat!(stringify!($v), ":saturating_add"), 6, |lo, hi| look2::<fv::$v, fv::$v, $t, $t, _, _>(lo, hi, |a, b| SaturatingAdd::saturating_add(&a, b),
        |x, y, r| r as i32 == (x as i32 + y as i32).max(std::$t::MIN as i32).min(std::$t::MAX as i32)));
    sweep!($c, concat!(stringify!($v), ":saturating_sub"), 6, |lo, hi| look2::<fv::$v, fv::$v, $t, $t, _, _>(lo, hi, |a, b| SaturatingSub::saturating_sub(&a, b),
        |x, y, r| r as i32 == (x as i32 - y as i32).max(std::$t::MIN as i32).min(std::$t::MAX as i32)));
)* } }

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    if sweeping(cx) {
        sweeps!(cx: u16 u16x8, i16 i16x8, u16 u16x16, i16 i16x16);
        sweep!(cx, "i32x4:abs", 6, |lo, hi| look1::<fv::i32x4, fv::u32x4, i32, u32, _, _>(lo, hi, |v| Abs::abs(&v), |x, r| r as i64 == (x as i64).abs()));
        sweep!(cx, "i32x8:abs", 6, |lo, hi| look1::<fv::i32x8, fv::u32x8, i32, u32, _, _>(lo, hi, |v| Abs::abs(&v), |x, r| r as i64 == (x as i64).abs()));
        c.finish()
    }
    cmps!(cx: u8 u8x16, i8 i8x16, u16 u16x8, i16 i16x8, u32 u32x4, i32 i32x4, u8 u8x32, i8 i8x32, u16 u16x16, i16 i16x16, u32 u32x8, i32 i32x8);
    sats!(cx: u8 u8x16, i8 i8x16, u16 u16x8, i16 i16x8, u8 u8x32, i8 i8x32, u16 u16x16, i16 i16x16);
    abss!(cx: i8 u8 i8x16, i16 u16 i16x8, i32 u32 i32x4, i8 u8 i8x32, i16 u16 i16x16, i32 u32 i32x8, i64 u64 i64x2, i64 u64 i64x4, i64 u64 i64x8);
    c.finish()
}
