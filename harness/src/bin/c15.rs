//! C15: upcasts and saturating downcasts.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::downcast::Downcast;
use faster::intrin::upcast::Upcast;
use faster::vecs::Packable;
use faster::*;
use vh::*;

#[inline(never)]
fn up<V, W, T, U, F: Fn(T) -> U>(c: &mut Ctx, name: &str, f: F)
    where V: Packed<Scalar = T> + Upcast<W>, W: Packed<Scalar = U>, T: Packable + Elem, U: Packable + Elem {
    let w = V::WIDTH;
    let k = format!("{}:upcast", name);
    let n = c.pick(3000, 200000);
    let mut all: Vec<Vec<T>> = operands::<T>(&mut c.rng, w, n).into_iter().map(|x| x.0).collect();
    if T::BYTES <= 2 {
        let n = 1usize << (8 * T::BYTES);
        let o = c.rng.below(n);
        let v: Vec<T> = (0..n).map(|i| T::from_bits64((i + o) as u64)).collect();
        for ch in v.chunks(w) { all.push(ch.to_vec()); }
    }
    c.same_val(&k, W::WIDTH, w / 2);
    for a in all {
        let v: V = vec_of(&a);
        case!(c, "{:?}.upcast() to {}", v, U::NAME);
        c.distinct(&(T::NAME, U::NAME, w, a[0].bits(), a[w - 1].bits()));
        let want: Vec<U> = a.iter().map(|x| f(*x)).collect();
        if let Some((x, y)) = c.no_panic(&k, || <V as Upcast<W>>::upcast(v)) {
            let ok = c.same(&format!("{}:low", k), &canon(&lanes(&x)), &canon(&want[..w / 2]));
            if !(ok & c.same(&format!("{}:high", k), &canon(&lanes(&y)), &canon(&want[w / 2..]))) { break; }
        }
    }
}

/// One NaN for all: which one a conversion gives is not promised.
#[inline(never)]
fn canon<T: Elem>(x: &[T]) -> Vec<T> {
    x.iter().map(|v| if *v != *v { T::from_bits64(if T::BYTES == 4 { 0x7FC0_0000 } else { 0x7FF8_0000_0000_0000 }) } else { *v }).collect()
}

#[inline(never)]
fn down<V, W, T, U, F: Fn(T) -> U>(c: &mut Ctx, name: &str, f: F)
    where V: Packed<Scalar = T> + Downcast<W>, W: Packed<Scalar = U>, T: Packable + Elem, U: Packable + Elem {
    let w = V::WIDTH;
    let k = format!("{}:saturating_downcast", name);
    let n = c.pick(3000, 200000);
    let mut all = operands::<T>(&mut c.rng, w, n);
    // Values on both sides of the narrower type's limits, and of where the instructions take them for signed
    if !T::FLOAT {
        let half = 8 * U::BYTES;
        for bit in [half, half - 1, 2 * half - 1, 0].iter() {
            for _ in 0..60 {
                let mut near = || T::from_bits64((1u64 << bit).wrapping_add(c.rng.below(9) as u64).wrapping_sub(4));
                let x: Vec<T> = (0..w).map(|_| near()).collect();
                let y: Vec<T> = (0..w).map(|_| T::from_bits64(near().bits().wrapping_neg())).collect();
                all.push((x.clone(), y.clone()));
                all.push((y, x));
            }
        }
        if T::BYTES == 2 {
            for i in 0..65536usize / w {
                let x: Vec<T> = (0..w).map(|l| T::from_bits64((i * w + l) as u64)).collect();
                let y: Vec<T> = (0..w).map(|l| T::from_bits64((i * w + l) as u64 ^ 0x5AA5)).collect();
                all.push((x, y));
            }
        }
    }
    c.same_val(&k, W::WIDTH, w * 2);
    for (a, b) in all {
        let (va, vb): (V, V) = (vec_of(&a), vec_of(&b));
        case!(c, "{:?}.saturating_downcast({:?})", va, vb);
        c.distinct(&(T::NAME, w, a[0].bits(), b[w - 1].bits()));
        let want: Vec<U> = a.iter().chain(&b).map(|x| f(*x)).collect();
        if let Some(r) = c.no_panic(&k, || <V as Downcast<W>>::saturating_downcast(va, vb)) {
            if !c.same(&k, &canon(&lanes(&r)), &canon(&want)) { break; }
        }
    }
}

macro_rules! ups { ($c:ident: $($t:ident $v:ident $u:ident $w:ident),*) => { $( up::<fv::$v, fv::$w, $t, $u, _>($c, concat!(stringify!($v), "->", stringify!($w)), |x| x as $u); )* } }
macro_rules! downs { ($c:ident: $($t:ident $v:ident $u:ident $w:ident),*) => { $( down::<fv::$v, fv::$w, $t, $u, _>($c, concat!(stringify!($v), "->", stringify!($w)), |x| <$u as Int>::clamp(x.wide())); )* } }

/// Every 32-bit lane.
macro_rules! upsweeps { ($c:ident: $($t:ident $v:ident $u:ident $w:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), "->", stringify!($w), ":upcast"), 4, |lo, hi| look1::<fv::$v, [fv::$w; 2], $t, $u, _, _>(lo, hi,
        |v| { let (a, b) = <fv::$v as Upcast<fv::$w>>::upcast(v); [a, b] }, |x, r| r == x as $u || (r != r && x != x)));
)* } }
macro_rules! downsweeps { ($c:ident: $($t:ident $v:ident $u:ident $w:ident),*) => { $(
    // Two vectors are one lane-wise operand of twice the width
    sweep!($c, concat!(stringify!($v), "->", stringify!($w), ":saturating_downcast"), 4, |lo, hi| look1::<[fv::$v; 2], fv::$w, $t, $u, _, _>(lo, hi,
        |v| Downcast::saturating_downcast(v[0], v[1]), |x, r| r as $t == x.max(std::$u::MIN as $t).min(std::$u::MAX as $t)));
)* } }

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    if sweeping(cx) {
        upsweeps!(cx: f32 f32x4 f64 f64x2, i32 i32x4 f64 f64x2, i32 i32x4 i64 i64x2, u32 u32x4 u64 u64x2,
                  f32 f32x8 f64 f64x4, i32 i32x8 f64 f64x4, i32 i32x8 i64 i64x4, u32 u32x8 u64 u64x4,
                  f32 f32x16 f64 f64x8, i32 i32x16 f64 f64x8, i32 i32x16 i64 i64x8, u32 u32x16 u64 u64x8);
        downsweeps!(cx: i32 i32x4 i16 i16x8, u32 u32x4 u16 u16x8, i32 i32x8 i16 i16x16, u32 u32x8 u16 u16x16);
        c.finish()
    }
    ups!(cx: u8 u8x16 u16 u16x8, i8 i8x16 i16 i16x8, u16 u16x8 u32 u32x4, i16 i16x8 i32 i32x4,
         u8 u8x32 u16 u16x16, i8 i8x32 i16 i16x16, u16 u16x16 u32 u32x8, i16 i16x16 i32 i32x8,
         f32 f32x4 f64 f64x2, i32 i32x4 f64 f64x2, i32 i32x4 i64 i64x2, u32 u32x4 u64 u64x2,
         f32 f32x8 f64 f64x4, i32 i32x8 f64 f64x4, i32 i32x8 i64 i64x4, u32 u32x8 u64 u64x4,
         f32 f32x16 f64 f64x8, i32 i32x16 f64 f64x8, i32 i32x16 i64 i64x8, u32 u32x16 u64 u64x8);
    downs!(cx: i32 i32x4 i16 i16x8, i64 i64x2 i32 i32x4, u64 u64x2 u32 u32x4, i16 i16x8 i8 i8x16, u32 u32x4 u16 u16x8, u16 u16x8 u8 u8x16,
           i32 i32x8 i16 i16x16, i64 i64x4 i32 i32x8, u64 u64x4 u32 u32x8, i16 i16x16 i8 i8x32, u32 u32x8 u16 u16x16, u16 u16x16 u8 u8x32);
    down::<fv::f64x2, fv::f32x4, f64, f32, _>(cx, "f64x2->f32x4", |x| x as f32);
    down::<fv::f64x4, fv::f32x8, f64, f32, _>(cx, "f64x4->f32x8", |x| x as f32);
    c.finish()
}
