//! C14: equality masks.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::eq::Eq as VEq;
use faster::vecs::Packable;
use faster::*;
use vh::*;

#[inline(never)]
fn masks<V: Packed<Scalar = T> + VEq, T: Packable + Elem>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    let n = c.pick(4000, 300000);
    let mut ops = operands::<T>(&mut c.rng, w, n);
    // Lanes that differ in exactly one bit, each bit and each lane
    for b in 0..8 * T::BYTES {
        for l in 0..w {
            let x: Vec<T> = (0..w).map(|_| T::rand(&mut c.rng)).collect();
            let mut y = x.clone();
            y[l] = T::from_bits64(y[l].bits() ^ 1u64 << b);
            ops.push((x, y));
        }
    }
    for (a, b) in ops {
        let (va, vb): (V, V) = (vec_of(&a), vec_of(&b));
        case!(c, "{:?}.eq_mask({:?})", va, vb);
        let eq: Vec<bool> = a.iter().zip(&b).map(|(x, y)| *x == *y).collect();
        c.distinct(&(T::NAME, w, a[0].bits(), b[w - 1].bits(), &eq));
        let want: Vec<u8> = eq.iter().flat_map(|e| vec![if *e { 0xFFu8 } else { 0 }; T::BYTES]).collect();
        let k = format!("{}:eq_mask", name);
        if let Some(r) = c.no_panic(&k, || va.eq_mask(vb)) { if !c.same(&k, &raw(&r), &want) { break; } }
        let want: Vec<u8> = want.iter().map(|b| !b).collect();
        let k = format!("{}:ne_mask", name);
        if let Some(r) = c.no_panic(&k, || va.ne_mask(vb)) { if !c.same(&k, &raw(&r), &want) { break; } }
    }
}

macro_rules! types { ($c:ident: $($t:ident $v:ident),*) => { $( masks::<fv::$v, $t>($c, stringify!($v)); )* } }

/// Every pair of 16-bit lanes; every 32-bit lane against itself and against another.
macro_rules! sweeps { ($c:ident: $($t:ident $v:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), ":eq_mask"), 6, |lo, hi| look2::<fv::$v, _, $t, u16, _, _>(lo, hi, |a, b| a.eq_mask(b), |x, y, r| r == if x == y { 0xFFFF } else { 0 }));
    sweep!($c, concat!(stringify!($v), ":ne_mask"), 6, |lo, hi| look2::<fv::$v, _, $t, u16, _, _>(lo, hi, |a, b| a.ne_mask(b), |x, y, r| r == if x == y { 0 } else { 0xFFFF }));
)* } }
macro_rules! sweeps32 { ($c:ident: $($t:ident $v:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), ":eq_mask-self"), 6, |lo, hi| look1::<fv::$v, _, $t, u32, _, _>(lo, hi, |a| a.eq_mask(a), |x, r| r == if x == x { !0 } else { 0 }));
    sweep!($c, concat!(stringify!($v), ":ne_mask-self"), 6, |lo, hi| look1::<fv::$v, _, $t, u32, _, _>(lo, hi, |a| a.ne_mask(a), |x, r| r == if x == x { 0 } else { !0 }));
    // Against itself with one bit changed, which one depends on the value
    sweep!($c, concat!(stringify!($v), ":eq_mask-bit"), 6, |lo, hi| look1::<fv::$v, _, $t, u32, _, _>(lo, hi,
        |a| { let b: fv::$v = other(&a); a.eq_mask(b) },
        |x, r| r == if x == <$t>::from_bits64(changed(x.bits() as u32) as u64) { !0 } else { 0 }));
)* } }
#[inline(always)]
fn changed(x: u32) -> u32 { x ^ 1u32 << (x.wrapping_mul(0x85EB_CA6B) >> 27) }
#[inline(always)]
fn other<V: Copy>(a: &V) -> V {
    let mut b = *a;
    let p = &mut b as *mut V as *mut u32;
    for l in 0..std::mem::size_of::<V>() / 4 { unsafe { *p.add(l) = changed(*p.add(l)); } }
    b
}

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    if sweeping(cx) {
        sweeps!(cx: u16 u16x8, i16 i16x8, u16 u16x16, i16 i16x16);
        sweeps32!(cx: u32 u32x4, i32 i32x4, f32 f32x4, u32 u32x8, i32 i32x8, f32 f32x8);
        c.finish()
    }
    types!(cx: u8 u8x16, i8 i8x16, u16 u16x8, i16 i16x8, u32 u32x4, i32 i32x4, f32 f32x4, u64 u64x2, i64 i64x2, f64 f64x2,
           u8 u8x32, i8 i8x32, u16 u16x16, i16 i16x16, u32 u32x8, i32 i32x8, f32 f32x8, u64 u64x4, i64 i64x4, f64 f64x4);
    c.finish()
}
