//! C16: byte order and reinterpretation.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::endian::Reendianize;
use faster::intrin::transmute::Transmute;
use faster::vecs::Packable;
use faster::*;
use vh::*;

#[inline(never)]
fn inputs<T: Elem>(c: &mut Ctx, w: usize) -> Vec<Vec<T>> {
    let n = c.pick(1500, 60000);
    let mut all: Vec<Vec<T>> = operands::<T>(&mut c.rng, w, n).into_iter().map(|x| x.0).collect();
    // Every byte alone
    for b in 0..w * T::BYTES {
        let mut v = vec![T::from_bits64(0); w];
        v[b / T::BYTES] = T::from_bits64(0xA5u64 << (8 * (b % T::BYTES)));
        all.push(v);
    }
    all
}

#[inline(never)]
fn endian<V: Packed<Scalar = T> + Reendianize, T: Packable + Int>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    for a in inputs::<T>(c, w) {
        let v: V = vec_of(&a);
        case!(c, "{:?}.swap_bytes()", v);
        c.distinct(&(T::NAME, w, a[0].bits(), a[w - 1].bits()));
        let sw: Vec<T> = a.iter().map(|x| T::from_bits64(x.bits().swap_bytes() >> (64 - 8 * T::BYTES))).collect();
        let (be, le) = if cfg!(target_endian = "little") { (&sw, &a) } else { (&a, &sw) };
        let k = format!("{}:swap_bytes", name);
        if let Some(r) = c.no_panic(&k, || Reendianize::swap_bytes(&v)) { if !c.same(&k, &lanes(&r), &sw) { break; } }
        let k = format!("{}:to_be", name);
        if let Some(r) = c.no_panic(&k, || Reendianize::to_be(&v)) { c.same(&k, &lanes(&r), be); }
        let k = format!("{}:to_le", name);
        if let Some(r) = c.no_panic(&k, || Reendianize::to_le(&v)) { c.same(&k, &lanes(&r), le); }
        let k = format!("{}:from_be", name);
        if let Some(r) = c.no_panic(&k, || Reendianize::from_be(&v)) { c.same(&k, &lanes(&r), be); }
        let k = format!("{}:from_le", name);
        if let Some(r) = c.no_panic(&k, || Reendianize::from_le(&v)) { c.same(&k, &lanes(&r), le); }
        let k = format!("{}:round-trip", name);
        if let Some(r) = c.no_panic(&k, || Reendianize::from_be(&Reendianize::to_be(&v))) { c.same(&k, &lanes(&r), &a); }
        if let Some(r) = c.no_panic(&k, || Reendianize::from_le(&Reendianize::to_le(&v))) { c.same(&k, &lanes(&r), &a); }
    }
}

#[inline(never)]
fn moved<V: Copy, R: Packed>(c: &mut Ctx, name: &str, op: &str, v: &V, f: impl FnOnce(&V) -> R, elem: (&str, usize), got: &str) {
    let k = format!("{}:{}", name, op);
    c.same_val(&k, (got, std::mem::size_of::<R>() / R::WIDTH), elem);
    if let Some(r) = c.no_panic(&k, || f(v)) { c.same(&k, &raw(&r), &raw(v)); }
}

fn scalar_name<R: Packed<Scalar = T>, T: Elem + Packable>(_: &R) -> &'static str { T::NAME }

macro_rules! transmutes {
    ($c:ident, $t:ident, $v:ident) => {{
        #[inline(never)]
        fn go(c: &mut Ctx) {
            let name = stringify!($v);
            for a in inputs::<$t>(c, <fv::$v as Packed>::WIDTH) {
                let v: fv::$v = vec_of(&a);
                case!(c, "{:?} reinterpreted", v);
                c.distinct(&(name, a[0].bits(), "transmute"));
                moved(c, name, "be_u8s", &v, |v| v.be_u8s(), ("u8", 1), scalar_name(&v.be_u8s()));
                moved(c, name, "be_i8s", &v, |v| v.be_i8s(), ("i8", 1), scalar_name(&v.be_i8s()));
                moved(c, name, "be_u16s", &v, |v| v.be_u16s(), ("u16", 2), scalar_name(&v.be_u16s()));
                moved(c, name, "be_i16s", &v, |v| v.be_i16s(), ("i16", 2), scalar_name(&v.be_i16s()));
                moved(c, name, "be_u32s", &v, |v| v.be_u32s(), ("u32", 4), scalar_name(&v.be_u32s()));
                moved(c, name, "be_i32s", &v, |v| v.be_i32s(), ("i32", 4), scalar_name(&v.be_i32s()));
                moved(c, name, "be_u64s", &v, |v| v.be_u64s(), ("u64", 8), scalar_name(&v.be_u64s()));
                moved(c, name, "be_i64s", &v, |v| v.be_i64s(), ("i64", 8), scalar_name(&v.be_i64s()));
                unsafe {
                    moved(c, name, "be_f32s_unchecked", &v, |v| v.be_f32s_unchecked(), ("f32", 4), scalar_name(&v.be_f32s_unchecked()));
                    moved(c, name, "be_f64s_unchecked", &v, |v| v.be_f64s_unchecked(), ("f64", 8), scalar_name(&v.be_f64s_unchecked()));
                }
            }
        }
        go($c);
    }};
}
macro_rules! endians { ($c:ident, $t:ident, $v:ident) => { endian::<fv::$v, $t>($c, stringify!($v)); } }

/// Every 32-bit lane.
macro_rules! sweeps { ($c:ident: $($t:ident $v:ident),*) => { $(
    sweep!($c, concat!(stringify!($v), ":swap_bytes"), 8, |lo, hi| look1::<fv::$v, fv::$v, $t, $t, _, _>(lo, hi, |a| Reendianize::swap_bytes(&a), |x, r| r == x.swap_bytes()));
)* } }

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    if sweeping(cx) {
        sweeps!(cx: u32 u32x4, i32 i32x4, u32 u32x8, i32 i32x8, u32 u32x16, i32 i32x16);
        c.finish()
    }
    int_vectors!(endians, cx);
    all_vectors!(transmutes, cx);
    c.finish()
}
