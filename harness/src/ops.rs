//! Every operation of every vector type, and pipelines over every kind of iterator, handing each result to a
//! sink. The values depend on the seed, the type and the position only, never on the CPU a build is for.
use faster::arch::current::vecs as fv;
use faster::intrin::abs::Abs;
use faster::intrin::cmp::Cmp;
use faster::intrin::destride::Destride;
use faster::intrin::downcast::Downcast;
use faster::intrin::endian::Reendianize;
use faster::intrin::eq::Eq as VEq;
use faster::intrin::hadd::HAdd;
use faster::intrin::hsub::HSub;
use faster::intrin::merge::Merge;
use faster::intrin::popcnt::Popcnt;
use faster::intrin::recip::Recip;
use faster::intrin::round::Round;
use faster::intrin::rsqrt::Rsqrt;
use faster::intrin::saturating_add::SaturatingAdd;
use faster::intrin::saturating_hadd::SaturatingHAdd;
use faster::intrin::saturating_hsub::SaturatingHSub;
use faster::intrin::saturating_sub::SaturatingSub;
use faster::intrin::sqrt::Sqrt;
use faster::intrin::sum::{Sum, UpcastSum};
use faster::intrin::transmute::Transmute;
use faster::intrin::upcast::Upcast;
use faster::*;
use vh::*;

pub trait Sink {
    /// A result; `float` is the lane size of a floating-point result whose NaNs are all alike.
    fn put(&mut self, ty: &'static str, op: &'static str, bytes: &[u8], float: usize);
    /// How many operands for each type, and how many lengths for each pipeline.
    fn rounds(&self) -> usize;
    fn seed(&self) -> u64;
    fn on(&mut self, _ty: &'static str) {}
    /// Whether documented approximations are wanted, too.
    fn approximations(&self) -> bool;
    /// Whether an operation is to be used at all.
    fn wants(&mut self, _ty: &'static str, _op: &'static str) -> bool { true }
    /// The workload prepares its operands: nothing to see.
    fn pause(&mut self, _pause: bool) {}
}

#[inline(always)]
fn put<R: Copy>(s: &mut dyn Sink, ty: &'static str, op: &'static str, r: R, float: usize) {
    let b = unsafe { std::slice::from_raw_parts(&r as *const R as *const u8, std::mem::size_of::<R>()) };
    s.put(ty, op, b, float);
}

#[inline(always)]
fn put2<R: Copy>(s: &mut dyn Sink, ty: &'static str, op: &'static str, r: (R, R), float: usize) {
    put(s, ty, op, r.0, float);
    put(s, ty, op, r.1, float);
}

/// Operands nobody can see through.
#[inline(never)]
fn operand<V: Packed<Scalar = T>, T: Elem + vecs::Packable>(l: &[T]) -> V {
    vec_of(l)
}

fn rng(s: &dyn Sink, ty: &str, n: u64) -> Rng {
    let mut h = s.seed().wrapping_mul(0x1234_5677).wrapping_add(n);
    for b in ty.bytes() { h = h.wrapping_mul(131).wrapping_add(b as u64); }
    Rng::new(h)
}

/// Pairs of operands: edges next to edges, samples.
#[inline(never)]
fn pairs<T: Elem>(s: &dyn Sink, ty: &'static str, w: usize) -> Vec<(Vec<T>, Vec<T>)> {
    let mut r = rng(s, ty, 1);
    let n = s.rounds();
    let mut p = operands::<T>(&mut r, w, n);
    if p.len() > n { let k = r.below(p.len()); p.rotate_left(k); p.truncate(n); }
    p
}

macro_rules! put { ($s:expr, $ty:expr, $op:expr, $r:expr, $f:expr) => { if $s.wants($ty, $op) { let r = $r; put($s, $ty, $op, r, $f) } } }
macro_rules! put2 { ($s:expr, $ty:expr, $op:expr, $r:expr, $f:expr) => { if $s.wants($ty, $op) { let r = $r; put2($s, $ty, $op, r, $f) } } }

macro_rules! per_operands {
    ($s:ident, $t:ident, $v:ident, |$a:ident, $b:ident| $body:block) => {{
        #[inline(never)]
        fn go($s: &mut dyn Sink) {
            const TY: &'static str = stringify!($v);
            $s.on(TY);
            $s.pause(true);
            let all = pairs::<$t>($s, TY, <fv::$v as Packed>::WIDTH);
            $s.pause(false);
            for (x, y) in all {
                #[allow(unused_variables, unused_mut)]
                let (mut $a, mut $b): (fv::$v, fv::$v) = (operand(&x), operand(&y));
                $body
            }
        }
        go($s);
    }};
}

macro_rules! each_type {
    ($s:ident, $t:ident, $v:ident) => {
        per_operands!($s, $t, $v, |a, b| {
            const TY: &'static str = stringify!($v);
            const W: usize = <fv::$v as Packed>::WIDTH;
            const F: usize = if <$t as Elem>::FLOAT { <$t as Elem>::BYTES } else { 0 };
            let (x, y) = (a.extract(0), b.extract(W - 1));
            put!($s, TY, "extract", x, 0);
            put!($s, TY, "splat", fv::$v::splat(y), 0);
            put!($s, TY, "default", <fv::$v as Packed>::default(), 0);
            put!($s, TY, "product", a.product(), F);
            put!($s, TY, "halfs", fv::$v::halfs(x, y), 0);
            put!($s, TY, "interleave", fv::$v::interleave(x, y), 0);
            put!($s, TY, "merge_halves", a.merge_halves(b), 0);
            put!($s, TY, "merge_interleaved", a.merge_interleaved(b), 0);
            let off = (lanes(&b)[0].bits() as usize) % (W + 1);
            put!($s, TY, "partition", fv::$v::partition(x, y, off), 0);
            put!($s, TY, "partition_mask", fv::$v::partition_mask(off), 0);
            put!($s, TY, "merge_partitioned", a.merge_partitioned(b, off), 0);
            put!($s, TY, "merge_partitioned(all)", a.merge_partitioned(b, W), 0);
            put!($s, TY, "replace", a.replace(off % W, y), 0);
            put!($s, TY, "hadd", HAdd::hadd(&a, b), F);
            put!($s, TY, "hsub", HSub::hsub(&a, b), F);
            put!($s, TY, "be_u8s", a.be_u8s(), 0);
            put!($s, TY, "be_i8s", a.be_i8s(), 0);
            put!($s, TY, "be_u16s", a.be_u16s(), 0);
            put!($s, TY, "be_i16s", a.be_i16s(), 0);
            put!($s, TY, "be_u32s", a.be_u32s(), 0);
            put!($s, TY, "be_i32s", a.be_i32s(), 0);
            put!($s, TY, "be_u64s", a.be_u64s(), 0);
            put!($s, TY, "be_i64s", a.be_i64s(), 0);
            put!($s, TY, "highs", fv::$v::ones(), 0);
            put!($s, TY, "lows", fv::$v::zeroes(), 0);
            put!($s, TY, "scalar_reduce", a.scalar_reduce(0u64, |h, v| h.wrapping_mul(31).wrapping_add(v.bits())), 0);
            if $s.approximations() && F != 0 { put!($s, TY, "sum", Sum::sum(&a), F); }
        })
    };
}

macro_rules! each_int {
    ($s:ident, $t:ident, $v:ident) => {
        per_operands!($s, $t, $v, |a, b| {
            const TY: &'static str = stringify!($v);
            put!($s, TY, "saturating_hadd", SaturatingHAdd::saturating_hadd(&a, b), 0);
            put!($s, TY, "saturating_hsub", SaturatingHSub::saturating_hsub(&a, b), 0);
            put!($s, TY, "sum", Sum::sum(&a), 0);
            put!($s, TY, "sum_upcast", UpcastSum::sum_upcast(&a), 0);
            put!($s, TY, "count_ones", Popcnt::count_ones(&a), 0);
            put!($s, TY, "count_zeroes", a.count_zeroes(), 0);
            put!($s, TY, "swap_bytes", Reendianize::swap_bytes(&a), 0);
            put!($s, TY, "to_be", Reendianize::to_be(&a), 0);
            put!($s, TY, "to_le", Reendianize::to_le(&a), 0);
            put!($s, TY, "from_be", Reendianize::from_be(&a), 0);
            put!($s, TY, "from_le", Reendianize::from_le(&a), 0);
        })
    };
}

macro_rules! eqs { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put!($s, stringify!($v), "eq_mask", a.eq_mask(b), 0);
    put!($s, stringify!($v), "ne_mask", a.ne_mask(b), 0);
}); )* } }
macro_rules! cmps { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put!($s, stringify!($v), "min", Cmp::min(&a, b), 0);
    put!($s, stringify!($v), "max", Cmp::max(&a, b), 0);
}); )* } }
/// Numbers only, and one zero: what min and max give otherwise is not promised.
macro_rules! fcmps { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    let fix = |v: fv::$v| map_lanes(v, |x| if x != x { 7.0 } else if x == 0.0 { 0.0 } else { x });
    put!($s, stringify!($v), "min", Cmp::min(&fix(a), fix(b)), 0);
    put!($s, stringify!($v), "max", Cmp::max(&fix(a), fix(b)), 0);
}); )* } }
macro_rules! sats { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put!($s, stringify!($v), "saturating_add", SaturatingAdd::saturating_add(&a, b), 0);
    put!($s, stringify!($v), "saturating_sub", SaturatingSub::saturating_sub(&a, b), 0);
}); )* } }
macro_rules! abss { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put!($s, stringify!($v), "abs", Abs::abs(&a), 0);
}); )* } }
macro_rules! destrides { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put2!($s, stringify!($v), "destride_two", a.destride_two(b), 0);
    put2!($s, stringify!($v), "destride_four", { let (p, q, r, t) = a.destride_four(b, b, a); ((p, q), (r, t)) }, 0);
}); )* } }
macro_rules! ups { ($s:ident: $($t:ident $v:ident $w:ident $f:expr),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put2!($s, concat!(stringify!($v), "->", stringify!($w)), "upcast", <fv::$v as Upcast<fv::$w>>::upcast(a), $f);
}); )* } }
macro_rules! downs { ($s:ident: $($t:ident $v:ident $w:ident $f:expr),*) => { $( per_operands!($s, $t, $v, |a, b| {
    put!($s, concat!(stringify!($v), "->", stringify!($w)), "saturating_downcast", <fv::$v as Downcast<fv::$w>>::saturating_downcast(a, b), $f);
}); )* } }
macro_rules! floats { ($s:ident: $($t:ident $v:ident),*) => { $( per_operands!($s, $t, $v, |a, b| {
    const TY: &'static str = stringify!($v);
    const F: usize = <$t as Elem>::BYTES;
    // The sign of a zero a fraction rounds to is not promised, nor the direction at a tie
    let plus = |v: fv::$v| map_lanes(v, |x| if x == 0.0 { 0.0 } else { x });
    put!($s, TY, "abs", Abs::abs(&a), F);
    put!($s, TY, "sqrt", Sqrt::sqrt(&a), F);
    put!($s, TY, "floor", plus(Round::floor(&a)), F);
    put!($s, TY, "ceil", plus(Round::ceil(&a)), F);
    put!($s, TY, "trunc", plus(Round::trunc(&a)), F);
    put!($s, TY, "round", plus(Round::round(&map_lanes(a, |x| if (x - x.trunc()).abs() == 0.5 { x + 0.25 } else { x }))), F);
    if $s.approximations() { put!($s, TY, "sum_upcast", UpcastSum::sum_upcast(&a), 8); }
}); )* } }
macro_rules! estimates { ($s:ident: $($v:ident),*) => { $( per_operands!($s, f32, $v, |a, b| {
    put!($s, stringify!($v), "recip", Recip::recip(&a), 4);
    put!($s, stringify!($v), "rsqrt", Rsqrt::rsqrt(&a), 4);
}); )* } }

/// Pipelines whose closures work lane by lane.
macro_rules! pipelines {
    ($s:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go(s: &mut dyn Sink) {
            const TY: &'static str = stringify!($t);
            s.on(TY);
            if !s.wants(TY, "pipelines") { return; }
            let mut r = rng(s, TY, 2);
            let f = |v: fv::$vs| map_lanes(v, |x| x.f());
            let h = |v: fv::$vs, u: fv::$vs| { let (a, b) = (lanes(&v), lanes(&u)); let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect(); operand::<fv::$vs, $t>(&l) };
            for i in 0..s.rounds() {
                let n = if i < 70 { i * 2 + i % 2 } else { r.below(400) };
                let d: Vec<$t> = data(&mut r, n);
                let e: Vec<$t> = data(&mut r, n);
                let def = fv::$vs::splat(<$t>::rand(&mut r));
                let k = r.below(n + 1);
                let mut log = |s: &mut dyn Sink, op: &'static str, g: &[$t]| {
                    let b = unsafe { std::slice::from_raw_parts(g.as_ptr() as *const u8, g.len() * std::mem::size_of::<$t>()) };
                    s.put(TY, op, b, 0);
                };
                log(s, "collect", &(&d[..]).simd_iter(def).scalar_collect());
                log(s, "map-collect", &(&d[..]).simd_iter(def).simd_map(f).scalar_collect());
                log(s, "vec-map-collect", &d.clone().into_simd_iter(def).simd_map(f).simd_map(f).scalar_collect());
                let mut b = e.clone();
                (&d[..]).simd_iter(def).simd_map(f).scalar_fill(&mut b[..]);
                log(s, "fill", &b);
                let mut b = d.clone();
                { let m = &mut b[..]; let mut it = m.simd_iter_mut(def); it.advance(k); it.simd_for_each(|v| *v = f(*v)); }
                log(s, "for-each", &b);
                log(s, "zip-collect", &((&d[..]).simd_iter(def), (&e[..]).simd_iter(def)).zip().simd_map(|(a, b)| h(a, b)).scalar_collect());
                let mut it = (&d[..]).simd_iter(def);
                it.advance(k);
                log(s, "advance-collect", &it.scalar_collect());
                let base = &d[..];
                let (mut p, mut q) = base.stride_two((def, def));
                log(s, "stride-collect", &p.scalar_collect());
                log(s, "stride-collect", &q.scalar_collect());
                let mut st = base.stride(5, &[def; 5]);
                log(s, "stride-five-collect", &st[3].scalar_collect());
                let u: Vec<$t> = (&d[..]).simd_iter(def).unpack().collect();
                log(s, "unpack", &u);
                let mut a = SIMDAdapter { iter: d.iter().cloned(), scratch: def, default: def, position: 0 };
                log(s, "adapter-collect", &a.scalar_collect());
            }
        }
        go($s);
    }};
}

macro_rules! pair_pipelines {
    ($s:ident: $($t:ident $vs:ident),*) => { $( {
        #[inline(never)]
        fn go(s: &mut dyn Sink) {
            s.on(stringify!($t));
            if !s.wants(stringify!($t), "pair pipelines") { return; }
            let mut r = rng(s, stringify!($t), 3);
            for i in 0..s.rounds() {
                let n = if i < 70 { i * 2 + i % 2 } else { r.below(400) };
                let d: Vec<$t> = data(&mut r, n);
                let def = fv::$vs::splat(<$t>::rand(&mut r));
                let g = (&d[..]).simd_iter(def).stride_zip().simd_map(|(a, b)| { let (a, b) = (lanes(&a), lanes(&b)); let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect(); operand::<fv::$vs, $t>(&l) }).scalar_collect();
                let b = unsafe { std::slice::from_raw_parts(g.as_ptr() as *const u8, g.len() * std::mem::size_of::<$t>()) };
                s.put(stringify!($t), "stride-zip-collect", b, 0);
            }
        }
        go($s);
    } )* };
}

pub fn vectors(s: &mut dyn Sink) {
    all_vectors!(each_type, s);
    int_vectors!(each_int, s);
    eqs!(s: u8 u8x16, i8 i8x16, u16 u16x8, i16 i16x8, u32 u32x4, i32 i32x4, f32 f32x4, u64 u64x2, i64 i64x2, f64 f64x2,
         u8 u8x32, i8 i8x32, u16 u16x16, i16 i16x16, u32 u32x8, i32 i32x8, f32 f32x8, u64 u64x4, i64 i64x4, f64 f64x4);
    cmps!(s: u8 u8x16, i8 i8x16, u16 u16x8, i16 i16x8, u32 u32x4, i32 i32x4, u8 u8x32, i8 i8x32, u16 u16x16, i16 i16x16, u32 u32x8, i32 i32x8);
    fcmps!(s: f32 f32x4, f64 f64x2, f32 f32x8, f64 f64x4);
    sats!(s: u8 u8x16, i8 i8x16, u16 u16x8, i16 i16x8, u8 u8x32, i8 i8x32, u16 u16x16, i16 i16x16);
    abss!(s: i8 i8x16, i16 i16x8, i32 i32x4, i8 i8x32, i16 i16x16, i32 i32x8, i64 i64x2, i64 i64x4, i64 i64x8);
    destrides!(s: u8 u8x16, u8 u8x32, i8 i8x16, i8 i8x32, u16 u16x8, u16 u16x16, i16 i16x8, i16 i16x16, u32 u32x4, u32 u32x8, i32 i32x4, i32 i32x8);
    ups!(s: u8 u8x16 u16x8 0, i8 i8x16 i16x8 0, u16 u16x8 u32x4 0, i16 i16x8 i32x4 0, u8 u8x32 u16x16 0, i8 i8x32 i16x16 0,
         u16 u16x16 u32x8 0, i16 i16x16 i32x8 0, f32 f32x4 f64x2 8, i32 i32x4 f64x2 8, i32 i32x4 i64x2 0, u32 u32x4 u64x2 0,
         f32 f32x8 f64x4 8, i32 i32x8 f64x4 8, i32 i32x8 i64x4 0, u32 u32x8 u64x4 0,
         f32 f32x16 f64x8 8, i32 i32x16 f64x8 8, i32 i32x16 i64x8 0, u32 u32x16 u64x8 0);
    downs!(s: i32 i32x4 i16x8 0, i64 i64x2 i32x4 0, u64 u64x2 u32x4 0, i16 i16x8 i8x16 0, u32 u32x4 u16x8 0, u16 u16x8 u8x16 0,
           i32 i32x8 i16x16 0, i64 i64x4 i32x8 0, u64 u64x4 u32x8 0, i16 i16x16 i8x32 0, u32 u32x8 u16x16 0, u16 u16x16 u8x32 0,
           f64 f64x2 f32x4 4, f64 f64x4 f32x8 4);
    floats!(s: f32 f32x4, f64 f64x2, f32 f32x8, f64 f64x4);
    if s.approximations() { estimates!(s: f32x4, f32x8); }
}

pub fn iterators(s: &mut dyn Sink) {
    natural_types!(pipelines, s);
    pair_pipelines!(s: u8 u8s, i8 i8s, u16 u16s, i16 i16s, u32 u32s, i32 i32s);
}
