//! The element model: every scalar the library packs, as a bag of bits.
use crate::Rng;
use std::fmt::Debug;

pub trait Elem: Copy + PartialEq + Debug + 'static {
    const NAME: &'static str;
    const BYTES: usize;
    const FLOAT: bool;
    fn from_bits64(b: u64) -> Self;
    fn bits(self) -> u64;
    /// Values at the edges of the type.
    fn edges() -> Vec<Self>;
    fn rand(r: &mut Rng) -> Self {
        if r.chance(5) {
            let e = Self::edges();
            e[r.below(e.len())]
        } else {
            Self::from_bits64(r.next())
        }
    }
    /// The i'th of a sequence of recognisable values.
    fn ramp(i: usize) -> Self {
        Self::from_bits64((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15 | 1).wrapping_add(0x0123_4567_89AB_CDEF) >> (64 - 8 * Self::BYTES as u32).min(63))
    }
    /// A bijection on the bits of the type: the scalar function the pipelines apply.
    fn f(self) -> Self {
        Self::from_bits64(self.bits().wrapping_mul(0x2F6E_2B1D).wrapping_add(0x5B))
    }
    /// Another one.
    fn g(self) -> Self {
        Self::from_bits64((self.bits() ^ 0x6C62_272E_07BB_0142).wrapping_mul(0x85EB_CA6B).wrapping_add(0x11))
    }
    /// Combine two.
    fn h2(self, o: Self) -> Self {
        Self::from_bits64(self.bits().wrapping_mul(3).wrapping_add(o.bits().wrapping_mul(0x1F)))
    }
    fn eq_bits(self, o: Self) -> bool {
        self.bits() == o.bits()
    }
}

macro_rules! int_elem {
    ($($t:ident $u:ident $n:expr),*) => { $(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const BYTES: usize = $n;
            const FLOAT: bool = false;
            #[inline]
            fn from_bits64(b: u64) -> Self { b as $u as $t }
            #[inline]
            fn bits(self) -> u64 { self as $u as u64 }
            fn edges() -> Vec<Self> {
                let h = (1 as $u) << ($n * 8 - 1);
                let q = (1 as $u) << ($n * 4 - 1);
                let mut v = Vec::new();
                for b in [0 as $u, h, q, q.wrapping_mul(2), h >> 1, 0x55 as $u].iter() {
                    for d in [0 as $u, 1, 2].iter() {
                        v.push(b.wrapping_add(*d) as $t);
                        v.push(b.wrapping_sub(*d) as $t);
                    }
                }
                v
            }
        } )*
    };
}
int_elem!(u8 u8 1, i8 u8 1, u16 u16 2, i16 u16 2, u32 u32 4, i32 u32 4, u64 u64 8, i64 u64 8);

impl Elem for f32 {
    const NAME: &'static str = "f32";
    const BYTES: usize = 4;
    const FLOAT: bool = true;
    #[inline]
    fn from_bits64(b: u64) -> Self { f32::from_bits(b as u32) }
    #[inline]
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn edges() -> Vec<Self> {
        let mut v = Vec::new();
        for x in [0.0f32, 1.0, 0.5, 1.5, 2.5, 3.0, 0.49999997, 8388607.5, 8388608.0, 16777216.0, 4194303.75, 1e-38, 1.1754944e-38,
                  1e-45, 3.4028235e38, 2147483648.0, 9.2233720e18, 1e10, 0.99999994, 1.0000001, std::f32::INFINITY].iter() {
            v.push(*x);
            v.push(-*x);
        }
        v.push(std::f32::NAN);
        v
    }
}

impl Elem for f64 {
    const NAME: &'static str = "f64";
    const BYTES: usize = 8;
    const FLOAT: bool = true;
    #[inline]
    fn from_bits64(b: u64) -> Self { f64::from_bits(b) }
    #[inline]
    fn bits(self) -> u64 { self.to_bits() }
    fn edges() -> Vec<Self> {
        let mut v = Vec::new();
        for x in [0.0f64, 1.0, 0.5, 1.5, 2.5, 3.0, 0.49999999999999994, 4503599627370495.5, 4503599627370496.0, 9007199254740992.0,
                  2251799813685247.75, 1e-308, 2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 2147483648.0, 1e10,
                  0.9999999999999999, 1.0000000000000002, std::f64::INFINITY].iter() {
            v.push(*x);
            v.push(-*x);
        }
        v.push(std::f64::NAN);
        v
    }
}

/// `n` values for an input buffer: recognisable, mostly distinct, and now and then all the same or
/// of two values.
#[inline(never)]
pub fn data<T: Elem>(r: &mut Rng, n: usize) -> Vec<T> {
    let style = r.below(9) / 2;
    let base = r.below(1000);
    if style == 4 {
        let zero = T::from_bits64(0);
        let a = if r.chance(2) { zero } else { T::from_bits64(r.next()) };
        let b = if r.chance(2) { a } else { T::rand(r) };
        return (0..n).map(|_| if r.chance(2) { a } else { b }).collect();
    }
    (0..n).map(|i| match style {
        0 => T::ramp(base + i),
        1 => T::rand(r),
        _ => T::from_bits64(r.next()),
    }).collect()
}

/// Integers, with exact arithmetic on the side.
pub trait Int: Elem {
    fn wide(self) -> i128;
    fn wrap(x: i128) -> Self;
    fn clamp(x: i128) -> Self;
    const LO: i128;
    const HI: i128;
}

macro_rules! int_wide {
    ($($t:ident)*) => { $(
        impl Int for $t {
            #[inline]
            fn wide(self) -> i128 { self as i128 }
            #[inline]
            fn wrap(x: i128) -> Self { x as $t }
            #[inline]
            fn clamp(x: i128) -> Self {
                if x < Self::LO { Self::LO as $t } else if x > Self::HI { Self::HI as $t } else { x as $t }
            }
            const LO: i128 = std::$t::MIN as i128;
            const HI: i128 = std::$t::MAX as i128;
        } )*
    };
}
int_wide!(u8 i8 u16 i16 u32 i32 u64 i64);

/// Operand lists which put every edge of a type next to every other one, in every lane: `n` vectors of
/// width `w` for each of two operands.
#[inline(never)]
pub fn operands<T: Elem>(r: &mut Rng, w: usize, n: usize) -> Vec<(Vec<T>, Vec<T>)> {
    let e = T::edges();
    let mut out = Vec::new();
    // All pairs of edges, shifted so that they do not always meet in the same lane
    let mut a = Vec::new();
    let mut b = Vec::new();
    for x in e.iter() {
        for y in e.iter() {
            a.push(*x);
            b.push(*y);
        }
    }
    for shift in 0..w.min(3) {
        let k = r.below(a.len());
        let _ = shift;
        a.rotate_left(k);
        b.rotate_left(k);
        for (x, y) in a.chunks(w).zip(b.chunks(w)) {
            if x.len() == w { out.push((x.to_vec(), y.to_vec())); }
        }
    }
    for i in 0..n {
        let mut x: Vec<T> = (0..w).map(|_| T::rand(r)).collect();
        let mut y: Vec<T> = (0..w).map(|_| T::rand(r)).collect();
        match i % 5 {
            // One lane stands out
            0 => {
                let c = T::rand(r);
                for v in x.iter_mut() { *v = c; }
                let k = r.below(w);
                x[k] = T::rand(r);
            }
            // Mostly equal operands
            1 => {
                for (v, u) in y.iter_mut().zip(&x) { if !r.chance(4) { *v = *u; } }
            }
            // Operands differing in one bit
            2 => {
                for (v, u) in y.iter_mut().zip(&x) {
                    *v = T::from_bits64(u.bits() ^ 1u64 << r.below(8 * T::BYTES));
                }
            }
            // Sums close to the edges
            3 => {
                for (v, u) in y.iter_mut().zip(&x) {
                    let d = (r.below(5) as u64).wrapping_sub(2);
                    *v = T::from_bits64((!u.bits()).wrapping_add(d));
                }
            }
            _ => {}
        }
        out.push((x, y));
    }
    out
}

/// The bytes of anything, as they lie in memory.
#[inline(never)]
pub fn raw<X: Copy>(x: &X) -> Vec<u8> {
    let n = std::mem::size_of::<X>();
    let p = x as *const X as *const u8;
    (0..n).map(|i| unsafe { *p.add(i) }).collect()
}
