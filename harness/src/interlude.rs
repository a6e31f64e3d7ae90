//! What else a closure may do: use the library itself, on the same thread, while it is called by the library.
use super::faster::arch::current::vecs as fv;
use super::faster::iters::SIMDAdapter;
use super::faster::*;
use super::vh::*;

macro_rules! one {
    ($name:ident, $t:ident, $vs:ident) => {
        #[inline(never)]
        fn $name(k: usize) {
            const W: usize = <fv::$vs as Packed>::WIDTH;
            let n = (k / 7) % (2 * W + 4);
            let d: Vec<$t> = (0..n).map(|i| <$t>::ramp(i + k)).collect();
            let dv: Vec<$t> = (0..W).map(|i| <$t>::ramp(i + k + 500)).collect();
            let def: fv::$vs = vec_of(&dv);
            let want = mapf(&d);
            let f = |v: fv::$vs| map_lanes(v, |x| x.f());
            let got: Vec<$t> = match k % 7 {
                0 => (&d[..]).simd_iter(def).simd_map(f).scalar_collect(),
                1 => { let mut b = vec![<$t>::ramp(0); n]; (&d[..]).simd_iter(def).simd_map(f).scalar_fill(&mut b[..]); b }
                2 => { let mut b = d.clone(); (&mut b[..]).simd_iter_mut(def).simd_for_each(|v| *v = f(*v)); b }
                3 => {
                    let mut seen: Vec<Vec<$t>> = Vec::new();
                    let m = (&d[..]).simd_iter(def).simd_reduce(0usize, |m, v| { seen.push(lanes(&f(v))); m + 1 });
                    let pad = m * W - n;
                    if pad > 0 { let l = seen.len() - 1; seen[l].drain(..pad); }
                    flat(&seen)
                }
                4 => SIMDAdapter { iter: d.iter().cloned(), scratch: def, default: def, position: 0 }.simd_map(f).scalar_collect(),
                5 => ((&d[..]).simd_iter(def), (&want[..]).simd_iter(def)).zip().simd_map(|(a, _)| f(a)).scalar_collect(),
                _ => {
                    // Every second element of twice as many; whole groups only
                    let two: Vec<$t> = d.iter().flat_map(|x| vec![x.g(), *x]).collect();
                    let s = &two[..];
                    s.stride_two((def, def)).1.simd_map(f).scalar_collect()
                }
            };
            assert!(bits_eq(&got, &want), "pipeline {} of {} elements in a closure gave {:?} instead of {:?}", k % 7, n, got, want);
        }
    };
}

one!(bytes, u8, u8s);
one!(words, i16, i16s);
one!(longs, u32, u32s);
one!(doubles, f64, f64s);

#[inline(never)]
pub fn run(k: usize) {
    match k % 4 { 0 => bytes(k / 4), 1 => words(k / 4), 2 => longs(k / 4), _ => doubles(k / 4) }
}
