//! C09: safe calls never touch memory outside the given slices, nor hand out memory nobody wrote.
//! Every input lies between inaccessible pages and is read-only; every byte of every input and default is
//! below 0x80, every byte around them and every byte of fresh memory above: what the library returns is
//! looked at byte by byte.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::*;
use faster::vecs::Packable;
use vh::*;

const TAG: u64 = 0x7f7f_7f7f_7f7f_7f7f;

fn tagged<T: Elem>(r: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::from_bits64(r.next() & TAG)).collect()
}

fn flip<T: Elem>(x: T) -> T {
    T::from_bits64(x.bits() ^ 0x2a2a_2a2a_2a2a_2a2a)
}

/// Everything here came from the inputs.
#[inline(never)]
fn clean<T: Elem>(x: &[T]) -> bool {
    let mut ok = true;
    for v in x { if v.bits() & !TAG != 0 { ok = false; } }
    ok
}

#[inline(never)]
fn look<T: Elem>(c: &mut Ctx, key: &str, what: &str, x: &[T]) {
    c.eval(1);
    c.count("elements_observed", x.len() as u64);
    if !clean(x) { c.fail(&format!("{}:foreign", key), format!("{} returned {:?}", what, x)); }
}

/// Counts and offsets a caller should not use, and some he may.
fn hostile(r: &mut Rng, n: usize, w: usize) -> usize {
    let m = std::usize::MAX;
    match r.below(16) {
        0 => 0,
        1 => 1,
        2 => w,
        3 => n,
        4 => n + 1,
        5 => n.saturating_sub(w),
        6 => m,
        7 => m - r.below(2 * w + 2),
        8 => m / 2 + 1 - r.below(3),
        9 => m - n,
        10 => (m - n).wrapping_add(1),
        11 => (m / w).wrapping_add(r.below(3)),
        12 => (1usize << 63).wrapping_add(r.below(w)),
        _ => r.below(n + w + 1),
    }
}

/// One of the two outcomes a call may have.
macro_rules! attempt {
    ($c:expr, $f:expr) => {{
        match $c.guarded($f) {
            Ok(x) => { $c.count("calls_returned", 1); Some(x) }
            Err(_) => { $c.count("calls_panicked", 1); None }
        }
    }};
}

/// Fill a buffer which may be too small.
struct Target<T: Copy>(Guarded<T>, bool);

/// Anything that iterates: every call, at any time.
#[inline(never)]
fn any<I, V, T>(c: &mut Ctx, key: &str, mut it: I, n: usize, steps: usize)
    where I: SIMDIterator<Scalar = T, Vector = V>, V: Packed<Scalar = T>, T: Packable + Elem {
        let w = V::WIDTH;
        let mut log = String::new();
        for _ in 0..steps {
            let op = c.rng.below(15);
            let k = hostile(&mut c.rng, n, w);
            let (amt, chunks) = (c.rng.below(10), c.rng.below(4));
            let name = ["next", "next", "end", "advance", "finalize", "scalar_pos", "vector_pos", "lengths", "default", "unroll", "do_each", "reduce", "collect", "collect_all", "fill"][op];
            log.push_str(name);
            log.push(' ');
            if op == 3 { log.push_str(&format!("({}) ", k)); }
            case!(c, "{} len={} {}", key, n, log);
            let mut to = target(c, op == 14, n, w);
            let mut got: Vec<T> = Vec::new();
            attempt!(c, || match op {
                0 | 1 => if let Some(v) = it.next() { got.extend(lanes(&v)) },
                2 => if let Some((v, _)) = it.end() { got.extend(lanes(&v)) },
                3 => it.advance(k),
                4 => it.finalize(),
                5 => { it.scalar_pos(); }
                6 => { it.vector_pos(); }
                7 => { let _ = (it.scalar_len(), it.vector_len(), it.len(), it.width(), it.size()); }
                8 => got.extend(lanes(&it.default())),
                9 => {
                    let mut u = it.unroll(amt);
                    for _ in 0..chunks {
                        if let Some(ch) = u.next() { for v in ch { got.extend(lanes(v)); } }
                    }
                    let _ = (u.chunk_len(), u.chunk_pos());
                }
                10 => it.simd_do_each(|v| got.extend(lanes(&v))),
                11 => { it.simd_reduce(0usize, |k, v| { got.extend(lanes(&v)); k.wrapping_add(1) }); }
                12 => got.extend(it.scalar_collect()),
                13 => got.extend(it.scalar_collect_all()),
                _ => if to.1 { it.scalar_fill(&mut to.0[..]); } else { it.scalar_fill_all(&mut to.0[..]); },
            });
            look(c, key, name, &got);
            filled(c, key, &to);
            c.count("steps", 1);
        }
    }

#[inline(never)]
fn target<T: Elem>(c: &mut Ctx, used: bool, n: usize, w: usize) -> Target<T> {
    let m = match c.rng.below(5) { _ if !used => 0, 0 => 0, 1 => c.rng.below(w), 2 => n, 3 => (n / w).saturating_add(1) * w, _ => c.rng.below(n + w + 1) };
    let before: Vec<T> = tagged(&mut c.rng, m);
    Target(Guarded::new(&before, !c.rng.chance(3)), c.rng.chance(2))
}

#[inline(never)]
fn filled<T: Elem>(c: &mut Ctx, key: &str, b: &Target<T>) {
    if b.0.len() > 0 { look(c, key, "the filled buffer", &b.0); }
    if b.0.damage() != 0 { c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", b.0.damage())); }
}

/// Iterators over random-access data: loads at any offset, scalars, packing, clones.
#[inline(never)]
fn array<I, V, T>(c: &mut Ctx, key: &str, it: I, n: usize, steps: usize) -> I
    where I: SIMDIterator<Scalar = T, Vector = V> + SIMDArray + Clone, V: Packed<Scalar = T>, T: Packable + Elem {
        let w = V::WIDTH;
        let mut log = String::new();
        let mut it = Some(it);
        for _ in 0..steps {
            let op = c.rng.below(6);
            let k = hostile(&mut c.rng, n, w);
            let name = ["load", "load_scalar", "unpack", "next", "advance", "fork"][op];
            log.push_str(&format!("{}({}) ", name, k));
            case!(c, "{} len={} {}", key, n, log);
            let mut got: Vec<T> = Vec::new();
            if op == 5 {
                let key = format!("{}:fork", key);
                any(c, &key, it.clone().unwrap(), n, k % 5);
                continue;
            }
            attempt!(c, || match op {
                0 => got.extend(lanes(&it.as_ref().unwrap().load(k))),
                1 => got.push(it.as_ref().unwrap().load_scalar(k)),
                2 => {
                    let mut u = it.clone().unwrap().unpack();
                    for _ in 0..k.min(40) { if let Some(x) = u.next() { got.push(x); } }
                    it = Some(u.pack());
                }
                3 => if let Some(v) = it.as_mut().unwrap().next() { got.extend(lanes(&v)) },
                _ => it.as_mut().unwrap().advance(k),
            });
            look(c, key, name, &got);
            c.count("steps", 1);
        }
        let steps = c.rng.below(6);
        any(c, key, it.clone().unwrap(), n, steps);
        it.unwrap()
    }

/// Strides of it, and maps of it.
#[inline(never)]
fn derived<I, V, T>(c: &mut Ctx, key: &str, it: I, n: usize)
    where I: SIMDIterator<Scalar = T, Vector = V> + SIMDArray + Clone, V: Packed<Scalar = T>, T: Packable + Elem {
        let k = c.rng.range(0, 9);
        let dv: Vec<T> = tagged(&mut c.rng, V::WIDTH);
        let def: V = vec_of(&dv);
        let m = if c.rng.chance(4) { c.rng.range(0, 9) } else { k };
        let steps = c.rng.below(6);
        case!(c, "{} len={} stride({}) with {} defaults", key, n, k, m);
        let s = attempt!(c, || it.stride(k, &vec![def; m]));
        if let Some(s) = s {
            if k != m { c.fail(&format!("{}:stride-defaults", key), format!("stride({}) accepted {} defaults", k, m)); }
            if !s.is_empty() {
                let i = c.rng.below(s.len());
                let key = format!("{}:stride({})[{}]", key.split(':').next().unwrap(), k, i);
                any(c, &key, s[i].clone(), n / k, steps);
            }
        }
        let key = format!("{}:map", key);
        any(c, &key, it.simd_map(|v| map_lanes(v, flip)), n, steps);
    }

/// Zips: every call, at any time.
#[inline(never)]
fn zipped<Z, S, M, V, T>(c: &mut Ctx, key: &str, mut z: Z, n: usize, see: S, map: M)
    where Z: SIMDZippedIterator, S: Fn(&Z::Vectors) -> bool, M: Fn(Z::Vectors) -> V, V: Packed<Scalar = T>, T: Packable + Elem {
        let steps = c.rng.below(6);
        let mut log = String::new();
        for _ in 0..steps {
            let op = c.rng.below(9);
            let k = hostile(&mut c.rng, n, V::WIDTH);
            log.push_str(&format!("{}({}) ", ["next", "end", "advance", "finalize", "scalar_pos", "vector_pos", "lengths", "do_each", "reduce"][op], k));
            case!(c, "{} len={} {}", key, n, log);
            let mut ok = true;
            attempt!(c, || match op {
                0 => if let Some(v) = z.next() { ok = see(&v); },
                1 => if let Some((v, _)) = z.end() { ok = see(&v); },
                2 => z.advance(k),
                3 => z.finalize(),
                4 => { z.scalar_pos(); }
                5 => { z.vector_pos(); }
                6 => { let _ = (z.scalar_len(), z.vector_len(), z.len(), z.width(), z.size()); ok = see(&z.default()); }
                7 => z.simd_do_each(|v| ok &= see(&v)),
                _ => { z.simd_reduce(0usize, |k, v| { ok &= see(&v); k.wrapping_add(1) }); }
            });
            c.eval(1);
            c.count("steps", 1);
            if !ok { c.fail(&format!("{}:foreign", key), "a vector with bytes from elsewhere".to_string()); }
        }
        let steps = c.rng.below(6);
        let key = format!("{}:map", key);
        any(c, &key, z.simd_map(map), n, steps);
    }

macro_rules! abuse {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mc = $c.args.iter().any(|x| x == "mc");
        let rounds = if mc { $c.pick(36, 250) } else { $c.pick(500, 15000) };
        for r in 0..rounds {
            let n = match $c.rng.below(6) { 0 => $c.rng.below(W + 2), 1 => W * $c.rng.below(5), 2 => $c.rng.below(300), _ => $c.rng.below(5 * W + 2) };
            let d: Vec<$t> = tagged(&mut $c.rng, n);
            let dv: Vec<$t> = tagged(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let tail = !$c.rng.chance(3);
            let g = Guarded::new(&d, tail);
            g.freeze();
            let s: &[$t] = &g;
            let steps = $c.rng.below(10);
            let kind = r % 9;
            let key = format!("{}:{}", ["slice", "vec", "stride", "adapter", "fields", "zip", "stride-zip", "for-each", "cast"][kind], stringify!($t));
            $c.distinct(&(kind, stringify!($t), W, n, steps));
            match kind {
                0 => { let it = array($c, &key, s.simd_iter(def), n, steps); derived($c, &key, it, n); }
                1 => { array($c, &key, d.clone().into_simd_iter(def), n, steps); }
                2 => {
                    let k = $c.rng.range(1, 9);
                    let st = s.stride(k, &vec![def; k]);
                    let i = $c.rng.below(k);
                    let it = array($c, &key, st[i].clone(), n / k, steps);
                    if stringify!($t).starts_with('u') { derived($c, &key, it, n / k); }
                }
                3 => {
                    let dv2: Vec<$t> = tagged(&mut $c.rng, W);
                    let a = SIMDAdapter { iter: s.iter().cloned(), scratch: vec_of::<fv::$vs>(&dv2), default: def, position: 0 };
                    any($c, &key, a, n, steps);
                }
                4 => {
                    // Any position, other data than it started with, iterators of iterators
                    let p = hostile(&mut $c.rng, n, W);
                    case!($c, "{} len={} position={}", key, n, p);
                    let mut it = SIMDIter { position: p, data: s, default: def };
                    match $c.rng.below(4) {
                        0 => { array($c, &key, it, n, steps); }
                        1 => {
                            attempt!($c, || it.next());
                            let m = $c.rng.below(n + 1);
                            it.data = &s[..m];
                            if $c.rng.chance(2) { it.position = hostile(&mut $c.rng, m, W); }
                            array($c, &key, it, m, steps);
                        }
                        2 => { let q = SIMDIter { position: hostile(&mut $c.rng, n, W), data: it, default: def }; array($c, &key, q, n, steps); }
                        _ => { let q = SIMDIter { position: 0, data: it, default: def }; array($c, &key, q, n, steps); }
                    }
                }
                5 => {
                    // Inputs of equal and unequal lengths, consumed to different positions before
                    let m = if $c.rng.chance(3) { $c.rng.below(n + W + 1) } else { n };
                    let e: Vec<$t> = tagged(&mut $c.rng, m);
                    let ge = Guarded::new(&e, tail);
                    ge.freeze();
                    let (mut a, mut b) = (s.simd_iter(def), (&ge[..]).simd_iter(def));
                    let (ka, kb) = (hostile(&mut $c.rng, n, W), hostile(&mut $c.rng, n, W));
                    let (da, db) = ($c.rng.chance(3), $c.rng.chance(3));
                    case!($c, "{} {} and {} advance {:?} {:?}", key, n, m, if da { Some(ka) } else { None }, if db { Some(kb) } else { None });
                    if da { a.advance(ka); }
                    if db { b.advance(kb); }
                    // A stride, a nested iterator, a vector as a further input
                    let k = $c.rng.range(1, 4);
                    let l: Vec<$t> = tagged(&mut $c.rng, m * k);
                    let gl = Guarded::new(&l, tail);
                    gl.freeze();
                    let base: &[$t] = &gl;
                    let st = base.stride(k, &vec![def; k]);
                    let i = $c.rng.below(k);
                    let sum = |x: fv::$vs, y: fv::$vs| { let l: Vec<$t> = lanes(&x).iter().zip(&lanes(&y)).map(|(a, b)| <$t>::from_bits64(a.bits() ^ b.bits())).collect(); vec_of::<fv::$vs>(&l) };
                    match $c.rng.below(3) {
                        0 => { if let Some(z) = attempt!($c, || (a, b).zip()) {
                            if n != m { $c.fail(&format!("{}:unequal", key), format!("{} and {} accepted", n, m)); }
                            zipped($c, &key, z, n, |x| clean(&lanes(&x.0)) && clean(&lanes(&x.1)), |(x, y)| sum(x, y))
                        } }
                        1 => { if let Some(z) = attempt!($c, || (a, b, st[i].clone()).zip()) {
                            zipped($c, &key, z, n, |x| clean(&lanes(&x.0)) && clean(&lanes(&x.1)) && clean(&lanes(&x.2)), |(x, y, z)| sum(sum(x, y), z))
                        } }
                        _ => { if let Some(z) = attempt!($c, || (st[i].clone(), b, e.clone().into_simd_iter(def)).zip()) {
                            zipped($c, &key, z, m, |x| clean(&lanes(&x.0)) && clean(&lanes(&x.1)) && clean(&lanes(&x.2)), |(x, y, z)| sum(sum(x, y), z))
                        } }
                    }
                }
                7 => {
                    let p = hostile(&mut $c.rng, n, W);
                    let fresh = $c.rng.chance(2);
                    let mut b = Guarded::new(&d, tail);
                    case!($c, "{} len={} advance={:?} tail-guard={}", key, n, if fresh { None } else { Some(p) }, tail);
                    {
                        let m = &mut b[..];
                        let mut it = m.simd_iter_mut(def);
                        if !fresh { attempt!($c, || it.advance(p)); }
                        for _ in 0..$c.rng.below(3) { attempt!($c, || it.next()); }
                        let mut ok = true;
                        attempt!($c, || it.simd_for_each(|v| { ok &= clean(&lanes(v)); *v = map_lanes(*v, flip); }));
                        attempt!($c, || it.simd_for_each(|v| { ok &= clean(&lanes(v)); *v = map_lanes(*v, flip); }));
                        if !ok { $c.fail(&format!("{}:foreign", key), "the closure was given bytes from elsewhere".to_string()); }
                        // Stores through the iterator's data
                        let (o, q) = (hostile(&mut $c.rng, n, W), hostile(&mut $c.rng, n, W));
                        let r = attempt!($c, || it.data.store(def, o));
                        $c.same_val(&format!("{}:store", key), r.is_some(), o <= n && n - o >= W);
                        let r = attempt!($c, || it.data.store_scalar(dv[0], q));
                        $c.same_val(&format!("{}:store_scalar", key), r.is_some(), q < n);
                    }
                    look($c, &key, "the buffer", &b);
                    if b.damage() != 0 { $c.fail(&format!("{}:outside", key), format!("{} bytes next to the slice changed", b.damage())); }
                }
                _ => {}
            }
            $c.count(&format!("programs_{}", ["slice", "vec", "stride", "adapter", "fields", "zip", "stride-zip", "for-each", "cast"][kind]), 1);
        }
        }
        go($c);
    }};
}

/// Pairs, and maps to vectors of other sizes, for the types which have them.
macro_rules! pairs {
    ($c:ident, $t:ident, $vs:ident, $($up:ident $ut:ident),*) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mc = $c.args.iter().any(|x| x == "mc");
        let rounds = if mc { $c.pick(8, 60) } else { $c.pick(150, 4000) };
        for _ in 0..rounds {
            let n = $c.rng.below(5 * W + 2);
            let d: Vec<$t> = tagged(&mut $c.rng, n);
            let dv: Vec<$t> = tagged(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let g = Guarded::new(&d, !$c.rng.chance(3));
            g.freeze();
            let s: &[$t] = &g;
            let p = hostile(&mut $c.rng, n, W);
            let fresh = $c.rng.chance(2);
            let key = format!("stride-zip:{}", stringify!($t));
            $c.distinct(&("pairs", stringify!($t), W, n, fresh));
            case!($c, "{} len={} advance={:?}", key, n, if fresh { None } else { Some(p) });
            let mut it = s.simd_iter(def);
            if !fresh { it.advance(p); }
            if let Some(z) = attempt!($c, || it.stride_zip()) {
                zipped($c, &key, z, n / 2, |x| clean(&lanes(&x.0)) && clean(&lanes(&x.1)), |(x, _)| x);
            }
            $( {
                let key = format!("cast:{}-{}", stringify!($t), stringify!($ut));
                let mut it = s.simd_iter(def);
                if !fresh { it.advance(p); }
                let steps = $c.rng.below(6);
                let widen = |v: fv::$vs| -> fv::$up { let b = lanes(&v); let mut o = fv::$up::splat(0 as $ut); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr() as *const u8, &mut o as *mut fv::$up as *mut u8, std::mem::size_of::<fv::$up>()); } o };
                any($c, &key, it.simd_map(widen), n, steps);
            } )*
        }
        }
        go($c);
    }};
}

/// Every vector type: loads, stores, lanes, partitions, at any offset.
macro_rules! vectors {
    ($c:ident, $t:ident, $v:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$v as Packed>::WIDTH;
        let mc = $c.args.iter().any(|x| x == "mc");
        for _ in 0..(if mc { $c.pick(10, 60) } else { $c.pick(120, 3000) }) {
            let n = $c.rng.below(3 * W + 2);
            let d: Vec<$t> = tagged(&mut $c.rng, n);
            let x: Vec<$t> = tagged(&mut $c.rng, W);
            let tail = !$c.rng.chance(3);
            let mut v: fv::$v = vec_of(&x);
            let o = hostile(&mut $c.rng, n, W);
            let key = format!("vector:{}", stringify!($v));
            case!($c, "{} len={} offset={}", key, n, o);
            $c.distinct(&(stringify!($v), n, o));
            let fits = o <= n && n - o >= W;
            let g = Guarded::new(&d, tail);
            g.freeze();
            let r = attempt!($c, || fv::$v::load(&g[..], o));
            $c.same_val(&format!("{}:load", key), r.is_some(), fits);
            if let Some(r) = r { look($c, &key, "load", &lanes(&r)); }
            let mut b = Guarded::new(&d, tail);
            let r = attempt!($c, || v.store(&mut b[..], o));
            $c.same_val(&format!("{}:store", key), r.is_some(), fits);
            look($c, &key, "the stored slice", &b);
            if b.damage() != 0 { $c.fail(&format!("{}:outside", key), "wrote outside".to_string()); }
            if !fits { $c.same(&format!("{}:refused-store", key), &b, &d); }
            let i = hostile(&mut $c.rng, W, W);
            case!($c, "{} lane {}", key, i);
            let r = attempt!($c, || v.extract(i));
            $c.same_val(&format!("{}:extract", key), r.is_some(), i < W);
            let r = attempt!($c, || v.replace(i, x[0]));
            $c.same_val(&format!("{}:replace", key), r.is_some(), i < W);
            if let Some(r) = r { look($c, &key, "replace", &lanes(&r)); }
            let y: Vec<$t> = tagged(&mut $c.rng, W);
            let u: fv::$v = vec_of(&y);
            let r = attempt!($c, || v.merge_partitioned(u, i));
            if let Some(r) = r { look($c, &key, "merge_partitioned", &lanes(&r)); }
            $c.same_val(&format!("{}:merge_partitioned", key), r.is_some(), i <= W);
            if let Some(r) = attempt!($c, || fv::$v::partition(x[0], y[0], i)) { look($c, &key, "partition", &lanes(&r)); }
            if let Some(r) = attempt!($c, || fv::$v::partition_mask(i)) {
                let ok = raw(&r).iter().all(|b| *b == 0 || *b == 0xff);
                $c.same_val(&format!("{}:partition_mask", key), ok, true);
            }
        }
        }
        go($c);
    }};
}

/// The chunks of an unrolled iterator: the types let the caller keep them longer than what they point into.
fn dangling(c: &mut Ctx) {
    let d = vec![1u32; 64];
    let mut it = (&d[..]).simd_iter(fv::u32s(0));
    case!(c, "a chunk, after its unrolled iterator");
    let (chunk, inside): (&[fv::u32s], bool) = {
        let mut u = it.unroll(2);
        let ch = u.next().unwrap();
        let (lo, at) = (&u as *const _ as usize, ch.as_ptr() as usize);
        let inside = at >= lo && at < lo + std::mem::size_of_val(&u);
        (ch, inside)
    };
    let _ = chunk;
    c.eval(1);
    if inside { c.fail("unroll:dangling-chunk", "the chunk points into the unrolled iterator, which is gone".to_string()); }
}

fn main() {
    let mut c = Ctx::from_args();
    if c.args.iter().any(|x| x == "mc") { POISON.store(0, std::sync::atomic::Ordering::SeqCst); }
    let cx = &mut c;
    abuse!(cx, u8, u8s); abuse!(cx, i16, i16s); abuse!(cx, u32, u32s); abuse!(cx, f32, f32s); abuse!(cx, f64, f64s);
    pairs!(cx, u8, u8s, u16s u16, u32s u32, u64s u64);
    pairs!(cx, i8, i8s, i16s i16);
    pairs!(cx, u16, u16s, u8s u8, u64s u64);
    pairs!(cx, i16, i16s, i8s i8, i64s i64);
    pairs!(cx, u32, u32s, u8s u8, u64s u64);
    pairs!(cx, i32, i32s, i16s i16);
    all_vectors!(vectors, cx);
    dangling(cx);
    c.finish()
}
