//! C07: strides.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::stride::PackedStride;
use faster::*;
use std::collections::{LinkedList, VecDeque};
use faster::vecs::Packable;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

/// Everything about one stride iterator. `all` are the elements of the collection, and `idx(i)` is
/// where the stride's i'th element is in it; `len` is the number it iterates over.
#[inline(never)]
fn judge<A, V, T>(c: &mut Ctx, key: &str, s: PackedStride<A>, all: &[T], base: usize, step: usize, len: usize, dv: &[T])
    where A: SIMDArray<Scalar = T, Vector = V> + Clone, V: Packed<Scalar = T>, T: Packable + Elem {
    let w = dv.len();
    let want: Vec<T> = (0..len).map(|i| all[base + i * step]).collect();
    c.same_val(&format!("{}:lens", key), (s.scalar_len(), s.vector_len(), s.scalar_pos(), s.vector_pos(), s.width()), (len, len / w, 0, 0, w));
    c.same_val(&format!("{}:len", key), ExactSizeIterator::len(&s), len / w);
    c.same(&format!("{}:default", key), &lanes(&s.default()), dv);
    // Iterating
    let mut it = s.clone();
    let mut seen: Vec<Vec<T>> = Vec::new();
    let r = c.no_panic(key, || {
        while let Some(v) = it.next() {
            seen.push(lanes(&v));
            assert!(it.scalar_pos() == seen.len() * w && it.vector_pos() == seen.len(), "position {}", it.scalar_pos());
        }
        if let Some((v, n)) = it.end() { seen.push(lanes(&v)); assert!(n == (w - len % w) % w, "padding {}", n); }
        (it.scalar_pos(), it.next().is_some() || it.end().is_some())
    });
    if let Some(r) = r {
        presented(c, key, &seen, &want, dv);
        c.same_val(&format!("{}:after", key), r, (len, false));
    }
    let mut it = s.clone();
    let mut seen: Vec<Vec<T>> = Vec::new();
    if c.no_panic(key, || it.simd_do_each(|v| seen.push(lanes(&v)))).is_some() { presented(c, key, &seen, &want, dv); }
    let mut it = s.clone().simd_map(|v| map_lanes(v, |x| x.f()));
    let k = format!("{}:collect", key);
    if let Some(g) = c.no_panic(&k, || it.scalar_collect()) { c.same(&k, &g, &mapf(&want)); }
    let it = s.clone();
    let k = format!("{}:unpack", key);
    if let Some(g) = c.no_panic(&k, || it.unpack().collect::<Vec<T>>()) { c.same(&k, &g, &want); }
    // From the middle
    let a = c.rng.below(len + 1);
    let mut it = s.clone();
    let k = format!("{}:advanced", key);
    let mut seen: Vec<Vec<T>> = Vec::new();
    if let Some(p) = c.no_panic(&k, || { it.advance(a); let p = it.scalar_pos(); it.simd_do_each(|v| seen.push(lanes(&v))); p }) {
        c.same_val(&k, p, a);
        presented(c, &k, &seen, &want[a..], dv);
    }
    // Random access
    let valid = |off: usize| (off as u128 * step as u128 + base as u128) < all.len() as u128;
    let mut offs: Vec<usize> = (0..len + 3).collect();
    if offs.len() > 24 {
        offs = (0..20).map(|_| c.rng.below(len + 3)).collect();
        offs.extend_from_slice(&[0, len - 1, len, len.saturating_sub(w), (len + 1).saturating_sub(w), len + 1]);
    }
    let m = std::usize::MAX;
    for h in [m, m - 1, m / 2, m / 2 + 1, m / step, (m / step).saturating_add(1), m - w + 1, m - w + 2, m - w, 1 << 63, m / 4 * 3].iter() { offs.push(*h); }
    for &o in offs.iter() {
        c.eval(1);
        let k = format!("{}:load_scalar", key);
        match c.guarded(|| s.load_scalar(o)) {
            Ok(x) => {
                if !valid(o) { c.fail(&k, format!("load_scalar({}) of {} accepted", o, all.len())); }
                else if x.bits() != all[base + o * step].bits() { c.fail(&k, format!("load_scalar({}) is {:?}", o, x)); }
                c.count("scalar_loads", 1);
            }
            Err(e) => {
                if valid(o) { c.fail(&k, format!("load_scalar({}) panicked: {}", o, e)); }
                c.count("loads_refused", 1);
            }
        }
        let k = format!("{}:load", key);
        let last = o.checked_add(w - 1);
        let ok = last.map(|l| valid(l)).unwrap_or(false);
        match c.guarded(|| s.load(o)) {
            Ok(v) => {
                if !ok { c.fail(&k, format!("load({}) of {} accepted", o, all.len())); }
                else {
                    let wv: Vec<T> = (0..w).map(|i| all[base + (o + i) * step]).collect();
                    c.same(&k, &lanes(&v), &wv);
                }
                c.count("vector_loads", 1);
            }
            Err(e) => {
                if ok { c.fail(&k, format!("load({}) panicked: {}", o, e)); }
                c.count("loads_refused", 1);
            }
        }
    }
}

macro_rules! strides {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        for &k in [1usize, 2, 3, 4, 5, 7, 9, 16, 33].iter() {
            let mut lens: Vec<usize> = vec![0, 1, k - 1, k, k + 1, k * W - 1, k * W, k * W + 1, k * W + k - 1, k * (W + 1), 2 * k * W, 2 * k * W + k - 1, 2 * k * W + k];
            for _ in 0..$c.pick(4, 120) { lens.push($c.rng.range(0, 3 * k * W + k)); }
            if k < 5 { lens.extend($c.lens(k * W, 2, 700)); }
            if k < 4 { let b = $c.big(W); lens.extend(b.iter().map(|n| n * k + k / 2)); }
            for &n in lens.iter() {
                let d: Vec<$t> = data(&mut $c.rng, n);
                let dvs: Vec<Vec<$t>> = (0..k).map(|_| data(&mut $c.rng, W)).collect();
                let defs: Vec<fv::$vs> = dvs.iter().map(|d| vec_of(d)).collect();
                let tail = !$c.rng.chance(3);
                let g = Guarded::new(&d, tail);
                g.freeze();
                let r: &[$t] = &g;
                case!($c, "stride({}) {} len={} tail-guard={}", k, stringify!($t), n, tail);
                $c.distinct(&(stringify!($t), W, k, n));
                let key = format!("stride:{}", stringify!($t));
                let form = $c.rng.below(4);
                // The collection forms
                let check = |c: &mut Ctx, i: usize, s: PackedStride<&[$t]>, what: &str| {
                    case!(c, "{}({})[{}] {} len={} tail-guard={}", what, k, i, stringify!($t), n, tail);
                    judge(c, &key, s, &d, i, k, n / k, &dvs[i]);
                };
                let base: &&[$t] = &r;
                match form {
                    0 => { let l: VecDeque<PackedStride<&[$t]>> = base.stride_into(k, &defs); $c.same_val(&key, l.len(), k); for (i, s) in l.into_iter().enumerate() { if k < 10 || $c.rng.chance(5) || i + 1 == k { check($c, i, s, "stride_into<VecDeque>"); } } }
                    1 => { let l: LinkedList<PackedStride<&[$t]>> = base.stride_into(k, &defs); $c.same_val(&key, l.len(), k); for (i, s) in l.into_iter().enumerate() { if k < 10 || $c.rng.chance(5) || i + 1 == k { check($c, i, s, "stride_into<LinkedList>"); } } }
                    _ => { let l = base.stride(k, &defs); $c.same_val(&key, l.len(), k); for (i, s) in l.into_iter().enumerate() { if k < 10 || $c.rng.chance(5) || i + 1 == k { check($c, i, s, "stride"); } } }
                }
                match k {
                    2 => { let t = base.stride_two((defs[0], defs[1])); check($c, 0, t.0, "stride_two"); check($c, 1, t.1, "stride_two"); }
                    3 => { let t = base.stride_three((defs[0], defs[1], defs[2])); check($c, 0, t.0, "stride_three"); check($c, 1, t.1, "stride_three"); check($c, 2, t.2, "stride_three"); }
                    4 => { let t = base.stride_four((defs[0], defs[1], defs[2], defs[3]));
                        check($c, 0, t.0, "stride_four"); check($c, 1, t.1, "stride_four"); check($c, 2, t.2, "stride_four"); check($c, 3, t.3, "stride_four"); }
                    9 => { let t = base.stride_nine((defs[0], defs[1], defs[2], defs[3], defs[4], defs[5], defs[6], defs[7], defs[8]));
                        check($c, 0, t.0, "stride_nine"); check($c, 1, t.1, "stride_nine"); check($c, 2, t.2, "stride_nine"); check($c, 3, t.3, "stride_nine");
                        check($c, 4, t.4, "stride_nine"); check($c, 5, t.5, "stride_nine"); check($c, 6, t.6, "stride_nine"); check($c, 7, t.7, "stride_nine"); check($c, 8, t.8, "stride_nine"); }
                    _ => {}
                }
                // A wrong number of defaults
                case!($c, "stride({}) {} with {} defaults", k, stringify!($t), k + 1);
                let mut more = defs.clone();
                more.push(defs[0]);
                $c.must_panic(&format!("{}:defaults", key), || base.stride(k, &more).len());
                $c.must_panic(&format!("{}:defaults", key), || base.stride(k, &defs[..k - 1]).len());
                // Strides of other collections: a vector, an iterator, a stride
                let v = d.clone();
                case!($c, "stride({}) of Vec {} len={}", k, stringify!($t), n);
                let i = $c.rng.below(k);
                judge($c, &key, v.stride(k, &defs)[i].clone(), &d, i, k, n / k, &dvs[i]);
                let it = (&g[..]).simd_iter(defs[0]);
                judge($c, &key, it.stride(k, &defs)[i].clone(), &d, i, k, n / k, &dvs[i]);
                let outer = base.stride(2, &[defs[0]; 2]);
                for o in 0..2 {
                    case!($c, "stride({})[{}] of stride(2)[{}] {} len={}", k, i, o, stringify!($t), n);
                    // Elements of the inner stride, including the incomplete last group, which loads may reach
                    let key = format!("nested:{}", stringify!($t));
                    let inner = outer[o].stride(k, &defs)[i].clone();
                    let want: Vec<$t> = (0..n / 2 / k).map(|j| d[2 * (j * k + i) + o]).collect();
                    let mut s = inner.clone();
                    if let Some(got) = $c.no_panic(&key, || s.scalar_collect()) { $c.same(&key, &got, &want); }
                    $c.same_val(&key, inner.scalar_len(), want.len());
                    for j in 0..want.len().min(40) {
                        if let Some(x) = $c.no_panic(&key, || inner.load_scalar(j)) { $c.same(&key, &[x], &want[j..j + 1]); }
                        if j + W <= want.len() {
                            if let Some(x) = $c.no_panic(&key, || inner.load(j)) { $c.same(&key, &lanes(&x), &want[j..j + W]); }
                        }
                    }
                }
            }
        }
        }
        go($c);
    }};
}

/// Elements and indices beyond 32 bits.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = (1usize << 32) + 30 * W + $c.rng.below(9 * W) + 1;
        case!($c, "huge {} of {}", stringify!($t), n);
        let h = Huge::<$t>::new(n, 200 * W);
        let s: &[$t] = &h;
        let dv: Vec<$t> = data(&mut $c.rng, W);
        let def: fv::$vs = vec_of(&dv);
        for round in 0..$c.pick(12, 120) {
            let b = [1usize << 31, 1 << 32, n][round % 3];
            let k = [2usize, 3, 4, 9, 7, 33][$c.rng.below(6)];
            let base = $c.rng.below(k);
            let mut st = match k {
                2 => { let t = s.stride_two((def, def)); if base == 0 { t.0 } else { t.1 } }
                3 => { let t = s.stride_three((def, def, def)); [t.0, t.1, t.2][base].clone() }
                4 => { let t = s.stride_four(tuplify!(4, def)); [t.0, t.1, t.2, t.3][base].clone() }
                _ => s.stride(k, &vec![def; k])[base].clone(),
            };
            let len = n / k;
            let a = ((b - base) / k - $c.rng.below(4) - 1).min(len);
            let key = format!("huge:{}", stringify!($t));
            case!($c, "{} len={} stride {} of {}, advance({})", key, n, base, k, a);
            $c.distinct(&("huge", stringify!($t), k, base, a));
            let r = $c.no_panic(&key, || {
                let l = (st.scalar_len(), st.vector_len());
                st.advance(a);
                let p = (st.scalar_pos(), st.vector_pos());
                let random = st.clone();
                let mut seen: Vec<Vec<$t>> = Vec::new();
                if len - a < 200 * W / k { st.simd_do_each(|v| seen.push(lanes(&v))); }
                else if let Some(v) = st.next() { seen.push(lanes(&v)); }
                (l, p, seen, random)
            });
            if let Some((l, p, seen, st)) = r {
                $c.same_val(&format!("{}:lengths", key), l, (len, len / W));
                $c.same_val(&format!("{}:position", key), p, (a, a / W));
                if len - a < 200 * W / k {
                    let want: Vec<$t> = (a..len).map(|i| h.at(base + k * i)).collect();
                    presented($c, &key, &seen, &want, &dv);
                } else {
                    let want: Vec<$t> = (a..a + W).map(|i| h.at(base + k * i)).collect();
                    $c.same_val(&key, seen.len(), 1);
                    for v in &seen { $c.same(&key, v, &want); }
                }
                for _ in 0..6 {
                    let o = a + $c.rng.below(3 * W) - ($c.rng.below(W)).min(a);
                    let fits = base + k * (o + W - 1) < n;
                    match $c.guarded(|| st.load(o)) {
                        Ok(v) => if fits { let want: Vec<$t> = (o..o + W).map(|i| h.at(base + k * i)).collect(); $c.same(&format!("{}:load", key), &lanes(&v), &want); } else { $c.fail(&format!("{}:load", key), format!("load({}) accepted", o)); },
                        Err(e) => if fits { $c.fail(&format!("{}:load", key), format!("load({}) panicked: {}", o, e)); },
                    }
                    let fits = base + k * o < n;
                    match $c.guarded(|| st.load_scalar(o)) {
                        Ok(v) => if fits { $c.same(&format!("{}:load_scalar", key), &[v], &[h.at(base + k * o)]); } else { $c.fail(&format!("{}:load_scalar", key), format!("load_scalar({}) accepted", o)); },
                        Err(e) => if fits { $c.fail(&format!("{}:load_scalar", key), format!("load_scalar({}) panicked: {}", o, e)); },
                    }
                }
                $c.count("huge_strides", 1);
            }
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(strides, cx);
    huge!(cx, u8, u8s);
    huge!(cx, i32, i32s);
    c.finish()
}
