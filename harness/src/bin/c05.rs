//! C05: any mix of partial consumption loses and repeats nothing.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::*;
use faster::iters::SIMDAdapter;
use faster::vecs::Packable;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

/// Positions and lengths of an iterator against the model.
macro_rules! positions {
    ($c:ident, $key:expr, $it:expr, $pos:expr, $len:expr, $w:expr) => {
        $c.same_val(&format!("{}:scalar_pos", $key), $it.scalar_pos(), $pos);
        $c.same_val(&format!("{}:vector_pos", $key), $it.vector_pos(), $pos / $w);
        $c.same_val(&format!("{}:scalar_len", $key), $it.scalar_len(), $len);
        $c.same_val(&format!("{}:vector_len", $key), $it.vector_len(), $len / $w);
    };
}

/// Take up to `k` scalars through unpack, and resume with pack. Adapters have no such thing.
type Scalars<I, T> = Option<fn(I, usize) -> (I, Vec<T>)>;

fn scalars<I, T>(it: I, k: usize) -> (I, Vec<T>) where I: SIMDIterator<Scalar = T> + SIMDArray, T: Packable {
    let mut u = it.unpack();
    let mut v: Vec<T> = Vec::new();
    match k % 4 {
        0 => { for _ in 0..k { if let Some(x) = u.next() { v.push(x); } } }
        1 => v.extend(u.by_ref().take(k)),
        2 => { for x in u.by_ref() { v.push(x); if v.len() == k { break; } } }
        _ => {
            // All but the last are skipped; they are found in a copy
            v.extend(u.by_ref().take(k - 1));
            if let Some(x) = u.nth(0) { v.push(x); }
        }
    }
    (u.pack(), v)
}

/// Take vectors with one of the methods every iterator has. Returns what came, if it was seen,
/// and whether the iterator said that there are no more.
fn standard<I, V, T>(it: &mut I, how: usize, k: usize) -> (Vec<Option<Vec<T>>>, bool)
    where I: Iterator<Item = V>, V: Packed<Scalar = T>, T: Packable + Elem {
    let some = |v: V| Some(lanes(&v));
    let mut l: Vec<Option<Vec<T>>> = Vec::new();
    match how {
        0 => {
            let r = it.nth(k);
            if r.is_none() { return (l, true); }
            for _ in 0..k { l.push(None); }
            l.push(r.and_then(some));
            (l, false)
        }
        1 => { for v in it.by_ref().take(k) { l.push(some(v)); } let n = l.len(); (l, n < k) }
        2 => { let n = it.by_ref().count(); for _ in 0..n { l.push(None); } (l, true) }
        3 => { let l = it.by_ref().map(|v| Some(lanes(&v))).collect(); (l, true) }
        4 => { let l = it.by_ref().fold(l, |mut l, v| { l.push(Some(lanes(&v))); l }); (l, true) }
        5 => {
            let mut n = 0;
            let r = it.by_ref().position(|v| { l.push(Some(lanes(&v))); n += 1; n > k });
            if let Some(p) = r { assert!(p == k, "position {} instead of {}", p, k); }
            (l, r.is_none())
        }
        6 => { let mut n = 0; let r = it.any(|v| { l.push(Some(lanes(&v))); n += 1; n > k }); (l, !r) }
        7 => {
            let mut s = it.by_ref().skip(k);
            let v = s.next();
            if v.is_none() { return (l, true); }
            for _ in 0..k { l.push(None); }
            l.push(v.and_then(some));
            (l, false)
        }
        8 => { for (i, v) in it.by_ref().enumerate() { l.push(some(v)); if i == k { return (l, false); } } (l, true) }
        _ => {
            let mut f = it.by_ref().fuse().peekable();
            let mut i = 0;
            while f.peek().is_some() && i <= k { l.push(f.next().and_then(some)); i += 1; }
            // (a peeked vector is gone)
            if let Some(v) = f.peek() { l.push(Some(lanes(v))); return (l, false); }
            (l, true)
        }
    }
}

/// A random history over a cloneable iterator, then one of the consumers. `$d` are all elements.
#[inline(never)]
fn history<I, V, T>(c: &mut Ctx, key: &str, mut it: I, unpack: Scalars<I, T>, d: &[T], dv: &[T], steps: usize)
    where I: SIMDIterator<Scalar = T, Vector = V> + Clone, V: Packed<Scalar = T>, T: Packable + Elem {
        let w = dv.len();
        let mut pos = 0usize;
        let mut log = String::new();
        let mut hist = 0u64;
        let mut saved = None;
        for _ in 0..steps {
            let rest = d.len() - pos;
            let op = c.rng.below(10);
            hist = hist.wrapping_mul(11).wrapping_add(op as u64 + 1);
            match op {
                0 | 1 => {
                    log.push_str("next ");
                    case!(c, "{} len={} pos={} {}", key, d.len(), pos, log);
                    if let Some(v) = c.no_panic(key, || it.next()) {
                        // Strides hand out their last full vector with end() only
                        match v {
                            Some(v) => {
                                if pos + w > d.len() {
                                    c.fail(&format!("{}:next", key), format!("a vector when {} of {} are left", rest, w));
                                    break;
                                }
                                let l = lanes(&v);
                                if !c.same(&format!("{}:next", key), &l, &d[pos..pos + w]) { break; }
                                pos += w;
                            }
                            None => { c.same_val(&format!("{}:next-none", key), rest > w, false); }
                        }
                    } else { break; }
                }
                2 => {
                    let k = c.rng.below(rest.min(w + 3) + 1);
                    log.push_str(&format!("advance({}) ", k));
                    case!(c, "{} len={} pos={} {}", key, d.len(), pos, log);
                    if c.no_panic(key, || it.advance(k)).is_none() { break; }
                    pos += k;
                }
                3 | 4 => {
                    let unpack = match unpack { Some(f) => f, None => continue };
                    let k = c.rng.below(rest.min(2 * w + 1) + 2);
                    log.push_str(&format!("unpack({}) ", k));
                    case!(c, "{} len={} pos={} {}", key, d.len(), pos, log);
                    match c.no_panic(key, move || unpack(it, k)) {
                        Some((i, g)) => {
                            it = i;
                            let k = k.min(rest);
                            if !c.same(&format!("{}:unpack", key), &g, &d[pos..pos + k]) { break; }
                        }
                        None => return,
                    }
                    let k = k.min(rest);
                    pos += k;
                }
                5 | 6 => {
                    let amt = c.rng.range(1, 8);
                    let chunks = c.rng.below(3);
                    log.push_str(&format!("unroll({})*{} ", amt, chunks));
                    case!(c, "{} len={} pos={} {}", key, d.len(), pos, log);
                    let at = pos;
                    let got = c.no_panic(key, || {
                        let mut u = it.unroll(amt);
                        let mut v: Vec<Vec<T>> = Vec::new();
                        let mut sizes = Vec::new();
                        let first = (u.chunk_len(), u.chunk_pos());
                        for _ in 0..chunks {
                            if let Some(ch) = u.next() { sizes.push(ch.len()); for x in ch { v.push(lanes(x)); } }
                        }
                        (v, sizes, first, u.chunk_pos())
                    });
                    match got {
                        Some((g, sizes, first, cp)) => {
                            let m = flat(&g);
                            if at + m.len() > d.len() || !c.same(&format!("{}:unroll", key), &m, &d[at..at + m.len()]) {
                                c.fail(&format!("{}:unroll", key), format!("{} elements when {} are left", m.len(), rest));
                                break;
                            }
                            pos += m.len();
                            c.same_val(&format!("{}:chunk_len", key), first, (amt, at / w / amt));
                            c.same_val(&format!("{}:chunk_pos", key), cp, pos / w / amt);
                            // All chunks but the last are full, and a short one only when vectors ran out
                            let short = sizes.iter().position(|x| *x < amt);
                            let ok = sizes.iter().all(|x| *x > 0 && *x <= amt) && short.map(|i| i + 1 == sizes.len()).unwrap_or(true);
                            c.same_val(&format!("{}:chunk-sizes", key), ok, true);
                            if sizes.len() < chunks || short.is_some() {
                                c.same_val(&format!("{}:unroll-left", key), d.len() - pos > w, false);
                            }
                        }
                        None => break,
                    }
                }
                7 => {
                    // Keep a clone for later, go on with the other
                    log.push_str("clone ");
                    let cl = it.clone();
                    if c.rng.chance(2) { saved = Some((cl, pos)); } else { saved = Some((it, pos)); it = cl; }
                }
                8 => {
                    let (how, k) = (c.rng.below(10), c.rng.below(4));
                    log.push_str(&format!("standard{}({}) ", how, k));
                    case!(c, "{} len={} pos={} {}", key, d.len(), pos, log);
                    let (lo, hi) = it.size_hint();
                    match c.no_panic(key, || { let n = it.clone().count(); let r = standard(&mut it, how, k); (n, r, it.scalar_pos()) }) {
                        Some((n, (l, all), p)) => {
                            c.same_val(&format!("{}:size-hint", key), lo <= n && hi.map_or(true, |h| h >= n), true);
                            // (where it says there are no more, those it skipped are found by its position)
                            let m = if all && l.len() < n { if p >= pos { (p - pos) / w } else { 0 } } else { l.len() };
                            if m * w > rest || p != pos + m * w {
                                c.fail(&format!("{}:standard{}", key, how), format!("the position is {} after {} vectors at {}, {} are left", p, m, pos, rest));
                                break;
                            }
                            for (i, v) in l.iter().enumerate() {
                                if let Some(v) = v { c.same(&format!("{}:standard{}", key, how), v, &d[pos + i * w..pos + (i + 1) * w]); }
                            }
                            pos += m * w;
                            if all { c.same_val(&format!("{}:standard{}:left", key, how), d.len() - pos > w || m < n, false); }
                            else if how == 0 || how == 5 || how == 6 || how == 7 || how == 8 { c.same_val(&format!("{}:standard{}:taken", key, how), m, k + 1); }
                        }
                        None => break,
                    }
                }
                _ => {
                    log.push_str("pos ");
                    case!(c, "{} len={} pos={} {}", key, d.len(), pos, log);
                }
            }
            positions!(c, key, it, pos, d.len(), w);
            c.count("steps", 1);
        }
        c.distinct(&(hist, d.len(), w));
        finish(c, key, it, unpack, d, dv, pos, &log);
        if let Some((it, pos)) = saved {
            let log = format!("{} | the clone at {}", log, pos);
            positions!(c, key, it, pos, d.len(), w);
            finish(c, key, it, unpack, d, dv, pos, &log);
        }
    }

/// Consume what is left in some way.
#[inline(never)]
fn finish<I, V, T>(c: &mut Ctx, key: &str, mut it: I, unpack: Scalars<I, T>, d: &[T], dv: &[T], pos: usize, log: &str)
    where I: SIMDIterator<Scalar = T, Vector = V> + Clone, V: Packed<Scalar = T>, T: Packable + Elem {
        let rest: &[T] = &d[pos..];
        let w = dv.len();
        let how = c.rng.below(10);
        case!(c, "{} len={} pos={} {} finish={}", key, d.len(), pos, log, how);
        let k = format!("{}:finish{}", key, how);
        c.count("finishes", 1);
        match how {
            0 => { if let Some(g) = c.no_panic(&k, || it.scalar_collect()) { c.same(&k, &g, rest); } }
            1 => {
                let before: Vec<T> = data(&mut c.rng, rest.len() + 3);
                let mut b = Guarded::new(&before, true);
                if c.no_panic(&k, || { it.scalar_fill(&mut b[..]); }).is_some() {
                    c.same(&k, &b[..rest.len()], rest);
                    c.same(&k, &b[rest.len()..], &before[rest.len()..]);
                }
            }
            2 => {
                let mut seen: Vec<Vec<T>> = Vec::new();
                if c.no_panic(&k, || it.simd_do_each(|v| seen.push(lanes(&v)))).is_some() { presented(c, &k, &seen, rest, dv); }
            }
            3 => {
                let mut seen: Vec<Vec<T>> = Vec::new();
                if let Some(n) = c.no_panic(&k, || it.simd_reduce(0usize, |n, v| { seen.push(lanes(&v)); n + 1 })) {
                    presented(c, &k, &seen, rest, dv);
                    c.same_val(&k, n, (rest.len() + w - 1) / w);
                }
            }
            4 => {
                if let Some(f) = unpack {
                    if let Some((_, g)) = c.no_panic(&k, || f(it, rest.len() + 2)) { c.same(&k, &g, rest); }
                }
            }
            5 => {
                if let Some(g) = c.no_panic(&k, || it.simd_map(|v| map_lanes(v, |x| x.f())).scalar_collect()) { c.same(&k, &g, &mapf(rest)); }
            }
            6 => {
                let mut seen: Vec<Vec<T>> = Vec::new();
                let r = c.no_panic(&k, || {
                    while let Some(v) = it.next() { seen.push(lanes(&v)); }
                    let e = it.end();
                    if let Some((v, _)) = e { seen.push(lanes(&v)); }
                    (e.map(|x| x.1), it.scalar_pos())
                });
                if let Some((n, p)) = r {
                    presented(c, &k, &seen, rest, dv);
                    if let Some(n) = n { c.same_val(&k, n, (w - rest.len() % w) % w); }
                    c.same_val(&k, p, d.len());
                }
            }
            7 => {
                let r = c.no_panic(&k, || { it.finalize(); (it.next().is_some(), it.end().is_some(), it.scalar_pos(), unpack.map_or(false, |f| f(it.clone(), 1).1.len() > 0)) });
                if let Some(r) = r { c.same_val(&k, r, (false, false, d.len(), false)); }
            }
            8 => {
                if let Some(g) = c.no_panic(&k, || it.scalar_collect_all()) { c.same(&k, &g, &flat(&expected(rest, dv))); }
            }
            _ => {
                // Through a map: its positions and lengths, then what is left
                let mut m = it.simd_map(|v| map_lanes(v, |x| x.f()));
                positions!(c, format!("{}:map", key), m, pos, d.len(), w);
                let mut adv = c.rng.below(rest.len().min(3) + 1);
                let (std, sk) = (c.rng.below(20), c.rng.below(3));
                if let Some((l, g)) = c.no_panic(&k, || {
                    m.advance(adv);
                    let l = if std < 10 { standard(&mut m, std, sk).0 } else { Vec::new() };
                    let p = m.scalar_pos();
                    assert!(p >= pos + adv + l.len() * w && p <= d.len() && (p - pos - adv) % w == 0, "position {} after {} vectors at {}", p, l.len(), pos + adv);
                    for (i, v) in l.iter().enumerate() {
                        if let Some(v) = v { assert!(bits_eq(v, &mapf(&rest[adv + i * w..adv + (i + 1) * w])), "vector {} of standard method {} of a map", i, std); }
                    }
                    (p - pos, m.scalar_collect())
                }) {
                    adv = l;
                    c.same(&k, &g, &mapf(&rest[adv..])); }
                let key = format!("{}:map", key);
                if let Some(r) = c.no_panic(&k, || { m.finalize(); (m.next().is_some(), m.end().is_some(), m.scalar_pos()) }) {
                    c.same_val(&format!("{}:finalized", key), r, (false, false, d.len()));
                }
            }
        }
    }

macro_rules! histories {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let rounds = $c.pick(700, 20000);
        let big = $c.big(W);
        for r in 0..rounds {
            // (histories on long data are few, as each is judged on all of it)
            let n = match $c.rng.below(6) { _ if r < 3 && big.len() > 0 => big[0], _ if r < big.len() => big[r], 0 => $c.rng.below(W + 2), 1 => W * $c.rng.below(5), 2 => $c.lens(W, 2, 400)[1], _ => $c.rng.below(5 * W + 2) };
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let steps = $c.rng.below(12);
            let tail = !$c.rng.chance(3);
            match r % 3 {
                0 => {
                    let g = Guarded::new(&d, tail);
                    g.freeze();
                    let s: &[$t] = &g;
                    let key = format!("slice:{}", stringify!($t));
                    history($c, &key, s.simd_iter(def), Some(scalars), &d, &dv, steps);
                }
                1 => {
                    let key = format!("vec:{}", stringify!($t));
                    history($c, &key, d.clone().into_simd_iter(def), Some(scalars), &d, &dv, steps);
                }
                _ => {
                    let g = Guarded::new(&d, tail);
                    g.freeze();
                    let s: &[$t] = &g;
                    let k = $c.rng.range(2, 4);
                    let which = $c.rng.below(k);
                    let sd: Vec<$t> = (0..n / k).map(|i| d[i * k + which]).collect();
                    let key = format!("stride:{}", stringify!($t));
                    let strides = s.stride(k, &vec![def; k]);
                    history($c, &key, strides[which].clone(), Some(scalars), &sd, &dv, steps);
                }
            }
        }
        }
        go($c);
    }};
}

/// Iterators of scalars packed into vectors of any type.
macro_rules! adapters {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        for r in 0..$c.pick(60, 2000) {
            let n = match $c.rng.below(4) { 0 => $c.rng.below(W + 2), 1 => W * $c.rng.below(5), _ => $c.rng.below(5 * W + 2) };
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let scratch: fv::$vs = if $c.rng.chance(2) { def } else { vec_of(&data::<$t>(&mut $c.rng, W)) };
            let steps = $c.rng.below(10);
            let key = format!("adapter:{}", stringify!($vs));
            if r % 2 == 0 {
                let it = SIMDAdapter { iter: d.iter().cloned(), scratch: scratch, default: def, position: 0 };
                history($c, &key, it, None, &d, &dv, steps);
            } else {
                // One which skips from both ends
                let mut l: std::collections::VecDeque<$t> = d.iter().cloned().collect();
                l.push_back(dv[0]);
                l.rotate_right(1);
                l.push_back(dv[0]);
                let mut i = l.into_iter();
                i.next();
                i.next_back();
                let it = SIMDAdapter { iter: i, scratch: scratch, default: def, position: 0 };
                history($c, &key, it, None, &d, &dv, steps);
            }
        }
        }
        go($c);
    }};
}

/// Mutable iterators: consume, then for-each the rest.
macro_rules! mutable {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        for _ in 0..$c.pick(250, 6000) {
            let n = $c.rng.below(5 * W + 2);
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let mut g = Guarded::new(&d, true);
            let key = format!("mutable:{}", stringify!($t));
            let ops: Vec<(usize, usize)> = (0..$c.rng.below(5)).map(|_| ($c.rng.below(4), $c.rng.below(W + 2))).collect();
            case!($c, "{} len={} {:?}", key, n, ops);
            $c.distinct(&(stringify!($t), n, W, &ops));
            let m = &mut g[..];
            let pos = $c.no_panic(&key, || {
                let mut it = m.simd_iter_mut(def);
                let mut pos = 0;
                for &(op, k) in ops.iter() {
                    match op {
                        0 => { if it.next().is_some() { pos += W; } }
                        1 => { let k = k.min(n - pos); it.advance(k); pos += k; }
                        2 => { let mut u = it.unpack(); for _ in 0..k { if u.next().is_some() { pos += 1; } } it = u.pack(); }
                        _ => { let mut u = it.unroll(1 + k % 8); if let Some(c) = u.next() { pos += c.len() * W; } }
                    }
                    assert!(it.scalar_pos() == pos, "position {} instead of {}", it.scalar_pos(), pos);
                }
                it.simd_for_each(|v| *v = map_lanes(*v, |x| x.f()));
                // Nothing is left for a second pass
                it.simd_for_each(|v| *v = map_lanes(*v, |x| x.g()));
                pos
            });
            if let Some(pos) = pos {
                let mut want = d.clone();
                for i in pos..n { want[i] = want[i].f(); }
                $c.same(&key, &g, &want);
            }
            if g.damage() != 0 { $c.fail(&format!("{}:outside", key), "wrote outside".to_string()); }
        }
        }
        go($c);
    }};
}

/// Zips and maps over zips: positions, advancing, finalizing.
macro_rules! zips {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        for _ in 0..$c.pick(200, 5000) {
            let n = $c.rng.below(5 * W + 2);
            let d: Vec<$t> = data(&mut $c.rng, n);
            let e: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let ev: Vec<$t> = data(&mut $c.rng, W);
            let (def, edef): (fv::$vs, fv::$vs) = (vec_of(&dv), vec_of(&ev));
            let key = format!("zip:{}", stringify!($t));
            let pre = $c.rng.below(n + 1);
            let takes = $c.rng.below(3);
            case!($c, "{} len={} advance={} next*{}", key, n, pre, takes);
            $c.distinct(&("zip", stringify!($t), n, W, pre, takes));
            let mut z = ((&d[..]).simd_iter(def), (&e[..]).simd_iter(edef)).zip();
            positions!($c, key, z, 0, n, W);
            let mut pos = pre;
            z.advance(pre);
            for _ in 0..takes {
                match z.next() {
                    Some((a, b)) => {
                        if pos + W > n { $c.fail(&format!("{}:next", key), "too many".to_string()); break; }
                        $c.same(&format!("{}:next", key), &lanes(&a), &d[pos..pos + W]);
                        $c.same(&format!("{}:next", key), &lanes(&b), &e[pos..pos + W]);
                        pos += W;
                    }
                    None => { $c.same_val(&format!("{}:next-none", key), n - pos >= W, false); }
                }
                positions!($c, key, z, pos, n, W);
            }
            // Vectors taken in other ways
            let (how, k) = ($c.rng.below(8), $c.rng.below(3));
            if how < 4 {
                case!($c, "{} len={} advance={} next*{} standard{}({})", key, n, pre, takes, how, k);
                let whole = (n - pos) / W;
                let (got, m) = match how {
                    0 => (z.nth(k), if k < whole { k + 1 } else { whole }),
                    1 => (z.by_ref().take(k).last(), k.min(whole)),
                    2 => { $c.same_val(&format!("{}:count", key), z.by_ref().count(), whole); (None, whole) }
                    _ => (z.by_ref().skip(k).next(), if k < whole { k + 1 } else { whole }),
                };
                pos += m * W;
                $c.same_val(&format!("{}:standard{}", key, how), got.is_some(), match how { 1 => m > 0, 2 => false, _ => k < whole });
                if let Some((a, b)) = got {
                    $c.same(&format!("{}:standard{}", key, how), &lanes(&a), &d[pos - W..pos]);
                    $c.same(&format!("{}:standard{}", key, how), &lanes(&b), &e[pos - W..pos]);
                }
                positions!($c, key, z, pos, n, W);
            }
            let want: Vec<$t> = (pos..n).map(|i| d[i].h2(e[i])).collect();
            if $c.rng.chance(3) {
                if let Some(r) = $c.no_panic(&key, || { z.finalize(); (z.next().is_some(), z.end().is_some(), z.scalar_pos()) }) {
                    $c.same_val(&format!("{}:finalized", key), r, (false, false, n));
                }
                continue;
            }
            if $c.rng.chance(3) {
                let mut sa: Vec<Vec<$t>> = Vec::new();
                let mut sb: Vec<Vec<$t>> = Vec::new();
                if $c.no_panic(&key, || z.simd_do_each(|(a, b)| { sa.push(lanes(&a)); sb.push(lanes(&b)); })).is_some() {
                    presented($c, &format!("{}:rest", key), &sa, &d[pos..], &dv);
                    presented($c, &format!("{}:rest", key), &sb, &e[pos..], &ev);
                }
                continue;
            }
            let mut m = z.simd_map(|(a, b)| {
                let (a, b) = (lanes(&a), lanes(&b));
                let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect();
                vec_of::<fv::$vs>(&l)
            });
            let mk = format!("{}:map", key);
            positions!($c, mk, m, pos, n, W);
            if $c.rng.chance(2) {
                if let Some(g) = $c.no_panic(&mk, || m.scalar_collect()) { $c.same(&mk, &g, &want); }
            } else if let Some(r) = $c.no_panic(&mk, || { m.finalize(); (m.next().is_some(), m.end().is_some(), m.scalar_pos()) }) {
                $c.same_val(&format!("{}:finalized", mk), r, (false, false, n));
            }
        }
        }
        go($c);
    }};
}

/// A chunk of an unrolled iterator, held while the iterator goes on: the types allow it.
macro_rules! retained {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let d: Vec<$t> = (0..8 * W).map(|i| <$t>::ramp(i)).collect();
        let mut it = (&d[..]).simd_iter(fv::$vs(0 as $t));
        case!($c, "retained chunk {}", stringify!($t));
        let mut u = it.unroll(2);
        let a = u.next().unwrap();
        let before: Vec<Vec<$t>> = a.iter().map(lanes).collect();
        u.next();
        let after: Vec<Vec<$t>> = unsafe { (0..2).map(|i| lanes(&std::ptr::read_volatile(&a[i]))).collect() };
        $c.same("unroll:retained-chunk", &flat(&after), &flat(&before));
        }
        go($c);
    }};
}

/// Positions and offsets which 32 bits do not hold.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = (1usize << 32) + 12 * W + $c.rng.below(3 * W) + 1;
        case!($c, "huge {} of {}", stringify!($t), n);
        let mut h = Huge::<$t>::new(n, 50 * W);
        let dv: Vec<$t> = data(&mut $c.rng, W);
        let def: fv::$vs = vec_of(&dv);
        for round in 0..$c.pick(6, 60) {
            let b = [1usize << 31, 1 << 32, n][round % 3];
            let p = b - $c.rng.below(4 * W) - 1;
            let steps = $c.rng.below(3);
            let key = format!("huge:{}", stringify!($t));
            let s: &[$t] = &h;
            $c.distinct(&(stringify!($t), p, steps));
            case!($c, "{} len={} advance({}) next*{}", key, n, p, steps);
            // A slice
            let mut it = s.simd_iter(def);
            it.advance(p);
            let mut pos = p;
            for _ in 0..steps {
                match it.next() {
                    Some(v) => { if pos + W <= n { $c.same(&key, &lanes(&v), &h.part(pos, pos + W)); } else { $c.fail(&key, format!("a vector when {} elements are left", n - pos)); } pos += W; }
                    None => { $c.same_val(&key, n - pos >= W, false); }
                }
                positions!($c, key, it, pos, n, W);
            }
            let mut u = it.unpack();
            for _ in 0..W + 1 { if let Some(x) = u.next() { $c.same(&format!("{}:unpack", key), &[x], &h.part(pos, pos + 1)); pos += 1; } }
            let mut it = u.pack();
            positions!($c, key, it, pos, n, W);
            {
                let mut u = it.unroll(2);
                if let Some(ch) = u.next() { for v in ch { $c.same(&format!("{}:unroll", key), &lanes(v), &h.part(pos, pos + W)); pos += W; } }
            }
            positions!($c, key, it, pos, n, W);
            // (what scalar_collect allocates is too much; the rest may not be too long either)
            if n - pos < 50 * W {
                let rest = h.part(pos, n);
                let mut i2 = it.clone();
                let mut seen: Vec<Vec<$t>> = Vec::new();
                if $c.no_panic(&key, || i2.simd_do_each(|v| seen.push(lanes(&v)))).is_some() { presented($c, &key, &seen, &rest, &dv); }
                let mut b: Vec<$t> = data(&mut $c.rng, rest.len());
                if $c.no_panic(&key, || { it.clone().simd_map(|v| map_lanes(v, |x| x.f())).scalar_fill(&mut b[..]); }).is_some() { $c.same(&format!("{}:fill", key), &b, &mapf(&rest)); }
                let mut got: Vec<Vec<$t>> = Vec::new();
                let m = rest.len() / 2;
                if $c.no_panic(&key, || it.clone().stride_zip().simd_do_each(|(a, b)| { got.push(lanes(&a)); got.push(lanes(&b)); })).is_some() {
                    let mut i2 = Vec::new();
                    for q in got.chunks(2) { for x in 0..W { i2.push(q[0][x]); i2.push(q[1][x]); } }
                    $c.same(&format!("{}:pairs", key), &i2[..i2.len().min(2 * W * (m / W))], &rest[..2 * W * (m / W)]);
                }
            }
            // Random access
            for o in &[p, p + 1, b.saturating_sub(1), b, b + W, n - W, n - W + 1, n - 1, n, p.saturating_sub(1 << 31)] {
                let o = *o;
                let r = $c.guarded(|| (s.load(o), s.simd_iter(def).load(o), fv::$vs::load(s, o)));
                match r {
                    Ok((x, y, z)) => for v in &[x, y, z] {
                        if o + W > n { $c.fail(&format!("{}:load", key), format!("load({}) accepted", o)); } else { $c.same(&format!("{}:load", key), &lanes(v), &h.part(o, o + W)); }
                    },
                    Err(e) => if o + W <= n { $c.fail(&format!("{}:load", key), format!("load({}) panicked: {}", o, e)); },
                }
                match $c.guarded(|| s.load_scalar(o)) {
                    Ok(x) => { if o >= n { $c.fail(&format!("{}:load_scalar", key), format!("load_scalar({}) accepted", o)); } else { $c.same(&format!("{}:load_scalar", key), &[x], &h.part(o, o + 1)); } }
                    Err(e) => if o < n { $c.fail(&format!("{}:load_scalar", key), format!("load_scalar({}) panicked: {}", o, e)); },
                }
            }
            // Strides
            let (even, odd) = s.stride_two((def, def));
            let ninth = s.stride_nine(tuplify!(9, def)).4;
            for (mut st, base, k) in vec![(even, 0, 2), (odd, 1, 2), (ninth, 4, 9)] {
                let a = (b.min(n - W * k) - base) / k - $c.rng.below(3) - 1;
                st.advance(a);
                $c.same_val(&format!("{}:stride-pos", key), st.scalar_pos(), a);
                let at = |i: usize| h.at(base + k * i);
                if let Some(v) = st.next() { let want: Vec<$t> = (a..a + W).map(at).collect(); $c.same(&format!("{}:stride", key), &lanes(&v), &want); }
                else { $c.same_val(&format!("{}:stride-none", key), n / k - a > W, false); }
                let want: Vec<$t> = (a..a + W).map(at).collect();
                if let Some(v) = $c.no_panic(&key, || st.load(a)) { $c.same(&format!("{}:stride-load", key), &lanes(&v), &want); }
                if let Some(v) = $c.no_panic(&key, || st.load_scalar(a)) { $c.same(&format!("{}:stride-load", key), &[v], &want[..1]); }
            }
            // Zips
            let mut z = (s.simd_iter(def), s.simd_iter(def)).zip();
            z.advance(p);
            if let Some((x, y)) = z.next() { $c.same(&format!("{}:zip", key), &lanes(&x), &h.part(p, p + W)); $c.same(&format!("{}:zip", key), &lanes(&y), &h.part(p, p + W)); }
            positions!($c, key, z, if n - p >= W { p + W } else { p }, n, W);
            $c.count("steps", 1);
        }
        // In place, at the end; then the first elements and those 2^32 before are as they were
        let key = format!("huge-mutable:{}", stringify!($t));
        let p = n - $c.rng.below(4 * W) - 1;
        case!($c, "{} len={} advance({})", key, n, p);
        let mut want = h.part(p, n);
        if $c.no_panic(&key, || {
            let mut it = (&mut h[..]).simd_iter_mut(def);
            it.advance(p);
            it.simd_for_each(|v| *v = map_lanes(*v, |x| x.f()));
        }).is_some() {
            for x in want.iter_mut() { *x = x.f(); }
            $c.same(&key, &h[p..], &want);
        }
        let o = (1usize << 32) + 2;
        let v: fv::$vs = vec_of(&data::<$t>(&mut $c.rng, W));
        v.store(&mut h[..], o);
        $c.same(&key, &h[o..o + W], &lanes(&v));
        $c.same(&format!("{}:elsewhere", key), &h[..8 * W], &h.part(0, 8 * W));
        $c.same(&format!("{}:elsewhere", key), &h[o + W..p], &h.part(o + W, p));
        $c.same(&format!("{}:elsewhere", key), &h[(1 << 32) - 8 * W..o], &h.part((1 << 32) - 8 * W, o));
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(histories, cx);
    all_vectors!(adapters, cx);
    natural_types!(mutable, cx);
    natural_types!(zips, cx);
    natural_types!(retained, cx);
    huge!(cx, u8, u8s);
    huge!(cx, i16, i16s);
    huge!(cx, u32, u32s);
    c.finish()
}
