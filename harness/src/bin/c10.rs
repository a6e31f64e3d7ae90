//! C10: packing, unpacking and the accessors of vectors.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::vecs::Packable;
use faster::*;
use vh::*;

const M: usize = std::usize::MAX;

/// Offsets worth trying on a slice of `n` elements.
fn offsets(c: &mut Ctx, n: usize, w: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n + 3).collect();
    if o.len() > 20 {
        o = (0..10).map(|_| c.rng.below(n + 3)).collect();
        o.extend_from_slice(&[0, 1, n - w.min(n), (n + 1).saturating_sub(w), n - 1, n, n + 1]);
    }
    o.extend_from_slice(&[n + w, M, M - 1, M - w + 1, M - w, M - n, M / 2, M / 2 + 1, 1 << 62, 1 << 60]);
    o
}

#[inline(never)]
fn memory<V: Packed<Scalar = T>, T: Packable + Elem>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    c.same_val(name, std::mem::size_of::<V>(), w * T::BYTES);
    let mut lens: Vec<usize> = vec![0, 1, w - 1, w, w + 1, 2 * w, 2 * w + 1, 3 * w - 1];
    for _ in 0..c.pick(3, 60) { lens.push(c.rng.below(4 * w + 2)); }
    for &n in lens.iter() {
        for side in 0..2 {
            let d: Vec<T> = data(&mut c.rng, n);
            let g = Guarded::new(&d, side == 0);
            g.freeze();
            for &o in offsets(c, n, w).iter() {
                case!(c, "{}::load(len {}, {}) tail-guard={}", name, n, o, side == 0);
                let ok = o <= n && n - o >= w;
                c.distinct(&(T::NAME, w, n, o));
                let k = format!("{}:load", name);
                match c.guarded(|| V::load(&g, o)) {
                    Ok(v) if ok => { c.same(&k, &lanes(&v), &d[o..o + w]); c.count("loads", 1); }
                    Err(_) if !ok => { c.eval(1); c.count("refused", 1); }
                    Ok(v) => c.fail(&k, format!("accepted, gave {:?}", v)),
                    Err(e) => c.fail(&k, format!("panicked: {}", e)),
                }
                if ok {
                    let k = format!("{}:load_unchecked", name);
                    if let Some(v) = c.no_panic(&k, || unsafe { V::load_unchecked(&g, o) }) { c.same(&k, &lanes(&v), &d[o..o + w]); }
                }
            }
            // Stores
            for &o in offsets(c, n, w).iter() {
                let ok = o <= n && n - o >= w;
                let mut g = Guarded::new(&d, side == 0);
                let x: Vec<T> = (0..w).map(|_| T::rand(&mut c.rng)).collect();
                let v: V = vec_of(&x);
                case!(c, "{}::store(len {}, {}) tail-guard={}", name, n, o, side == 0);
                let mut want = d.clone();
                if ok { for i in 0..w { want[o + i] = x[i]; } }
                let k = format!("{}:store", name);
                match c.guarded(|| v.store(&mut g, o)) {
                    Ok(_) if !ok => c.fail(&k, "accepted".to_string()),
                    Err(e) => { if ok { c.fail(&k, format!("panicked: {}", e)); } else { c.count("refused", 1); } }
                    _ => c.count("stores", 1),
                }
                c.same(&k, &g, &want);
                c.same_val(&format!("{}:store:outside", name), g.damage(), 0);
                if ok {
                    let mut g = Guarded::new(&d, side == 0);
                    let k = format!("{}:store_unchecked", name);
                    c.no_panic(&k, || unsafe { v.store_unchecked(&mut g, o) });
                    c.same(&k, &g, &want);
                    c.same_val(&format!("{}:store_unchecked:outside", name), g.damage(), 0);
                }
            }
        }
    }
}

#[inline(never)]
fn accessors<V: Packed<Scalar = T>, T: Packable + Elem + std::ops::Mul<Output = T>>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    let key = name;
    c.same_val(key, T::SIZE, T::BYTES);
    c.same(&format!("{}:default", key), &lanes(&<V as Packed>::default()), &vec![T::from_bits64(0); w]);
    for round in 0..c.pick(30, 400) {
        let mut x: Vec<T> = (0..w).map(|_| T::rand(&mut c.rng)).collect();
        if round % 3 == 0 {
            let v = x[0];
            x = vec![v; w];
        }
        let v: V = vec_of(&x);
        case!(c, "{} {:?}", name, x);
        c.distinct(&(T::NAME, w, &x.iter().map(|e| e.bits()).collect::<Vec<u64>>()));
        c.same_val(&format!("{}:width", key), Packed::width(&v), w);
        let k = format!("{}:splat", key);
        if let Some(s) = c.no_panic(&k, || V::splat(x[0])) { c.same(&k, &lanes(&s), &vec![x[0]; w]); }
        let k = format!("{}:extract", key);
        if let Some(s) = c.no_panic(&k, || (0..w).map(|i| v.extract(i)).collect::<Vec<T>>()) { c.same(&k, &s, &x); }
        if let Some(s) = c.no_panic(&k, || (0..w).map(|i| unsafe { v.extract_unchecked(i) }).collect::<Vec<T>>()) { c.same(&k, &s, &x); }
        let k = format!("{}:scalar_reduce", key);
        if let Some((s, n)) = c.no_panic(&k, || {
            let mut n = 0;
            let r = v.scalar_reduce(Vec::new(), |mut a: Vec<T>, e| { a.push(e); n += 1; a });
            (r, n)
        }) { c.same(&k, &s, &x); c.same_val(&k, n, w); }
        let idx = if round < 3 { (0..w).collect() } else { vec![c.rng.below(w), w - 1] };
        for &i in idx.iter() {
            let e = T::rand(&mut c.rng);
            let mut want = x.clone();
            want[i] = e;
            let mut m = v;
            let k = format!("{}:replace", key);
            if let Some(r) = c.no_panic(&k, || m.replace(i, e)) { c.same(&k, &lanes(&r), &want); }
            if let Some(r) = c.no_panic(&k, || unsafe { m.replace_unchecked(i, e) }) { c.same(&k, &lanes(&r), &want); }
            // It returns the new vector; the old one is not to be changed halfway
            let now = lanes(&m);
            if !bits_eq(&now, &x) && !bits_eq(&now, &want) { c.fail(&k, format!("left {:?}", now)); }
        }
        for &i in [w, w + 1, 2 * w, M, M - 1, M / w + 1, 1 << 32, 1 << 63, (1 << 32) + w - 1].iter() {
            c.must_panic(&format!("{}:extract-outside", key), || v.extract(i));
            let mut m = v;
            c.must_panic(&format!("{}:replace-outside", key), || m.replace(i, x[0]));
            c.same(&format!("{}:replace-outside", key), &lanes(&m), &x);
        }
        // Products: factors which are exact in every order
        let mut f: Vec<T> = vec![one(); w];
        for _ in 0..c.rng.below(6) {
            let i = c.rng.below(w);
            f[i] = two();
        }
        if c.rng.chance(8) {
            let i = c.rng.below(w);
            f[i] = T::from_bits64(0);
        }
        let want = f.iter().fold(one::<T>(), |a, b| a * *b);
        let p: V = vec_of(&f);
        case!(c, "{}::product {:?}", name, f);
        let k = format!("{}:product", key);
        if let Some(r) = c.no_panic(&k, || p.product()) { c.same(&k, &[r], &[want]); }
        // One lane is not one: whichever it is
        let mut f: Vec<T> = vec![one(); w];
        let i = round % w;
        f[i] = T::rand(&mut c.rng);
        let p: V = vec_of(&f);
        case!(c, "{}::product {:?}", name, f);
        if let Some(r) = c.no_panic(&k, || p.product()) { if f[i] == f[i] { c.same(&k, &[r], &f[i..i + 1]); } }
        if !cfg!(debug_assertions) && !T::FLOAT {
            let want = x.iter().fold(1u64, |a, b| a.wrapping_mul(b.bits()));
            if let Some(r) = c.no_panic(&k, || v.product()) { c.same(&k, &[r], &[T::from_bits64(want)]); }
        }
        // Equal lanes coalesce
        let e = x[0];
        let k = format!("{}:coalesce", key);
        if e == e {
            let s: V = vec_of(&vec![e; w]);
            case!(c, "{}::coalesce {:?}", name, e);
            if let Some(r) = c.no_panic(&k, || s.coalesce()) { c.same(&k, &[r], &[e]); }
            let o = T::rand(&mut c.rng);
            if cfg!(debug_assertions) && o != e {
                // ... and others are refused where assertions are on
                let mut l = vec![e; w];
                l[round % w] = o;
                let s: V = vec_of(&l);
                case!(c, "{}::coalesce {:?}", name, l);
                c.must_panic(&format!("{}:refused", k), || s.coalesce());
            }
        }
    }
}

fn one<T: Elem>() -> T { if T::FLOAT { if T::BYTES == 4 { T::from_bits64(1.0f32.to_bits() as u64) } else { T::from_bits64(1.0f64.to_bits()) } } else { T::from_bits64(1) } }
fn two<T: Elem>() -> T { if T::FLOAT { if T::BYTES == 4 { T::from_bits64(2.0f32.to_bits() as u64) } else { T::from_bits64(2.0f64.to_bits()) } } else { T::from_bits64(2) } }

/// Random access through slices, vectors and iterators.
#[inline(never)]
fn array<A, V, T>(c: &mut Ctx, key: &str, a: &A, d: &[T]) where A: SIMDArray<Scalar = T, Vector = V>, V: Packed<Scalar = T>, T: Packable + Elem {
    let w = V::WIDTH;
    let n = d.len();
    c.same_val(&format!("{}:shape", key), (a.scalar_len(), a.vector_len(), a.width(), a.size()), (n, n / w, w, T::BYTES));
    for &o in offsets(c, n, w).iter() {
        case!(c, "{} load({}) of {}", key, o, n);
        let ok = o <= n && n - o >= w;
        let k = format!("{}:load", key);
        match c.guarded(|| a.load(o)) {
            Ok(v) if ok => { c.same(&k, &lanes(&v), &d[o..o + w]); c.count("loads", 1); }
            Err(_) if !ok => { c.eval(1); c.count("refused", 1); }
            Ok(v) => c.fail(&k, format!("accepted, gave {:?}", v)),
            Err(e) => c.fail(&k, format!("panicked: {}", e)),
        }
        if ok { if let Some(v) = c.no_panic(&k, || unsafe { a.load_unchecked(o) }) { c.same(&k, &lanes(&v), &d[o..o + w]); } }
        let k = format!("{}:load_scalar", key);
        match c.guarded(|| a.load_scalar(o)) {
            Ok(v) if o < n => { c.same(&k, &[v], &d[o..o + 1]); c.count("loads", 1); }
            Err(_) if o >= n => { c.eval(1); c.count("refused", 1); }
            Ok(v) => c.fail(&k, format!("accepted, gave {:?}", v)),
            Err(e) => c.fail(&k, format!("panicked: {}", e)),
        }
        if o < n { if let Some(v) = c.no_panic(&k, || unsafe { a.load_scalar_unchecked(o) }) { c.same(&k, &[v], &d[o..o + 1]); } }
    }
}

macro_rules! arrays {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go(c: &mut Ctx) {
            const W: usize = <fv::$vs as Packed>::WIDTH;
            let t = stringify!($t);
            let e = <$t as Elem>::rand(&mut c.rng);
            c.same(&format!("{}:constructor", stringify!($vs)), &lanes(&fv::$vs(e)), &[e; W]);
            for &n in [0, 1, W - 1, W, W + 1, 2 * W + 1, 5 * W - 1].iter() {
                for side in 0..2 {
                    let d: Vec<$t> = data(&mut c.rng, n);
                    let dv: Vec<$t> = data(&mut c.rng, W);
                    let def: fv::$vs = vec_of(&dv);
                    let g = Guarded::new(&d, side == 0);
                    g.freeze();
                    let s: &[$t] = &g;
                    c.distinct(&(t, W, n, side, "array"));
                    array(c, &format!("slice:{}", t), &s, &d);
                    array(c, &format!("vec:{}", t), &d.clone(), &d);
                    let mut it = s.simd_iter(def);
                    array(c, &format!("iter:{}", t), &it, &d);
                    it.next();
                    array(c, &format!("iter-consumed:{}", t), &it, &d);
                    for &o in offsets(c, n, W).iter() {
                        let ok = o <= n && n - o >= W;
                        let mut g = Guarded::new(&d, side == 0);
                        let x: Vec<$t> = data(&mut c.rng, W);
                        let v: fv::$vs = vec_of(&x);
                        case!(c, "&mut [{}; {}] store({})", t, n, o);
                        let mut want = d.clone();
                        if ok { want[o..o + W].copy_from_slice(&x); }
                        let k = format!("slice-mut:{}:store", t);
                        let mut m: &mut [$t] = &mut g;
                        let r = c.guarded(|| SIMDArrayMut::store(&mut m, v, o)).is_ok();
                        c.same_val(&k, r, ok);
                        c.same(&k, &g, &want);
                        if o < n { want[o] = x[0]; }
                        let k = format!("slice-mut:{}:store_scalar", t);
                        let mut m: &mut [$t] = &mut g;
                        let r = c.guarded(|| SIMDArrayMut::store_scalar(&mut m, x[0], o)).is_ok();
                        c.same_val(&k, r, o < n);
                        c.same(&k, &g, &want);
                        if ok {
                            let mut m: &mut [$t] = &mut g;
                            c.no_panic(&k, || unsafe { m.store_unchecked(v, o) });
                            want[o..o + W].copy_from_slice(&x);
                            c.same(&k, &g, &want);
                            let mut m: &mut [$t] = &mut g;
                            let y: Vec<$t> = data(&mut c.rng, 1);
                            c.no_panic(&k, || unsafe { m.store_scalar_unchecked(y[0], o) });
                            want[o] = y[0];
                            c.same(&k, &g, &want);
                        }
                        c.same_val(&k, g.damage(), 0);
                    }
                }
            }
        }
        go($c);
    }};
}

macro_rules! one_type {
    ($c:ident, $t:ident, $v:ident) => {
        memory::<fv::$v, $t>($c, stringify!($v));
        accessors::<fv::$v, $t>($c, stringify!($v));
    };
}

/// Offsets beyond 32 bits.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = (1usize << 32) + 4 * W + $c.rng.below(3 * W) + 1;
        case!($c, "huge {} of {}", stringify!($t), n);
        let mut h = Huge::<$t>::new(n, 50 * W);
        let key = format!("huge:{}", stringify!($t));
        for round in 0..$c.pick(24, 240) {
            let b = [1usize << 31, 1 << 32, n][round % 3];
            let o = b + $c.rng.below(4 * W) - 2 * W;
            let fits = o + W <= n;
            case!($c, "{} len={} offset={}", key, n, o);
            $c.distinct(&("huge", stringify!($vs), W, o));
            match $c.guarded(|| <fv::$vs as Packed>::load(&h[..], o)) {
                Ok(v) => if fits { $c.same(&format!("{}:load", key), &lanes(&v), &h.part(o, o + W)); } else { $c.fail(&format!("{}:load", key), "accepted".to_string()); },
                Err(e) => if fits { $c.fail(&format!("{}:load", key), format!("panicked: {}", e)); },
            }
            let new: Vec<$t> = data(&mut $c.rng, W);
            let v: fv::$vs = vec_of(&new);
            let (low, far) = (o as u32 as usize, o.saturating_sub(1 << 31));
            match $c.guarded(|| v.store(&mut h[..], o)) {
                Ok(()) => if fits { $c.same(&format!("{}:store", key), &h[o..o + W], &new); } else { $c.fail(&format!("{}:store", key), "accepted".to_string()); },
                Err(e) => if fits { $c.fail(&format!("{}:store", key), format!("panicked: {}", e)); },
            }
            // Undo it; then all of the neighbourhood, and where a truncated offset leads, is as before
            if fits { for i in o..o + W { let x = h.at(i); h[i] = x; } }
            for &at in [o, low, far].iter() {
                let (x, y) = (at.saturating_sub(3 * W), (at + 4 * W).min(n));
                if x < y { $c.same(&format!("{}:elsewhere", key), &h[x..y], &h.part(x, y)); }
            }
            $c.count("huge_offsets", 1);
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    natural_types!(arrays, cx);
    all_vectors!(one_type, cx);
    huge!(cx, u8, u8s);
    huge!(cx, f64, f64s);
    c.finish()
}
