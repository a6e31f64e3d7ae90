//! C02: filling a caller's buffer writes the results and nothing else.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::iters::SIMDAdapter;
use faster::*;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

/// What a consumer was asked for.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum What { Fill, FillAll }

/// Check a buffer after a fill. `res` is what the library returned: address and length, or a panic.
#[inline(never)]
fn judge<T: Elem>(c: &mut Ctx, key: &str, buf: &Guarded<T>, before: &[T], want: &[T], res: Result<(usize, usize), String>) {
    c.eval(1);
    if buf.damage() != 0 {
        c.fail(&format!("{}:outside", key), format!("{} bytes next to the buffer changed", buf.damage()));
    }
    match res {
        Ok((p, l)) => {
            if before.len() < want.len() {
                c.fail(&format!("{}:short-accepted", key), format!("{} results into {} elements", want.len(), before.len()));
                return;
            }
            c.count("fills", 1);
            if p != buf.as_ptr() as usize || l != before.len() {
                c.fail(&format!("{}:returned", key), format!("returned a slice of {} instead of the buffer of {}", l, before.len()));
            }
            c.same(key, &buf[..want.len()], want);
            c.same(&format!("{}:beyond", key), &buf[want.len()..], &before[want.len()..]);
        }
        Err(e) => {
            if before.len() >= want.len() {
                c.fail(&format!("{}:panic", key), format!("panicked: {}", e));
            } else {
                c.count("short_buffers_refused", 1);
            }
        }
    }
}

macro_rules! fills {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mut lens: Vec<usize> = (0..=$c.pick(3 * W + 2, 8 * W + 2)).collect();
        { let k = $c.pick(8, 100); lens.extend($c.lens(W, k, 900)); }
        lens.extend($c.big(W));
        for &n in lens.iter() {
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let all: Vec<$t> = flat(&expected(&d, &dv));
            for &what in [What::Fill, What::FillAll].iter() {
                let total = if what == What::Fill { n } else { all.len() };
                let mut sizes = vec![total, total + 1, total + $c.rng.range(2, 3 * W + 2)];
                if total > 0 {
                    sizes.push(total - 1);
                    sizes.push($c.rng.below(total));
                    sizes.push(total - ($c.rng.range(1, W)).min(total));
                }
                if total % W != 0 { sizes.push(total / W * W); }
                for &m in sizes.iter() {
                    let before: Vec<$t> = data(&mut $c.rng, m);
                    let tail = !$c.rng.chance(3);
                    let mut buf = Guarded::new(&before, tail);
                    let src = $c.rng.below(6);
                    case!($c, "{:?} {} len={} buffer={} src={} tail-guard={}", what, stringify!($t), n, m, src, tail);
                    $c.distinct(&(what, stringify!($t), W, n, m as isize - total as isize));
                    let key = format!("{}:{}", if what == What::Fill { "fill" } else { "fill-all" }, stringify!($t));
                    let w: &[$t] = if what == What::Fill { &d } else { &all };
                    macro_rules! run { ($it:expr) => {{
                        let mut it = $it;
                        let b = &mut buf[..];
                        $c.guarded(|| { let r = if what == What::Fill { it.scalar_fill(b) } else { it.scalar_fill_all(b) }; (r.as_ptr() as usize, r.len()) })
                    }} }
                    let (res, w) = match src {
                        0 => (run!((&d[..]).simd_iter(def)), w.to_vec()),
                        1 => (run!((&d[..]).simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f()))), mapf(w)),
                        4 => {
                            // What is left of an iterator; `n` elements of it
                            let skip = $c.rng.range(1, 2 * W);
                            let mut longer: Vec<$t> = data(&mut $c.rng, skip);
                            longer.extend_from_slice(&d);
                            let mut it = (&longer[..]).simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f()));
                            it.advance(skip);
                            (run!(it), mapf(w))
                        }
                        5 => {
                            let junk: fv::$vs = vec_of(&data::<$t>(&mut $c.rng, W));
                            (run!(SIMDAdapter { iter: d.iter().cloned(), scratch: junk, default: def, position: 0 }), w.to_vec())
                        }
                        2 => (run!(d.clone().into_simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f()))), mapf(w)),
                        _ => {
                            let e: Vec<$t> = data(&mut $c.rng, n);
                            let ew: Vec<$t> = if what == What::Fill { e.clone() } else { flat(&expected(&e, &dv)) };
                            let w: Vec<$t> = w.iter().zip(&ew).map(|(a, b)| a.h2(*b)).collect();
                            let r = run!(((&d[..]).simd_iter(def), (&e[..]).simd_iter(def)).zip().simd_map(|(a, b)| {
                                let (a, b) = (lanes(&a), lanes(&b));
                                let l: Vec<$t> = a.iter().zip(&b).map(|(x, y)| x.h2(*y)).collect();
                                vec_of::<fv::$vs>(&l)
                            }));
                            (r, w)
                        }
                    };
                    judge($c, &key, &buf, &before, &w, res);
                }
            }
            // The same with the buffer being a part of a larger one
            {
                let (pre, post) = ($c.rng.below(W + 3), $c.rng.below(W + 3));
                let before: Vec<$t> = data(&mut $c.rng, pre + n + post);
                let mut big = before.clone();
                case!($c, "sub-slice {} len={} pre={} post={}", stringify!($t), n, pre, post);
                let key = format!("fill-part:{}", stringify!($t));
                if let Some(()) = $c.no_panic(&key, || { (&d[..]).simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f())).scalar_fill(&mut big[pre..pre + n]); }) {
                    let mut w = before.clone();
                    w[pre..pre + n].copy_from_slice(&mapf(&d));
                    $c.same(&key, &big, &w);
                }
            }
            // Collecting with the padding
            for src in 0..4 {
                case!($c, "collect-all {} len={} src={}", stringify!($t), n, src);
                $c.distinct(&("collect-all", stringify!($t), W, n));
                let key = format!("collect-all:{}", stringify!($t));
                let got = match src {
                    0 => $c.no_panic(&key, || (&d[..]).simd_iter(def).scalar_collect_all()),
                    1 => $c.no_panic(&key, || (&d[..]).simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f())).scalar_collect_all()),
                    2 => $c.no_panic(&key, || SIMDAdapter { iter: d.iter().cloned(), scratch: def, default: def, position: 0 }.simd_map(|v| map_lanes(v, |x| x.f())).scalar_collect_all()),
                    _ => $c.no_panic(&key, || d.clone().into_simd_iter(def).simd_map(|v| map_lanes(v, |x| x.f())).scalar_collect_all()),
                };
                if let Some(got) = got {
                    let w = if src == 0 { all.clone() } else { mapf(&all) };
                    $c.same(&key, &got, &w);
                }
            }
        }
        }
        go($c);
    }};
}

/// More results than 32 bits can count. One build only: it takes seconds.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = (1usize << 32) + 5 * W + $c.rng.below(3 * W) + 1;
        case!($c, "huge fill {} of {}", stringify!($t), n);
        let h = Huge::<$t>::new(n, 50 * W);
        let dv: Vec<$t> = data(&mut $c.rng, W);
        let def: fv::$vs = vec_of(&dv);
        for &what in [What::Fill, What::FillAll].iter() {
            let total = if what == What::Fill { n } else { (n + W - 1) / W * W };
            let extra = $c.rng.range(0, 2 * W);
            let mut b = Ring::<$t>::new(total + extra, 40 * W);
            let after: Vec<$t> = data(&mut $c.rng, extra);
            b[total..].copy_from_slice(&after);
            case!($c, "huge {:?} {} len={} buffer={}", what, stringify!($t), n, b.len());
            let key = format!("huge-{:?}:{}", what, stringify!($t));
            let r = $c.no_panic(&key, || {
                let mut it = (&h[..]).simd_iter(def).simd_map(|v| v ^ fv::$vs(0x55 as $t));
                if what == What::Fill { it.scalar_fill(&mut b[..]).len() } else { it.scalar_fill_all(&mut b[..]).len() }
            });
            if let Some(r) = r {
                $c.same_val(&key, r, total + extra);
                // The last whole vectors, and what is padded
                let from = n / W * W - 8 * W;
                let mut want: Vec<$t> = if what == What::Fill { h.part(from, n) } else { flat(&expected(&h.part(from, n), &dv)) };
                for x in want.iter_mut() { *x = *x ^ 0x55 as $t; }
                $c.same(&key, &b[from..total], &want);
                $c.same(&format!("{}:rest", key), &b[total..], &after);
                $c.count("huge_buffers", 1);
            }
            // One element too few
            let mut b = Ring::<$t>::new(total - 1, 40 * W);
            let key = format!("{}:short", key);
            $c.must_panic(&key, || {
                let mut it = (&h[..]).simd_iter(def);
                if what == What::Fill { it.scalar_fill(&mut b[..]); } else { it.scalar_fill_all(&mut b[..]); }
            });
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(fills, cx);
    if cfg!(target_feature = "avx2") && !cfg!(debug_assertions) {
        huge!(cx, u8, u8s);
    }
    c.finish()
}
