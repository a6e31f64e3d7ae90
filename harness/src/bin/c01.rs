//! C01: mapping an iterator and collecting it gives exactly the scalar results, in order.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::iters::SIMDAdapter;
use faster::*;
use vh::*;
#[path = "../interlude.rs"]
mod interlude;

macro_rules! same_type {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let mut lens: Vec<usize> = (0..=$c.pick(4 * W + 3, 12 * W + 3)).collect();
        { let k = $c.pick(22, 400); lens.extend($c.lens(W, k, 1200)); }
        for _ in 0..$c.pick(2, 20) {
            lens.push($c.rng.range(10_000, 70_000));
        }
        lens.push(65536 / std::mem::size_of::<$t>());
        lens.push(4096);
        lens.extend($c.big(W));
        for &n in lens.iter() {
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            let want: Vec<$t> = d.iter().map(|x| x.f()).collect();
            let want2: Vec<$t> = d.iter().map(|x| x.f().g()).collect();
            let tail = $c.rng.chance(2);
            let mut gd = Guarded::new(&d, tail);
            $c.distinct(&("same", stringify!($t), W, n));
            for src in 0..8 {
                case!($c, "map+collect {} len={} src={} tail-guard={}", stringify!($t), n, src, tail);
                let key = format!("collect:{}", stringify!($t));
                let calls = std::cell::Cell::new(0u64);
                let fun = |v: fv::$vs| { calls.set(calls.get() + 1); map_lanes(v, |x| x.f()) };
                let got: Option<Vec<$t>> = match src {
                    0 => $c.no_panic(&key, || (&gd[..]).simd_iter(def).simd_map(fun).scalar_collect()),
                    1 => { let v = d.clone(); $c.no_panic(&key, move || v.into_simd_iter(def).simd_map(fun).scalar_collect()) }
                    2 => { let m = &mut gd[..]; $c.no_panic(&key, move || m.simd_iter_mut(def).simd_map(fun).scalar_collect()) }
                    6 => { let r: &[$t] = &gd[..]; let rr = &r; $c.no_panic(&key, || rr.simd_iter(def).simd_map(fun).scalar_collect()) }
                    7 => { let mut m = &mut gd[..]; let mm = &mut m; $c.no_panic(&key, move || mm.simd_iter_mut(def).simd_map(fun).scalar_collect()) }
                    3 => $c.no_panic(&key, || {
                        // Two maps on top of each other; undo the second for the comparison below
                        let x = (&gd[..]).simd_iter(def).simd_map(fun).simd_map(|v| map_lanes(v, |x| x.g())).scalar_collect();
                        if x.len() == want2.len() && x.iter().zip(&want2).all(|(a, b)| a.bits() == b.bits()) { want.clone() } else { x }
                    }),
                    4 => $c.no_panic(&key, || {
                        // A boxed closure which carries state
                        let mut k = 0usize;
                        let mut it = (&gd[..]).simd_iter(def).simd_map(move |v| { k += 1; map_lanes(v, |x| if k > 0 { x.f() } else { x }) });
                        it.scalar_collect()
                    }),
                    _ => $c.no_panic(&key, || {
                        // No map at all
                        let x = (&gd[..]).simd_iter(def).scalar_collect();
                        if x.len() == d.len() && x.iter().zip(&d).all(|(a, b)| a.bits() == b.bits()) { want.clone() } else { x }
                    }),
                };
                if let Some(got) = got {
                    $c.same(&key, &got, &want);
                }
                if src < 3 || src > 5 {
                    let k = calls.get();
                    $c.same_val(&format!("collect-calls:{}", stringify!($t)), k, ((n + W - 1) / W) as u64);
                    $c.count("closure_calls", k);
                }
            }
            // What is left of an iterator someone used before, and an adapter's scalars
            if n > 0 && n < 3000 {
                let mut cuts = vec![n - 1, n, n / W * W, (n / W * W).saturating_sub(1), $c.rng.range(1, n)];
                if n > W { cuts.push(n - W); cuts.push(n - W + 1); cuts.push(n - W - 1); }
                let at = cuts[$c.rng.below(cuts.len())];
                let junk: fv::$vs = vec_of(&data::<$t>(&mut $c.rng, W));
                for src in 0..5 {
                    case!($c, "collect the rest {} len={} at={} src={}", stringify!($t), n, at, src);
                    let key = format!("collect-rest:{}", stringify!($t));
                    macro_rules! rest { ($it:expr) => {{ let mut it = $it; it.advance(at); it.scalar_collect() }} }
                    let fun = |v: fv::$vs| map_lanes(v, |x| x.f());
                    let got: Option<Vec<$t>> = match src {
                        0 => $c.no_panic(&key, || rest!((&gd[..]).simd_iter(def).simd_map(fun))),
                        1 => { let v = d.clone(); $c.no_panic(&key, move || rest!(v.into_simd_iter(def).simd_map(fun))) }
                        2 => $c.no_panic(&key, || { let mut it = (&gd[..]).simd_iter(def); it.advance(at); it.simd_map(fun).scalar_collect() }),
                        3 => $c.no_panic(&key, || rest!(SIMDAdapter { iter: d.iter().cloned(), scratch: junk, default: def, position: 0 }.simd_map(fun))),
                        _ => $c.no_panic(&key, || {
                            let mut it = SIMDAdapter { iter: d.iter().cloned(), scratch: junk, default: def, position: 0 };
                            let mut r = it.clone().simd_map(fun).scalar_collect();
                            it.advance(at);
                            // Twice: it is exhausted after the first
                            let l = it.scalar_collect().len() + it.scalar_collect().len();
                            assert!(l == n - at, "{} left", l);
                            r.drain(..at);
                            r
                        }),
                    };
                    if let Some(got) = got {
                        $c.same(&key, &got, &want[at..]);
                    }
                }
            }
            if gd.damage() != 0 {
                $c.fail(&format!("collect-damage:{}", stringify!($t)), "wrote next to the input".to_string());
            }
            if !gd.iter().zip(&d).all(|(a, b)| a.bits() == b.bits()) {
                $c.fail(&format!("collect-input:{}", stringify!($t)), "changed the input".to_string());
            }
        }
        }
        go($c);
    }};
}

/// The arithmetic operators of the vectors, as a user writes them.
macro_rules! operators {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        for n in 0..$c.pick(70, 300) {
            let d: Vec<$t> = (0..n).map(|_| ($c.rng.below(11) as u8) as $t).collect();
            case!($c, "operators {} len={}", stringify!($t), n);
            $c.distinct(&("ops", stringify!($t), n));
            let key = format!("operators:{}", stringify!($t));
            if let Some(g) = $c.no_panic(&key, || (&d[..]).simd_iter(fv::$vs(3 as $t))
                .simd_map(|v| v * fv::$vs(3 as $t) + fv::$vs(7 as $t) - v).scalar_collect()) {
                let w: Vec<$t> = d.iter().map(|x| *x * 3 as $t + 7 as $t - *x).collect();
                $c.same(&key, &g, &w);
            }
        }
        }
        go($c);
    }};
}

/// Maps which reinterpret the bytes of each vector as other elements.
macro_rules! width_changing {
    ($c:ident, $t:ident, $vs:ident, $o:ident, $m:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let (ib, ob) = (std::mem::size_of::<$t>(), std::mem::size_of::<$o>());
        let mut lens: Vec<usize> = (0..=$c.pick(3 * W + 1, 8 * W + 1)).collect();
        { let k = $c.pick(5, 60); lens.extend($c.lens(W, k, 900)); }
        for &n in lens.iter() {
            if (n * ib) % ob != 0 {
                continue;
            }
            let d: Vec<$t> = data(&mut $c.rng, n);
            let dv: Vec<$t> = data(&mut $c.rng, W);
            let def: fv::$vs = vec_of(&dv);
            case!($c, "width-changing {}->{} len={}", stringify!($t), stringify!($o), n);
            $c.distinct(&("width", stringify!($t), stringify!($o), W, n));
            let want: Vec<$o> = unsafe { (0..n * ib / ob).map(|i| std::ptr::read_unaligned((d.as_ptr() as *const u8).add(i * ob) as *const $o)).collect() };
            let key = format!("width:{}->{}", stringify!($t), stringify!($o));
            if let Some(got) = $c.no_panic(&key, || (&d[..]).simd_iter(def).simd_map(|v| v.$m()).scalar_collect()) {
                $c.same(&key, &got, &want);
            }
        }
        }
        go($c);
    }};
}

macro_rules! widths_from {
    ($c:ident, $t:ident, $vs:ident) => {
        width_changing!($c, $t, $vs, u8, be_u8s); width_changing!($c, $t, $vs, i8, be_i8s);
        width_changing!($c, $t, $vs, u16, be_u16s); width_changing!($c, $t, $vs, i16, be_i16s);
        width_changing!($c, $t, $vs, u32, be_u32s); width_changing!($c, $t, $vs, i32, be_i32s);
        width_changing!($c, $t, $vs, u64, be_u64s); width_changing!($c, $t, $vs, i64, be_i64s);
    };
}

/// Maps which keep the number of lanes and change their size.
macro_rules! lane_keeping {
    ($c:ident, $t:ident, $vs:ident, $o:ident, $ov:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        if <fv::$ov as Packed>::WIDTH == W {
            for n in 0..$c.pick(5 * W, 20 * W) {
                let d: Vec<$t> = data(&mut $c.rng, n);
                case!($c, "lane-keeping {}->{} len={}", stringify!($t), stringify!($ov), n);
                $c.distinct(&("lanes", stringify!($t), stringify!($ov), n));
                let want: Vec<$o> = d.iter().map(|x| *x as $o).collect();
                let key = format!("lane-keeping:{}->{}", stringify!($t), stringify!($o));
                if let Some(got) = $c.no_panic(&key, || (&d[..]).simd_iter(fv::$vs(1 as $t)).simd_map(|v| {
                    let l: Vec<$o> = lanes(&v).into_iter().map(|x| x as $o).collect();
                    vec_of::<fv::$ov>(&l)
                }).scalar_collect()) {
                    $c.same(&key, &got, &want);
                }
            }
        }
        }
        go($c);
    }};
}

/// More results than 32 bits can count. One build only: it takes seconds and gigabytes.
macro_rules! huge {
    ($c:ident, $t:ident, $vs:ident) => {{
        #[inline(never)]
        fn go($c: &mut Ctx) {
        const W: usize = <fv::$vs as Packed>::WIDTH;
        let n = (1usize << 32) + 5 * W + $c.rng.below(3 * W) + 1;
        case!($c, "huge collect {} of {}", stringify!($t), n);
        let h = Huge::<$t>::new(n, 50 * W);
        let dv: Vec<$t> = data(&mut $c.rng, W);
        let def: fv::$vs = vec_of(&dv);
        let key = format!("huge:{}", stringify!($t));
        if let Some(got) = $c.no_panic(&key, || (&h[..]).simd_iter(def).simd_map(|v| v ^ fv::$vs(0x55 as $t)).scalar_collect()) {
            $c.same_val(&format!("{}:len", key), got.len(), n);
            for &(x, y) in [(0, 40 * W), ((1usize << 31) - 40 * W, (1 << 31) + 40 * W), ((1 << 32) - 40 * W, n)].iter() {
                let mut want = h.part(x, y);
                for x in want.iter_mut() { *x = *x ^ 0x55 as $t; }
                $c.same(&key, &got[x..y.min(got.len())], &want);
            }
            $c.count("huge_collections", 1);
        }
        }
        go($c);
    }};
}

fn main() {
    let mut c = Ctx::from_args();
    interludes(interlude::run);
    let cx = &mut c;
    natural_types!(same_type, cx);
    natural_types!(operators, cx);
    widths_from!(cx, u8, u8s); widths_from!(cx, i8, i8s); widths_from!(cx, u16, u16s); widths_from!(cx, i16, i16s);
    widths_from!(cx, u32, u32s); widths_from!(cx, i32, i32s); widths_from!(cx, u64, u64s); widths_from!(cx, i64, i64s);
    lane_keeping!(cx, u32, u32s, f64, f64x4); lane_keeping!(cx, u32, u32s, f64, f64x8);
    lane_keeping!(cx, i32, i32s, i64, i64x4); lane_keeping!(cx, i32, i32s, i64, i64x8);
    lane_keeping!(cx, u8, u8s, u16, u16x16); lane_keeping!(cx, u8, u8s, u16, u16x32);
    lane_keeping!(cx, i64, i64s, i32, i32x4); lane_keeping!(cx, f64, f64s, f32, f32x4);
    lane_keeping!(cx, i16, i16s, i8, i8x16); lane_keeping!(cx, i16, i16s, u32, u32x8); lane_keeping!(cx, i16, i16s, u32, u32x16);
    if cfg!(target_feature = "avx2") && !cfg!(debug_assertions) {
        huge!(cx, u8, u8s);
    }
    c.finish()
}
