//! C11: pattern constructors and merges.
extern crate faster;
#[macro_use]
extern crate vh;
use faster::arch::current::vecs as fv;
use faster::intrin::merge::Merge;
use faster::vecs::Packable;
use faster::*;
use vh::*;

const M: usize = std::usize::MAX;

#[inline(never)]
fn patterns<V: Packed<Scalar = T> + Pattern, T: Packable + Elem>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    let ones = T::from_bits64(!0);
    let zero = T::from_bits64(0);
    case!(c, "{} constants", name);
    let k = format!("{}:ones", name);
    if let Some(v) = c.no_panic(&k, || V::ones()) { c.same(&k, &lanes(&v), &vec![ones; w]); }
    let k = format!("{}:zeroes", name);
    if let Some(v) = c.no_panic(&k, || V::zeroes()) { c.same(&k, &lanes(&v), &vec![zero; w]); }
    for off in 0..w + 1 {
        case!(c, "{}::partition_mask({})", name, off);
        let k = format!("{}:partition_mask", name);
        c.distinct(&(T::NAME, w, off));
        let want: Vec<T> = (0..w).map(|i| if i < off { zero } else { ones }).collect();
        if let Some(v) = c.no_panic(&k, || V::partition_mask(off)) { c.same(&k, &lanes(&v), &want); }
    }
    let n = c.pick(30, 600);
    for i in 0..n {
        let hi = T::rand(&mut c.rng);
        let lo = if i == 0 { T::from_bits64(!hi.bits()) } else { T::rand(&mut c.rng) };
        case!(c, "{}::halfs({:?}, {:?})", name, hi, lo);
        c.distinct(&(T::NAME, w, hi.bits(), lo.bits()));
        let k = format!("{}:halfs", name);
        let want: Vec<T> = (0..w).map(|i| if i < w / 2 { hi } else { lo }).collect();
        if let Some(v) = c.no_panic(&k, || V::halfs(hi, lo)) { c.same(&k, &lanes(&v), &want); }
        let k = format!("{}:interleave", name);
        let want: Vec<T> = (0..w).map(|i| if i % 2 == 0 { hi } else { lo }).collect();
        if let Some(v) = c.no_panic(&k, || V::interleave(hi, lo)) { c.same(&k, &lanes(&v), &want); }
        for off in 0..w + 1 {
            if w > 16 && i > 1 && !c.rng.chance(6) { continue; }
            case!(c, "{}::partition({:?}, {:?}, {})", name, hi, lo, off);
            let k = format!("{}:partition", name);
            let want: Vec<T> = (0..w).map(|i| if i < off { hi } else { lo }).collect();
            if let Some(v) = c.no_panic(&k, || V::partition(hi, lo, off)) { c.same(&k, &lanes(&v), &want); }
        }
    }
}

#[inline(never)]
fn merges<V: Packed<Scalar = T> + Merge + Pattern, T: Packable + Elem>(c: &mut Ctx, name: &str) {
    let w = V::WIDTH;
    for i in 0..c.pick(40, 1000) {
        // The operands differ in every byte of every lane
        let mut a: Vec<T> = (0..w).map(|_| T::rand(&mut c.rng)).collect();
        let b: Vec<T> = a.iter().map(|x| T::from_bits64(!x.bits())).collect();
        if i % 2 == 1 { a = (0..w).map(|_| T::rand(&mut c.rng)).collect(); }
        let (va, vb): (V, V) = (vec_of(&a), vec_of(&b));
        case!(c, "{} {:?} and {:?}", name, a, b);
        c.distinct(&(T::NAME, w, &a.iter().map(|e| e.bits()).collect::<Vec<u64>>()));
        let k = format!("{}:merge_halves", name);
        let want: Vec<T> = (0..w).map(|i| if i < w / 2 { a[i] } else { b[i] }).collect();
        if let Some(v) = c.no_panic(&k, || va.merge_halves(vb)) { c.same(&k, &lanes(&v), &want); }
        let k = format!("{}:merge_interleaved", name);
        let want: Vec<T> = (0..w).map(|i| if i % 2 == 0 { a[i] } else { b[i] }).collect();
        if let Some(v) = c.no_panic(&k, || va.merge_interleaved(vb)) { c.same(&k, &lanes(&v), &want); }
        let k = format!("{}:merge_partitioned", name);
        for off in 0..w + 1 {
            if w > 16 && i > 3 && !c.rng.chance(4) { continue; }
            case!(c, "{:?}.merge_partitioned({:?}, {})", va, vb, off);
            let want: Vec<T> = (0..w).map(|i| if i < off { a[i] } else { b[i] }).collect();
            if let Some(v) = c.no_panic(&k, || va.merge_partitioned(vb, off)) { c.same(&k, &lanes(&v), &want); }
        }
        // Beyond the width: refused, or everything from the first operand; never anything else
        let mut hostile: Vec<usize> = vec![w + 1, 2 * w, M, M - 1, M / 2, M / 2 + 1, (M / T::BYTES).saturating_add(1), 1 << 63, M - c.rng.below(200), 64 / T::BYTES + 1, 128, 129];
        for _ in 0..4 { hostile.push(c.rng.next() as usize); }
        for &o in hostile.iter() {
            if o <= w { continue; }
            case!(c, "{:?}.merge_partitioned({:?}, {})", va, vb, o);
            match c.guarded(|| va.merge_partitioned(vb, o)) {
                Ok(v) => { c.same(&format!("{}:merge-outside", name), &lanes(&v), &a); }
                Err(_) => { c.eval(1); c.count("refused", 1); }
            }
            match c.guarded(|| V::partition(a[0], b[0], o)) {
                Ok(v) => { c.same(&format!("{}:partition-outside", name), &lanes(&v), &vec![a[0]; w]); }
                Err(_) => { c.eval(1); c.count("refused", 1); }
            }
            match c.guarded(|| V::partition_mask(o)) {
                Ok(v) => { c.same(&format!("{}:partition_mask-outside", name), &lanes(&v), &vec![T::from_bits64(0); w]); }
                Err(_) => { c.eval(1); c.count("refused", 1); }
            }
        }
    }
}

macro_rules! one_type {
    ($c:ident, $t:ident, $v:ident) => {
        patterns::<fv::$v, $t>($c, stringify!($v));
        merges::<fv::$v, $t>($c, stringify!($v));
    };
}

fn main() {
    let mut c = Ctx::from_args();
    let cx = &mut c;
    all_vectors!(one_type, cx);
    c.finish()
}
