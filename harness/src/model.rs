//! Oracles shared by the monitors of the iterators.
use crate::{Ctx, Elem};

/// The vectors a consumer is to be given for these elements, padding included.
#[inline(never)]
pub fn expected<T: Elem>(elems: &[T], def: &[T]) -> Vec<Vec<T>> {
    let w = def.len();
    let mut r: Vec<Vec<T>> = elems.chunks(w).map(|c| c.to_vec()).collect();
    if let Some(l) = r.last_mut() {
        if l.len() < w {
            let mut v = def[..w - l.len()].to_vec();
            v.extend_from_slice(l);
            *l = v;
        }
    }
    r
}

/// Check what a consumer was given: every element in one lane, in order, the last vector right-aligned.
#[inline(never)]
pub fn presented<T: Elem>(c: &mut Ctx, key: &str, seen: &[Vec<T>], elems: &[T], def: &[T]) -> bool {
    let want = expected(elems, def);
    c.count("vectors_observed", seen.len() as u64);
    if seen.len() != want.len() {
        c.eval(1);
        c.fail(&format!("{}:count", key), format!("{} vectors for {} elements of width {}", seen.len(), elems.len(), def.len()));
        return false;
    }
    for (i, (s, w)) in seen.iter().zip(&want).enumerate() {
        let k = if i + 1 == want.len() { format!("{}:last", key) } else { format!("{}:full", key) };
        if !c.same(&k, s, w) {
            return false;
        }
    }
    true
}

#[inline(never)]
pub fn flat<T: Elem>(v: &[Vec<T>]) -> Vec<T> {
    v.iter().flat_map(|x| x.iter().cloned()).collect()
}

#[inline(never)]
pub fn mapf<T: Elem>(v: &[T]) -> Vec<T> {
    v.iter().map(|x| x.f()).collect()
}

#[inline(never)]
pub fn bits_eq<T: Elem>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}
