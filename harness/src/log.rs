//! The log of the results of every operation and pipeline, for comparisons between builds.
use std::collections::BTreeMap;
use std::io::Write;
use vh::*;

pub struct Log<'a> {
    pub c: &'a mut Ctx,
    pub results: BTreeMap<(&'static str, &'static str), Vec<u8>>,
    pub rounds: usize,
    pub approx: bool,
}

impl<'a> super::ops::Sink for Log<'a> {
    fn put(&mut self, ty: &'static str, op: &'static str, bytes: &[u8], float: usize) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut one = |v: u64| { h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 29; };
        match float {
            4 => for b in bytes.chunks(4) {
                let x = f32::from_bits(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24);
                one(if x != x { 0x7FC0_0000 } else { x.to_bits() as u64 });
            },
            8 => for b in bytes.chunks(8) {
                let mut v = 0u64;
                for i in 0..8 { v |= (b[i] as u64) << (8 * i); }
                one(if f64::from_bits(v).is_nan() { 0x7FF8_0000_0000_0000 } else { v });
            },
            _ => for b in bytes { one(*b as u64 + 1); },
        }
        one(bytes.len() as u64);
        self.c.eval(1);
        self.c.events += 1;
        self.results.entry((ty, op)).or_insert_with(Vec::new).extend_from_slice(&h.to_le_bytes());
    }
    fn rounds(&self) -> usize { self.rounds }
    fn seed(&self) -> u64 { self.c.seed }
    fn on(&mut self, ty: &'static str) { case!(self.c, "operations of {}", ty); }
    fn approximations(&self) -> bool { self.approx }
}


/// Logs everything to results.bin.
pub fn record(c: &mut Ctx, vectors: usize, lengths: usize, approx: bool) {
    let mut l = Log { c, results: BTreeMap::new(), rounds: vectors, approx };
    super::ops::vectors(&mut l);
    l.rounds = lengths;
    super::ops::iterators(&mut l);
    let Log { c, results, .. } = l;
    let mut f = std::io::BufWriter::new(std::fs::File::create("results.bin").unwrap());
    for ((ty, op), r) in &results {
        c.distinct(&(ty, op));
        c.count("operations_compared", 1);
        for b in r.chunks(8) { let mut v = 0; for i in 0..8 { v |= (b[i] as u64) << (8 * i); } c.mix(v); }
        writeln!(f, "{} {} {}", ty, op, r.len()).unwrap();
        f.write_all(r).unwrap();
    }
    f.flush().unwrap();
}
