//! C19: every instruction a build executes, one at a time, against the extensions of the CPU it is built for.
extern crate faster;
#[macro_use]
extern crate vh;
#[path = "../ops.rs"]
mod ops;
use std::collections::BTreeMap;
use vh::*;

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn raise(sig: i32) -> i32;
}

#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }

const SIGTRAP: i32 = 5;

/// An extension an instruction needs beyond SSE2.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(u8)]
enum Ext { Base, Sse3, Ssse3, Sse41, Sse42, Popcnt, Sse4a, Aes, Pclmul, Sha, Gfni, Movbe, Adx, Lzcnt, Avx, Bmi, Fma4, Xop, Wide512, Rdseed, Amd3d, VexNew, Avx2, Fma, F16c }
use Ext::*;

/// Whether the CPU this program was built for has it.
fn has(e: Ext) -> bool {
    match e {
        Base => true,
        Sse3 => cfg!(target_feature = "sse3"),
        Ssse3 => cfg!(target_feature = "ssse3"),
        Sse41 => cfg!(target_feature = "sse4.1"),
        Sse42 => cfg!(target_feature = "sse4.2"),
        Popcnt => cfg!(target_feature = "popcnt"),
        Avx => cfg!(target_feature = "avx"),
        Avx2 => cfg!(target_feature = "avx2"),
        Fma => cfg!(target_feature = "fma"),
        Bmi => cfg!(target_feature = "bmi1"),
        Lzcnt => cfg!(target_feature = "lzcnt"),
        Pclmul => cfg!(target_feature = "pclmulqdq"),
        Aes => cfg!(target_feature = "aes"),
        Movbe | F16c => cfg!(target_feature = "avx2"),
        _ => false,
    }
}

/// The extension of an instruction with a VEX prefix: map, opcode, L, and whether its operand is in memory.
fn vex(map: u8, o: u8, wide: bool, mem: bool) -> Ext {
    let by_width = if wide { Avx2 } else { Avx };
    match (map, o) {
        (1, 0x60..=0x6D) | (1, 0x70..=0x76) => by_width,
        (1, 0xD0) | (1, 0xD6) | (1, 0xE6) | (1, 0xE7) | (1, 0xF0) => Avx,
        (1, 0xD1..=0xFE) => by_width,
        (1, _) => Avx,
        (2, 0x00..=0x0B) | (2, 0x1C..=0x1E) | (2, 0x20..=0x25) | (2, 0x28..=0x2B) | (2, 0x30..=0x35) | (2, 0x37..=0x41) => by_width,
        (2, 0x0C..=0x0F) | (2, 0x17) | (2, 0x1A) | (2, 0x2C..=0x2F) => Avx,
        (2, 0x13) | (3, 0x1D) => F16c,
        (2, 0x18) | (2, 0x19) => if mem { Avx } else { Avx2 },
        (2, 0x16) | (2, 0x36) | (2, 0x45..=0x47) | (2, 0x58..=0x5A) | (2, 0x78) | (2, 0x79) | (2, 0x8C) | (2, 0x8E) | (2, 0x90..=0x93) => Avx2,
        (2, 0x96..=0x9F) | (2, 0xA6..=0xAF) | (2, 0xB6..=0xBF) => Fma,
        (2, 0xDB..=0xDF) | (3, 0x44) | (3, 0xDF) => if wide { VexNew } else { Avx },
        (2, 0xF2..=0xF7) | (3, 0xF0) => Bmi,
        (2, 0xCF) | (3, 0xCE) | (3, 0xCF) => Gfni,
        (3, 0x00..=0x02) | (3, 0x38) | (3, 0x39) | (3, 0x46) => Avx2,
        (3, 0x0E) | (3, 0x0F) | (3, 0x42) | (3, 0x4C) => by_width,
        (3, 0x04..=0x22) | (3, 0x40) | (3, 0x41) | (3, 0x4A) | (3, 0x4B) | (3, 0x60..=0x63) => Avx,
        (3, 0x48) | (3, 0x49) | (3, 0x5C..=0x5F) | (3, 0x68..=0x6F) | (3, 0x78..=0x7F) => Fma4,
        _ => VexNew,
    }
}

/// The extension the instruction at `p` belongs to.
unsafe fn classify(p: *const u8) -> Ext {
    let mut i = 0;
    let (mut op, mut f2, mut f3) = (false, false, false);
    loop {
        match *p.add(i) {
            0x66 => op = true,
            0xF2 => { f2 = true; f3 = false }
            0xF3 => { f3 = true; f2 = false }
            0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => (),
            _ => break,
        }
        i += 1;
        if i > 14 { return Base; }
    }
    if *p.add(i) & 0xF0 == 0x40 { i += 1; }
    let b = |k: usize| *p.add(i + k);
    match b(0) {
        0x62 => Wide512,
        0x8F if b(1) & 0x38 != 0 => Xop,
        0xC5 => vex(1, b(2), b(1) & 4 != 0, b(3) < 0xC0),
        0xC4 => vex(b(1) & 31, b(3), b(2) & 4 != 0, b(4) < 0xC0),
        0xDB | 0xDD | 0xDF if b(1) & 0x38 == 0x08 && (b(1) < 0xC0) => Sse3,
        0x0F => match b(1) {
            0x0F => Amd3d,
            0x38 => match b(2) {
                0x00..=0x0B | 0x1C..=0x1E => Ssse3,
                0x37 => Sse42,
                0x10..=0x41 => Sse41,
                0xDB..=0xDF => Aes,
                0xC8..=0xCD => Sha,
                0xCF => Gfni,
                0xF0 | 0xF1 => if f2 { Sse42 } else { Movbe },
                0xF6 => Adx,
                _ => VexNew,
            },
            0x3A => match b(2) {
                0x0F => Ssse3,
                0x44 => Pclmul,
                0xDF => Aes,
                0xCC => Sha,
                0xCE | 0xCF => Gfni,
                0x60..=0x63 => Sse42,
                0x08..=0x42 => Sse41,
                _ => VexNew,
            },
            0xD0 | 0x7C | 0x7D if f2 || op => Sse3,
            0xF0 if f2 => Sse3,
            0x12 if f2 || f3 => Sse3,
            0x16 if f3 => Sse3,
            0xB8 if f3 => Popcnt,
            // (F3 0F BC is what compilers write for a bsf; it works everywhere)
            0xBD if f3 => Lzcnt,
            0x2B if f2 || f3 => Sse4a,
            0x78 | 0x79 if f2 || op => Sse4a,
            0xC7 if b(2) & 0x38 == 0x38 && b(2) >= 0xC0 => Rdseed,
            _ => Base,
        },
        _ => Base,
    }
}

const CPU: &str = if cfg!(target_feature = "avx2") { "haswell" } else if cfg!(target_feature = "avx") { "sandybridge" } else if cfg!(target_feature = "sse4.2") { "nehalem" }
    else if cfg!(target_feature = "sse4.1") { "penryn" } else if cfg!(target_feature = "ssse3") { "core2" } else if cfg!(target_feature = "sse3") { "nocona" } else { "x86-64" };

static mut LO: usize = 0;
static mut HI: usize = 0;
static mut SEEN: *mut u8 = std::ptr::null_mut();
static mut WANTED: bool = false;
static mut STEPS: u64 = 0;
static mut OURS: u64 = 0;
static mut SITES: u64 = 0;
static mut KINDS: [u64; 32] = [0; 32];
static mut BAD: [(usize, Ext); 64] = [(0, Base); 64];
static mut NBAD: usize = 0;

extern "C" fn trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    unsafe {
        let rip = *(uc.add(168) as *const usize);
        let efl = uc.add(176) as *mut u64;
        if WANTED { *efl |= 0x100 } else { *efl &= !0x100; return }
        STEPS += 1;
        if rip >= LO && rip < HI {
            OURS += 1;
            let s = SEEN.add(rip - LO);
            if *s == 0 {
                *s = 1;
                SITES += 1;
                let e = classify(rip as *const u8);
                KINDS[e as usize] += 1;
                if !has(e) && NBAD < 64 { BAD[NBAD] = (rip, e); NBAD += 1; }
            }
        }
    }
}

struct Step<'a> { c: &'a mut Ctx, rounds: usize, reported: usize, ops: BTreeMap<(&'static str, &'static str), u64>, steps: u64 }

fn single_steps(on: bool) {
    unsafe {
        std::ptr::write_volatile(&mut WANTED, on);
        std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
        if on { raise(SIGTRAP); }
    }
}

impl<'a> ops::Sink for Step<'a> {
    fn put(&mut self, ty: &'static str, op: &'static str, _bytes: &[u8], _float: usize) {
        single_steps(false);
        let (bad, from, now) = unsafe { (NBAD, self.reported, OURS) };
        for i in from..bad {
            let (rip, e) = unsafe { BAD[i] };
            let bytes: Vec<String> = (0..12).map(|k| format!("{:02x}", unsafe { *((rip + k) as *const u8) })).collect();
            self.c.fail(&format!("{:?}:{}:{}", e, ty, op), format!("{} of {} executes an instruction of {:?} in a build for {}: {}", op, ty, e, CPU, bytes.join(" ")));
        }
        self.reported = bad;
        *self.ops.entry((ty, op)).or_insert(0) += now - self.steps;
        self.steps = now;
        self.c.eval(1);
        single_steps(true);
    }
    fn rounds(&self) -> usize { self.rounds }
    fn seed(&self) -> u64 { self.c.seed }
    fn on(&mut self, ty: &'static str) {
        single_steps(false);
        case!(self.c, "operations of {}", ty);
        single_steps(true);
    }
    fn approximations(&self) -> bool { true }
    fn pause(&mut self, pause: bool) { single_steps(!pause); }
}

/// What the decoder says of known instructions.
fn self_test() {
    let t: &[(&[u8], Ext)] = &[
        (&[0x66, 0x0F, 0x38, 0x1C, 0xC1], Ssse3), (&[0x66, 0x44, 0x0F, 0x38, 0x00, 0xC1], Ssse3), (&[0x66, 0x0F, 0x3A, 0x0F, 0xC1, 0x08], Ssse3),
        (&[0xF2, 0x0F, 0x7C, 0xC1], Sse3), (&[0x66, 0x0F, 0x7D, 0xC1], Sse3), (&[0xF2, 0x0F, 0x12, 0xC1], Sse3), (&[0x0F, 0x12, 0xC1], Base), (&[0xF3, 0x0F, 0x16, 0xC1], Sse3),
        (&[0x66, 0x0F, 0x38, 0x20, 0xC1], Sse41), (&[0x66, 0x0F, 0x3A, 0x0B, 0xC1, 0], Sse41), (&[0x66, 0x0F, 0x38, 0x37, 0xC1], Sse42),
        (&[0xC5, 0xF8, 0x58, 0xC1], Avx), (&[0xC4, 0xE2, 0x7D, 0x1C, 0xC1], Avx2), (&[0xC4, 0xE2, 0x79, 0x1C, 0xC1], Avx), (&[0xC5, 0xF5, 0xFE, 0xC2], Avx2), (&[0xC5, 0xF1, 0xFE, 0xC2], Avx), (&[0xC5, 0xFD, 0x6F, 0x07], Avx), (&[0xC5, 0xF8, 0x77], Avx),
        (&[0xC4, 0xE3, 0x7D, 0x39, 0xC1, 1], Avx2), (&[0xC4, 0xE3, 0x7D, 0x19, 0xC1, 1], Avx), (&[0xC4, 0xE2, 0x7D, 0x18, 0xC1], Avx2), (&[0xC4, 0xE2, 0x7D, 0x18, 0x07], Avx), (&[0xC4, 0xE2, 0x71, 0xA8, 0xC2], Fma), (&[0xC4, 0xE3, 0xFD, 0x00, 0xC1, 0xD8], Avx2),
        (&[0xC4, 0xE3, 0x7D, 0x08, 0xC1, 0x02], Avx), (&[0x62, 0xF1, 0x7C, 0x48, 0x58, 0xC1], Wide512), (&[0xC4, 0xE2, 0x70, 0xF2, 0xC1], Bmi),
        (&[0xF3, 0x48, 0x0F, 0xB8, 0xC1], Popcnt), (&[0xF3, 0x0F, 0xBC, 0xC1], Base), (&[0xF3, 0x48, 0x0F, 0xBD, 0xC1], Lzcnt),
        (&[0x66, 0x0F, 0xFE, 0xC1], Base), (&[0xF3, 0x0F, 0x6F, 0x07], Base), (&[0x48, 0x8B, 0x07], Base), (&[0x0F, 0x1F, 0x40, 0x00], Base), (&[0xE8, 0, 0, 0, 0], Base), (&[0x66, 0x0F, 0x70, 0xC1, 0x0E], Base),
    ];
    for (b, e) in t {
        let mut x = [0x90u8; 16];
        x[..b.len()].copy_from_slice(b);
        assert_eq!(unsafe { classify(x.as_ptr()) }, *e, "{:x?}", b);
    }
}

fn main() {
    let mut c = Ctx::from_args();
    self_test();
    case!(c, "start");
    bump_allocator();
    let exe = std::fs::read_link("/proc/self/exe").unwrap().to_string_lossy().to_string();
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        if l.ends_with(&exe) && l.split_whitespace().nth(1).map_or(false, |p| p.as_bytes()[2] == b'x') {
            let r: Vec<usize> = l.split_whitespace().next().unwrap().split('-').map(|x| usize::from_str_radix(x, 16).unwrap()).collect();
            unsafe { LO = r[0]; HI = r[1]; }
        }
    }
    unsafe {
        assert!(HI > LO);
        SEEN = Box::leak(vec![0u8; HI - LO].into_boxed_slice()).as_mut_ptr();
        let a = SigAction { handler: trap as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(sigaction(SIGTRAP, &a, std::ptr::null_mut()), 0);
    }
    let (v, l) = (c.pick(2, 40), c.pick(4, 120));
    let mut s = Step { c: &mut c, rounds: v, reported: 0, ops: BTreeMap::new(), steps: 0 };
    ops::vectors(&mut s);
    s.rounds = l;
    ops::iterators(&mut s);
    single_steps(false);
    let ops = s.ops;
    for (k, n) in &ops {
        c.distinct(k);
        if *n == 0 { c.fail("nothing-executed", format!("{:?} was not observed", k)); }
    }
    let (steps, ours, sites, kinds) = unsafe { (STEPS, OURS, SITES, KINDS) };
    c.events += steps;
    c.count("instructions_stepped", steps);
    c.count("of_the_program", ours);
    c.count("distinct_instructions", sites);
    c.count("operations", ops.len() as u64);
    for (i, n) in [Base, Sse3, Ssse3, Sse41, Sse42, Popcnt, Sse4a, Aes, Pclmul, Sha, Gfni, Movbe, Adx, Lzcnt, Avx, Bmi, Avx2, Fma].iter().map(|e| (e, kinds[*e as usize])) {
        if n > 0 { c.count(&format!("distinct_{:?}", i), n); }
    }
    c.finish()
}
