//! C22: with and without tracing, every result logged for a comparison; with it, what is announced, where and
//! by whom, also when the announcements cannot be delivered.
extern crate faster;
#[macro_use]
extern crate vh;
#[path = "../log.rs"]
mod log;
#[path = "../ops.rs"]
mod ops;
use faster::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};
use vh::*;

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn open(p: *const u8, flags: i32, mode: i32) -> i32;
}

/// Only a digest of the results: threads cannot share a recorder.
struct Digest { h: u64, n: u64, seed: u64, rounds: usize, order: Vec<u64> }

impl ops::Sink for Digest {
    fn put(&mut self, _: &'static str, _: &'static str, bytes: &[u8], float: usize) {
        self.n += 1;
        // NaNs are left to the comparison of the logs
        if float == 0 { for b in bytes { self.h = (self.h ^ *b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15); self.h ^= self.h >> 29; } }
    }
    fn rounds(&self) -> usize { self.rounds }
    fn seed(&self) -> u64 { self.seed }
    fn on(&mut self, _: &'static str) { self.order.push(self.h); }
    fn approximations(&self) -> bool { true }
}

/// Uses one operation of one type only, or lists them all.
struct Only { seed: u64, what: Option<(&'static str, &'static str)>, all: Vec<(&'static str, &'static str)> }

impl ops::Sink for Only {
    fn put(&mut self, _: &'static str, _: &'static str, _: &[u8], _: usize) {}
    fn rounds(&self) -> usize { if self.what.is_some() { 2 } else { 1 } }
    fn seed(&self) -> u64 { self.seed }
    fn approximations(&self) -> bool { true }
    fn wants(&mut self, ty: &'static str, op: &'static str) -> bool {
        match self.what { Some(w) => w == (ty, op), None => { self.all.push((ty, op)); false } }
    }
}

fn work(seed: u64, rounds: usize, backwards: bool) -> (u64, u64) {
    let mut d = Digest { h: 1, n: 0, seed, rounds, order: Vec::new() };
    if backwards { ops::iterators(&mut d); }
    ops::vectors(&mut d);
    if !backwards { ops::iterators(&mut d); }
    (if backwards { 0 } else { d.h }, d.n)
}

/// How often each place is announced in a text which consists of announcements only.
fn announced(t: &str) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    let mut rest = t;
    loop {
        let i = match rest.find(|c| c == '⛔' || c == '🚄') { Some(i) => i, None => break };
        rest = &rest[i..];
        let mut e = rest.find(").").map_or(rest.len(), |j| j + 2);
        if let Some(k) = rest[4.min(rest.len())..].find(|c| c == '⛔' || c == '🚄') { e = e.min(k + 4); }
        if !rest.is_char_boundary(e) { e = rest.len(); }
        *m.entry(rest[..e].to_string()).or_insert(0) += 1;
        rest = &rest[e..];
    }
    m
}

/// How many announcements were begun, mixed or not.
fn icons(t: &str) -> usize { t.chars().filter(|c| *c == '⛔' || *c == '🚄').count() }

/// Where the library has to write its trace.
const FILE: &str = match option_env!("FASTER_DEBUG_FILE") { Some(f) => f, None => "faster-debug.txt" };

fn spool() -> String {
    std::fs::read("stdout.txt").map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default()
}

fn file() -> String {
    std::fs::read(FILE).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default()
}

fn fresh() {
    let _ = std::fs::remove_file(FILE);
    unsafe {
        let fd = open(b"stdout.txt\0".as_ptr(), 0o1 | 0o100 | 0o1000 | 0o2000, 0o644);
        assert!(fd >= 0);
        dup2(fd, 1);
        if fd != 1 { close(fd); }
    }
}

fn check(c: &mut Ctx, want: &Option<Vec<String>>, times: u64, complete: bool) -> Vec<String> {
    let (s, f) = (announced(&spool()), announced(&file()));
    c.events += s.values().sum::<u64>() + f.values().sum::<u64>();
    for (m, to) in &[(&s, "standard output"), (&f, "the file")] {
        c.eval(m.len() as u64);
        for (k, n) in m.iter() {
            if *n > times { c.fail("announced-again", format!("{} threads announced {} times on {}: {}", times, n, to, k)); }
            if complete && *n < times { c.fail("not-announced", format!("{} threads announced only {} times on {}: {}", times, n, to, k)); }
        }
        if let Some(w) = want {
            for k in w { if !m.contains_key(k) { c.fail("not-announced", format!("{} is missing on {}", k, to)); } }
            for k in m.keys() { if !w.contains(k) { c.fail("announced-elsewhere", format!("{} only appears once the threads are not the first, on {}", k, to)); } }
        }
    }
    for k in s.keys() { c.distinct(k); }
    s.keys().cloned().collect()
}

/// Calls into the library while its thread's local variables are being destroyed.
struct Late(std::sync::mpsc::Sender<Vec<f32>>);
impl Drop for Late {
    fn drop(&mut self) {
        let d = [1.5f32, -2.5, 3.5, 4.5, -5.5];
        let r = (&d[..]).simd_iter(f32s(0.0)).simd_map(|v| v.abs() + f32s(1.0)).scalar_collect();
        let _ = self.0.send(r);
    }
}
thread_local!(static LATE: std::cell::RefCell<Option<Late>> = std::cell::RefCell::new(None));

fn main() {
    let mut c = Ctx::from_args();
    let (v, l) = (c.pick(200, 10000), c.pick(100, 2000));
    let announce = c.args.iter().any(|x| x == "announce");
    let seed = c.seed;
    if !announce {
        log::record(&mut c, v, l, true);
        return c.finish();
    }
    case!(c, "one thread");
    fresh();
    log::record(&mut c, v, l, true);
    let places = check(&mut c, &None, 1, true);
    c.count("places", places.len() as u64);
    if places.len() < 30 { c.fail("silent", format!("every operation was used but only {} places were announced", places.len())); }
    let want = Some(places);
    // What each operation announces when it is the first and the only one of its thread, it also announces among others
    case!(c, "one thread for each operation");
    fresh();
    let mut list = Only { seed, what: None, all: Vec::new() };
    ops::vectors(&mut list);
    ops::iterators(&mut list);
    list.all.sort();
    list.all.dedup();
    for w in list.all {
        case!(c, "a thread for {} of {}", w.1, w.0);
        let r = std::thread::spawn(move || { let mut o = Only { seed, what: Some(w), all: Vec::new() }; ops::vectors(&mut o); if w.1.ends_with("pipelines") { ops::iterators(&mut o); } }).join();
        if r.is_err() { c.fail("panic", format!("a traced thread panicked in {} of {}", w.1, w.0)); }
        c.count("operations_alone", 1);
    }
    let alone = announced(&spool());
    for k in alone.keys() {
        c.eval(1);
        if !want.as_ref().unwrap().contains(k) { c.fail("not-announced", format!("a thread which comes to this place after others does not announce it: {}", k)); }
    }
    let n = c.pick(6, 40);
    for i in 0..n {
        case!(c, "thread {} of a sequence", i);
        fresh();
        let s = seed + i as u64 % 3;
        let r = std::thread::spawn(move || (work(s, 8, false), work(s + 1, 9, true), work(s, 8, false))).join();
        match r {
            Ok((a, _, b)) => { c.eval(a.1); if a != b { c.fail("result", "the results were different the second time".to_string()); } }
            Err(_) => c.fail("panic", "a traced thread panicked".to_string()),
        }
        check(&mut c, &want, 1, true);
    }
    // What the file held before stays there
    for size in &[1usize, 100_000, 20_000_000] {
        case!(c, "a trace file of {} bytes", size);
        fresh();
        let mut old: Vec<u8> = (0..*size).map(|i| b"earlier trace, "[i % 15]).collect();
        *old.last_mut().unwrap() = b'\n';
        std::fs::write(FILE, &old).unwrap();
        let r = std::thread::spawn(move || work(seed, 8, false)).join();
        if r.is_err() { c.fail("panic", "a traced thread panicked".to_string()); }
        let now = std::fs::read(FILE).unwrap_or_default();
        c.eval(old.len() as u64);
        if !now.starts_with(&old) { c.fail("earlier-trace", format!("of {} bytes the file held before, not all are there any more ({} in all)", size, now.len())); }
        c.same_val("announced-in-file", icons(&file()), icons(&spool()));
        c.count("trace_files_appended_to", 1);
    }
    let (plain, _) = work(seed, 8, false);
    for i in 0..n {
        let k = 2 + i % 6;
        case!(c, "{} threads at once", k);
        fresh();
        let bar = Arc::new(Barrier::new(k));
        let ts: Vec<_> = (0..k).map(|j| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); (work(seed + 5, 4, (i + j) % 2 == 0), work(seed, 8, false)) }) }).collect();
        for t in ts {
            match t.join() {
                Ok((_, b)) => { c.eval(b.1); if b.0 != plain { c.fail("result", "the results are different in one of several threads".to_string()); } }
                Err(_) => c.fail("panic", "a traced thread panicked".to_string()),
            }
        }
        // The lines of several threads may mix in the file
        check(&mut c, &None, k as u64, false);
        let s = announced(&spool());
        let (on, to) = (icons(&spool()), icons(&file()));
        c.same_val("announced-in-file", to, on);
        for p in want.as_ref().unwrap() { c.eval(1); if s.get(p) != Some(&(k as u64)) { c.fail("announced-by-threads", format!("{} threads announced {:?} times: {}", k, s.get(p), p)); } }
    }
    // Announcements nobody can receive change nothing
    for how in &["pipe", "full", "closed", "directory", "no directory"] {
        case!(c, "undeliverable announcements: {}", how);
        fresh();
        unsafe {
            match *how {
                "pipe" => { let mut p = [0i32; 2]; assert_eq!(pipe(p.as_mut_ptr()), 0); dup2(p[1], 1); close(p[0]); close(p[1]); }
                "full" => { let fd = open(b"/dev/full\0".as_ptr(), 1, 0); if fd >= 0 { dup2(fd, 1); close(fd); } }
                "closed" => { close(1); }
                "directory" => std::fs::create_dir(FILE).unwrap(),
                _ => { std::fs::create_dir("gone").unwrap(); std::env::set_current_dir("gone").unwrap(); std::fs::remove_dir("../gone").unwrap(); }
            }
        }
        let r = std::thread::spawn(move || work(seed, 8, false)).join();
        if *how == "directory" { std::fs::remove_dir(FILE).unwrap(); }
        if *how == "no directory" { std::env::set_current_dir("..").unwrap(); }
        match r {
            Ok(a) => { c.eval(a.1); c.count("undeliverable", 1); if a.0 != plain { c.fail("result", format!("the results are different when announcements cannot be delivered ({})", how)); } }
            Err(_) => c.fail(&format!("undeliverable:{}", how), format!("a traced thread panicked where an untraced one would not ({})", how)),
        }
    }
    case!(c, "while a thread ends");
    fresh();
    for early in &[true, false] {
        let (tx, rx) = std::sync::mpsc::channel();
        let early = *early;
        let _ = std::thread::spawn(move || {
            if early { work(seed, 3, false); }
            LATE.with(|l| *l.borrow_mut() = Some(Late(tx)));
            if !early { work(seed, 3, false); }
        }).join();
        c.eval(1);
        match rx.recv() {
            Ok(r) => if r != vec![2.5, 3.5, 4.5, 5.5, 6.5] { c.fail("result", format!("at the end of a thread the result is {:?}", r)); },
            Err(_) => c.fail("thread-end", "a traced call panicked at the end of its thread where an untraced one would not".to_string()),
        }
    }
    if FILE != "faster-debug.txt" {
        c.eval(1);
        c.count("named_trace_files", 1);
        if std::path::Path::new("faster-debug.txt").exists() { c.fail("wrong-file", format!("the trace is not (only) written to {}", FILE)); }
    }
    c.finish()
}
