//! C18: every operation and pipeline, each result logged for a comparison between the builds for different CPUs.
extern crate faster;
#[macro_use]
extern crate vh;
#[path = "../log.rs"]
mod log;
#[path = "../ops.rs"]
mod ops;
use vh::*;

fn main() {
    let mut c = Ctx::from_args();
    let (v, l) = (c.pick(700, 30000), c.pick(160, 4000));
    log::record(&mut c, v, l, false);
    c.finish()
}
