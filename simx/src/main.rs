// The real command, as shipped: its `main` is this binary's `main`. The
// harness takes over before it (see harness.rs) and lets forked copies of the
// process run it inside a simulated world.
include!("/repo/xtask/src/main.rs");

#[allow(dead_code, unused)]
#[path = "/repo/crates/model-checks/common/src/lib.rs"]
mod artifacts;
#[allow(dead_code)]
#[path = "../../sim/src/util.rs"]
mod util;
mod cases;
mod harness;
mod seam;
