#![feature(alloc_error_hook)]
#![allow(static_mut_refs, dead_code)]
mod c10;
mod c21;
#[path = "../../sim/rt/plan.rs"]
mod plan;
#[path = "../../sim/rt/rng.rs"]
mod rng;
#[path = "../../sim/rt/mod.rs"]
mod rt;
#[path = "../../sim/src/run.rs"]
mod run;
#[path = "../../sim/rt/world.rs"]
mod world;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() {
    unsafe {
        run::CPU_S = 200;
        run::TREES = c21::smaller;
        rt::SPAN = 12 << 30;
    }
    rt::watch(&["rubi_ops", "rubi_short"]);
    std::process::exit(run::main(&[c10::prop(), c21::prop()]))
}
