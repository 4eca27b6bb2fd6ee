#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod disk;
mod gen;
#[path = "../rt/plan.rs"]
mod plan;
mod props;
#[path = "../rt/rng.rs"]
mod rng;
#[path = "../rt/mod.rs"]
mod rt;
mod run;
mod step;
#[path = "../rt/world.rs"]
mod world;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() {
    unsafe {
        run::TREES = |s| match calcu_ops::T::parse(s) {
            Some(t) => gen::shrink_tree(&t).iter().map(|t| t.text()).collect(),
            None => vec![],
        }
    }
    rt::watch(&["calcu_rs"]);
    rt::calibrate(|| {
        quanta::Instant::now();
    });
    std::process::exit(run::main(&props::all()))
}
