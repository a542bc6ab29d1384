mod app;
mod check;
mod cluster;
mod direct;
mod jobs;
mod mt;
mod net;
mod plan;
mod rng;
mod run;
#[path = "sc/mod.rs"]
mod scenario;
mod shim;
mod store;
mod wire;
mod world;
#[global_allocator]
static ALLOC: mt::Alloc = mt::Alloc;
fn main() {
    jobs::main();
}
