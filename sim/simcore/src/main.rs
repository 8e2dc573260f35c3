use simrt::driver::*;
mod fam;
mod group;
mod proto;
mod wire;
mod mix;
mod shapes;
mod wide;
mod text;
mod timers;
mod bulk;
mod custom;
mod faults;
mod gens;
mod world;
mod writer;
mod props;
#[global_allocator]
static A: simrt::arena::Arena = simrt::arena::Arena;

fn main() {
    simrt::driver::main(&Registry { props: props::PROPS, scenarios: props::SCENARIOS })
}
