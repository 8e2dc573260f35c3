use crate::gens;
use crate::mix::{self, MixCfg};
use simrt::driver::{Property, Scenario};
use simrt::{Plan, Rng};

const ALL: &[i64] = &[-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17, 18, 20];
const VEC: &[i64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17, 18, 20];

fn mix_counter(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[0], shapes: ALL, layouts: &[0, 1, 2, 2], max_fam: 2, phases: 3, w: [60, 8, 6, 2, 0, 0, 0, 20], hot: 3, threads: 5, ops: 8, excl: 200 })
}
fn mix_gauge(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[1], shapes: ALL, layouts: &[0, 1, 2, 2], max_fam: 2, phases: 3, w: [60, 6, 5, 2, 0, 0, 0, 25], hot: 2, threads: 4, ops: 7, excl: 200 })
}
fn mix_float(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[2], shapes: ALL, layouts: &[0, 1, 2, 2], max_fam: 2, phases: 3, w: [60, 6, 5, 2, 0, 0, 0, 25], hot: 2, threads: 4, ops: 7, excl: 200 })
}
fn mix_hist(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[3, 3, 4, 5, 6], shapes: ALL, layouts: &[0, 1, 2, 2], max_fam: 2, phases: 3, w: [60, 8, 5, 2, 0, 0, 0, 30], hot: 2, threads: 4, ops: 7, excl: 200 })
}
fn mix_series(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[0, 1, 2, 3], shapes: VEC, layouts: &[0, 1, 2, 2], max_fam: 3, phases: 3, w: [40, 5, 20, 8, 12, 0, 3, 20], hot: 6, threads: 5, ops: 9, excl: 250 })
}
fn mix_remove(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[0, 0, 1, 2, 3], shapes: VEC, layouts: &[2, 2, 2, 1], max_fam: 2, phases: 3, w: [40, 6, 10, 3, 1, 25, 4, 18], hot: 3, threads: 5, ops: 8, excl: 150 })
}
/// many threads on the few locks of one sparse family
fn mix_locks(r: &mut Rng, t: bool) -> Plan {
    let mut p = mix::gen(r, t, &MixCfg { kinds: &[0, 0, 3], shapes: &[0, 2, 6, 17], layouts: &[2], max_fam: 1, phases: 2, w: [8, 8, 15, 4, 0, 25, 20, 25], hot: 8, threads: 7, ops: 4, excl: 0 });
    p.set("cores", *r.pick(&[1, 1, 1, 2]));
    p
}
fn mix_card(r: &mut Rng, t: bool) -> Plan {
    mix::gen(r, t, &MixCfg { kinds: &[0, 1, 3], shapes: ALL, layouts: &[0, 1, 2, 2], max_fam: 2, phases: 4, w: [20, 3, 25, 10, 8, 15, 30, 12], hot: 8, threads: 4, ops: 8, excl: 300 })
}

fn soak_counter(r: &mut Rng, _: bool) -> Plan {
    gens::soak(r, &[0], false, &[2, 4, 32])
}
fn soak_gauge(r: &mut Rng, _: bool) -> Plan {
    gens::soak(r, &[1], false, &[2, 4, 32])
}
fn soak_float(r: &mut Rng, _: bool) -> Plan {
    gens::soak(r, &[2], false, &[2, 4, 32])
}
fn soak_hist(r: &mut Rng, _: bool) -> Plan {
    gens::soak(r, &[3, 4, 5, 6], false, &[2, 2, 4, 32])
}
fn soak_series(r: &mut Rng, _: bool) -> Plan {
    gens::soak(r, &[0, 1, 2, 3], true, &[2, 4, 16, 32])
}

pub const SCENARIOS: &[Scenario] = &[
    Scenario { name: "mix-counter", gen: mix_counter, run: mix::run },
    Scenario { name: "mix-gauge", gen: mix_gauge, run: mix::run },
    Scenario { name: "mix-float", gen: mix_float, run: mix::run },
    Scenario { name: "mix-hist", gen: mix_hist, run: mix::run },
    Scenario { name: "mix-series", gen: mix_series, run: mix::run },
    Scenario { name: "mix-remove", gen: mix_remove, run: mix::run },
    Scenario { name: "mix-card", gen: mix_card, run: mix::run },
    Scenario { name: "soak-counter", gen: soak_counter, run: mix::run },
    Scenario { name: "soak-gauge", gen: soak_gauge, run: mix::run },
    Scenario { name: "soak-float", gen: soak_float, run: mix::run },
    Scenario { name: "soak-hist", gen: soak_hist, run: mix::run },
    Scenario { name: "soak-series", gen: soak_series, run: mix::run },
    Scenario { name: "text", gen: gens::text, run: mix::run },
    Scenario { name: "proto", gen: gens::proto, run: mix::run },
    Scenario { name: "writer-text", gen: gens::wtext, run: mix::run },
    Scenario { name: "writer-proto", gen: gens::wproto, run: mix::run },
    Scenario { name: "timers", gen: gens::timers, run: mix::run },
    Scenario { name: "panics", gen: gens::panics, run: mix::run },
    Scenario { name: "panics-bulk", gen: gens::panics_bulk, run: mix::run },
    Scenario { name: "mix-locks", gen: mix_locks, run: mix::run },
    Scenario { name: "user-metric", gen: crate::custom::gen, run: crate::custom::run },
    Scenario { name: "stalls", gen: gens::stalls, run: mix::run },
    Scenario { name: "bulk", gen: gens::bulk, run: mix::run },
    Scenario { name: "interned", gen: gens::interned, run: mix::run },
    Scenario { name: "interned-full", gen: gens::interned_full, run: mix::run },
];

const RULE: &str = "one evaluation = one simulated run: a seed generates a plan (families, label shapes, storage, threads, operations, faults) and every scheduling decision; a run is non-trivial if threads really interleaved (more context switches than threads) or a fault was injected, and distinct if the hash of its sequence of scheduling points is new";
const REAL: &[&str] = &["measured (unmodified source, every atomic access a scheduling point)", "measured-derive", "parking_lot / parking_lot_core", "hashbrown, lasso, dashmap, rustc-hash, phf", "std sync, thread spawn and join, allocator clients"];
const STUB: &[&str] = &["scheduler, futex, sched_yield (simulated)", "clocks (simulated)", "available_parallelism / sched_getaffinity (drawn from the plan)", "getrandom (seeded)", "memory placement (deterministic arena)", "output writer (simulated)"];
const ASSUME: &[&str] = &["sequentially consistent memory", "compare-exchange does not fail spuriously", "preemption only at intercepted points: atomics, futex, yields, clock reads, callbacks into client code, and (in part of the runs) plain memory accesses"];

macro_rules! prop {
    ($id:expr, $sc:expr) => {
        Property { id: $id, scenarios: $sc, quick_runs: 120_000, quick_secs: 40, thorough_secs: 900, level: "exploration", rule: RULE, real: REAL, stub: STUB, assumptions: ASSUME }
    };
}
pub const PROPS: &[Property] = &[
    prop!("C01", &[(80, "mix-counter"), (2, "bulk"), (1, "soak-counter")]),
    prop!("C02", &[(80, "mix-gauge"), (1, "soak-gauge")]),
    prop!("C03", &[(80, "mix-float"), (1, "soak-float")]),
    prop!("C04", &[(80, "mix-hist"), (1, "soak-hist")]),
    prop!("C05", &[(80, "mix-series"), (4, "bulk"), (12, "interned"), (6, "user-metric"), (1, "soak-series")]),
    prop!("C06", &[(80, "mix-remove"), (4, "bulk"), (6, "user-metric"), (1, "soak-series")]),
    prop!("C07", &[(60, "interned"), (2, "interned-full")]),
    prop!("C08", &[(80, "text"), (1, "soak-series")]),
    prop!("C09", &[(1, "writer-text")]),
    prop!("C10", &[(80, "proto"), (1, "soak-counter"), (1, "soak-float")]),
    prop!("C11", &[(1, "writer-proto")]),
    prop!("C12", &[(1, "timers")]),
    prop!("C13", &[(12, "panics"), (1, "panics-bulk"), (3, "user-metric")]),
    prop!("C14", &[(30, "stalls"), (10, "mix-remove"), (30, "mix-locks"), (6, "timers"), (1, "soak-series")]),
    prop!("C17", &[(80, "mix-card"), (6, "bulk"), (1, "soak-series")]),
];
