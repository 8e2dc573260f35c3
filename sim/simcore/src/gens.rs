//! Generators of the scenarios beyond plain mixes.
use crate::group::{PROTO_GROUPS, TEXT_GROUPS};
use crate::mix::{base_cfg, fam_cfg, MixCfg, UpdGen};
use crate::shapes::LONG;
use simrt::{Op, Plan, Rng};

const ALL: &[i64] = &[-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17, 18, 20];
const VEC: &[i64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17, 18, 20];

fn mixcfg(kinds: &'static [i64], shapes: &'static [i64], layouts: &'static [i64]) -> MixCfg {
    MixCfg { kinds, shapes, layouts, max_fam: 1, phases: 1, w: [0; 8], hot: 1, threads: 2, ops: 1, excl: 0 }
}
fn finish(p: &mut Plan, per_op: i64) {
    let th = p.phases.iter().map(|x| x.len()).max().unwrap_or(1) as i64;
    let ops = p.phases.iter().flatten().map(|t| t.len()).max().unwrap_or(1) as i64;
    p.set("est_threads", th);
    p.set("est_ops", ops);
    p.set("est_points", per_op * th * ops);
}
fn hostile(r: &mut Rng, p: &mut Plan, nf: u64, long: bool) {
    for i in 0..nf {
        let h = if long && r.chance(300) { 8 + 12 * r.below(16) as i64 + r.below(2) as i64 } else { r.below(8) as i64 };
        p.set(&format!("f{i}.help"), h);
        if long && r.chance(350) {
            let s = p.get(&format!("f{i}.seed"));
            p.set(&format!("f{i}.seed"), s | LONG as i64);
        }
    }
}
/// A world for scrapes: a group, or a few families. Returns the kinds if known.
fn scrape_world(r: &mut Rng, p: &mut Plan, proto: bool, group: u64) -> Vec<i64> {
    base_cfg(r, p, false);
    p.set("nocard", 1);
    if proto {
        p.set("proto", 1);
    }
    if r.chance(group) {
        p.set("group", *r.pick(if proto { PROTO_GROUPS } else { TEXT_GROUPS }));
        let seed = (r.next() >> 3) as i64;
        p.set("gseed", if proto && r.chance(300) { seed | LONG as i64 } else { seed & !(LONG as i64) });
        p.set("gsize", 1 + r.below(5) as i64);
        p.set("absent", r.below(32) as i64);
        return vec![];
    }
    let nf = 1 + r.below(4);
    p.set("nfam", nf as i64);
    let c = mixcfg(if proto { &[0, 1, 2] } else { &[0, 1, 2, 3, 4, 5, 6] }, ALL, &[0, 1, 2, 2]);
    let kinds = (0..nf).map(|i| fam_cfg(r, p, i, &c)).collect();
    hostile(r, p, nf, proto);
    kinds
}
fn update(r: &mut Rng, ug: &mut UpdGen, kinds: &[i64], hot: &[i64]) -> Op {
    let f = if kinds.is_empty() { r.below(64) } else { r.below(kinds.len() as u64) };
    let kind = if kinds.is_empty() { r.below(4) as i64 } else { kinds[f as usize] };
    let (c, v) = ug.upd(r, kind);
    let s = if r.chance(300) { r.below(64) as i64 } else { *r.pick(hot) };
    Op::new("up", &[f as i64, s, *r.pick(&[0, 0, 1, 2]), c, v])
}
fn mode(r: &mut Rng, proto: bool) -> i64 {
    if proto {
        10 + r.below(2) as i64
    } else {
        r.below(4) as i64
    }
}

// ------------------------------------------------------------------ exposition (C08, C10)
fn expo(r: &mut Rng, proto: bool) -> Plan {
    let mut p = Plan::new("expo");
    let kinds = scrape_world(r, &mut p, proto, 550);
    let mut ug = UpdGen::new(r);
    let hot: Vec<i64> = (0..3).map(|_| r.below(64) as i64).collect();
    let abandon = r.chance(600);
    for _ in 0..1 + r.below(3) {
        let nth = 1 + r.below(3);
        let mut ph = vec![];
        for t in 0..nth {
            let scraper = t == 0;
            let mut ops = vec![];
            for _ in 0..1 + r.below(6) {
                let f = r.below(64) as i64;
                ops.push(match r.below(20) {
                    0..=1 if scraper && abandon => {
                        Op::new("abandon", &[mode(r, proto), r.below(3) as i64, r.below(8) as i64, r.below(2) as i64])
                    }
                    0..=6 if scraper => Op::new("scrape", &[mode(r, proto), *r.pick(&[0, 1, 3, 10]), 0]),
                    7 => Op::new("touch", &[f, *r.pick(&hot), 0]),
                    8 => Op::new("rm", &[f, *r.pick(&hot), 0]),
                    9 => Op::new("scrape", &[mode(r, proto), 0, if r.chance(500) && !kinds.is_empty() { 1 + f } else { 0 }]),
                    _ => update(r, &mut ug, &kinds, &hot),
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 60);
    p
}
pub fn text(r: &mut Rng, _: bool) -> Plan {
    expo(r, false)
}
pub fn proto(r: &mut Rng, _: bool) -> Plan {
    expo(r, true)
}

// ------------------------------------------------------------------ failing writers (C09, C11)
fn wf(r: &mut Rng, proto: bool, exact: bool, panics: bool) -> Op {
    let mut a = vec![
        if proto { 2 } else { 1 },
        r.below(4) as i64,
        if exact { 0 } else { *r.pick(&[0, 1, 4]) },
        if r.chance(250) { 1 + r.below(9) as i64 } else { 0 },
        r.chance(500) as i64,
        if r.chance(60) { 1 + r.below(8) as i64 } else { 0 },
        -1,
        r.below(8) as i64,
        exact as i64,
    ];
    let kind = r.below(10);
    if kind < 4 {
        a[6] = if r.chance(100) { 0 } else { r.below(1001) as i64 };
    }
    if kind >= 3 {
        for _ in 0..1 + r.below(3) {
            let at = r.below(1001) as i64;
            let (k, v) = match r.below(if panics { 14 } else { 10 }) {
                0..=2 => (0, 1 + r.below(12) as i64),
                3..=4 => (1, 0),
                5..=7 => (2, r.below(8) as i64),
                8 => (3, 0),
                9 => (4, 0),
                _ => (5, 0),
            };
            a.extend([at, k, v]);
        }
    }
    Op::new("wf", &a)
}
fn faulty(r: &mut Rng, proto: bool) -> Plan {
    let mut p = Plan::new("faulty");
    let kinds = scrape_world(r, &mut p, proto, 350);
    if !proto {
        p.set("proto", 0);
    }
    let mut ug = UpdGen::new(r);
    let hot: Vec<i64> = (0..3).map(|_| r.below(64) as i64).collect();
    for _ in 0..1 + r.below(3) {
        let exact = r.chance(650);
        let nth = if exact { 1 } else { 2 + r.below(2) };
        let mut ph = vec![];
        for t in 0..nth {
            let mut ops = vec![];
            for _ in 0..if exact { 2 + r.below(5) } else { 1 + r.below(4) } {
                if (exact && r.chance(550)) || (t == 0 && r.chance(600)) {
                    ops.push(wf(r, proto, exact, false));
                    if r.chance(400) {
                        ops.push(Op::new("scrape", &[if proto { 11 } else { 3 }, 0, 0]));
                    }
                } else {
                    ops.push(update(r, &mut ug, &kinds, &hot));
                }
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 80);
    p
}
pub fn wtext(r: &mut Rng, _: bool) -> Plan {
    faulty(r, false)
}
pub fn wproto(r: &mut Rng, _: bool) -> Plan {
    faulty(r, true)
}

// ------------------------------------------------------------------ timers (C12)
const SPANS: &[i64] = &[0, 1, 999, 1_000, 250_000, 1_000_000, 499_999_999, 500_000_000, 1_500_000_000, 4_000_000_000, 86_400_000_000_000];
pub fn timers(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("timers");
    base_cfg(r, &mut p, false);
    p.set("nocard", 1);
    let nf = 1 + r.below(2);
    p.set("nfam", nf as i64);
    for i in 0..nf {
        fam_cfg(r, &mut p, i, &mixcfg(&[3, 3, 4, 5, 6], ALL, &[0, 1, 2, 2]));
    }
    p.set("tick", *r.pick(&[0, 0, 0, 1, 37, 1_000_000]));
    let hot: Vec<i64> = (0..2).map(|_| r.below(64) as i64).collect();
    for _ in 0..1 + r.below(3) {
        let nth = 1 + r.below(3);
        let mut ph = vec![];
        for t in 0..nth {
            let mut ops = vec![];
            for _ in 0..2 + r.below(6) {
                let f = r.below(nf) as i64;
                let s = if r.chance(200) { r.below(64) as i64 } else { *r.pick(&hot) };
                // mostly own timers, sometimes one another thread or phase started
                let slot = if r.chance(250) { r.below(9) as i64 } else { (3 * t + r.below(3)) as i64 };
                ops.push(match r.below(21) {
                    20 => Op::new("rm", &[f, s, r.below(3) as i64]),
                    0..=5 => Op::new("tstart", &[f, s, slot]),
                    6..=12 => Op::new("tend", &[slot, *r.pick(&[0, 0, 1, 1, 2, 3])]),
                    13..=15 => Op::new("adv", &[*r.pick(SPANS)]),
                    16 => Op::new("rtjump", &[*r.pick(&[3_600_000_000_000, -3_600_000_000_000, -86_400_000_000_000, 1])]),
                    17 => Op::new("since", &[f, s, r.below(3) as i64, if r.chance(150) { -1_000_000 } else { *r.pick(SPANS) }]),
                    18 => Op::new("scrape", &[r.below(4) as i64, *r.pick(&[0, 1, 5]), 0]),
                    _ => Op::new("up", &[f, s, 0, 1, *r.pick(SPANS)]),
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 25);
    p
}

// ------------------------------------------------------------------ panics in user code (C13)
pub fn panics(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("panics");
    base_cfg(r, &mut p, false);
    p.set("nocard", 1);
    let grouped = r.chance(250);
    let mut kinds = vec![];
    let mut nf = 1 + r.below(2);
    let proto = r.chance(200);
    if grouped {
        p.set("group", *r.pick(&[4, 6, 4, 5]));
        p.set("gseed", (r.next() >> 3) as i64 & !(LONG as i64));
        p.set("gsize", 1 + r.below(3) as i64);
        p.set("absent", 1024 + r.below(16) as i64);
        nf = 64;
    } else {
        p.set("nfam", nf as i64);
        kinds = (0..nf).map(|i| fam_cfg(r, &mut p, i, &mixcfg(if proto { &[0, 1, 2] } else { &[0, 1, 2, 3, 4] }, &[11, 11, 12, 12, 6, -1], &[0, 1, 2, 2, 2]))).collect();
    }
    if proto {
        p.set("proto", 1);
    }
    let mut ug = UpdGen::new(r);
    let hot: Vec<i64> = (0..3).map(|_| r.below(64) as i64).collect();
    for _ in 0..1 + r.below(3) {
        let nth = 1 + r.below(3);
        let mut ph = vec![];
        for t in 0..nth {
            let mut ops = vec![];
            for _ in 0..2 + r.below(5) {
                let f = r.below(nf) as i64;
                let s = *r.pick(&hot);
                let armed = r.chance(400);
                let depth = if r.chance(700) { 1 + r.below(6) as i64 } else { 1 + r.below(60) as i64 };
                let o = match r.below(22) {
                    0..=6 => update(r, &mut ug, &kinds, &hot),
                    7..=8 => {
                        let (c, v) = ug.upd(r, kinds.get(f as usize).copied().unwrap_or(0));
                        Op::new("hold", &[f, s, c, v, c, v])
                    }
                    9 => Op::new("touch", &[f, s, r.below(3) as i64]),
                    10..=11 => Op::new("rm", &[f, s, r.below(3) as i64]),
                    12 => Op::new("look", &[f, s]),
                    13 => Op::new("tstart", &[f, s, t as i64]),
                    14 => Op::new("tend", &[t as i64, *r.pick(&[0, 1, 1, 2, 3])]),
                    15 => Op::new("since", &[f, s, r.below(3) as i64, 1000]),
                    16..=19 => Op::new("scrape", &[if proto { 10 + r.below(2) as i64 } else { r.below(4) as i64 }, *r.pick(&[0, 1, 2]), 0]),
                    _ => wf(r, proto, false, true),
                };
                if o.k == "wf" {
                    ops.push(Op::new("bomb", &[if armed { depth } else { 0 }]));
                } else if armed {
                    ops.push(Op::new("bomb", &[depth]));
                }
                ops.push(o);
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 50);
    p
}
/// Panics while a table is being reorganised.
pub fn panics_bulk(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("panics-bulk");
    base_cfg(r, &mut p, false);
    p.set("nocard", 1);
    p.set("cores", 1);
    p.set("plain", 0);
    p.set("nfam", 1);
    fam_cfg(r, &mut p, 0, &mixcfg(&[0], &[11], &[2]));
    let size = 10 + r.below(30) as i64;
    p.set("f0.size", size);
    let n = size * 8;
    let start = r.below(n as u64) as i64;
    let first = n * (5 + r.below(5) as i64) / 10;
    p.phases.push(vec![vec![Op::new("bulk", &[0, start, first, 1, r.below(2) as i64, 0])]]);
    if r.chance(800) {
        let rm = first * (4 + r.below(6) as i64) / 10;
        let stride = *r.pick(&[1, 1, 2, 3]);
        p.phases.push(vec![vec![Op::new("bulk", &[0, start, rm, stride, 2, 2])]]);
    }
    let mut ph = vec![];
    for _ in 0..1 + r.below(2) {
        let mut ops = vec![];
        let mut s = start + first + r.below(3) as i64;
        for _ in 0..4 + r.below(20) {
            if r.chance(600) {
                ops.push(Op::new("bomb", &[1 + r.below(50) as i64]));
            }
            ops.push(Op::new("up", &[0, s, r.below(2) as i64, 1, 3]));
            s += 1;
        }
        ph.push(ops);
    }
    p.phases.push(ph);
    finish(&mut p, 30);
    p
}

// ------------------------------------------------------------------ stalled scrapes (C14)
pub fn stalls(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("stalls");
    base_cfg(r, &mut p, false);
    p.set("nocard", 1);
    let proto = r.chance(200);
    let nf = 1 + r.below(3);
    p.set("nfam", nf as i64);
    let kinds: Vec<i64> = (0..nf).map(|i| fam_cfg(r, &mut p, i, &mixcfg(if proto { &[0, 1, 2] } else { &[0, 1, 2, 3, 3, 4] }, ALL, &[0, 1, 2, 2]))).collect();
    if r.chance(600) {
        p.set("cores", 1);
    }
    let mut ug = UpdGen::new(r);
    let hot: Vec<i64> = (0..3).map(|_| r.below(64) as i64).collect();
    // create some series first
    let mut first = vec![];
    for _ in 0..2 + r.below(6) {
        let mut o = update(r, &mut ug, &kinds, &hot);
        o.a[1] = *r.pick(&hot);
        first.push(o);
    }
    p.phases.push(vec![first]);
    for _ in 0..1 + r.below(2) {
        let calm = r.chance(500);
        let mut ph = vec![];
        for _ in 0..1 + r.below(2) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(2) {
                let mut a = vec![if proto { 2 } else { 1 }, r.below(2) as i64, *r.pick(&[0, 0, 1, 3]), 0, 0, 0, -1, 0, 0];
                for _ in 0..1 + r.below(3) {
                    let d = r.chance(500);
                    a.extend([r.below(if d { 120 } else { 700 }) as i64, 4, 0]);
                }
                ops.push(Op::new("wf", &a));
            }
            ph.push(ops);
        }
        for _ in 0..1 + r.below(3) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(5) {
                let f = r.below(nf) as i64;
                let s = *r.pick(&hot);
                ops.push(match r.below(20) {
                    0..=1 if !calm => Op::new("rm", &[f, s, r.below(3) as i64]),
                    2..=3 if !calm => Op::new("touch", &[f, r.below(64) as i64, 0]),
                    4 => Op::new("card", &[f]),
                    5 => Op::new("look", &[f, s]),
                    6 => Op::new("scrape", &[if proto { 10 } else { r.below(4) as i64 }, 1, 0]),
                    7..=8 => {
                        let (c, v) = ug.upd(r, kinds[f as usize]);
                        Op::new("hold", &[f, s, c, v])
                    }
                    _ => {
                        let mut o = update(r, &mut ug, &kinds, &hot);
                        if calm || r.chance(700) {
                            o.a[1] = *r.pick(&hot);
                        }
                        o
                    }
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 60);
    p
}

// ------------------------------------------------------------------ many series (C01, C05, C06)
pub fn bulk(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("bulk");
    base_cfg(r, &mut p, false);
    p.set("plain", 0);
    p.set("nfam", 1);
    if r.chance(600) {
        p.set("cores", *r.pick(&[1, 1, 2]));
    }
    fam_cfg(r, &mut p, 0, &mixcfg(&[0, 0, 1, 2], &[1, 3, 6, 7, 9, 10, 11, 8, 15, 16, 20], &[0, 2, 2, 2]));
    let sh = p.get("f0.shape");
    let size = match sh {
        11 => 8 + r.below(40),
        6 => 8 + r.below(50),
        3 | 10 => 12 + r.below(80),
        9 | 7 => 3 + r.below(6),
        20 => 1 + r.below(4),
        16 => *r.pick(&[1023, 1024, 1024, 1025, 1025, 1026, 200]),
        _ => 4,
    };
    p.set("f0.size", size as i64);
    if sh == 6 && r.chance(50) {
        crowd_of_series(r, &mut p);
        return p;
    }
    let rm = r.chance(500);
    for _ in 0..1 + r.below(3) {
        let mut ph = vec![];
        for _ in 0..1 + r.below(3) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(3) {
                ops.push(match r.below(10) {
                    0 => Op::new("scrape", &[r.below(4) as i64, *r.pick(&[0, 30, 100]), 0]),
                    1 => Op::new("card", &[0]),
                    2..=3 if rm => Op::new("bulk", &[0, r.below(64) as i64, 20 + r.below(150) as i64, *r.pick(&[1, 1, 2, 5]), 2, r.below(3) as i64]),
                    4 if rm => Op::new("bulk", &[0, r.below(64) as i64, 10 + r.below(60) as i64, 1, 3, r.below(3) as i64]),
                    _ => Op::new("bulk", &[0, r.below(256) as i64, 20 + r.below(200) as i64, *r.pick(&[1, 1, 1, 2, 7, -1]), *r.pick(&[0, 0, 0, 1]), r.below(3) as i64]),
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    if r.chance(250) {
        p.phases.push(vec![vec![Op::new("init", &[0]), Op::new("card", &[0])]]);
        if r.chance(300) {
            let last = p.phases.len() - 1;
            p.phases.swap(0, last);
        }
    }
    if rm && r.chance(500) {
        // empty the family again
        let mut ph = vec![vec![Op::new("bulk", &[0, 0, 256, 1, 2, r.below(3) as i64]), Op::new("card", &[0])]];
        if r.chance(500) {
            ph.push(vec![Op::new("card", &[0]), Op::new("scrape", &[0, 0, 0])]);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 2000);
    p
}

/// Thousands of series in one family, rarely more than 16 bits can number.
fn crowd_of_series(r: &mut Rng, p: &mut Plan) {
    let n: i64 = if r.chance(30) { 66_000 } else { *r.pick(&[1030, 1100, 2060, 2100, 4100, 4200]) };
    p.set("f0.size", n / 5 + 1);
    let chunk = |r: &mut Rng, ph: &mut Vec<Vec<Op>>, from: i64, to: i64, mode: i64| {
        let mut at = from;
        let mut ops = vec![];
        while at < to {
            ops.push(Op::new("bulk", &[0, at, (to - at).min(4096), 1, mode, r.below(3) as i64]));
            at += 4096;
        }
        ph.push(ops);
    };
    let mut ph = vec![];
    if n < 10_000 && r.chance(300) {
        // two threads add overlapping halves
        chunk(r, &mut ph, 0, n * 2 / 3, 0);
        chunk(r, &mut ph, n / 3, n, 0);
    } else {
        chunk(r, &mut ph, 0, n, 0);
    }
    p.phases.push(ph);
    p.phases.push(vec![vec![Op::new("card", &[0]), Op::new("scrape", &[r.below(2) as i64, 0, 0])]]);
    if n < 10_000 && r.chance(500) {
        let mut ph = vec![];
        let (a, b) = (r.below(n as u64) as i64, r.below(n as u64) as i64);
        let mode = 2 + r.below(2) as i64;
        chunk(r, &mut ph, a.min(b), a.max(b), mode);
        if r.chance(300) {
            ph.push(vec![Op::new("card", &[0]), Op::new("bulk", &[0, 0, 100, 1, 0, 0])]);
        }
        p.phases.push(ph);
    }
    if r.chance(500) {
        // the first and the last ones again
        p.phases.push(vec![vec![
            Op::new("bulk", &[0, 0, 50, 1, *r.pick(&[0, 4]), 0]),
            Op::new("bulk", &[0, n - 50, 100, 1, *r.pick(&[0, 2, 4]), 0]),
            Op::new("card", &[0]),
        ]]);
    }
    finish(p, 3000);
}

// ------------------------------------------------------------------ long histories
/// The same few operations on the same series, hundreds to thousands of times.
pub fn soak(r: &mut Rng, kinds: &'static [i64], remove: bool, ops: &[i64]) -> Plan {
    let mut p = Plan::new("soak");
    base_cfg(r, &mut p, false);
    p.set("nfam", 1);
    fam_cfg(r, &mut p, 0, &mixcfg(kinds, &[-1, 0, 1, 2, 3, 4, 6, 8, 11, 12], &[0, 0, 2, 2]));
    p.set("f0.size", 1 + r.below(2) as i64);
    let proto = p.get("f0.kind") < 3 && r.chance(400);
    if proto {
        p.set("proto", 1);
    }
    // once in a while more than 16 bits can count
    let huge = r.chance(15);
    if huge {
        p.set("plain", 0);
        p.set("nocard", 1);
    }
    let mut est = 0;
    for _ in 0..1 + r.below(3) {
        let single = huge || r.chance(600);
        let nth = if single { 1 } else { 2 + r.below(3) };
        let mut ph = vec![];
        for _ in 0..nth {
            let mut mask = 1;
            for b in ops {
                if r.chance(450) {
                    mask |= b;
                }
            }
            if remove && r.chance(500) {
                mask |= 8;
            }
            if single && r.chance(300) {
                mask |= 64;
            }
            if r.chance(300) {
                mask |= 128;
            }
            let mut times = *r.pick(&[70, 70, 150, 270, 270, 530, 128, 256, 512]);
            let plain = r.chance(250);
            if plain {
                mask &= 1 | 64 | 128;
            }
            if huge {
                mask &= 1 | 64;
                times = *r.pick(&[66_000, 65_536]);
            }
            est += times;
            ph.push(vec![Op::new("soak", &[0, r.below(64) as i64, times, mask, (r.next() >> 2) as i64])]);
        }
        p.phases.push(ph);
        if huge {
            break;
        }
        if r.chance(200) {
            p.phases.push(vec![vec![Op::new("renew", &[0])]]);
        }
    }
    p.set("est_threads", 3);
    p.set("est_ops", est);
    p.set("est_points", 60 * est);
    p
}

// ------------------------------------------------------------------ interners (C07)
pub fn interned(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("interned");
    base_cfg(r, &mut p, false);
    p.set("nfam", 1);
    let kinds: &[i64] = &[0, 0, 1, 2];
    fam_cfg(r, &mut p, 0, &mixcfg(&[0, 0, 1, 2], &[6, 7, 9, 12, 13, 14, 14, 19], &[0, 2]));
    let _ = kinds;
    let sh = p.get("f0.shape");
    p.set("f0.size", 4 + r.below(if sh == 14 { 24 } else { 6 }) as i64);
    let kind = p.get("f0.kind");
    let lim = sh >= 13;
    let mut ug = UpdGen::new(r);
    let hot: Vec<i64> = (0..4).map(|_| r.below(64) as i64).collect();
    for _ in 0..1 + r.below(3) {
        let mut ph = vec![];
        for _ in 0..2 + r.below(3) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(6) {
                let s = if r.chance(400) { r.below(128) as i64 } else { *r.pick(&hot) };
                ops.push(match r.below(12) {
                    0 => Op::new("scrape", &[r.below(4) as i64, *r.pick(&[0, 1, 5]), 0]),
                    1 => Op::new("card", &[0]),
                    2 if !lim => Op::new("look", &[0, s]),
                    3 if !lim => Op::new("rm", &[0, s, r.below(3) as i64]),
                    4 if !lim => Op::new("touch", &[0, s, r.below(3) as i64]),
                    5 if lim => Op::new("bulk", &[0, s, 3 + r.below(10) as i64, *r.pick(&[1, 2, -1]), 5, r.below(2) as i64]),
                    _ => {
                        let (c, v) = ug.upd(r, kind);
                        Op::new("dup", &[0, s, r.below(2) as i64, c, v])
                    }
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 40);
    p
}
/// Use up the key space of an interner.
pub fn interned_full(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("interned-full");
    base_cfg(r, &mut p, false);
    p.set("plain", 0);
    p.set("nfam", 1);
    fam_cfg(r, &mut p, 0, &mixcfg(&[0, 1], &[13], &[0, 2]));
    let size = 230 + r.below(60) as i64;
    p.set("f0.size", size);
    for k in 0..1 + r.below(3) {
        let mut ph = vec![];
        for _ in 0..1 + r.below(3) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(2) {
                ops.push(match r.below(8) {
                    0 if k > 0 => Op::new("scrape", &[r.below(4) as i64, 50, 0]),
                    1 => Op::new("bulk", &[0, r.below(size as u64) as i64, 20, 1, 5, 0]),
                    _ => Op::new("bulk", &[0, r.below(size as u64) as i64, 60 + r.below(150) as i64, *r.pick(&[1, 1, -1, 2]), 5, r.below(2) as i64]),
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    finish(&mut p, 1500);
    p
}
#[allow(dead_code)]
const _V: &[i64] = VEC;
