//! Generators for concurrent mixes of metric operations.
use simrt::{Op, Plan, Rng};

pub struct MixCfg {
    pub kinds: &'static [i64],
    pub shapes: &'static [i64],
    pub layouts: &'static [i64],
    pub max_fam: u64,
    pub phases: u64,
    /// weights: update, hold, touch, look, bad, rm, card, scrape
    pub w: [u64; 8],
    /// number of hot series per family (upper bound)
    pub hot: u64,
    /// upper bound for threads
    pub threads: u64,
    /// upper bound on operations per thread
    pub ops: u64,
    /// probability (per mille) of exclusive-access phases
    pub excl: u64,
}

pub fn float(r: &mut Rng) -> f64 {
    match r.below(17) {
        16 => -f64::NAN,
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => -0.0,
        4 => 1e300,
        5 => 5e-324,
        6 => 0.1,
        7 => -1e16,
        8 => 0.0,
        _ => (r.below(64) as f64 - 20.0) * 0.25,
    }
}
pub fn hist_v(r: &mut Rng, special: bool) -> f64 {
    match r.below(if special { 17 } else { 10 }) {
        0 => -1.0,
        1 => 0.5,
        2 => 4.0,
        3 => 0.25,
        4 => 1.5,
        5 => r.below(1000) as f64 * 0.125,
        6..=9 => (r.below(80) as f64 - 16.0) * 0.125,
        10 => f64::NAN,
        11 => f64::INFINITY,
        12 => f64::NEG_INFINITY,
        13 => -f64::NAN,
        14 => *r.pick(&[5e-324, -5e-324, f64::MAX, f64::MIN, 1e16, 1e16 + 2.0, 1e300, 1.1e305, 0.1, 0.10000000000000002, 1.0000000000000002]),
        15 => 0.0,
        _ => -0.0,
    }
}

pub struct UpdGen {
    big: bool,
    special: bool,
}
impl UpdGen {
    pub fn new(r: &mut Rng) -> UpdGen {
        UpdGen { big: r.chance(300), special: r.chance(150) }
    }
    /// (code, v) for an update of a family of this kind
    pub fn upd(&mut self, r: &mut Rng, kind: i64) -> (i64, i64) {
        match kind {
            0 => {
                if r.chance(350) {
                    return (0, 0);
                }
                if self.big && r.chance(250) {
                    self.big = false;
                    let v: u64 = *r.pick(&[(1 << 63) - 2, 1 << 63, (1 << 63) + 12345, u64::MAX - 2_000_000, 1 << 32, (1 << 53) + 1]);
                    return (1, v as i64);
                }
                (1, *r.pick(&[0, 1, 2, 3, 5, 10, 17, 100, 1000, 65536]))
            }
            1 => {
                let v = if r.chance(100) { *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1 << 53, -(1 << 53) - 1, u32::MAX as i64]) } else { r.below(20) as i64 - 6 };
                (r.below(5) as i64, v)
            }
            2 => {
                let v = if self.special { float(r) } else { (r.below(64) as f64 - 20.0) * 0.25 };
                (r.below(5) as i64, v.to_bits() as i64)
            }
            _ => {
                if r.chance(100) {
                    (1, *r.pick(&[0, 1, 500_000_000, 250_000_000, 4_000_000_000, 1 << 40]))
                } else {
                    (0, hist_v(r, self.special).to_bits() as i64)
                }
            }
        }
    }
}

pub fn base_cfg(r: &mut Rng, p: &mut Plan, thorough: bool) {
    p.set("cores", *r.pick(&[1, 1, 1, 2, 3, 4, 8, 64, 200]));
    p.set("spurious", if r.chance(300) { *r.pick(&[30, 150, 400]) } else { 0 });
    p.set("plain", r.chance(300) as i64);
    let _ = thorough;
}

pub fn fam_cfg(r: &mut Rng, p: &mut Plan, i: u64, c: &MixCfg) -> i64 {
    let kind = *r.pick(c.kinds);
    let f = |k: &str| format!("f{i}.{k}");
    p.set(&f("kind"), kind);
    p.set(&f("shape"), *r.pick(c.shapes));
    p.set(&f("layout"), *r.pick(c.layouts));
    // no very long label values on a histogram of very many buckets
    let mask = if kind == 6 { crate::shapes::LONG as i64 } else { 0 };
    p.set(&f("seed"), (r.next() >> 2) as i64 & !mask);
    p.set(&f("size"), 1 + r.below(4) as i64);
    p.set(&f("help"), r.below(2) as i64);
    p.set(&f("ns"), if r.chance(700) { 0 } else { 1 + r.below(2) as i64 });
    kind
}

pub fn gen(r: &mut Rng, thorough: bool, c: &MixCfg) -> Plan {
    let mut p = Plan::new("mix");
    base_cfg(r, &mut p, thorough);
    let nf = 1 + if c.max_fam > 1 && r.chance(250) { r.below(c.max_fam) } else { 0 };
    p.set("nfam", nf as i64);
    let kinds: Vec<i64> = (0..nf).map(|i| fam_cfg(r, &mut p, i, c)).collect();
    if c.w[6] == 0 {
        p.set("nocard", 1);
    }
    // (the protobuf encoder has no histograms)
    let proto = c.kinds.iter().all(|k| *k < 3) && r.chance(200);
    if proto {
        p.set("proto", 1);
    }
    // hot series
    let hot: Vec<Vec<i64>> = (0..nf).map(|_| (0..1 + r.below(c.hot)).map(|_| r.below(64) as i64).collect()).collect();
    let mut ug = UpdGen::new(r);
    // swarm: drop some operation kinds from this run
    let mut wts = c.w;
    for x in wts.iter_mut().skip(1) {
        if r.chance(250) {
            *x = 0;
        }
    }
    let total: u64 = wts.iter().sum();
    // once in a while a crowd
    let many = r.chance(30);
    let nph = 1 + r.below(if many { 2 } else { c.phases });
    let mut maxops = 1;
    let mut nth_max = 2;
    for _ in 0..nph {
        let excl = r.chance(c.excl);
        let nth = match () {
            _ if excl => 1,
            _ if many => 6 + r.below(11),
            _ => 2 + r.below(c.threads - 1),
        };
        nth_max = nth_max.max(nth);
        // keep histories short enough to be decided
        let cap = (c.ops).min(26 / nth + 1).max(2);
        let mut ph = vec![];
        for _ in 0..nth {
            let n = 1 + r.below(if excl { 8 } else { cap });
            let mut ops = vec![];
            for _ in 0..n {
                let f = r.below(nf);
                let k = kinds[f as usize];
                let s = if r.chance(150) { r.below(64) as i64 } else { *r.pick(&hot[f as usize]) };
                let how = *r.pick(&[0, 0, 1, 2]);
                if excl && r.chance(650) {
                    match r.below(8) {
                        0 => ops.push(Op::new("init", &[f as i64])),
                        1 => ops.push(Op::new("mtouch", &[f as i64, s])),
                        _ => {
                            let (c, v) = ug.upd(r, k);
                            ops.push(Op::new("mut", &[f as i64, s, how, c, v]));
                        }
                    }
                    continue;
                }
                let mut x = r.below(total);
                let mut kind = 0;
                for (i, wt) in wts.iter().enumerate() {
                    if x < *wt {
                        kind = i;
                        break;
                    }
                    x -= wt;
                }
                let f = f as i64;
                ops.push(match kind {
                    0 => {
                        let (c, v) = ug.upd(r, k);
                        Op::new("up", &[f, s, how, c, v])
                    }
                    1 => {
                        let mut a = vec![f, s];
                        for _ in 0..if k == 0 { 1 + r.below(3) } else { 1 } {
                            let (c, v) = ug.upd(r, k);
                            a.push(c);
                            a.push(v);
                        }
                        Op::new("hold", &a)
                    }
                    2 => Op::new("touch", &[f, s, how]),
                    3 => Op::new("look", &[f, s]),
                    4 => Op::new("bad", &[f, r.below(16) as i64]),
                    5 => Op::new("rm", &[f, s, how]),
                    6 => Op::new("card", &[f]),
                    _ => Op::new("scrape", &[if proto && r.chance(500) { 10 + r.below(2) as i64 } else { r.below(4) as i64 }, *r.pick(&[0, 1, 2, 5, 20]), if r.chance(400) { 1 + f } else { 0 }]),
                });
            }
            maxops = maxops.max(ops.len());
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    p.set("est_threads", nth_max as i64);
    p.set("est_ops", maxops as i64);
    p.set("est_points", 30 * (nth_max as i64) * (maxops as i64));
    p
}

pub fn run(p: &'static Plan) {
    crate::world::build_world(p);
    crate::world::run_phases(p);
}
