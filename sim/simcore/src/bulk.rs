//! Many series at once, and interners that run full.
use crate::fam::*;
use crate::world::*;
use simrt::{ensure, sched, violate, Op};
use std::collections::{BTreeMap, BTreeSet};

/// What is known about the label values of families with limited interners.
#[derive(Default)]
pub struct Ids {
    /// (family, series) -> when it was first known to be accepted
    accepted: BTreeMap<(usize, usize), u64>,
    /// series somebody tried to use
    tried: BTreeSet<(usize, usize)>,
    pub refusals: u64,
}

impl Ids {
    pub fn forget(&mut self, f: usize) {
        self.accepted.retain(|k, _| k.0 != f);
        self.tried.retain(|k| k.0 != f);
    }
}

/// soak [fam, series, times, mask, seed]: many operations of the kinds in the mask
/// (1 update, 2 scrape, 4 touch, 8 remove, 16 count, 32 look up, 64 exclusive update, 128 other series)
pub fn exec_soak(o: &Op) {
    let w = w();
    let f = o.arg(0);
    let k = w.fams[f.unsigned_abs() as usize % w.fams.len()].info().k;
    let kinds: Vec<u32> = (0..7).filter(|b| o.arg(3) >> b & 1 != 0).collect();
    if kinds.is_empty() {
        return;
    }
    for i in 0..o.arg(2).clamp(0, 70_000) as u64 {
        let h = simrt::rng::mix(o.arg(4) as u64 ^ i << 20);
        let s = if o.arg(3) & 128 != 0 { o.arg(1) + (h >> 8) as i64 % 3 } else { o.arg(1) };
        let how = (h >> 16) as i64 % 3;
        let v = (h >> 24) as i64 % 5 + 1;
        let (code, v) = match k {
            K::Counter => (1, v),
            K::Gauge => ([0, 1, 1, 3][(h >> 32) as usize % 4], v),
            K::Float => ([0, 1, 1, 3][(h >> 32) as usize % 4], (v as f64 * 0.5).to_bits() as i64),
            K::Hist => (0, (v as f64 * 0.5 - 1.0).to_bits() as i64),
        };
        match kinds[(h >> 40) as usize % kinds.len()] {
            0 => exec(&Op::new("up", &[f, s, how, code, v])),
            1 => exec(&Op::new("scrape", &[if w.proto && h >> 50 & 1 != 0 { 11 } else { 1 + 2 * (h >> 51 & 1) as i64 }, 0, if h >> 52 & 1 != 0 { 1 + f } else { 0 }])),
            2 => exec(&Op::new("touch", &[f, s, how])),
            3 => exec(&Op::new("rm", &[f, s, how])),
            4 => exec(&Op::new("card", &[f])),
            5 => exec(&Op::new("look", &[f, s])),
            _ => exec(&Op::new("mut", &[f, s, how, code, v])),
        }
    }
}

/// bulk [fam, start, count, stride, mode, how]: modes 0 add, 1 touch, 2 remove, 3 remove and add,
/// 4 look up only
pub fn exec_bulk(o: &Op) {
    let n = o.arg(2).clamp(0, 4096);
    for i in 0..n {
        let s = o.arg(1) + i * o.arg(3);
        let f = o.arg(0);
        let up = Op::new("up", &[f, s, o.arg(5), 1, 1 + (i + o.arg(1)).rem_euclid(7)]);
        match o.arg(4) {
            0 => exec(&up),
            5 => exec(&Op::new("dup", &[f, s, o.arg(5), 1, 1 + (i + o.arg(1)).rem_euclid(7)])),
            1 => exec(&Op::new("touch", &[f, s, o.arg(5)])),
            2 => exec(&Op::new("rm", &[f, s, o.arg(5)])),
            3 => {
                exec(&Op::new("rm", &[f, s, o.arg(5)]));
                exec(&up)
            }
            _ => exec(&Op::new("look", &[f, s])),
        }
    }
}

/// dup [fam, series, how, code, v]: update by a label that may be refused
pub fn exec_dup(o: &Op) {
    let w = w();
    let f = o.arg(0).unsigned_abs() as usize % w.fams.len();
    let fam = w.fams[f];
    let i = fam.info();
    let s = o.arg(1).unsigned_abs() as usize % i.n;
    let u = Upd { code: o.arg(3) as u8, v: o.arg(4) };
    let span = begin(f, s, &[What::Touch, What::Apply(u)]);
    let inv = w.hist[span.0].inv;
    sched::quiet(|| w.ids.tried.insert((f, s)));
    let r = fam.try_update(s, o.arg(2) as u8, u);
    sched::quiet(|| match r {
        None => {
            sched::fault("label_refused");
            w.ids.refusals += 1;
            // (every distinct interned value counts, whichever series it belongs to)
            if let Some(t) = w.ids.accepted.get(&(f, s)) {
                ensure!(*t >= inv, "known-label-refused", "family {}: labels {:?} were accepted before and are now refused", i.name, i.pairs[s]);
            }
            let tried: Vec<usize> = w.ids.tried.iter().filter(|x| x.0 == f).map(|x| x.1).collect();
            if let Some(m) = fam.refusal_too_early(&tried) {
                violate!("refused-with-room", "family {}: labels {:?} were refused although {m}", i.name, i.pairs[s]);
            }
            for k in span.0..span.1 {
                w.hist[k].what = What::Void;
            }
        }
        Some(of) => {
            if let Some(x) = of {
                ensure!(x == s, "label-id-shared", "family {}: labels {:?} and {:?} got the same id", i.name, i.pairs[s], i.pairs[x]);
            }
            let now = sched::next_seq();
            w.ids.accepted.entry((f, s)).or_insert(now);
        }
    });
    done(span);
}
