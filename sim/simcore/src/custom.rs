//! A metric type of the client's own: its constructor, its destructor and its encoding are client code
//! that can be slow or panic.
use crate::mix::base_cfg;
use crate::shapes::{arm, disarm, user_call};
use measured::label::{LabelGroupVisitor, LabelName, LabelValue, LabelVisitor, StaticLabelSet};
use measured::metric::gauge::GaugeState;
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::{MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::TextEncoder;
use measured::{FixedCardinalityLabel, LabelGroup};
use simrt::lin::{linearizable, LOp};
use simrt::run::{sut, Injected};
use simrt::{ensure, sched, violate, Op, Plan, Rng};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

const META: u64 = 0x5eed_f00d;
const N: usize = 4;

#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "which")]
enum Which {
    A,
    B,
    C,
    D,
}
const ALL: [Which; N] = [Which::A, Which::B, Which::C, Which::D];

struct Meta(u64);
/// One instance: an identity and a count.
struct Own {
    id: usize,
    n: AtomicU64,
}
impl Default for Own {
    fn default() -> Own {
        user_call();
        let id = sched::quiet(|| {
            w().alive.push(true);
            w().alive.len() - 1
        });
        Own { id, n: AtomicU64::new(0) }
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        sched::quiet(|| {
            if !std::mem::replace(&mut w().alive[self.id], false) {
                violate!("dropped-twice", "the state {} was dropped twice", self.id);
            }
        });
    }
}
impl MetricType for Own {
    type Metadata = Meta;
}
impl<W: Write> MetricEncoding<TextEncoder<W>> for Own {
    fn write_type(name: impl MetricNameEncoder, enc: &mut TextEncoder<W>) -> std::io::Result<()> {
        GaugeState::write_type(name, enc)
    }
    fn collect_into(&self, m: &Meta, labels: impl LabelGroup, name: impl MetricNameEncoder, enc: &mut TextEncoder<W>) -> std::io::Result<()> {
        user_call();
        ensure!(m.0 == META, "metadata", "a scrape passed the wrong metadata");
        let mut s = Name(None);
        labels.visit_values(&mut s);
        let Some(s) = s.0 else { violate!("labels", "a scrape passed no label") };
        let v = (self.id, self.n.load(Ordering::Relaxed));
        alive(self.id, "scrape");
        sched::quiet(|| w().seen[sched::tid()].push((s, v)));
        user_call();
        GaugeState::new(v.1 as i64).collect_into(&(), labels, name, enc)
    }
}
struct Name(Option<usize>);
impl LabelGroupVisitor for Name {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        struct V;
        impl LabelVisitor for V {
            type Output = Option<usize>;
            fn write_int(self, _: i64) -> Option<usize> {
                None
            }
            fn write_float(self, _: f64) -> Option<usize> {
                None
            }
            fn write_str(self, x: &str) -> Option<usize> {
                ["a", "b", "c", "d"].iter().position(|y| *y == x)
            }
        }
        ensure!(name.as_str() == "which" && self.0.is_none(), "labels", "a scrape passed the label {}", name.as_str());
        self.0 = x.visit(V);
    }
}
fn alive(id: usize, what: &str) {
    let ok = sched::quiet(|| w().alive.get(id).copied());
    if ok != Some(true) {
        violate!("use-after-drop", "{what} works on the state {id}, which does not exist (any more)");
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum H {
    Touch(usize),
    Add(usize, u64, u64),
    Rm(Option<(usize, u64)>),
    Read(Option<(usize, u64)>),
}
struct World {
    vec: Option<MetricVec<Own, StaticLabelSet<Which>>>,
    sparse: bool,
    init: bool,
    alive: Vec<bool>,
    seen: Vec<Vec<(usize, (usize, u64))>>,
    h: Vec<Vec<LOp<H>>>,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap_or_else(|| simrt::run::harness_error("no world")) }
}
fn v() -> &'static MetricVec<Own, StaticLabelSet<Which>> {
    w().vec.as_ref().unwrap()
}
fn rec(s: usize, inv: u64, ret: u64, op: H, dep: Option<usize>) -> usize {
    sched::quiet(|| {
        w().h[s].push(LOp { inv, ret, op, dep });
        w().h[s].len() - 1
    })
}

pub fn gen(r: &mut Rng, _: bool) -> Plan {
    let mut p = Plan::new("user-metric");
    base_cfg(r, &mut p, false);
    p.set("layout", *r.pick(&[0, 1, 2, 2]));
    let hot = 1 + r.below(N as u64);
    let off = r.below(N as u64);
    let bombs = r.chance(700);
    let (mut mt, mut mo) = (1, 1);
    for _ in 0..1 + r.below(3) {
        let excl = r.chance(250);
        let nth = if excl { 1 } else { 1 + r.below(4) };
        mt = mt.max(nth);
        let mut ph = vec![];
        for _ in 0..nth {
            let n = 1 + r.below(6);
            mo = mo.max(n);
            let mut ops = vec![];
            for _ in 0..n {
                let s = ((off + r.below(hot)) % N as u64) as i64;
                let bomb = if bombs && r.chance(450) { { let k = *r.pick(&[3, 3, 3, 10]); 1 + r.below(k) as i64 } } else { 0 };
                let add = 1 + r.below(5) as i64;
                ops.push(match r.below(20) {
                    0..=4 if excl => Op::new("mget", &[s, bomb, add]),
                    5..=7 if excl => Op::new("init", &[0, bomb]),
                    0..=9 => Op::new("get", &[s, bomb, add]),
                    10..=13 => Op::new("rm", &[s]),
                    14 => Op::new("card", &[]),
                    _ => Op::new("scrape", &[0, bomb]),
                });
            }
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    p.set("est_threads", mt as i64);
    p.set("est_ops", mo as i64);
    p.set("est_points", 40 * (mt * mo) as i64);
    p
}

/// Run client code that may panic as injected; None if it did.
fn risky<R>(bomb: i64, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    if bomb <= 0 {
        return Some(sut(what, f));
    }
    arm(bomb);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(what, f)));
    let fired = disarm();
    match r {
        Ok(r) => {
            ensure!(!fired, "panic-swallowed", "a panic of user code did not reach the caller of {what}");
            Some(r)
        }
        Err(e) => {
            if e.downcast_ref::<Injected>().is_none() {
                simrt::run::unexpected_panic(what);
            }
            ensure!(fired, "panic", "an injected panic surfaced twice");
            sched::probe("operation_panicked");
            None
        }
    }
}

fn scrape(bomb: i64) -> bool {
    let t = sched::tid();
    let inv = sched::op_begin();
    sched::quiet(|| w().seen[t].clear());
    let mut out: Vec<u8> = vec![];
    let done = risky(bomb, "scrape", || {
        let mut e = TextEncoder::new(&mut out);
        v().collect_family_into(MetricName::from_str("own"), &mut e).and_then(|_| e.flush()).is_ok()
    });
    let ret = sched::op_end();
    ensure!(done != Some(false), "scrape-failed", "a scrape into a healthy writer failed");
    let seen = std::mem::take(&mut w().seen[t]);
    if done.is_some() {
        let mut text = String::from("# TYPE own gauge\n");
        for (s, (_, n)) in &seen {
            text += &format!("own{{which=\"{}\"}} {n}\n", ["a", "b", "c", "d"][*s]);
        }
        ensure!(out == text.as_bytes(), "scrape-content", "a scrape wrote\n{}\ninstead of\n{text}", String::from_utf8_lossy(&out));
    }
    for s in 0..N {
        let mine: Vec<_> = seen.iter().filter(|x| x.0 == s).collect();
        ensure!(mine.len() <= 1, "series-twice", "a scrape reports series {s} twice: {mine:?}");
        match mine.first() {
            Some(x) => {
                rec(s, inv, ret, H::Read(Some(x.1)), None);
            }
            None if done.is_some() => {
                rec(s, inv, ret, H::Read(None), None);
            }
            None => {}
        }
    }
    done.is_some()
}

fn exec(o: &Op) {
    let s = o.arg(0).unsigned_abs() as usize % N;
    let add = o.arg(2).unsigned_abs();
    match o.k.as_str() {
        "get" => {
            let inv = sched::op_begin();
            let mut at = None;
            let mut added = None;
            risky(o.arg(1), "get_metric", || {
                let g = v().get_metric(v().with_labels(ALL[s]));
                at = Some((g.id, sched::next_seq()));
                ensure!(g.metadata().0 == META, "metadata", "a reference has the wrong metadata");
                user_call();
                alive(g.id, "get_metric");
                added = Some((g.n.fetch_add(add, Ordering::Relaxed), sched::next_seq()));
                user_call();
                alive(g.id, "get_metric");
            });
            let ret = sched::op_end();
            if let Some((id, seq)) = at {
                let d = rec(s, inv, seq, H::Touch(id), None);
                if let Some((before, _)) = added {
                    rec(s, seq, ret, H::Add(id, before, add), Some(d));
                }
            }
        }
        "mget" => {
            let inv = sched::op_begin();
            let mut got = None;
            risky(o.arg(1), "get_metric_mut", || {
                let vec = w().vec.as_mut().unwrap();
                let id = vec.with_labels(ALL[s]);
                let mut g = vec.get_metric_mut(id);
                ensure!(g.metadata().0 == META, "metadata", "a reference has the wrong metadata");
                alive(g.id, "get_metric_mut");
                let before = *g.n.get_mut();
                *g.n.get_mut() += add;
                got = Some((g.id, before));
                user_call();
            });
            let ret = sched::op_end();
            if let Some((id, before)) = got {
                let d = rec(s, inv, ret, H::Touch(id), None);
                rec(s, inv, ret, H::Add(id, before, add), Some(d));
            }
        }
        "init" => {
            sched::op_begin();
            let ok = risky(o.arg(1), "init_all_dense", || w().vec.as_mut().unwrap().init_all_dense());
            sched::op_end();
            w().init |= !w().sparse;
            if ok.is_some() && !w().sparse {
                let c = sut("get_cardinality", || v().get_cardinality());
                ensure!(c == (N, Some(N)), "init", "after init_all_dense the cardinality is {c:?}");
            }
        }
        "rm" => {
            let inv = sched::op_begin();
            let got = sut("remove_metric", || v().remove_metric(v().with_labels(ALL[s])));
            let ret = sched::op_end();
            let x = got.map(|m| {
                alive(m.id, "remove_metric");
                ensure!(w().sparse, "removed-dense", "a dense family gave a series away");
                sched::probe("series_removed");
                (m.id, m.n.load(Ordering::Relaxed))
            });
            if w().sparse {
                rec(s, inv, ret, H::Rm(x), None);
            }
        }
        "card" => {
            sched::op_begin();
            let c = sut("get_cardinality", || v().get_cardinality());
            sched::op_end();
            ensure!(c.0 <= N && c.1 == Some(N), "cardinality", "the cardinality is {c:?} of {N}");
        }
        "scrape" => {
            scrape(o.arg(1));
        }
        _ => {}
    }
}

fn check() {
    let init = w().init;
    for s in 0..N {
        let h = &w().h[s];
        if h.len() > 60 {
            sched::probe("history_too_long");
            continue;
        }
        type St = Option<(usize, u64)>;
        let step = |st: &St, op: &H| -> Option<St> {
            match *op {
                H::Touch(id) => match st {
                    None => Some(Some((id, 0))),
                    Some((i, _)) => (*i == id).then_some(*st),
                },
                H::Add(id, before, n) => (*st == Some((id, before))).then(|| Some((id, before + n))),
                H::Rm(x) => (*st == x).then_some(None),
                // (initialised by init_all_dense)
                H::Read(Some((id, 0))) if init && st.is_none() => Some(Some((id, 0))),
                H::Read(x) => (*st == x).then_some(*st),
            }
        };
        match linearizable(None, h, &step) {
            Some(true) => sched::probe("histories_linearized"),
            Some(false) => {
                let mut t: Vec<_> = h.iter().map(|o| (o.inv, o.ret, o.op)).collect();
                t.sort();
                violate!("history", "no order of the operations on series {s} explains what they saw: {t:?}")
            }
            None => sched::probe("history_undecided"),
        }
    }
}

pub fn run(p: &'static Plan) {
    let sparse = p.get("layout") == 2;
    unsafe {
        W = Some(World { vec: None, sparse, init: false, alive: vec![], seen: vec![vec![]; sched::MAXT], h: (0..N).map(|_| vec![]).collect() });
    }
    let vec = sut("construction", || match p.get("layout") {
        0 => MetricVec::with_metadata(Meta(META)),
        1 => MetricVec::dense_with_metadata(Meta(META)),
        _ => MetricVec::sparse_with_metadata(Meta(META)),
    });
    w().vec = Some(vec);
    ensure!(w().alive.is_empty(), "eager", "construction created {} states", w().alive.len());
    for ph in &p.phases {
        let exclusive = ph.iter().filter(|t| !t.is_empty()).count() <= 1;
        let mut ts = vec![];
        for t in ph {
            if !exclusive && t.iter().any(|o| matches!(o.k.as_str(), "mget" | "init")) {
                simrt::run::harness_error("exclusive operation in a concurrent phase");
            }
            ts.push(sched::spawn(Box::new(move || {
                for o in t {
                    exec(o);
                }
            })));
        }
        for t in ts {
            sched::join_thread(t);
        }
        // whatever exists is in the family
        let k: Vec<usize> = w().h.iter().map(|h| h.len()).collect();
        scrape(0);
        let live = (0..N).filter(|s| matches!(w().h[*s][k[*s]].op, H::Read(Some(_)))).count();
        let c = sut("get_cardinality", || v().get_cardinality());
        ensure!(c == (live, Some(N)), "cardinality", "the cardinality is {c:?}, {live} series are reported");
        let n = w().alive.iter().filter(|a| **a).count();
        ensure!(n == live, "lost-state", "{n} states exist, {live} series are reported");
        check();
    }
    sut("drop", || drop(w().vec.take()));
    let n = w().alive.iter().filter(|a| **a).count();
    ensure!(n == 0, "leaked", "{n} states were never dropped");
}
