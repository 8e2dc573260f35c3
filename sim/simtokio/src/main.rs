//! C16: runtime collectors over real tokio runtimes whose threads, clocks and wake-ups are simulated.
use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use simrt::driver::*;
use simrt::run::{sut, Injected};
use simrt::{ensure, sched, violate, Op, Plan, Rng};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use tokio::runtime::{Builder, HistogramScale, Runtime, RuntimeMetrics};
#[path = "../../simcore/src/text.rs"]
#[allow(dead_code)]
mod text;
#[path = "../../simcore/src/writer.rs"]
#[allow(dead_code)]
mod writer;
mod shapes {
    pub fn go_off(kind: &'static str) -> ! {
        simrt::sched::fault(kind);
        std::panic::panic_any(simrt::run::Injected)
    }
}
use writer::{SimWriter, F};

#[global_allocator]
static A: simrt::arena::Arena = simrt::arena::Arena;

const NAMES: [&str; 8] = ["main", "bg", "", "with \"quotes\"", "back\\slash", "line\nfeed", "ünïcode", "a{b=\"c\"}"];

struct Reg {
    rt: RuntimeMetrics,
    name: String,
    /// sequence numbers: when the registration began and ended (u64::MAX: it has not)
    from: u64,
    till: u64,
}
struct World {
    rts: Vec<Option<Arc<Runtime>>>,
    handles: Vec<tokio::runtime::Handle>,
    /// what the runtimes that do I/O hold open
    socks: Vec<Vec<tokio::net::UnixStream>>,
    col: NamedRuntimesCollector,
    regs: Vec<Reg>,
    uniq: u64,
}
static mut W: Option<World> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap_or_else(|| simrt::run::harness_error("no world")) }
}

// ------------------------------------------------------------------ generator
fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut p = Plan::new("runtimes");
    p.set("cores", *r.pick(&[1, 2, 4]));
    p.set("plain", r.chance(400) as i64);
    p.set("spurious", if r.chance(200) { *r.pick(&[30, 150]) } else { 0 });
    p.set("tick", *r.pick(&[0, 1, 1000, 50_000]));
    let n = 1 + r.below(3);
    p.set("nrt", n as i64);
    for i in 0..n {
        p.set(&format!("r{i}.kind"), *r.pick(&[0, 0, 1, 1, 2, 3, 4]));
        if r.chance(30) {
            p.set(&format!("r{i}.kind"), *r.pick(&[9, 11, 12]));
        }
        if p.get(&format!("r{i}.kind")) == 0 && r.chance(400) {
            p.set(&format!("r{i}.io"), 1 + r.below(5) as i64);
        }
        p.set(&format!("r{i}.hist"), r.below(3) as i64);
        p.set(&format!("r{i}.scale"), r.below(3) as i64);
        p.set(&format!("r{i}.time"), r.below(2) as i64);
        p.set(&format!("r{i}.block"), 1 + r.below(3) as i64);
        p.set(&format!("r{i}.event"), *r.pick(&[61, 61, 1, 3]));
    }
    let n = n as i64;
    let nph = 1 + r.below(2);
    let (mut mt, mut mo) = (2, 1);
    let crowd = r.chance(30);
    for k in 0..nph {
        let nth = if r.chance(200) { 1 } else { 2 + r.below(3) };
        mt = mt.max(nth);
        let mut ph = vec![];
        for t in 0..nth {
            let mut ops = vec![];
            if k == 0 && t == 0 && r.chance(600) {
                ops.push(Op::new("add", &[r.below(n as u64) as i64, r.below(8) as i64, 0]));
            }
            if crowd && r.chance(500) {
                ops.push(Op::new("many", &[r.below(n as u64) as i64, r.below(8) as i64, *r.pick(&[7, 8, 9, 16, 17, 33, 65])]));
            }
            for _ in 0..1 + r.below(6) {
                let i = r.below(n as u64) as i64;
                ops.push(match r.below(100) {
                    0..=13 => Op::new("add", &[i, r.below(8) as i64, r.chance(200) as i64]),
                    14..=27 => Op::new("addcur", &[if r.chance(250) { -1 } else { i }, r.below(8) as i64, r.chance(150) as i64]),
                    28..=57 => {
                        let mode = r.below(5) as i64;
                        let f = match r.below(10) {
                            0 => 1 + r.below(60) as i64,
                            1 => -1 - r.below(60) as i64,
                            _ => 0,
                        };
                        Op::new("scrape", &[mode, f, *r.pick(&[1, 2, 5, 20])])
                    }
                    58..=64 => Op::new("single", &[i, r.below(9) as i64]),
                    65..=89 => {
                        let task = *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5, 5]);
                        Op::new("task", &[i, task, 1 + r.below(6) as i64, r.below(2_000_000) as i64])
                    }
                    90..=96 => Op::new("drive", &[i, r.below(6) as i64]),
                    _ => Op::new("shut", &[i]),
                });
            }
            mo = mo.max(ops.len());
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    p.set("est_threads", mt as i64 + 2);
    p.set("est_ops", mo as i64);
    p.set("est_points", 150 * mt as i64 * mo as i64);
    p
}

// ------------------------------------------------------------------ expectation
#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    /// never decreases
    Up(f64),
    /// may go anywhere
    Any(f64),
    /// never changes
    Fix(f64),
}
impl V {
    fn f(self) -> f64 {
        match self {
            V::Up(x) | V::Any(x) | V::Fix(x) => x,
        }
    }
}
type Key = (String, Vec<(String, String)>);
const FAMS: [&str; 14] = [
    "threads",
    "active_tasks",
    "queued_tasks",
    "scheduled_tasks_total",
    "budget_forced_yield_count",
    "worker_mean_poll_time_seconds",
    "worker_noop_count",
    "worker_park_count",
    "worker_steal_count",
    "worker_steal_operations_count",
    "worker_poll_time_seconds",
    "registered_fds_total",
    "deregistered_fds_total",
    "io_ready_events_total",
];
/// What the runtime itself reports, per family.
fn expect(rt: &RuntimeMetrics, name: Option<&str>) -> Vec<BTreeMap<Key, V>> {
    let mut out: Vec<BTreeMap<Key, V>> = vec![BTreeMap::new(); FAMS.len()];
    let mut put = |fam: &str, suffix: &str, l: &[(&str, String)], v: V| {
        let i = FAMS.iter().position(|x| *x == fam).unwrap();
        let mut ls: Vec<(String, String)> = l.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
        if let Some(n) = name {
            ls.push(("runtime".into(), n.into()));
        }
        ls.sort();
        out[i].insert((format!("{fam}{suffix}"), ls), v);
    };
    let s = |x: &str| x.to_string();
    let idle = rt.num_idle_blocking_threads();
    put("threads", "", &[("kind", s("worker"))], V::Fix(rt.num_workers() as f64));
    put("threads", "", &[("kind", s("idle"))], V::Any(idle as f64));
    put("threads", "", &[("kind", s("blocking"))], V::Any(rt.num_blocking_threads().saturating_sub(idle) as f64));
    put("active_tasks", "", &[], V::Any(rt.active_tasks_count() as f64));
    put("queued_tasks", "", &[("kind", s("blocking"))], V::Any(rt.blocking_queue_depth() as f64));
    put("queued_tasks", "", &[("kind", s("injection"))], V::Any(rt.injection_queue_depth() as f64));
    put("scheduled_tasks_total", "", &[("worker", s("remote")), ("overflow", s("true"))], V::Up(rt.remote_schedule_count() as f64));
    put("registered_fds_total", "", &[], V::Up(rt.io_driver_fd_registered_count() as f64));
    put("deregistered_fds_total", "", &[], V::Up(rt.io_driver_fd_deregistered_count() as f64));
    put("io_ready_events_total", "", &[], V::Up(rt.io_driver_ready_count() as f64));
    put("budget_forced_yield_count", "", &[], V::Up(rt.budget_forced_yield_count() as f64));
    for i in 0..rt.num_workers() {
        let n = i.to_string();
        let wl = [("worker", n.clone())];
        put("queued_tasks", "", &[("kind", n.clone())], V::Any(rt.worker_local_queue_depth(i) as f64));
        put("scheduled_tasks_total", "", &[("worker", n.clone()), ("overflow", s("false"))], V::Up(rt.worker_local_schedule_count(i) as f64));
        put("scheduled_tasks_total", "", &[("worker", n.clone()), ("overflow", s("true"))], V::Up(rt.worker_overflow_count(i) as f64));
        put("worker_mean_poll_time_seconds", "", &wl, V::Any(rt.worker_mean_poll_time(i).as_secs_f64()));
        put("worker_noop_count", "", &wl, V::Up(rt.worker_noop_count(i) as f64));
        put("worker_park_count", "", &wl, V::Up(rt.worker_park_count(i) as f64));
        put("worker_steal_count", "", &wl, V::Up(rt.worker_steal_count(i) as f64));
        put("worker_steal_operations_count", "", &wl, V::Up(rt.worker_steal_operations(i) as f64));
        if rt.poll_count_histogram_enabled() {
            let mut sum = 0;
            for b in 0..rt.poll_count_histogram_num_buckets() {
                sum += rt.poll_count_histogram_bucket_count(i, b);
                let e = rt.poll_count_histogram_bucket_range(b).end;
                let le = if e == Duration::from_nanos(u64::MAX) { f64::INFINITY } else { e.as_secs_f64() };
                put("worker_poll_time_seconds", "_bucket", &[("worker", n.clone()), ("le", format!("{le:?}"))], V::Up(sum as f64));
            }
        }
        put("worker_poll_time_seconds", "_count", &wl, V::Up(rt.worker_poll_count(i) as f64));
        put("worker_poll_time_seconds", "_sum", &wl, V::Up(rt.worker_total_busy_duration(i).as_secs_f64()));
    }
    out
}

/// One scrape against the registrations and what they reported before and after it.
struct Before {
    seq: u64,
    switches: u64,
    regs: Vec<Vec<BTreeMap<Key, V>>>,
}
fn before() -> Before {
    sched::quiet(|| Before { seq: sched::next_seq(), switches: sched::sim().nswitch, regs: w().regs.iter().map(|r| expect(&r.rt, Some(&r.name))).collect() })
}
fn families(out: &[u8], prefix: &str) -> BTreeMap<String, BTreeMap<Key, f64>> {
    let fams = text::parse_with(out, true).unwrap_or_else(|e| violate!("text", "the scrape is not an exposition: {e}"));
    let mut m = BTreeMap::new();
    for f in fams {
        let Some(name) = f.name.strip_prefix(prefix).filter(|n| FAMS.contains(n)) else { violate!("unknown-family", "family {} is not documented", f.name) };
        let mut got = BTreeMap::new();
        for s in &f.samples {
            let mut l = s.labels.clone();
            for x in &mut l {
                if x.0 == "le" {
                    x.1 = format!("{:?}", x.1.parse::<f64>().unwrap_or_else(|_| violate!("le", "bad bound {}", x.1)));
                }
            }
            l.sort();
            let v = s.value.parse::<f64>().unwrap();
            let key = (s.name[prefix.len()..].to_string(), l);
            if got.insert(key.clone(), v).is_some() {
                violate!("sample-twice", "{key:?} is reported twice in one scrape");
            }
        }
        ensure!(f.help.is_some(), "help", "family {name} has no help");
        m.insert(name.to_string(), got);
    }
    ensure!(m.len() == FAMS.len(), "family-missing", "the scrape has only the families {:?}", m.keys());
    m
}
/// Consume the samples of one runtime from a family. `must`: they have to be there.
fn take(fam: &str, got: &mut BTreeMap<Key, f64>, lo: Option<&BTreeMap<Key, V>>, hi: &BTreeMap<Key, V>, exact: bool, must: bool, who: &str) {
    let here = hi.keys().filter(|k| got.contains_key(*k)).count();
    if here == 0 && !must {
        return;
    }
    if here == 0 && !hi.is_empty() {
        violate!("runtime-missing", "{fam}: runtime {who:?} was registered before the scrape, which does not report it");
    }
    for (k, v) in hi {
        let Some(x) = got.remove(k) else { violate!("runtime-partial", "{fam}: runtime {who:?} is reported without {k:?}") };
        let h = v.f();
        let l = lo.and_then(|m| m.get(k)).map_or(0.0, |v| v.f());
        let ok = match v {
            _ if exact => x == h,
            V::Fix(_) => x == h,
            V::Up(_) => l <= x && x <= h,
            V::Any(_) => x >= 0.0,
        };
        if exact && h != 0.0 {
            sched::probe(match FAMS.iter().position(|f| *f == fam).unwrap() {
                1 => "nonzero_active_tasks",
                2 => "nonzero_queued",
                3 if k.1.iter().any(|l| l.1 == "true") && !k.1.iter().any(|l| l.1 == "remote") => "nonzero_overflow",
                4 => "nonzero_budget_yield",
                5 => "nonzero_mean_poll",
                6 => "nonzero_noop",
                8 => "nonzero_steal",
                9 => "nonzero_steal_ops",
                10 => "nonzero_poll_time",
                11 => "nonzero_registered_fds",
                12 => "nonzero_deregistered_fds",
                13 => "nonzero_ready_events",
                _ => "nonzero_other",
            });
        }
        ensure!(ok, "wrong-value", "{fam}: runtime {who:?} {k:?} is reported as {x}, the runtime itself says {} .. {h}{}", l, if exact { " (exactly)" } else { "" });
    }
}
fn check(b: &Before, out: &[u8], prefix: &str, exact: bool) {
    sched::quiet(|| {
        let end = sched::next_seq();
        let exact = exact || sched::sim().nswitch == b.switches;
        let mut fams = families(out, prefix);
        let w = w();
        for (i, r) in w.regs.iter().enumerate() {
            if r.from > end {
                continue;
            }
            let hi = expect(&r.rt, Some(&r.name));
            let lo = b.regs.get(i);
            for (j, f) in FAMS.iter().enumerate() {
                take(f, fams.get_mut(*f).unwrap(), lo.map(|x| &x[j]), &hi[j], exact && lo.is_some(), r.till < b.seq, &r.name);
            }
        }
        for (f, left) in fams {
            if let Some((k, v)) = left.first_key_value() {
                violate!("unregistered", "{f}: {k:?} {v} belongs to no registered runtime");
            }
        }
        sched::probe(if exact { "scrapes_checked_exactly" } else { "scrapes_checked_by_brackets" });
    })
}

// ------------------------------------------------------------------ operations
/// A name whose conversion takes time and may fail.
struct Name(String, bool);
impl From<Name> for Cow<'static, str> {
    fn from(n: Name) -> Self {
        sched::point(sched::K_USER, 0);
        if n.1 {
            sched::fault("name_conversion_panic");
            std::panic::panic_any(Injected);
        }
        if n.0.len() % 2 == 0 {
            Cow::Owned(n.0)
        } else {
            Cow::Borrowed(Box::leak(n.0.into_boxed_str()))
        }
    }
}
fn fresh_name(i: i64) -> String {
    let u = w().uniq;
    w().uniq += 1;
    format!("{}{u}", NAMES[i.rem_euclid(8) as usize])
}
struct Shared(*mut SimWriter);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        unsafe { (*self.0).write(b) }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        unsafe { (*self.0).flush() }
    }
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// out [0 collector / 1 namespaced / 2+i a single runtime, yield, chunk, sticky, flush+1, (call permille, fault, arg)*]
fn exec_out(o: &'static Op) {
    let n = w().handles.len();
    sched::op_begin();
    let one = sched::quiet(|| (o.arg(0) >= 2).then(|| RuntimeCollector::new(w().handles[(o.arg(0) - 2) as usize % n].metrics()).with_name("x")));
    let scrape = |x: &mut SimWriter| {
        let mut e = TextEncoder::new(Shared(x));
        match (&one, o.arg(0)) {
            (Some(c), _) => c.collect_group_into(&mut e),
            (_, 0) => w().col.collect_group_into(&mut e),
            _ => WithNamespace::new("tokio", &w().col).collect_group_into(&mut e),
        }?;
        e.flush()
    };
    let check_all = |b: &Before, out: &[u8]| match &one {
        Some(_) => drop(families(out, "")),
        None => check(b, out, if o.arg(0) == 0 { "" } else { "tokio_" }, false),
    };
    let switches = sched::sim().nswitch;
    let b = before();
    let mut x = SimWriter::default();
    let r = sut("collect_group_into", || scrape(&mut x));
    ensure!(r.is_ok(), "scrape-failed", "a scrape into a healthy writer failed");
    let healthy = x.out;
    check_all(&b, &healthy);
    let mut x = SimWriter { yield_every: o.arg(1) as u64, max_chunk: o.arg(2) as usize, sticky: o.arg(3) != 0, flush_fail: (o.arg(4) > 0).then(|| o.arg(4) - 1), ..SimWriter::default() };
    let mut may_panic = false;
    let calls = if o.arg(2) > 0 { healthy.len() as u64 / o.arg(2) as u64 } else { healthy.len() as u64 / 6 };
    for c in o.a.get(5..).unwrap_or(&[]).chunks_exact(3) {
        let f = match c[1] {
            0 => F::Short(c[2].unsigned_abs() as usize),
            1 => F::Interrupted,
            2 => F::Fail(c[2]),
            3 => F::Zero,
            _ => F::Panic,
        };
        may_panic |= f == F::Panic;
        x.plan.push((1 + calls * c[0].unsigned_abs() / 1000, f));
    }
    let b = before();
    let r = may_fail("collect_group_into", may_panic, || scrape(&mut x));
    let still = sched::sim().nswitch == switches;
    let out = &x.out;
    let prefix = !still || healthy.starts_with(out);
    match r {
        None => {
            sched::probe("scrapes_panicked_with_their_writer");
            ensure!(prefix, "not-a-prefix", "a scrape whose writer panicked wrote something that is no prefix of a correct one: {:?}, correct is {:?}", show(out), show(&healthy));
        }
        Some(Ok(())) => {
            ensure!(x.unflushed == 0, "not-flushed", "the encoder was flushed successfully, but {} bytes of its output were never flushed to the writer", x.unflushed);
            if let Some((k, _)) = x.failed {
                violate!("silent-failure", "the writer failed with {k:?} but the scrape reported success");
            }
            ensure!(!still || *out == healthy, "damaged-scrape", "a successful scrape wrote {:?}, a healthy one {:?}", show(out), show(&healthy));
            check_all(&b, out);
            sched::probe("scrape_completed_despite_faults");
        }
        Some(Err(e)) => {
            let Some((kind, k)) = x.failed else { violate!("invented-error", "the scrape failed with {e} though the writer did not") };
            ensure!(e.kind() == kind && (k < 0 || e.to_string() == writer::err(k).to_string()), "wrong-error", "the writer failed with {kind:?} {k}, the scrape reported {e}");
            ensure!(prefix, "not-a-prefix", "a failed scrape wrote something that is no prefix of a correct one: {:?}, correct is {:?}", show(out), show(&healthy));
            sched::probe("scrape_failed_as_injected");
        }
    }
    sched::op_end();
}
fn gen_out(r: &mut Rng, t: bool) -> Plan {
    let mut p = gen(r, t);
    p.scenario = "rtout".into();
    for o in p.phases.iter_mut().flatten().flatten() {
        if o.k == "scrape" || o.k == "single" {
            let which = if o.k == "single" { 2 + o.arg(0) } else { r.below(2) as i64 };
            let mut a = vec![
                which,
                if r.chance(600) { 0 } else { *r.pick(&[1, 2, 5, 20]) },
                if r.chance(200) { 1 + r.below(12) as i64 } else { 0 },
                r.chance(300) as i64,
                if r.chance(80) { 1 + r.below(8) as i64 } else { 0 },
            ];
            for _ in 0..r.below(4) {
                a.extend([r.below(1000) as i64, *r.pick(&[0, 0, 1, 1, 2, 2, 3, 5]), r.below(8) as i64]);
            }
            o.k = "out".into();
            o.a = a;
        }
    }
    p
}
struct SlowWriter {
    failed: bool,
    out: Vec<u8>,
    n: u64,
    every: u64,
    fail: i64,
}
impl std::io::Write for SlowWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % self.every == 0 {
            sched::point(sched::K_USER, 0);
        }
        if self.fail != 0 && self.n as i64 == self.fail.abs() {
            if self.fail > 0 {
                sched::fault("writer_error");
                self.failed = true;
                return Err(std::io::ErrorKind::BrokenPipe.into());
            }
            sched::fault("writer_panic");
            std::panic::panic_any(Injected);
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Run something that may panic with an injected panic only if told so.
fn may_fail<R>(what: &str, allow: bool, f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() && allow {
                return None;
            }
            simrt::run::unexpected_panic(what)
        }
    }
}
fn rt_of(i: i64) -> Option<Arc<Runtime>> {
    sched::quiet(|| {
        let n = w().rts.len();
        w().rts[i.unsigned_abs() as usize % n].clone()
    })
}

async fn work(kind: i64, n: i64, d: u64) {
    match kind {
        0 => {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        }
        1 => {
            for _ in 0..n {
                sched::advance(d);
                sched::point(sched::K_USER, 0);
                tokio::task::yield_now().await;
            }
        }
        2 => {
            for _ in 0..n.min(3) {
                let _ = tokio::task::spawn_blocking(move || {
                    sched::advance(d);
                    sched::point(sched::K_USER, 0);
                })
                .await;
            }
        }
        3 => {
            for _ in 0..n * 40 {
                tokio::task::consume_budget().await;
            }
        }
        4 => {
            for _ in 0..n * 50 {
                tokio::spawn(async {});
            }
        }
        _ => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(tokio::spawn(async move {
                    sched::point(sched::K_USER, 0);
                    sched::advance(d / 7);
                    tokio::task::yield_now().await;
                }));
            }
            for x in v {
                let _ = x.await;
            }
        }
    }
}

/// Register a runtime, by itself or as the current one.
fn exec_add(cur: bool, i: i64, name: i64, fail: bool) {
    let n = w().rts.len();
    let outside = cur && i < 0;
    let ix = i.unsigned_abs() as usize % n;
    let h = w().handles[ix].clone();
    let (slot, name) = sched::quiet(|| {
        let name = fresh_name(name);
        let from = sched::next_seq();
        w().regs.push(Reg { rt: h.metrics(), name: name.clone(), from: if fail || outside { u64::MAX } else { from }, till: u64::MAX });
        (w().regs.len() - 1, name)
    });
    sched::op_begin();
    let nm = Name(name, fail);
    if outside {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w().col.add_current(nm)));
        ensure!(r.is_err(), "no-panic-outside", "add_current outside of a runtime did not panic");
        sched::fault("registration_outside_runtime");
    } else {
        let r = may_fail("registration", fail, || {
            if cur {
                let _g = h.enter();
                w().col.add_current(nm)
            } else {
                w().col.add(h.metrics(), nm)
            }
        });
        ensure!(r.is_some() || fail, "panic", "a registration failed");
        if r.is_some() {
            ensure!(!fail, "no-panic", "the conversion of the name was skipped");
            sched::quiet(|| w().regs[slot].till = sched::next_seq());
            sched::probe("registrations");
        }
    }
    sched::op_end();
}
fn exec(o: &'static Op) {
    let i = o.arg(0);
    let n = w().rts.len();
    match o.k.as_str() {
        "many" => {
            for k in 0..o.arg(2) {
                exec_add(false, i, o.arg(1) + k, false);
            }
        }
        "add" | "addcur" => exec_add(o.k == "addcur", i, o.arg(1), o.arg(2) != 0),
        "scrape" => {

            sched::op_begin();
            let b = before();
            let every = o.arg(2).max(1) as u64;
            match i {
                0 | 1 => {
                    let (ok, out) = sut("collect_group_into", || {
                        let mut e = BufferedTextEncoder::new();
                        let r = if i == 0 { w().col.collect_group_into(&mut e) } else { WithNamespace::new("tokio", &w().col).collect_group_into(&mut e) };
                        (r.is_ok(), e.finish())
                    });
                    ensure!(ok, "scrape-failed", "a scrape into memory failed");
                    check(&b, &out, if i == 0 { "" } else { "tokio_" }, false);
                }
                _ => {
                    let f = o.arg(1);
                    let mut sw = SlowWriter { failed: false, out: vec![], n: 0, every, fail: f };
                    let r = may_fail("collect_group_into", f < 0, || {
                        let mut e = TextEncoder::new(&mut sw);
                        w().col.collect_group_into(&mut e)
                    });
                    match r {
                        Some(Ok(())) if sw.failed => violate!("silent-failure", "the writer failed but the scrape reported success"),
                        Some(Ok(())) => check(&b, &sw.out, "", false),
                        Some(Err(_)) => ensure!(f > 0, "scrape-failed", "a scrape failed without reason"),
                        None => {}
                    }
                }
            }
            sched::op_end();
        }
        "single" => {
            sched::op_begin();
            let m = w().handles[i.unsigned_abs() as usize % n].metrics();
            let name = if o.arg(1) < 8 { Some(NAMES[o.arg(1).rem_euclid(8) as usize]) } else { None };
            let (sw, lo) = sched::quiet(|| (sched::sim().nswitch, expect(&m, name)));
            let (ok, out) = sut("collect_group_into", || {
                let c = RuntimeCollector::new(m.clone());
                let c = match name {
                    Some(x) => c.with_name(x),
                    None => c,
                };
                let mut e = BufferedTextEncoder::new();
                (c.collect_group_into(&mut e).is_ok(), e.finish())
            });
            ensure!(ok, "scrape-failed", "a scrape into memory failed");
            sched::quiet(|| {
                let hi = expect(&m, name);
                let exact = sched::sim().nswitch == sw;
                let mut fams = families(&out, "");
                for (j, f) in FAMS.iter().enumerate() {
                    let g = fams.get_mut(*f).unwrap();
                    take(f, g, Some(&lo[j]), &hi[j], exact, true, name.unwrap_or("-"));
                    ensure!(g.is_empty(), "unregistered", "{f}: {g:?} belongs to no registered runtime");
                }
                sched::probe("single_scrapes");
            });
            sched::op_end();
        }
        "task" => {
            sched::op_begin();
            let (k, c, d) = (o.arg(1), o.arg(2), o.arg(3) as u64);
            w().handles[i.unsigned_abs() as usize % n].spawn(work(k, c, d));
            sched::op_end();
        }
        "drive" => {
            sched::op_begin();
            // (a thread waiting for real events would stop the simulation)
            if let Some(rt) = rt_of(i).filter(|_| w().socks[i.unsigned_abs() as usize % n].is_empty()) {
                let (k, _g) = (o.arg(1), ());
                rt.block_on(async move {
                    work(k, 3, 1000).await;
                    for _ in 0..4 {
                        tokio::task::yield_now().await;
                    }
                });
                sched::probe("driven");
                drop(rt);
            }
            sched::op_end();
        }
        "shut" => {
            sched::op_begin();
            let rt = sched::quiet(|| w().rts[i.unsigned_abs() as usize % n].take());
            if rt.is_some() {
                sched::fault("runtime_shut_down");
            }
            drop(rt);
            sched::op_end();
        }
        "out" => exec_out(o),
        k => simrt::run::harness_error(&format!("unknown operation {k}")),
    }
}

/// Real I/O between pairs of sockets, before the simulation begins: the last pair stays open.
async fn converse(rounds: i64) -> Vec<tokio::net::UnixStream> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let mut open = vec![];
    for _ in 0..rounds {
        open.clear();
        let io = |e: std::io::Error| -> ! { simrt::run::harness_error(&format!("no sockets: {e}")) };
        let (mut a, mut b) = tokio::net::UnixStream::pair().unwrap_or_else(|e| io(e));
        for _ in 0..rounds {
            a.write_all(b"hello").await.unwrap_or_else(|e| io(e));
            b.read_exact(&mut [0; 5]).await.unwrap_or_else(|e| io(e));
        }
        open = vec![a, b];
    }
    open
}

fn build(p: &'static Plan) {
    let (mut rts, mut socks) = (vec![], vec![]);
    for i in 0..p.get("nrt").max(1) {
        let g = |k: &str| p.get(&format!("r{i}.{k}"));
        let mut b = if g("kind") == 0 { Builder::new_current_thread() } else { Builder::new_multi_thread() };
        if g("kind") > 0 {
            b.worker_threads(g("kind") as usize);
        }
        b.max_blocking_threads(g("block").max(1) as usize).event_interval(g("event").max(1) as u32);
        if g("hist") > 0 {
            b.enable_metrics_poll_count_histogram();
            b.metrics_poll_count_histogram_buckets(1 + (g("hist") as usize - 1) * 6);
            b.metrics_poll_count_histogram_resolution(Duration::from_nanos([100_000, 1, 1_000_000][g("scale").rem_euclid(3) as usize]));
            b.metrics_poll_count_histogram_scale(if g("scale") == 1 { HistogramScale::Linear } else { HistogramScale::Log });
        }
        if g("time") != 0 {
            b.enable_time();
        }
        if g("io") > 0 {
            b.enable_io();
        }
        let rt = b.build().unwrap_or_else(|e| simrt::run::harness_error(&format!("no runtime: {e}")));
        socks.push(if g("io") > 0 { sched::quiet(|| rt.block_on(converse(g("io")))) } else { vec![] });
        rts.push(Some(Arc::new(rt)));
    }
    let handles = rts.iter().map(|r: &Option<Arc<Runtime>>| r.as_ref().unwrap().handle().clone()).collect();
    let col = if p.get("nrt") % 2 == 0 { NamedRuntimesCollector::default() } else { NamedRuntimesCollector::new() };
    unsafe { W = Some(World { rts, handles, socks, col, regs: vec![], uniq: 0 }) };
}

fn run(p: &'static Plan) {
    build(p);
    for ph in &p.phases {
        let ts: Vec<_> = ph
            .iter()
            .map(|t| {
                sched::spawn(Box::new(move || {
                    for o in t {
                        exec(o);
                    }
                }))
            })
            .collect();
        for t in ts {
            sched::join_thread(t);
        }
        // no client runs any more: nothing may move during this scrape
        sched::quiet(|| {
            let b = before();
            let out = sut("collect_group_into", || {
                let mut e = BufferedTextEncoder::new();
                w().col.collect_group_into(&mut e).unwrap();
                e.finish()
            });
            check(&b, &out, "", true);
        });
    }
    let rts = sched::quiet(|| std::mem::take(&mut w().rts));
    drop(rts);
}

const RULE: &str = "one evaluation = one simulated run: a seed generates runtimes (flavour, workers, histogram), registrations, scrapes, task activity, shutdowns and faults, and every scheduling decision; a run is non-trivial if threads really interleaved or a fault was injected, and distinct if the hash of its sequence of scheduling points is new";
const REAL: &[&str] = &["measured-tokio (unmodified source)", "measured", "tokio runtimes (current-thread and multi-thread), their workers and blocking threads", "std RwLock, thread spawn and join"];
const STUB: &[&str] = &["scheduler, futex, clocks, getrandom, available_parallelism, memory placement (simulated)", "output writer (simulated)"];
const ASSUME: &[&str] = &["sequentially consistent memory", "inside tokio itself threads are preempted only at futexes, clock reads and in task bodies"];
const fn out_part(id: &'static str) -> Property {
    Property {
        id,
        scenarios: &[(1, "rtout")],
        quick_runs: 30_000,
        quick_secs: 7,
        thorough_secs: 60,
        level: "exploration",
        rule: "one evaluation = one simulated run: a seed generates runtimes, registrations, scrapes into healthy, slow and failing writers, task activity and shutdowns, and every scheduling decision; a run is non-trivial if threads really interleaved or a fault was injected, and distinct if the hash of its sequence of scheduling points is new",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }
}
const PROPS: &[Property] = &[
    out_part("C08"),
    out_part("C09"),
    out_part("C13"),
    out_part("C14"),
    Property {
        id: "C16",
        scenarios: &[(5, "runtimes"), (1, "rtout")],
        quick_runs: 60_000,
        quick_secs: 40,
        thorough_secs: 840,
        level: "exploration",
        rule: RULE,
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
];
fn main() {
    simrt::driver::main(&Registry { props: PROPS, scenarios: &[Scenario { name: "runtimes", gen, run }, Scenario { name: "rtout", gen: gen_out, run }] })
}
