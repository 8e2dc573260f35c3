//! C15: a process collector against a simulated procfs.
use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_process::ProcessCollector;
use simrt::driver::*;
use simrt::{ensure, sched, violate, Op, Plan, Rng};
mod fs;
#[path = "../../simcore/src/text.rs"]
#[allow(dead_code)]
mod text;
#[path = "../../simcore/src/wire.rs"]
#[allow(dead_code)]
mod wire;
#[path = "../../simcore/src/writer.rs"]
#[allow(dead_code)]
mod writer;
mod shapes {
    pub fn go_off(kind: &'static str) -> ! {
        simrt::sched::fault(kind);
        std::panic::panic_any(simrt::run::Injected)
    }
}
mod out;
use fs::*;

#[global_allocator]
static A: simrt::arena::Arena = simrt::arena::Arena;

const SLOTS: usize = 3;
struct Col {
    c: ProcessCollector,
    pid: i32,
    /// what its start time may be
    start: Vec<Option<i64>>,
}
static mut COLS: [Option<&'static Col>; SLOTS] = [None; SLOTS];
#[allow(static_mut_refs)]
fn cols() -> &'static mut [Option<&'static Col>; SLOTS] {
    unsafe { &mut COLS }
}

// ------------------------------------------------------------------ generator
fn faults(r: &mut Rng, a: &mut Vec<i64>, calls: u64) {
    let n = if r.chance(400) { 0 } else { 1 + r.below(3) };
    for _ in 0..n {
        let kind = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 6, 7, 7]);
        // (a burst: the same fault at successive calls)
        let at = r.below(calls);
        let arg = (r.next() >> 40) as i64;
        let run = if r.chance(150) { 1 + r.below(6) } else { 1 };
        for i in 0..run {
            a.extend([(at + i) as i64, kind, arg]);
        }
    }
}
fn gen(r: &mut Rng, _t: bool) -> Plan {
    let mut p = Plan::new("procfs");
    p.set("cores", *r.pick(&[1, 2, 4]));
    p.set("wseed", (r.next() >> 2) as i64);
    p.set("plain", r.chance(200) as i64);
    let np = 1 + r.below(3);
    p.set("nproc", np as i64);
    p.set("clk", *r.pick(&[100, 100, 250, 300, 1000, 1024]));
    p.set("page", *r.pick(&[4096, 4096, 8192, 16384, 65536]));
    p.set("btime", *r.pick(&[1_700_000_000, 0, 1, 4_000_000_000]));
    p.set("kernel", r.below(5) as i64);
    let nph = 1 + r.below(3);
    let (mut mt, mut mo) = (2, 1);
    for k in 0..nph {
        let nth = if r.chance(350) { 1 } else { 2 + r.below(3) };
        mt = mt.max(nth);
        let mut ph = vec![];
        for t in 0..nth {
            let env = nth > 1 && t > 0 && r.chance(400);
            let n = 1 + r.below(6);
            let mut ops = vec![];
            if k == 0 && t == 0 {
                for s in 0..SLOTS {
                    let mut a = vec![s as i64, r.below(np + 1) as i64];
                    if r.chance(300) {
                        faults(r, &mut a, 8);
                    }
                    ops.push(Op::new("new", &a));
                }
            }
            for _ in 0..n {
                if env || r.chance(150) {
                    let x = r.below(np) as i64;
                    ops.push(Op::new(*r.pick(&["exit", "spawn", "spawn", "change", "change", "change"]), &[x]));
                } else if r.chance(150) {
                    let mut a = vec![r.below(SLOTS as u64) as i64, r.below(np + 1) as i64];
                    faults(r, &mut a, 8);
                    ops.push(Op::new("new", &a));
                } else {
                    // (3 * n: the writer fails at its n-th call)
                    let wf = if r.chance(200) { 3 * (1 + r.below(80)) as i64 } else { 0 };
                    let mut a = vec![r.below(SLOTS as u64) as i64, r.below(3) as i64 + wf];
                    faults(r, &mut a, 24);
                    ops.push(Op::new("scrape", &a));
                }
            }
            mo = mo.max(ops.len());
            ph.push(ops);
        }
        p.phases.push(ph);
    }
    p.set("est_threads", mt as i64);
    p.set("est_ops", mo as i64);
    p.set("est_points", 40 * mt as i64 * mo as i64);
    p
}

// ------------------------------------------------------------------ execution
fn build(p: &'static Plan) {
    let mut rng = Rng::new(p.get("wseed") as u64);
    let me = *rng.pick(&[1, 77, 4242, 4194303]);
    let mut procs = vec![];
    for i in 0..p.get("nproc").max(1) as u64 {
        let pid = if i == 0 { me } else { me + 1 + i as i32 * 10 };
        procs.push((pid, Some(random_proc(&mut rng, i + 1))));
    }
    let (release, fdsize) = [("6.8.0-31-generic", true), ("6.2.0", true), ("6.1.99", false), ("5.15.0-91-generic", false), ("3.10.0-1160.el7.x86_64", false)][p.get("kernel").rem_euclid(5) as usize];
    let world = World {
        procs,
        next_uid: 100,
        clk: p.get("clk").max(1),
        page: p.get("page").max(1),
        btime: p.get("btime") as u64,
        fdsize,
        release,
        me,
        table: vec![],
        dirs: vec![],
        served: vec![Served::default(); sched::MAXT],
        rng,
    };
    unsafe {
        WORLD = Some(world);
        simrt::interpose::OPEN_HOOK = Some(open_hook);
        simrt::interpose::SYSCALL_HOOK = Some(syscall_hook);
    }
}

fn arm(a: &[i64]) {
    sched::quiet(|| {
        let mut f = vec![];
        for x in a.chunks_exact(3) {
            f.push(Fault { at: x[0] as u64, kind: x[1], arg: x[2] });
        }
        w().served[sched::tid()] = Served { faults: f, ..Default::default() };
    })
}
/// Run a call of the collector; a panic of the parser on a stat file cut behind the name is told apart.
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = simrt::run::last_panic();
            if w().served[sched::tid()].cut && loc.contains("procfs-core") && loc.contains("stat.rs") {
                violate!("panic-cut-stat", "{what} panicked at {loc} on a stat file cut behind the name: {msg}");
            }
            simrt::run::unexpected_panic(what)
        }
    }
}
/// A writer that fails once.
struct Failing {
    left: i64,
    failed: bool,
}
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.left -= 1;
        if self.left == 0 {
            sched::fault("writer_error");
            self.failed = true;
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn done() -> Served {
    let s = std::mem::take(&mut w().served[sched::tid()]);
    if s.calls > 0 {
        sched::probe("operations_reading_procfs");
    }
    s
}

fn exec(o: &'static Op) {
    match o.k.as_str() {
        "exit" | "spawn" | "change" => {
            sched::op_begin();
            sched::point(sched::K_USER, 0);
            sched::quiet(|| {
                let pid = pick_pid(o.arg(0));
                unsafe { out::ENV += 1 };
                match o.k.as_str() {
                    // (the observing process itself stays)
                    "exit" if pid != w().me => exit(pid),
                    "spawn" if pid != w().me => respawn(pid),
                    _ => change(pid),
                }
                sched::probe("environment_steps");
            });
            sched::op_end();
        }
        "new" => {
            let slot = o.arg(0).unsigned_abs() as usize % SLOTS;
            arm(o.a.get(2..).unwrap_or(&[]));
            let np = w().procs.len() as i64;
            let me = o.arg(1) >= np;
            let pid = if me { w().me } else { pick_pid(o.arg(1)) };
            sched::op_begin();
            let c = call("ProcessCollector::new", || if me { ProcessCollector::for_self() } else { ProcessCollector::new(pid) });
            sched::quiet(|| {
                let s = done();
                let t = |x: Src| s.troubled[x as usize];
                let mut start: Vec<Option<i64>> = s
                    .stats
                    .iter()
                    .filter(|x| x.0 == pid)
                    .map(|x| Some((w().btime + x.2.start / w().clk as u64) as i64))
                    .collect();
                if start.is_empty() || t(Src::Dir) || t(Src::Stat) || t(Src::Boot) {
                    start.push(None);
                }
                if s.stats.is_empty() {
                    sched::probe("created_without_start_time");
                    if !t(Src::Dir) && !t(Src::Stat) && !t(Src::Boot) {
                        violate!("not-read", "the start time of an accessible process was not read");
                    }
                }
                cols()[slot] = Some(Box::leak(Box::new(Col { c, pid, start })));
            });
            sched::op_end();
        }
        "scrape" => {
            let slot = o.arg(0).unsigned_abs() as usize % SLOTS;
            let Some(col) = sched::quiet(|| cols()[slot]) else { return };
            arm(o.a.get(2..).unwrap_or(&[]));
            sched::op_begin();
            let ns = o.arg(1).rem_euclid(3) == 2;
            let wf = o.arg(1) / 3;
            if wf > 0 {
                let (r, failed) = call("collect_group_into", || {
                    let mut e = TextEncoder::new(Failing { left: wf, failed: false });
                    let r = if ns { WithNamespace::new("process", &col.c).collect_group_into(&mut e) } else { col.c.collect_group_into(&mut e) };
                    (r, e.writer.failed)
                });
                sched::quiet(|| {
                    done();
                    match r {
                        Ok(()) => ensure!(!failed, "silent-failure", "the writer failed but the scrape reported success"),
                        Err(x) => ensure!(failed && x.kind() == std::io::ErrorKind::TimedOut, "scrape-failed", "the scrape failed with {x}, which the writer did not report"),
                    }
                    sched::probe(if failed { "scrapes_failed_with_their_writer" } else { "scrapes_into_a_writer" });
                });
                sched::op_end();
                return;
            }
            let (ok, out) = call("collect_group_into", || {
                let mut e = BufferedTextEncoder::new();
                let r = if ns { WithNamespace::new("process", &col.c).collect_group_into(&mut e) } else { col.c.collect_group_into(&mut e) };
                (r.is_ok(), e.finish())
            });
            sched::quiet(|| {
                let s = done();
                ensure!(ok, "scrape-failed", "a scrape into memory failed");
                check(col, &s, &out, if ns { "process_" } else { "" });
                sched::probe("scrapes_checked");
            });
            sched::op_end();
        }
        "out" => out::exec(o),
        k => simrt::run::harness_error(&format!("unknown operation {k}")),
    }
}

const NAMES: [&str; 7] = ["open_fds", "max_fds", "virtual_memory_bytes", "resident_memory_bytes", "cpu_seconds_total", "threads", "start_time_seconds"];

fn parse_text(out: &[u8], prefix: &str) -> [Option<i64>; 7] {
    let fams = text::parse(out).unwrap_or_else(|e| violate!("text", "the scrape is not an exposition: {e}"));
    let mut got: [Option<i64>; 7] = [None; 7];
    for f in &fams {
        let i = f.name.strip_prefix(prefix).and_then(|n| NAMES.iter().position(|x| *x == n));
        let Some(i) = i else { violate!("unknown-family", "family {} is not documented", f.name) };
        ensure!(f.help.is_some() && f.samples.len() == 1 && f.samples[0].labels.is_empty() && f.samples[0].name == f.name, "family-shape", "family {f:?} is not one described sample");
        let v = &f.samples[0].value;
        got[i] = Some(v.parse::<i64>().unwrap_or_else(|_| violate!("value", "{} is {v}", f.name)));
    }
    got
}
/// Everything one scrape said, against everything it was shown.
fn check(col: &Col, s: &Served, out: &[u8], prefix: &str) {
    check_values(col, s, parse_text(out, prefix), |v| v)
}
/// `round`: what the format makes of a value
fn check_values(col: &Col, s: &Served, got: [Option<i64>; 7], round: fn(i64) -> i64) {
    let t = |x: Src| s.troubled[x as usize];
    let dir_ok = s.dirs.iter().any(|d| d.0 == col.pid);
    let dir_bad = t(Src::Dir);
    ensure!(dir_ok || dir_bad, "not-read", "the scrape did not look at process {}", col.pid);

    // the generations from which each source may stem
    let mut gens: Option<Vec<u64>> = None;
    let mut source = |name: &str, src: Src, idx: &[usize], mut recs: Vec<(u64, Vec<Option<i64>>)>| {
        for v in recs.iter_mut().flat_map(|r| &mut r.1) {
            *v = v.map(round);
        }
        let vals: Vec<Option<i64>> = idx.iter().map(|i| got[*i]).collect();
        let hits: Vec<u64> = recs.iter().filter(|r| r.1 == vals).map(|r| r.0).collect();
        if !hits.is_empty() {
            if vals.iter().any(|v| v.is_some()) {
                let g = match gens.take() {
                    None => hits,
                    Some(g) => g.into_iter().filter(|x| hits.contains(x)).collect(),
                };
                ensure!(!g.is_empty(), "mixed-processes", "{name} stems from another process than the values before it");
                gens = Some(g);
            }
            return;
        }
        let absent = vals.iter().all(|v| v.is_none());
        if absent {
            if dir_bad || t(src) {
                sched::probe("absent_after_trouble");
                return;
            }
            if recs.is_empty() {
                violate!("not-read", "{name} was not read although nothing failed");
            }
            violate!("left-out", "{name} is left out although it was read as {recs:?}");
        }
        violate!("wrong-value", "{name} is reported as {vals:?}, the kernel exposed {recs:?} (process, values)");
    };
    let mine = |p: i32| p == col.pid;
    source("open_fds", Src::Fd, &[0], s.fds.iter().filter(|x| mine(x.0)).map(|x| (x.1, vec![Some(x.2)])).collect());
    source("max_fds", Src::Limits, &[1], s.limits.iter().filter(|x| mine(x.0)).map(|x| (x.1, vec![x.2.map(|v| v as i64)])).collect());
    let (page, clk) = (w().page as u64, w().clk as u64);
    let stat = |p: &Proc| vec![Some(p.vsize as i64), Some((p.rss * page) as i64), Some(((p.utime + p.stime) / clk) as i64), Some(p.threads)];
    source("stat", Src::Stat, &[2, 3, 4, 5], s.stats.iter().filter(|x| mine(x.0)).map(|x| (x.1, stat(&x.2))).collect());

    match got[6] {
        None => ensure!(dir_bad || col.start.contains(&None), "start-left-out", "the start time is left out, it was read as {:?}", col.start),
        x => ensure!(col.start.contains(&x), "start-wrong", "the start time is {x:?}, it was read as {:?}", col.start),
    }
}

fn run(p: &'static Plan) {
    build(p);
    for ph in &p.phases {
        let ts: Vec<_> = ph
            .iter()
            .map(|t| {
                sched::spawn(Box::new(move || {
                    for o in t {
                        exec(o);
                    }
                }))
            })
            .collect();
        for t in ts {
            sched::join_thread(t);
        }
        ensure!(open_handles() == 0, "leak", "{} descriptors are still open after all scrapes ended", open_handles());
        // once faults stop a scrape is complete again
        for i in 0..SLOTS {
            let Some(col) = cols()[i] else { continue };
            arm(&[]);
            let out = call("collect_group_into", || {
                let mut e = BufferedTextEncoder::new();
                col.c.collect_group_into(&mut e).unwrap();
                e.finish()
            });
            sched::quiet(|| {
                let s = done();
                check(col, &s, &out, "");
            });
        }
    }
}

const RULE: &str = "one evaluation = one simulated run: a seed generates processes, kernel version, collectors, scrapes, environment steps and the faults injected at each system call, and every scheduling decision; a run is non-trivial if threads really interleaved or a fault was injected, and distinct if the hash of its sequence of scheduling points is new";
const REAL: &[&str] = &["measured-process (unmodified source)", "measured", "procfs, procfs-core, rustix", "std file system layer, thread spawn and join"];
const STUB: &[&str] = &["procfs and the system calls reading it (simulated kernel)", "sysconf, uname, getpid (drawn from the plan)", "scheduler, futex, clocks, memory placement (simulated)"];
const OUT_RULE: &str = "one evaluation = one simulated run: a seed generates processes, collectors, their text and protobuf scrapes into healthy and failing writers, environment steps and every scheduling decision; a run is non-trivial if threads really interleaved or a fault was injected, and distinct if the hash of its sequence of scheduling points is new";
const fn out_part(id: &'static str) -> Property {
    Property {
        id,
        scenarios: &[(1, "procout")],
        quick_runs: 40_000,
        quick_secs: 6,
        thorough_secs: 60,
        level: "exploration",
        rule: OUT_RULE,
        real: REAL,
        stub: STUB,
        assumptions: &["the simulated procfs answers every read here: its failures belong to C15"],
    }
}
const PROPS: &[Property] = &[
    out_part("C08"),
    out_part("C09"),
    out_part("C10"),
    out_part("C11"),
    out_part("C13"),
    Property {
        id: "C15",
        scenarios: &[(5, "procfs"), (1, "procout")],
        quick_runs: 120_000,
        quick_secs: 40,
        thorough_secs: 840,
        level: "exploration",
        rule: RULE,
        real: REAL,
        stub: STUB,
        assumptions: &["sequentially consistent memory", "a file of procfs is formatted at its first read", "contents deviate from the documented format only in the listed ways: empty, fewer fields or lines, missing brackets, unreadable numbers, invalid UTF-8", "values stay below 2^62"],
    },
];
fn main() {
    simrt::driver::main(&Registry { props: PROPS, scenarios: &[Scenario { name: "procfs", gen, run }, Scenario { name: "procout", gen: out::gen, run }] })
}
