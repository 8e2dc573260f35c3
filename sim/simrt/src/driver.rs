//! Seeded search over runs, minimisation, replay and evidence.
use crate::json::J;
use crate::plan::{Plan, Sched};
use crate::rng::{mix, Rng};
use crate::run::{run_child, RunResult};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::time::Instant;

pub struct Scenario {
    pub name: &'static str,
    pub gen: fn(&mut Rng, bool) -> Plan,
    pub run: fn(&'static Plan),
}

pub struct Property {
    pub id: &'static str,
    /// weighted scenarios
    pub scenarios: &'static [(u64, &'static str)],
    pub quick_runs: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct Registry {
    pub props: &'static [Property],
    pub scenarios: &'static [Scenario],
}

impl Registry {
    fn scenario(&self, n: &str) -> &'static Scenario {
        self.scenarios.iter().find(|s| s.name == n).unwrap_or_else(|| die(&format!("unknown scenario {n}")))
    }
}

fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {m}");
    std::process::exit(2)
}

fn idhash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn make_run(reg: &Registry, p: &Property, master: u64, idx: u64, thorough: bool) -> (Plan, u64) {
    let seed = mix(mix(master ^ idhash(p.id)) ^ idx);
    let mut rng = Rng::new(seed);
    let total: u64 = p.scenarios.iter().map(|s| s.0).sum();
    let mut k = rng.below(total);
    let mut name = p.scenarios[0].1;
    for (w, n) in p.scenarios {
        if k < *w {
            name = n;
            break;
        }
        k -= w;
    }
    let sc = reg.scenario(name);
    let mut plan = (sc.gen)(&mut rng, thorough);
    plan.scenario = name.to_string();
    plan.cfg.entry("fseed".into()).or_insert((rng.next() >> 2) as i64);
    (plan, rng.next())
}

fn exec(reg: &Registry, plan: &Plan, s: &Sched, log: bool) -> RunResult {
    let sc = reg.scenario(&plan.scenario);
    let body = sc.run;
    run_child(plan, s, &move |p| body(p), log)
}

// ---------------------------------------------------------------- known findings
#[derive(Clone)]
struct Known {
    class: String,
    contains: String,
    what: String,
}
fn load_known(verif: &str, id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.jsonl")) {
        for l in s.lines() {
            let Some(j) = J::parse(l) else { continue };
            let f = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
            if f("property") == id && f("status") == "known" {
                v.push(Known { class: f("class"), contains: f("contains"), what: f("what") });
            }
        }
    }
    v
}
fn known<'a>(k: &'a [Known], r: &RunResult) -> Option<&'a Known> {
    k.iter().find(|k| k.class == r.class && !k.contains.is_empty() && r.msg.contains(&k.contains))
}

// ---------------------------------------------------------------- batch
#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    switches: u64,
    clock: u128,
    threads: u64,
    interleaved: u64,
    rechecks: u64,
    mismatches: u64,
    known: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    fault_runs: u64,
    hashes: BTreeSet<u64>,
    plans: BTreeSet<u64>,
}

impl Agg {
    fn dump(&self) -> String {
        let mut s = String::new();
        use std::fmt::Write;
        let _ = writeln!(
            s,
            "T {} {} {} {} {} {} {} {} {}",
            self.runs, self.steps, self.switches, self.clock, self.threads, self.interleaved, self.rechecks, self.mismatches, self.fault_runs
        );
        for (t, m) in [("K", &self.known), ("S", &self.scen), ("P", &self.probes), ("F", &self.faults)] {
            for (k, v) in m {
                let _ = writeln!(s, "{t} {v} {k}");
            }
        }
        for h in &self.hashes {
            let _ = writeln!(s, "H {h}");
        }
        for h in &self.plans {
            let _ = writeln!(s, "Q {h}");
        }
        s
    }
    fn absorb(&mut self, s: &str) {
        for l in s.lines() {
            let Some((t, r)) = l.split_once(' ') else { continue };
            match t {
                "T" => {
                    let v: Vec<u128> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    self.runs += v[0] as u64;
                    self.steps += v[1] as u64;
                    self.switches += v[2] as u64;
                    self.clock += v[3];
                    self.threads += v[4] as u64;
                    self.interleaved += v[5] as u64;
                    self.rechecks += v[6] as u64;
                    self.mismatches += v[7] as u64;
                    self.fault_runs += v[8] as u64;
                }
                "H" => {
                    self.hashes.insert(r.parse().unwrap_or(0));
                }
                "Q" => {
                    self.plans.insert(r.parse().unwrap_or(0));
                }
                _ => {
                    let Some((n, k)) = r.split_once(' ') else { continue };
                    let n: u64 = n.parse().unwrap_or(0);
                    let m = match t {
                        "K" => &mut self.known,
                        "S" => &mut self.scen,
                        "P" => &mut self.probes,
                        _ => &mut self.faults,
                    };
                    *m.entry(k.to_string()).or_insert(0) += n;
                }
            }
        }
    }
}

fn plan_hash(p: &Plan) -> u64 {
    let mut h = idhash(&p.scenario);
    for (k, v) in &p.cfg {
        h = mix(h ^ idhash(k) ^ *v as u64);
    }
    for ph in &p.phases {
        h = mix(h ^ 1);
        for t in ph {
            h = mix(h ^ 2);
            for o in t {
                h = mix(h ^ idhash(&o.k));
                for a in &o.a {
                    h = mix(h ^ *a as u64);
                }
            }
        }
    }
    h
}

fn pin(cpu: usize) {
    unsafe {
        let mut set = [0usize; 16];
        let r = crate::sched::raw_syscall(libc::SYS_sched_getaffinity as usize, 0, 128, set.as_mut_ptr() as usize, 0, 0, 0);
        if r <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| set[c / 64] >> (c % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[cpu % cpus.len()];
        let mut one = [0usize; 16];
        one[c / 64] |= 1 << (c % 64);
        crate::sched::raw_syscall(libc::SYS_sched_setaffinity as usize, 0, 128, one.as_ptr() as usize, 0, 0, 0);
    }
}

struct Found {
    idx: u64,
    plan: Plan,
    seed: u64,
    res: RunResult,
}

struct Args {
    seed: u64,
    thorough: bool,
    runs: u64,
    secs: u64,
    workers: usize,
    verif: String,
    /// a further part of a check: add to the evidence that is there
    append: bool,
}

enum Batch {
    Ok,
    Found(Found),
    Harness(String),
}

fn batch(reg: &Registry, p: &Property, a: &Args, known_list: &[Known], agg: &mut Agg) -> Batch {
    use std::sync::atomic::{AtomicU64, Ordering};
    let stop: &'static AtomicU64 = unsafe {
        let q = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(q as *const AtomicU64)
    };
    stop.store(u64::MAX, Ordering::SeqCst);
    let t0 = Instant::now();
    let mut fds = vec![];
    for w in 0..a.workers {
        let mut fd = [0i32; 2];
        unsafe {
            if libc::pipe(fd.as_mut_ptr()) != 0 {
                die("pipe");
            }
            let pid = libc::fork();
            if pid < 0 {
                die("fork");
            }
            if pid == 0 {
                libc::close(fd[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                crate::run::init();
                pin(w);
                let mut agg = Agg::default();
                let mut idx = w as u64;
                let mut tail = String::new();
                while idx < a.runs && idx < stop.load(Ordering::SeqCst) && t0.elapsed().as_secs() < a.secs {
                    let (plan, seed) = make_run(reg, p, a.seed, idx, a.thorough);
                    let r = exec(reg, &plan, &Sched::Seed(seed), false);
                    agg.runs += 1;
                    agg.steps += r.steps;
                    agg.switches += r.nswitch;
                    agg.clock += r.clock.saturating_sub(1_000_000_000_000) as u128;
                    agg.threads += r.threads;
                    *agg.scen.entry(plan.scenario.clone()).or_insert(0) += 1;
                    for (k, v) in &r.probes {
                        *agg.probes.entry(k.clone()).or_insert(0) += v;
                    }
                    for (k, v) in &r.faults {
                        *agg.faults.entry(k.clone()).or_insert(0) += v;
                    }
                    if !r.faults.is_empty() {
                        agg.fault_runs += 1;
                    }
                    if r.nswitch > r.threads || !r.faults.is_empty() {
                        agg.interleaved += 1;
                        agg.hashes.insert(r.hash);
                    }
                    agg.plans.insert(plan_hash(&plan));
                    if r.status == 0 && idx % 61 == 7 {
                        agg.rechecks += 1;
                        let r2 = exec(reg, &plan, &Sched::Seed(seed), false);
                        if r2.hash != r.hash || r2.steps != r.steps || r2.status != 0 {
                            agg.mismatches += 1;
                        }
                    }
                    if r.status == 1 {
                        if let Some(k) = known(known_list, &r) {
                            *agg.known.entry(k.what.clone()).or_insert(0) += 1;
                        } else {
                            tail = format!("V {idx}\n");
                            stop.fetch_min(idx, Ordering::SeqCst);
                            break;
                        }
                    } else if r.status == 2 {
                        tail = format!("X run {idx} ({}): {}\n", plan.scenario, r.msg.replace('\n', " "));
                        stop.fetch_min(idx, Ordering::SeqCst);
                        break;
                    }
                    idx += a.workers as u64;
                }
                let mut out = agg.dump();
                out.push_str(&tail);
                let b = out.as_bytes();
                let mut off = 0;
                while off < b.len() {
                    let n = libc::write(fd[1], b[off..].as_ptr() as *const _, b.len() - off);
                    if n <= 0 {
                        break;
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(fd[1]);
            fds.push((fd[0], pid));
        }
    }
    let mut best: Option<u64> = None;
    let mut herr: Option<String> = None;
    for (fd, pid) in fds {
        use std::os::fd::FromRawFd;
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 || !s.starts_with("T ") {
            herr = Some(format!("worker {pid} died (status {st})"));
        }
        for l in s.lines().rev().take(2) {
            if let Some(i) = l.strip_prefix("V ") {
                let i: u64 = i.parse().unwrap();
                best = Some(best.map_or(i, |b| b.min(i)));
            }
            if let Some(m) = l.strip_prefix("X ") {
                herr = Some(m.to_string());
            }
        }
        agg.absorb(&s);
    }
    if let Some(idx) = best {
        let (plan, seed) = make_run(reg, p, a.seed, idx, a.thorough);
        let res = exec(reg, &plan, &Sched::Seed(seed), false);
        if res.status != 1 {
            return Batch::Harness(format!("run {idx} reported a violation that did not reproduce"));
        }
        return Batch::Found(Found { idx, plan, seed, res });
    }
    if let Some(h) = herr {
        return Batch::Harness(h);
    }
    Batch::Ok
}

// ---------------------------------------------------------------- minimiser
fn minimise(reg: &Registry, f: &Found, budget_s: u64) -> (Plan, Vec<(u64, u16)>, RunResult, u64) {
    let t0 = Instant::now();
    let class = f.res.class.clone();
    let mut plan = f.plan.clone();
    let mut best = f.res.clone();
    let mut tries = 0u64;
    let mut seed = f.seed;
    let attempt = |pl: &Plan, seed: u64, k: u64, tries: &mut u64| -> Option<(RunResult, u64)> {
        for i in 0..k {
            if t0.elapsed().as_secs() >= budget_s {
                return None;
            }
            let s = if i == 0 { seed } else { mix(seed ^ i.wrapping_mul(0x51ed)) };
            *tries += 1;
            let r = exec(reg, pl, &Sched::Seed(s), false);
            if r.status == 1 && r.class == class {
                return Some((r, s));
            }
        }
        None
    };
    let k = 60;
    let slow = best.class == "hang" || best.class == "livelock";
    let k = if slow { 1 } else { k };
    loop {
        let before = plan.nops();
        // drop whole threads, then chunks of operations
        for ph in 0..plan.phases.len() {
            let mut t = 0;
            while t < plan.phases[ph].len() {
                if !plan.phases[ph][t].is_empty() {
                    let mut c = plan.clone();
                    c.phases[ph][t].clear();
                    if let Some((r, s)) = attempt(&c, seed, k, &mut tries) {
                        plan = c;
                        best = r;
                        seed = s;
                    }
                }
                t += 1;
            }
        }
        let mut chunk = 8usize;
        while chunk >= 1 {
            for ph in 0..plan.phases.len() {
                for t in 0..plan.phases[ph].len() {
                    let mut i = 0;
                    while i < plan.phases[ph][t].len() {
                        let n = plan.phases[ph][t].len();
                        let e = (i + chunk).min(n);
                        if e - i == chunk {
                            let mut c = plan.clone();
                            c.phases[ph][t].drain(i..e);
                            if let Some((r, s)) = attempt(&c, seed, k, &mut tries) {
                                plan = c;
                                best = r;
                                seed = s;
                                continue;
                            }
                        }
                        i += 1;
                    }
                }
            }
            chunk /= 2;
        }
        if plan.nops() == before || t0.elapsed().as_secs() >= budget_s {
            break;
        }
    }
    for key in ["spurious", "tick", "plain"] {
        if plan.get(key) != 0 {
            let mut c = plan.clone();
            c.set(key, 0);
            if let Some((r, s)) = attempt(&c, seed, k, &mut tries) {
                plan = c;
                best = r;
                seed = s;
            }
        }
    }
    // schedule: explicit switches, removed one by one
    let mut sw = best.rec.clone();
    let same = |sw: &Vec<(u64, u16)>, tries: &mut u64| -> Option<RunResult> {
        *tries += 1;
        let r = exec(reg, &plan, &Sched::Explicit(sw.clone()), false);
        (r.status == 1 && r.class == class).then_some(r)
    };
    if !slow {
        if let Some(r) = same(&sw, &mut tries) {
            best = r;
            let mut chunk = (sw.len() / 2).max(1);
            let t1 = Instant::now();
            loop {
                let mut i = 0;
                while i < sw.len() && t1.elapsed().as_secs() < 30 {
                    let e = (i + chunk).min(sw.len());
                    let mut c = sw.clone();
                    c.drain(i..e);
                    if let Some(r) = same(&c, &mut tries) {
                        best = r;
                        sw = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
    (plan, sw, best, tries)
}

fn kind_name(k: u8) -> &'static str {
    match k {
        1 => "atomic",
        2 => "lock",
        3 => "yield",
        4 => "op",
        5 => "user",
        6 => "clock",
        7 => "mem",
        8 => "spawn",
        9 => "exit",
        _ => "sys",
    }
}

fn write_replay(reg: &Registry, a: &Args, p: &Property, f: &Found, plan: &Plan, sw: &[(u64, u16)], r: &RunResult, tries: u64) -> String {
    let lg = exec(reg, plan, &Sched::Explicit(sw.to_vec()), true);
    // compact trace: consecutive steps of one thread collapsed
    let mut tr = vec![];
    let mut i = 0;
    while i < lg.trace.len() && tr.len() < 400 {
        let t = lg.trace[i].1;
        let st = lg.trace[i].0;
        let mut n = 0;
        let mut kinds: Vec<&str> = vec![];
        while i < lg.trace.len() && lg.trace[i].1 == t {
            let k = kind_name(lg.trace[i].2);
            if kinds.last() != Some(&k) && kinds.len() < 12 {
                kinds.push(k);
            }
            n += 1;
            i += 1;
        }
        tr.push(J::s(format!("step {st}: thread {t} runs {n} points ({})", kinds.join(","))));
    }
    let j = J::Obj(vec![
        ("property".into(), J::s(p.id)),
        ("class".into(), J::s(r.class.clone())),
        ("message".into(), J::s(r.msg.clone())),
        ("master_seed".into(), J::U(a.seed)),
        ("run_index".into(), J::U(f.idx)),
        ("run_seed".into(), J::U(f.seed)),
        ("trace_hash".into(), J::s(format!("{:016x}", r.hash))),
        ("minimised_from".into(), J::Obj(vec![
            ("ops".into(), J::Int(f.plan.nops() as i64)),
            ("switches".into(), J::Int(f.res.rec.len() as i64)),
            ("runs_spent".into(), J::U(tries)),
        ])),
        ("ops".into(), J::Int(plan.nops() as i64)),
        ("plan".into(), plan.to_json()),
        ("switches".into(), J::Arr(sw.iter().map(|(s, t)| J::Arr(vec![J::U(*s), J::Int(*t as i64)])).collect())),
        ("faults".into(), J::Obj(r.faults.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())),
        ("schedule_trace".into(), J::Arr(tr)),
    ]);
    let dir = format!("{}/replays", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:08x}.json", p.id, (r.hash ^ plan_hash(plan)) as u32);
    if std::fs::write(&path, j.render()).is_err() {
        die("cannot write replay file");
    }
    path
}

fn replay(reg: &Registry, path: &str) -> ! {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let j = J::parse(&s).unwrap_or_else(|| die("replay file is not JSON"));
    let plan = j.get("plan").and_then(Plan::from_json).unwrap_or_else(|| die("bad plan"));
    let mut sw = vec![];
    for e in j.get("switches").and_then(|x| x.arr()).unwrap_or(&[]) {
        let e = e.arr().unwrap();
        sw.push((e[0].uint().unwrap(), e[1].uint().unwrap() as u16));
    }
    crate::run::init();
    let r = exec(reg, &plan, &Sched::Explicit(sw), false);
    let f = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
    println!("replayed {path}: status={} class={} steps={} trace_hash={:016x}", r.status, r.class, r.steps, r.hash);
    println!("{}", r.msg);
    if r.status == 1 {
        let exact = r.class == f("class") && format!("{:016x}", r.hash) == f("trace_hash");
        println!("{}", if exact { "reproduced exactly" } else { "violation differs from the recorded one" });
        println!("VIOLATION property={} replay={}", f("property"), path);
        std::process::exit(1);
    }
    if r.status == 2 {
        std::process::exit(2);
    }
    println!("no violation");
    std::process::exit(0)
}

fn obj(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())
}

/// Evidence of a check that consists of several programs: counts are added up, the rest is kept as a part.
fn combine(path: &str, part: J) -> J {
    let old = std::fs::read_to_string(path).ok().and_then(|s| J::parse(&s)).unwrap_or_else(|| die("no evidence to add to"));
    let num = |j: &J| j.uint();
    let J::Obj(top) = old else { die("bad evidence") };
    let cov = part.get("coverage").unwrap();
    let top = top
        .into_iter()
        .map(|(k, v)| match (k.as_str(), v) {
            ("violations", v) => (k, J::U(num(&v).unwrap_or(0) + part.get("violations").and_then(|x| x.uint()).unwrap_or(0))),
            ("wall_s", J::F(v)) => (k, J::F(v + if let Some(J::F(x)) = part.get("wall_s") { *x } else { 0.0 })),
            ("coverage", J::Obj(c)) => {
                let mut c: Vec<(String, J)> = c
                    .into_iter()
                    .map(|(k, v)| {
                        let add = ["evaluations", "distinct_nontrivial"].contains(&k.as_str());
                        let v = if add { J::U(num(&v).unwrap_or(0) + cov.get(&k).and_then(num).unwrap_or(0)) } else { v };
                        (k, v)
                    })
                    .collect();
                if !c.iter().any(|x| x.0 == "parts") {
                    c.push(("parts".into(), J::Arr(vec![])));
                }
                if let Some((_, J::Arr(a))) = c.iter_mut().find(|x| x.0 == "parts") {
                    a.push(part.clone());
                }
                (k, J::Obj(c))
            }
            (_, v) => (k, v),
        })
        .collect();
    J::Obj(top)
}

fn check(reg: &Registry, id: &str, a: &Args) -> ! {
    let t0 = Instant::now();
    let p = reg.props.iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("unknown property {id}")));
    println!("property {} seed {} tier {} workers {}", p.id, a.seed, if a.thorough { "thorough" } else { "quick" }, a.workers);
    let known_list = load_known(&a.verif, id);
    crate::run::init();
    let mut agg = Agg::default();
    let res = batch(reg, p, a, &known_list, &mut agg);
    let search_s = t0.elapsed().as_secs_f64();
    let mut viol = 0;
    let mut line = None;
    match &res {
        Batch::Ok => {}
        Batch::Harness(h) => die(h),
        Batch::Found(f) => {
            viol = 1;
            println!("run {} violates {}: [{}] {}", f.idx, p.id, f.res.class, f.res.msg);
            let (plan, sw, r, tries) = minimise(reg, f, 60);
            let path = write_replay(reg, a, p, f, &plan, &sw, &r, tries);
            println!("minimised {} ops / {} switches -> {} ops / {} switches: [{}] {}", f.plan.nops(), f.res.rec.len(), plan.nops(), sw.len(), r.class, r.msg);
            line = Some(format!("VIOLATION property={} replay={}", p.id, path));
        }
    }
    if agg.mismatches > 0 {
        println!("WARNING: {} of {} repeated runs differed", agg.mismatches, agg.rechecks);
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<J> = (0..3).map(|i| make_run(reg, p, a.seed, i, a.thorough).0.to_json()).collect();
    let ev = J::Obj(vec![
        ("property".into(), J::s(p.id)),
        ("tier".into(), J::s(if a.thorough { "thorough" } else { "quick" })),
        ("seed".into(), J::U(a.seed)),
        ("level".into(), J::s(p.level)),
        ("coverage".into(), J::Obj(vec![
            ("evaluations".into(), J::U(agg.runs)),
            ("distinct_nontrivial".into(), J::U(agg.hashes.len() as u64)),
            ("rule".into(), J::s(p.rule)),
            ("samples".into(), J::Arr(samples)),
            ("distinct_plans".into(), J::U(agg.plans.len() as u64)),
            ("runs_with_real_interleaving_or_fault".into(), J::U(agg.interleaved)),
            ("seeds_per_hour".into(), J::U((agg.runs as f64 / search_s.max(0.001) * 3600.0) as u64)),
            ("simulated_seconds".into(), J::F(agg.clock as f64 / 1e9)),
            ("scheduling_points".into(), J::U(agg.steps)),
            ("context_switches".into(), J::U(agg.switches)),
            ("simulated_threads".into(), J::U(agg.threads)),
            ("runs_with_injected_faults".into(), J::U(agg.fault_runs)),
            ("faults_injected".into(), obj(&agg.faults)),
            ("probes".into(), obj(&agg.probes)),
            ("runs_per_scenario".into(), obj(&agg.scen)),
            ("determinism_repeats".into(), J::U(agg.rechecks)),
            ("determinism_mismatches".into(), J::U(agg.mismatches)),
            ("known_findings_hit".into(), obj(&agg.known)),
            ("interleaving_measure".into(), J::s("64-bit hash over the sequence of (thread, kind of point, object address) of every scheduling point of a run")),
            ("real_components".into(), J::Arr(p.real.iter().map(|s| J::s(*s)).collect())),
            ("stubbed_components".into(), J::Arr(p.stub.iter().map(|s| J::s(*s)).collect())),
        ])),
        ("assumptions".into(), J::Arr(p.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s".into(), J::F(wall)),
        ("violations".into(), J::Int(viol)),
    ]);
    let dir = format!("{}/evidence", a.verif);
    let _ = std::fs::create_dir_all(&dir);
    let ev = if a.append { combine(&format!("{dir}/{}.json", p.id), ev) } else { ev };
    if std::fs::write(format!("{dir}/{}.json", p.id), ev.render()).is_err() {
        die("cannot write evidence");
    }
    println!(
        "{} runs, {} distinct interleavings, {} points, {} switches, {:.1} simulated s, {:.1} s wall; faults {:?}",
        agg.runs, agg.hashes.len(), agg.steps, agg.switches, agg.clock as f64 / 1e9, wall, agg.faults
    );
    println!("probes {:?}", agg.probes);
    for k in &known_list {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    if let Some(l) = line {
        println!("{l}");
        std::process::exit(1);
    }
    println!("OK property={}", p.id);
    std::process::exit(0)
}

pub fn main(reg: &Registry) -> ! {
    crate::run::install_panic_hook();
    crate::interpose::warm_up();
    let av: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let mut a = Args {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        runs: 0,
        secs: 0,
        workers: 8,
        verif: env("VERIF_DIR").unwrap_or_else(|| "/verif".into()),
        append: false,
    };
    let mut i = 3;
    while i + 1 < av.len() {
        match av[i].as_str() {
            "--runs" => a.runs = av[i + 1].parse().unwrap(),
            "--secs" => a.secs = av[i + 1].parse().unwrap(),
            "--workers" => a.workers = av[i + 1].parse().unwrap(),
            "--seed" => a.seed = av[i + 1].parse().unwrap(),
            "--part" => a.append = av[i + 1] != "0",
            "--tier" => a.thorough = av[i + 1] == "thorough",
            x => die(&format!("unknown option {x}")),
        }
        i += 2;
    }
    let cmd = av.get(1).map(|s| s.as_str()).unwrap_or("");
    let arg = av.get(2).cloned().unwrap_or_default();
    match cmd {
        "check" => {
            let p = reg.props.iter().find(|p| p.id == arg).unwrap_or_else(|| die("unknown property"));
            if a.runs == 0 {
                a.runs = if a.thorough { u64::MAX } else { p.quick_runs };
            }
            if a.secs == 0 {
                a.secs = if a.thorough { p.thorough_secs } else { p.quick_secs };
            }
            check(reg, &arg, &a)
        }
        "replay" => replay(reg, &arg),
        // print one line per run: used to prove determinism across processes and worker counts
        "hashes" => {
            let p = reg.props.iter().find(|p| p.id == arg).unwrap_or_else(|| die("unknown property"));
            crate::run::init();
            let out = std::io::stdout();
            let mut out = out.lock();
            for idx in 0..a.runs.max(1) {
                let (plan, seed) = make_run(reg, p, a.seed, idx, a.thorough);
                let r = exec(reg, &plan, &Sched::Seed(seed), false);
                let _ = writeln!(out, "{idx} {} {:016x} {} {} {} {} {}", plan.scenario, r.hash, r.steps, r.nswitch, r.allocs, r.status, r.class);
            }
            std::process::exit(0)
        }
        // show one run in detail
        "one" => {
            let p = reg.props.iter().find(|p| p.id == arg).unwrap_or_else(|| die("unknown property"));
            crate::run::init();
            let idx = a.runs;
            let (plan, seed) = make_run(reg, p, a.seed, idx, a.thorough);
            println!("{}", plan.to_json().render());
            let r = exec(reg, &plan, &Sched::Seed(seed), true);
            println!("{r:?}");
            std::process::exit(0)
        }
        "list" => {
            for p in reg.props {
                println!("{}", p.id);
            }
            std::process::exit(0)
        }
        _ => die("usage: check ID | replay FILE | hashes ID --runs N | one ID --runs IDX | list"),
    }
}
