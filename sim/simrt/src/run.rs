//! One simulated run = one forked process. The child executes the plan under the scheduler and
//! reports through a shared-memory page; the parent process state is never touched by a run.
#![allow(static_mut_refs)]
use crate::plan::{Plan, Sched};
use crate::sched;
use std::sync::atomic::{AtomicU64, Ordering};

const SHM: usize = 8 << 20;
/// Behind the report: the schedule as it is decided, for runs that end without a report.
const LIVE: usize = 2 << 20;
/// Note one scheduling decision.
pub fn live(ix: usize, step: u64, tid: u16, hash: u64) {
    unsafe {
        if SHM_PTR.is_null() || 24 + ix * 16 + 16 > LIVE {
            return;
        }
        let p = SHM_PTR.add(SHM) as *mut u64;
        p.add(3 + ix * 2).write_volatile(step);
        p.add(4 + ix * 2).write_volatile(tid as u64);
        p.add(1).write_volatile(step);
        p.add(2).write_volatile(hash);
        p.write_volatile(ix as u64 + 1);
    }
}
fn take_live(r: &mut RunResult) {
    unsafe {
        let p = SHM_PTR.add(SHM) as *const u64;
        let n = p.read_volatile() as usize;
        r.steps = p.add(1).read_volatile();
        r.hash = p.add(2).read_volatile();
        r.rec = (0..n).map(|i| (p.add(3 + i * 2).read_volatile(), p.add(4 + i * 2).read_volatile() as u16)).collect();
    }
}
static mut SHM_PTR: *mut u8 = std::ptr::null_mut();

#[derive(Clone, Debug, Default)]
pub struct RunResult {
    /// 0 = ok, 1 = violation, 2 = harness error
    pub status: u64,
    pub class: String,
    pub msg: String,
    pub hash: u64,
    pub steps: u64,
    pub nswitch: u64,
    pub clock: u64,
    pub allocs: u64,
    pub threads: u64,
    pub rec: Vec<(u64, u16)>,
    pub probes: Vec<(String, u64)>,
    pub faults: Vec<(String, u64)>,
    pub trace: Vec<(u64, u16, u8, u32)>,
}

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SHM + LIVE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        SHM_PTR = p as *mut u8;
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
    }
}

struct Wr(usize);
impl Wr {
    fn u(&mut self, v: u64) {
        unsafe {
            if self.0 + 8 <= SHM {
                std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), SHM_PTR.add(self.0), 8);
                self.0 += 8;
            }
        }
    }
    fn s(&mut self, v: &str) {
        let n = v.len().min(SHM.saturating_sub(self.0 + 8)).min(20000);
        self.u(n as u64);
        unsafe {
            std::ptr::copy_nonoverlapping(v.as_ptr(), SHM_PTR.add(self.0), n);
        }
        self.0 += n;
    }
}
struct Rd(usize);
impl Rd {
    fn u(&mut self) -> u64 {
        let mut b = [0u8; 8];
        unsafe { std::ptr::copy_nonoverlapping(SHM_PTR.add(self.0), b.as_mut_ptr(), 8) };
        self.0 += 8;
        u64::from_le_bytes(b)
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let v = unsafe { std::slice::from_raw_parts(SHM_PTR.add(self.0), n) };
        self.0 += n;
        String::from_utf8_lossy(v).into_owned()
    }
}

fn report(status: u64, class: &str, msg: &str) -> ! {
    let mut w = Wr(8);
    if sched::is_active() {
        let s = sched::sim();
        w.u(status);
        w.s(class);
        w.s(msg);
        w.u(s.hash);
        w.u(s.step);
        w.u(s.nswitch);
        w.u(s.clock);
        w.u(unsafe { crate::arena::SIM_ALLOCS });
        w.u(sched::nthreads() as u64);
        w.u(s.rec.len() as u64);
        for (a, b) in &s.rec {
            w.u(*a);
            w.u(*b as u64);
        }
        for l in [sched::probes(), sched::faults()] {
            w.u(l.len() as u64);
            for (k, n) in l {
                w.s(k);
                w.u(*n);
            }
        }
        let n = s.log.len().min(100_000);
        w.u(n as u64);
        for (a, b, c, d) in &s.log[..n] {
            w.u(*a);
            w.u(*b as u64 | (*c as u64) << 16 | (*d as u64) << 32);
        }
    } else {
        w.u(status);
        w.s(class);
        w.s(msg);
        for _ in 0..10 {
            w.u(0);
        }
    }
    unsafe {
        let f = &*(SHM_PTR as *const AtomicU64);
        f.store(1, Ordering::SeqCst);
        libc::_exit(0)
    }
}

/// The property is violated: end the run.
pub fn violate(class: &str, msg: String) -> ! {
    report(1, class, &msg)
}
/// The harness itself misbehaved: end the run; never reported as a violation.
pub fn harness_error(msg: &str) -> ! {
    report(2, "harness", msg)
}
pub fn finish_ok() -> ! {
    report(0, "", "")
}
#[macro_export]
macro_rules! violate {
    ($class:expr, $($t:tt)*) => { $crate::run::violate($class, format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($t:tt)*) => { if !$cond { $crate::run::violate($class, format!($($t)*)) } };
}

static mut LAST_PANIC: Option<(String, String)> = None;

pub fn install_panic_hook() {
    unsafe { TRACE_PANICS = std::env::var_os("SIM_TRACE_PANICS").is_some() };
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        crate::arena::on_host(|| unsafe { LAST_PANIC = Some((loc.as_str().to_string(), msg.as_str().to_string())) });
        if !sched::in_sim() || unsafe { TRACE_PANICS } {
            eprintln!("harness panic at {loc}: {msg}");
        }
    }));
}
pub static mut TRACE_PANICS: bool = false;
pub fn last_panic() -> (String, String) {
    unsafe { LAST_PANIC.clone().unwrap_or_default() }
}

/// Payload used for panics injected on purpose.
pub struct Injected;

static mut ALLOW: [bool; sched::MAXT] = [false; sched::MAXT];
/// May an injected panic surface in the calling thread's current operation?
pub fn allow_injected(on: bool) {
    unsafe { ALLOW[sched::tid()] = on }
}
pub fn allowed() -> bool {
    sched::in_sim() && unsafe { ALLOW[sched::tid()] }
}

/// Call into the code under test. A panic that was not injected is a violation.
pub fn sut<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                if allowed() {
                    std::panic::resume_unwind(e)
                }
                violate("injected-panic-escaped", format!("injected panic surfaced in {what}, which runs no failing user code"));
            }
            let (loc, msg) = last_panic();
            if loc.contains("simcore/src/shapes.rs") {
                // where derived code and the label sets live: the library called them wrongly
                violate("panic", format!("panic in label code during {what} at {loc}: {msg}"));
            }
            unexpected_panic(what)
        }
    }
}
pub fn unexpected_panic(what: &str) -> ! {
    let (loc, msg) = last_panic();
    if loc.contains("verif") || loc.starts_with("core/src/") || loc.starts_with("simrt/") || loc.starts_with("sim") {
        harness_error(&format!("panic in harness during {what} at {loc}: {msg}"));
    }
    violate("panic", format!("unexpected panic during {what} at {loc}: {msg}"));
}

pub fn cpu_limit(secs: i64) {
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::syscall(libc::SYS_setitimer, 2usize, &it as *const _ as usize, 0usize); // ITIMER_PROF
        libc::alarm(300);
    }
}

pub type Body = fn(&'static Plan);

/// Execute one run in a forked child.
pub fn run_child(plan: &Plan, sched_spec: &Sched, body: &dyn Fn(&'static Plan), log: bool) -> RunResult {
    unsafe {
        let f = &*(SHM_PTR as *const AtomicU64);
        f.store(0, Ordering::SeqCst);
        (SHM_PTR.add(SHM) as *mut u64).write_bytes(0, 3);
        let pid = libc::fork();
        if pid < 0 {
            return RunResult { status: 2, class: "harness".into(), msg: "fork failed".into(), ..Default::default() };
        }
        if pid == 0 {
            cpu_limit(20);
            let plan: &'static Plan = std::mem::transmute(plan);
            let body: &'static dyn Fn(&'static Plan) = std::mem::transmute(body);
            sched::start(
                sched_spec,
                &|k| if k == "log" { log as i64 } else { plan.get(k) },
                Box::new(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(plan)));
                    if r.is_err() {
                        unexpected_panic("scenario");
                    }
                    finish_ok()
                }),
            );
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if f.load(Ordering::SeqCst) == 1 {
            let mut r = Rd(8);
            let mut out = RunResult { status: r.u(), class: r.s(), msg: r.s(), ..Default::default() };
            out.hash = r.u();
            out.steps = r.u();
            out.nswitch = r.u();
            out.clock = r.u();
            out.allocs = r.u();
            out.threads = r.u();
            let n = r.u();
            for _ in 0..n {
                let a = r.u();
                let b = r.u();
                out.rec.push((a, b as u16));
            }
            for k in 0..2 {
                let n = r.u();
                for _ in 0..n {
                    let s = r.s();
                    let c = r.u();
                    if k == 0 {
                        out.probes.push((s, c))
                    } else {
                        out.faults.push((s, c))
                    }
                }
            }
            let n = r.u();
            for _ in 0..n {
                let a = r.u();
                let b = r.u();
                out.trace.push((a, b as u16, (b >> 16) as u8, (b >> 32) as u32));
            }
            return out;
        }
        let mut out = RunResult { status: 1, ..Default::default() };
        take_live(&mut out);
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGPROF {
                out.class = "hang".into();
                out.msg = "run consumed 20 s of CPU without reaching a scheduling point or finishing".into();
            } else if sig == libc::SIGALRM || sig == libc::SIGKILL || sig == libc::SIGTERM {
                out.status = 2;
                out.class = "harness".into();
                out.msg = format!("run ended by signal {sig}");
            } else {
                out.class = "crash".into();
                out.msg = format!("process under simulation died of signal {sig}");
            }
        } else {
            let code = libc::WEXITSTATUS(st);
            if code == 71 {
                out.class = "crash".into();
                out.msg = "process under simulation exhausted its memory".into();
            } else {
                out.status = 2;
                out.class = "harness".into();
                out.msg = format!("child exited with {code} without a report");
            }
        }
        out
    }
}
