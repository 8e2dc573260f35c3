//! The simulated scheduler: real OS threads, exactly one of which holds the baton.
//!
//! Every intercepted atomic access, futex call, yield, clock read, thread operation and user-code
//! callback is a *point*. At each point the scheduler decides, from the run's seed alone (or from an
//! explicit list of switches when replaying), which thread continues.
#![allow(static_mut_refs)]
use crate::plan::Sched;
use crate::rng::{mix, Rng};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 64;
const STACK: usize = 1 << 20;
const STACK_BASE: usize = 0x30_0000_0000;

pub const K_ATOMIC: u8 = 1;
pub const K_FUTEX: u8 = 2;
pub const K_YIELD: u8 = 3;
pub const K_OP: u8 = 4;
pub const K_USER: u8 = 5;
pub const K_CLOCK: u8 = 6;
pub const K_PLAIN: u8 = 7;
pub const K_SPAWN: u8 = 8;
pub const K_EXIT: u8 = 9;
pub const K_SYS: u8 = 10;

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex { addr: usize, deadline: u64, mask: u32 },
    Sleep { deadline: u64 },
    Join { tid: usize },
    Stalled,
    Done,
}

pub struct Th {
    pub st: St,
    wake: AtomicU32,
    pt: libc::pthread_t,
    start: usize,
    arg: usize,
    ret: usize,
    /// result delivered to a thread leaving a blocking state: 0 woken, 1 timed out, 2 spurious
    reason: u8,
    hold: u64,
    points: u64,
    ops: u64,
    op_points: u64,
    prio: u64,
    reap: i32,
    /// monotonic clock reads: number and value of the latest
    pub clock_reads: (u64, u64),
}

enum Policy {
    Explicit { list: Vec<(u64, u16)>, idx: usize },
    Random { p: u64 },
    Pct { change: Vec<u64>, next_low: u64 },
    Target { targets: Vec<(u16, u64, u64, u64)>, p: u64 },
    Rr,
}

pub struct Sim {
    active: bool,
    th: Vec<Th>,
    n: usize,
    pub cur: usize,
    pub step: u64,
    pub max_steps: u64,
    pub clock: u64,
    pub tick: u64,
    pub realtime_offset: i64,
    rng: Rng,
    policy: Policy,
    pub rec: Vec<(u64, u16)>,
    pub hash: u64,
    pub nswitch: u64,
    seq: u64,
    pub spurious: u64,
    pub fseed: u64,
    fut_ctr: u64,
    pub plain_points: bool,
    pub stall_hook: Option<fn()>,
    pub cores: usize,
    pub log: Vec<(u64, u16, u8, u32)>,
    pub log_on: bool,
    probes: Vec<(&'static str, u64)>,
    faults: Vec<(&'static str, u64)>,
    granule: Vec<u8>,
}

static mut S: Option<Box<Sim>> = None;

#[thread_local]
static mut TID: i32 = -1;
#[thread_local]
static mut QUIET: u32 = 0;

#[inline(always)]
pub fn in_sim() -> bool {
    unsafe { TID >= 0 }
}
#[inline(always)]
pub fn tid() -> usize {
    unsafe { TID as usize }
}
#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { S.as_mut().unwrap_unchecked() }
}

/// Run `f` without scheduling points (harness bookkeeping).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { QUIET -= 1 }
        }
    }
    unsafe { QUIET += 1 };
    let _g = G;
    f()
}
pub fn is_quiet() -> bool {
    unsafe { QUIET > 0 }
}

// ---------------------------------------------------------------- raw syscalls
#[inline(always)]
pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn real_futex_wait(w: &AtomicU32, v: u32) {
    unsafe {
        raw_syscall(libc::SYS_futex as usize, w as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
fn real_futex_wake(w: &AtomicU32) {
    unsafe {
        raw_syscall(libc::SYS_futex as usize, w as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- set-up
impl Sim {
    fn new(sched: &Sched, cfg: &dyn Fn(&str) -> i64) -> Sim {
        let seed = match sched {
            Sched::Seed(s) => *s,
            _ => 1,
        };
        let mut rng = Rng::new(seed ^ 0xA5A5_1234);
        let est = {
            let e = cfg("est_points");
            if e > 0 { e as u64 } else { 300 }
        };
        let nthreads = cfg("est_threads").max(2) as u64;
        let policy = match sched {
            Sched::Explicit(l) => {
                let mut l = l.clone();
                l.sort();
                Policy::Explicit { list: l, idx: 0 }
            }
            Sched::Seed(_) => match rng.below(100) {
                0..=34 => Policy::Random { p: *rng.pick(&[500, 300, 150, 80, 40, 20]) },
                35..=59 => {
                    let d = 1 + rng.below(5);
                    let mut change: Vec<u64> = (0..d).map(|_| rng.below(est * 2)).collect();
                    change.sort();
                    Policy::Pct { change, next_low: 1 << 20 }
                }
                60..=95 => {
                    let d = 1 + rng.below(4);
                    let nops = cfg("est_ops").max(1) as u64;
                    let mut targets = vec![];
                    for _ in 0..d {
                        let t = 1 + rng.below(nthreads);
                        let op = rng.below(nops);
                        let pt = match rng.below(4) {
                            0 => rng.below(4),
                            1 => rng.below(12),
                            2 => rng.below(40),
                            _ => rng.below(120),
                        };
                        let hold = match rng.below(4) {
                            0 => u64::MAX,
                            1 => 1 + rng.below(20),
                            2 => 1 + rng.below(200),
                            _ => 1 + rng.below(2000),
                        };
                        targets.push((t as u16, op, pt, hold));
                    }
                    Policy::Target { targets, p: *rng.pick(&[0, 0, 10, 50]) }
                }
                _ => Policy::Rr,
            },
        };
        let mut th = Vec::with_capacity(MAXT);
        for i in 0..MAXT {
            th.push(Th {
                st: St::Free,
                wake: AtomicU32::new(0),
                pt: 0,
                start: 0,
                arg: 0,
                ret: 0,
                reason: 0,
                hold: 0,
                points: 0,
                ops: 0,
                op_points: 0,
                prio: (1 << 40) + mix(seed ^ (i as u64) << 17) % (1 << 30),
                reap: -1,
                clock_reads: (0, 0),
            });
        }
        let ms = cfg("max_steps");
        Sim {
            active: true,
            th,
            n: 0,
            cur: 0,
            step: 0,
            max_steps: if ms > 0 { ms as u64 } else { 5_000_000 },
            clock: 1_000_000_000_000,
            tick: cfg("tick") as u64,
            realtime_offset: 1_700_000_000_000_000_000,
            rng,
            policy,
            rec: Vec::with_capacity(1 << 16),
            hash: 0xcbf2_9ce4_8422_2325,
            nswitch: 0,
            seq: 0,
            spurious: cfg("spurious") as u64,
            fseed: cfg("fseed") as u64,
            fut_ctr: 0,
            plain_points: cfg("plain") != 0,
            stall_hook: None,
            cores: cfg("cores").max(1) as usize,
            log: Vec::with_capacity(if cfg("log") != 0 { 1 << 20 } else { 0 }),
            log_on: cfg("log") != 0,
            probes: Vec::with_capacity(256),
            faults: Vec::with_capacity(64),
            granule: vec![0xff; if cfg("plain") != 0 { 1 << 16 } else { 0 }],
        }
    }

    fn runnable(&self, i: usize) -> bool {
        self.th[i].st == St::Runnable
    }

    /// Decide who runs next. Never returns a thread that is not runnable.
    fn choose(&mut self, me: usize, kind: u8) -> usize {
        self.step += 1;
        if self.step > self.max_steps {
            crate::run::violate("livelock", format!("no completion after {} scheduling steps", self.step));
        }
        let step = self.step;
        // policy holds
        if let Policy::Target { targets, .. } = &self.policy {
            if self.th[me].st == St::Runnable {
                let t = &self.th[me];
                for (tt, op, pt, hold) in targets {
                    if *tt as usize == me && *op + 1 == t.ops && *pt == t.op_points {
                        let h = if *hold == u64::MAX { u64::MAX } else { step + hold };
                        self.th[me].hold = h;
                        break;
                    }
                }
            }
        }
        loop {
            // timers
            let now = self.clock;
            for i in 0..self.n {
                match self.th[i].st {
                    St::Sleep { deadline } if deadline <= now => {
                        self.th[i].st = St::Runnable;
                        self.th[i].reason = 1;
                    }
                    St::Futex { deadline, .. } if deadline <= now => {
                        self.th[i].st = St::Runnable;
                        self.th[i].reason = 1;
                    }
                    _ => {}
                }
                if self.th[i].hold != 0 && self.th[i].hold <= step {
                    self.th[i].hold = 0;
                }
            }
            let mut any_run = false;
            let mut ncand = 0usize;
            let mut cand = [0u16; MAXT];
            for i in 0..self.n {
                if self.runnable(i) {
                    any_run = true;
                    if self.th[i].hold == 0 {
                        cand[ncand] = i as u16;
                        ncand += 1;
                    }
                }
            }
            if ncand == 0 && any_run {
                // only held threads remain: release the held thread with the earliest deadline
                let mut best = usize::MAX;
                for i in 0..self.n {
                    if self.runnable(i) && (best == usize::MAX || self.th[i].hold < self.th[best].hold) {
                        best = i;
                    }
                }
                self.th[best].hold = 0;
                continue;
            }
            if !any_run {
                // let time pass
                let mut dl = u64::MAX;
                for i in 0..self.n {
                    match self.th[i].st {
                        St::Sleep { deadline } | St::Futex { deadline, .. } => dl = dl.min(deadline),
                        _ => {}
                    }
                }
                if dl != u64::MAX {
                    self.clock = dl;
                    continue;
                }
                if let Some(i) = (0..self.n).find(|i| self.th[*i].st == St::Stalled) {
                    if let Some(h) = self.stall_hook {
                        quiet(h);
                    }
                    self.th[i].st = St::Runnable;
                    continue;
                }
                let mut d = String::new();
                for i in 0..self.n {
                    if self.th[i].st != St::Done {
                        d.push_str(&format!(" t{i}:{}", match self.th[i].st {
                            St::Futex { .. } => "waiting-for-lock",
                            St::Join { .. } => "joining",
                            _ => "blocked",
                        }));
                    }
                }
                crate::run::violate("deadlock", format!("no thread can run:{d}"));
            }
            let cand = &cand[..ncand];
            // default choice, independent of the policy, among all runnable threads
            let mut all = [0u16; MAXT];
            let mut nall = 0;
            for i in 0..self.n {
                if self.runnable(i) {
                    all[nall] = i as u16;
                    nall += 1;
                }
            }
            let all = &all[..nall];
            let default = if self.runnable(me) && kind != K_YIELD {
                me
            } else if self.runnable(me) {
                // yield: next other thread in cyclic order
                *all.iter().find(|t| **t as usize > me).unwrap_or(&all[0]) as usize
            } else {
                all[0] as usize
            };
            let me_ok = cand.contains(&(me as u16));
            let chosen = match &mut self.policy {
                Policy::Explicit { list, idx } => {
                    while *idx < list.len() && list[*idx].0 < step {
                        *idx += 1;
                    }
                    if *idx < list.len() && list[*idx].0 == step && all.contains(&list[*idx].1) {
                        list[*idx].1 as usize
                    } else {
                        default
                    }
                }
                Policy::Random { p } => {
                    if me_ok && kind != K_YIELD && !self.rng.chance(*p) {
                        me
                    } else {
                        *self.rng.pick(cand) as usize
                    }
                }
                Policy::Pct { change, next_low } => {
                    if !change.is_empty() && change[0] <= step {
                        change.remove(0);
                        *next_low -= 1;
                        self.th[me].prio = *next_low;
                    }
                    if kind == K_YIELD {
                        *next_low -= 1;
                        self.th[me].prio = *next_low;
                    }
                    let mut b = cand[0] as usize;
                    for c in cand {
                        if self.th[*c as usize].prio > self.th[b].prio {
                            b = *c as usize;
                        }
                    }
                    b
                }
                Policy::Target { p, .. } => {
                    if me_ok && kind != K_YIELD && !self.rng.chance(*p) {
                        me
                    } else {
                        *self.rng.pick(cand) as usize
                    }
                }
                Policy::Rr => {
                    *cand.iter().find(|t| **t as usize > me).unwrap_or(&cand[0]) as usize
                }
            };
            if chosen != default && self.rec.len() < self.rec.capacity() {
                self.rec.push((step, chosen as u16));
                crate::run::live(self.rec.len() - 1, step, chosen as u16, self.hash);
            }
            return chosen;
        }
    }

    fn note(&mut self, me: usize, kind: u8, obj: u64) {
        self.th[me].points += 1;
        self.th[me].op_points += 1;
        let mut h = self.hash;
        h = (h ^ (me as u64 | (kind as u64) << 8)).wrapping_mul(0x100_0000_01b3);
        h = (h ^ obj).wrapping_mul(0x100_0000_01b3);
        self.hash = h;
        if self.log_on && self.log.len() < self.log.capacity() {
            self.log.push((self.step, me as u16, kind, obj as u32));
        }
    }
}

fn obj_of(addr: usize) -> u64 {
    if addr >= crate::arena::SIM_BASE && addr < crate::arena::SIM_BASE + crate::arena::SIM_SIZE {
        (addr - crate::arena::SIM_BASE) as u64
    } else if addr >= STACK_BASE && addr < STACK_BASE + MAXT * STACK {
        1 << 40
    } else if addr < 0x1000_0000 {
        addr as u64
    } else {
        2 << 40
    }
}

fn wait_baton(me: usize) {
    let s = sim();
    let w = &s.th[me].wake;
    while w.load(Ordering::Acquire) == 0 {
        real_futex_wait(w, 0);
    }
    w.store(0, Ordering::Release);
    let r = s.th[me].reap;
    if r >= 0 {
        s.th[me].reap = -1;
        unsafe {
            let pt = s.th[r as usize].pt;
            crate::interpose::real_pthread_join(pt);
        }
    }
}

fn pass_baton(to: usize) {
    let s = sim();
    s.cur = to;
    s.nswitch += 1;
    s.th[to].wake.store(1, Ordering::Release);
    real_futex_wake(&s.th[to].wake);
}

fn reschedule(me: usize, kind: u8) {
    let next = sim().choose(me, kind);
    if next != me {
        pass_baton(next);
        wait_baton(me);
    }
}

/// A scheduling point of the running simulated thread.
#[inline]
pub fn point(kind: u8, addr: usize) {
    unsafe {
        if TID < 0 || QUIET > 0 {
            return;
        }
    }
    point_slow(kind, addr)
}
#[inline(never)]
fn point_slow(kind: u8, addr: usize) {
    let me = tid();
    let s = sim();
    s.note(me, kind, obj_of(addr));
    reschedule(me, kind);
}

/// Plain memory access in instrumented code: a scheduling point only when plain points are enabled
/// for the run and the granule was last touched by another thread.
#[inline]
pub fn plain(addr: usize) {
    unsafe {
        if TID < 0 || QUIET > 0 {
            return;
        }
    }
    let s = sim();
    if !s.plain_points || addr < crate::arena::SIM_BASE || addr >= crate::arena::SIM_BASE + crate::arena::SIM_SIZE {
        return;
    }
    let me = tid() as u8;
    let g = &mut s.granule[(addr >> 3) & 0xffff];
    let shared = *g != 0xff && *g != me;
    *g = me;
    if shared {
        point_slow(K_PLAIN, addr);
    }
}

pub fn op_begin() -> u64 {
    let s = sim();
    let me = tid();
    s.th[me].ops += 1;
    s.th[me].op_points = 0;
    point(K_OP, 0);
    next_seq()
}
pub fn op_end() -> u64 {
    next_seq()
}
/// Global event sequence number (total order of recorded events).
pub fn next_seq() -> u64 {
    let s = sim();
    s.seq += 1;
    s.seq
}
pub fn probe(name: &'static str) {
    bump(&mut sim().probes, name, 1)
}
pub fn probe_n(name: &'static str, n: u64) {
    bump(&mut sim().probes, name, n)
}
pub fn fault(name: &'static str) {
    bump(&mut sim().faults, name, 1)
}
fn bump(v: &mut Vec<(&'static str, u64)>, name: &'static str, n: u64) {
    for e in v.iter_mut() {
        if e.0 == name {
            e.1 += n;
            return;
        }
    }
    if v.len() < v.capacity() {
        v.push((name, n));
    }
}
pub fn probes() -> &'static [(&'static str, u64)] {
    &sim().probes
}
pub fn faults() -> &'static [(&'static str, u64)] {
    &sim().faults
}

/// The calling thread stalls until no other thread can make progress.
pub fn stall() {
    if !in_sim() {
        return;
    }
    let me = tid();
    let s = sim();
    s.note(me, K_USER, 77);
    fault("stall");
    s.th[me].st = St::Stalled;
    reschedule(me, K_USER);
}

pub fn set_stall_hook(h: fn()) {
    sim().stall_hook = Some(h);
}
pub fn nthreads() -> usize {
    sim().n
}
pub fn state(i: usize) -> St {
    sim().th[i].st
}

// ---------------------------------------------------------------- time
/// Number of monotonic clock reads of the calling thread, and the latest value it read.
pub fn clock_reads() -> (u64, u64) {
    sim().th[tid()].clock_reads
}
pub fn now() -> u64 {
    sim().clock
}
pub fn advance(ns: u64) {
    let s = sim();
    s.clock = s.clock.saturating_add(ns);
}
pub fn clock_read(realtime: bool) -> i128 {
    point(K_CLOCK, 0);
    let s = sim();
    s.clock += s.tick;
    let mut v = s.clock as i128;
    if !realtime {
        let r = &mut s.th[tid()].clock_reads;
        *r = (r.0 + 1, s.clock);
    }
    if realtime {
        v += s.realtime_offset as i128;
    }
    v
}
pub fn sleep_until(deadline: u64) {
    let me = tid();
    let s = sim();
    s.note(me, K_CLOCK, 1);
    s.th[me].st = St::Sleep { deadline };
    reschedule(me, K_CLOCK);
}

// ---------------------------------------------------------------- futex
/// returns 0 or a positive errno
pub fn futex_wait(addr: usize, val: u32, deadline: u64, mask: u32) -> i32 {
    point(K_FUTEX, addr);
    let s = sim();
    let me = tid();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return libc::EAGAIN;
    }
    if s.spurious > 0 {
        s.fut_ctr += 1;
        let h = mix(s.fseed ^ s.fut_ctr.wrapping_mul(0x9E37_79B9));
        if h % 1000 < s.spurious {
            fault("futex_spurious_wakeup");
            return if h & (1 << 20) != 0 { 0 } else { libc::EINTR };
        }
    }
    s.th[me].st = St::Futex { addr, deadline, mask };
    s.th[me].reason = 0;
    bump(&mut s.probes, "rt.blocked_on_lock", 1);
    reschedule(me, K_FUTEX);
    let s = sim();
    if s.th[me].reason == 1 {
        libc::ETIMEDOUT
    } else {
        0
    }
}
pub fn futex_wake(addr: usize, n: u32, mask: u32) -> i32 {
    let s = sim();
    let mut woken = 0;
    for i in 0..s.n {
        if woken as u32 >= n {
            break;
        }
        if let St::Futex { addr: a, mask: m, .. } = s.th[i].st {
            if a == addr && m & mask != 0 {
                s.th[i].st = St::Runnable;
                s.th[i].reason = 0;
                woken += 1;
            }
        }
    }
    point(K_FUTEX, addr);
    woken
}

// ---------------------------------------------------------------- threads
extern "C" {
    fn pthread_attr_setstack(attr: *mut libc::pthread_attr_t, addr: *mut libc::c_void, size: usize) -> i32;
}
extern "C" fn trampoline(slot: *mut libc::c_void) -> *mut libc::c_void {
    let me = slot as usize;
    wait_baton(me);
    unsafe { TID = me as i32 };
    let s = sim();
    let f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void = unsafe { std::mem::transmute(s.th[me].start) };
    let r = f(s.th[me].arg as *mut _);
    let s = sim();
    s.th[me].ret = r as usize;
    s.th[me].st = St::Done;
    s.note(me, K_EXIT, 0);
    for i in 0..s.n {
        if s.th[i].st == (St::Join { tid: me }) {
            s.th[i].st = St::Runnable;
        }
    }
    unsafe { QUIET = 0 };
    let next = s.choose(me, K_EXIT);
    unsafe { TID = -1 };
    s.th[next].reap = me as i32;
    pass_baton(next);
    r
}

pub unsafe fn create_thread(out: *mut libc::pthread_t, start: usize, arg: usize) -> i32 {
    let s = sim();
    if s.n >= MAXT {
        return libc::EAGAIN;
    }
    let slot = s.n;
    s.n += 1;
    s.th[slot].start = start;
    s.th[slot].arg = arg;
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    pthread_attr_setstack(&mut attr, (STACK_BASE + slot * STACK) as *mut _, STACK);
    let mut pt: libc::pthread_t = 0;
    let r = crate::interpose::real_pthread_create(&mut pt, &attr, trampoline, slot as *mut _);
    libc::pthread_attr_destroy(&mut attr);
    if r != 0 {
        crate::run::harness_error(&format!("pthread_create failed: {r}"));
    }
    s.th[slot].pt = pt;
    s.th[slot].st = St::Runnable;
    if !out.is_null() {
        *out = pt;
    }
    if in_sim() {
        point(K_SPAWN, 0);
    }
    0
}
pub fn join_thread(t: usize) -> usize {
    let me = tid();
    let s = sim();
    if s.th[t].st != St::Done {
        s.th[me].st = St::Join { tid: t };
        reschedule(me, K_SPAWN);
    }
    sim().th[t].ret
}
pub fn find_thread(pt: libc::pthread_t) -> Option<usize> {
    let s = sim();
    (0..s.n).rev().find(|i| s.th[*i].pt == pt)
}

/// Spawn a simulated thread running `f`; returns its id.
pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    extern "C" fn go(p: *mut libc::c_void) -> *mut libc::c_void {
        let f: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(p as *mut _) };
        f();
        std::ptr::null_mut()
    }
    let s = sim();
    let id = s.n;
    let p = Box::into_raw(Box::new(f));
    let r = unsafe { create_thread(std::ptr::null_mut(), go as usize, p as usize) };
    if r != 0 {
        crate::run::harness_error("too many simulated threads");
    }
    id
}

/// Called in the forked child: install the simulator and run `f` as simulated thread 0. Never returns.
pub fn start(sched: &Sched, cfg: &dyn Fn(&str) -> i64, f: Box<dyn FnOnce()>) -> ! {
    unsafe {
        let s = Sim::new(sched, cfg);
        S = Some(Box::new(s));
        let p = libc::mmap(
            STACK_BASE as *mut _,
            MAXT * STACK,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != STACK_BASE {
            crate::run::harness_error("cannot map stacks");
        }
        crate::arena::enter_sim();
        spawn(f);
        pass_baton(0);
        loop {
            raw_syscall(libc::SYS_pause as usize, 0, 0, 0, 0, 0, 0);
        }
    }
}
pub fn is_active() -> bool {
    unsafe { S.as_ref().map_or(false, |s| s.active) }
}
