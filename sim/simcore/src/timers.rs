//! Histogram timers: what they must record is computed from the simulated clock.
use crate::fam::*;
use crate::world::*;
use measured::label::LabelGroupSet;
use measured::metric::histogram::{HistogramTimer, HistogramVecTimer};
use simrt::run::sut;
use simrt::{ensure, sched, Op};
use std::time::Duration;

pub trait TimerT {
    fn forget(self: Box<Self>);
    fn observe(self: Box<Self>) -> Duration;
}
impl<const N: usize> TimerT for HistogramTimer<'static, N> {
    fn forget(self: Box<Self>) {
        HistogramTimer::forget(*self)
    }
    fn observe(self: Box<Self>) -> Duration {
        HistogramTimer::observe(*self)
    }
}
impl<L: LabelGroupSet, const N: usize> TimerT for HistogramVecTimer<'static, L, N> {
    fn forget(self: Box<Self>) {
        HistogramVecTimer::forget(*self)
    }
    fn observe(self: Box<Self>) -> Duration {
        HistogramVecTimer::observe(*self)
    }
}

pub struct Slot {
    t: Box<dyn TimerT>,
    pub fam: usize,
    s: usize,
    start: Window,
}

/// The clock during one call: at its ends, and what the caller read of it.
#[derive(Clone, Copy, Debug)]
pub struct Window {
    lo: u64,
    hi: u64,
    reads: u64,
    last: u64,
}
impl Window {
    fn of<R>(f: impl FnOnce() -> R) -> (R, Window) {
        let lo = sched::now();
        let r0 = sched::clock_reads().0;
        let r = f();
        let (n, last) = sched::clock_reads();
        (r, Window { lo, hi: sched::now(), reads: n - r0, last })
    }
    /// The instant taken during the call, if it is certain.
    fn instant(&self) -> Option<u64> {
        if self.lo == self.hi {
            Some(self.lo)
        } else if self.reads == 1 {
            Some(self.last)
        } else {
            None
        }
    }
}

/// Predict the duration of a span; settle what the records of this call must be.
fn settle_span(span: (usize, usize), fam: usize, a: Window, b: Window, got: Option<Duration>) {
    sched::quiet(|| {
        let want = match (a.instant(), b.instant()) {
            (Some(x), Some(y)) => Some(y.saturating_sub(x)),
            _ => None,
        };
        let (lo, hi) = (b.lo.saturating_sub(a.hi), b.hi.saturating_sub(a.lo));
        if let Some(d) = got {
            let n = d.as_nanos() as u64;
            ensure!(lo <= n && n <= hi, "timer-duration", "a timer returned {n} ns, the span took between {lo} and {hi} ns");
            if let Some(w) = want {
                ensure!(n == w, "timer-duration", "a timer returned {n} ns, the span took {w} ns");
            }
        }
        let d = match (want, got) {
            (Some(x), _) => x,
            (None, Some(x)) => x.as_nanos() as u64,
            (None, None) => {
                sched::probe("duration_not_predictable");
                w().skip[fam] = true;
                0
            }
        };
        for r in &mut w().hist[span.0..span.1] {
            if matches!(r.what, What::Apply(_)) {
                r.what = What::Apply(Upd { code: 1, v: d as i64 });
            }
        }
    })
}
fn placeholder() -> [What; 2] {
    [What::Touch, What::Apply(Upd { code: 1, v: 0 })]
}

pub fn exec_timer(o: &Op) {
    let nf = w().fams.len();
    match o.k.as_str() {
        "adv" => {
            sched::op_begin();
            sched::advance(o.arg(0).unsigned_abs());
        }
        "rtjump" => {
            sched::op_begin();
            sched::fault("realtime_jump");
            simrt::sched::sim().realtime_offset = simrt::sched::sim().realtime_offset.saturating_add(o.arg(0));
        }
        "tstart" => {
            let f = o.arg(0).unsigned_abs() as usize % nf;
            let s = o.arg(1).unsigned_abs() as usize % w().fams[f].info().n;
            let slot = o.arg(2).unsigned_abs() as usize % w().timers.len();
            if sched::quiet(|| w().timers[slot].is_some()) {
                return;
            }
            sched::op_begin();
            let (t, start) = Window::of(|| sut("start_timer", || w().fams[f].timer(s)));
            if let Some(t) = t {
                let left = sched::quiet(|| {
                    if w().timers[slot].is_some() {
                        return Some(t);
                    }
                    w().timers[slot] = Some(Slot { t, fam: f, s, start });
                    sched::probe("timer_started");
                    None
                });
                // (another thread was faster)
                if let Some(t) = left {
                    sut("forget", || t.forget());
                }
            }
            sched::op_end();
        }
        "tend" => {
            let slot = o.arg(0).unsigned_abs() as usize % w().timers.len();
            let Some(t) = sched::quiet(|| w().timers[slot].take()) else { return };
            let Slot { t, fam, s, start } = t;
            if o.arg(1) == 2 {
                sched::op_begin();
                sut("forget", || t.forget());
                sched::probe("timer_forgotten");
                sched::op_end();
                return;
            }
            let span = begin(fam, s, &placeholder());
            let mut got = None;
            // (a panic of user code comes before the observation)
            if simrt::run::allowed() {
                sched::quiet(|| w().hist[span.0 + 1].what = What::Void);
            }
            let ((), end) = Window::of(|| match o.arg(1) {
                0 => sut("dropping a timer", || drop(t)),
                1 => got = Some(sut("observing a timer", || t.observe())),
                _ => {
                    // (user code that panics during unwinding would end the process)
                    if simrt::run::allowed() {
                        crate::shapes::disarm();
                    }
                    sched::fault("unwind_with_timer");
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _t = t;
                        std::panic::panic_any(simrt::run::Injected)
                    }));
                    if !matches!(&r, Err(e) if e.downcast_ref::<simrt::run::Injected>().is_some()) {
                        simrt::run::unexpected_panic("unwinding with a timer");
                    }
                }
            });
            sched::quiet(|| w().hist[span.0 + 1].what = placeholder()[1].clone());
            settle_span(span, fam, start, end, got);
            sched::probe("timer_ended");
            done(span);
        }
        _ => {
            // observe_duration_since: [fam, series, how, age in ns (negative: in the future)]
            let f = o.arg(0).unsigned_abs() as usize % nf;
            let s = o.arg(1).unsigned_abs() as usize % w().fams[f].info().n;
            if w().fams[f].info().k != crate::fam::K::Hist {
                return;
            }
            let now = std::time::Instant::now();
            let age = o.arg(3).min(sched::clock_reads().1 as i64);
            let since = if age < 0 { now + Duration::from_nanos(age.unsigned_abs()) } else { now.checked_sub(Duration::from_nanos(age as u64)).unwrap_or(now) };
            let used = if since <= now { sched::clock_reads().1 - now.duration_since(since).as_nanos() as u64 } else { sched::clock_reads().1 + age.unsigned_abs() };
            let start = Window { lo: used, hi: used, reads: 1, last: used };
            let span = begin(f, s, &placeholder());
            if simrt::run::allowed() {
                sched::quiet(|| w().hist[span.0 + 1].what = What::Void);
            }
            let (got, end) = Window::of(|| sut("observe_duration_since", || w().fams[f].since(s, o.arg(2) as u8, since)));
            sched::quiet(|| w().hist[span.0 + 1].what = placeholder()[1].clone());
            match got {
                Some(d) => settle_span(span, f, start, end, Some(d)),
                None => sched::quiet(|| {
                    for r in &mut w().hist[span.0..span.1] {
                        r.what = What::Void;
                    }
                }),
            }
            done(span);
        }
    }
}
