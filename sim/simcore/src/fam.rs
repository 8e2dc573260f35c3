//! Type-erased metric families under test and the values they must show.
use crate::shapes::*;
use crate::text::{self, Sample};
use crate::writer::SimWriter;
use measured::label::LabelGroupSet;
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{LabelId, MetricEncoding, MetricFamilyEncoding, MetricLockGuard, Metric, MetricMut, MetricType, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;

use simrt::run::sut;
use simrt::{ensure, sched, violate};
use simrt::rng::mix;
use std::cell::UnsafeCell;
use crate::timers::TimerT;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Counter,
    Gauge,
    Float,
    Hist,
}

/// Abstract value of one series.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Val {
    C(u64),
    G(i64),
    F(u64),
    /// cumulative buckets (without +Inf), count, sum bits
    H(Vec<u64>, u64, u64),
    /// what a protobuf scrape shows of a counter or gauge
    P(u64),
}
/// The double a protobuf scrape must show for this value.
pub fn as_double(v: &Val) -> Option<u64> {
    match v {
        Val::C(x) => Some(fbits(*x as f64)),
        Val::G(x) => Some(fbits(*x as f64)),
        Val::F(x) => Some(*x),
        _ => None,
    }
}
/// NaNs are all the same value.
pub fn fbits(x: f64) -> u64 {
    if x.is_nan() {
        f64::NAN.to_bits()
    } else {
        x.to_bits()
    }
}
pub fn show(v: &Val) -> String {
    match v {
        Val::C(x) => x.to_string(),
        Val::G(x) => x.to_string(),
        Val::F(x) | Val::P(x) => format!("{:?}", f64::from_bits(*x)),
        Val::H(b, c, s) => format!("buckets {b:?} count {c} sum {:?}", f64::from_bits(*s)),
    }
}

/// One abstract update. `code` and `v` come straight from the plan.
#[derive(Clone, Copy, Debug)]
pub struct Upd {
    pub code: u8,
    pub v: i64,
}

/// Reference semantics of an update: the property text, not the implementation.
pub fn apply(k: K, le: &[f64], st: &Val, u: Upd) -> Val {
    match (k, st) {
        (K::Counter, Val::C(x)) => Val::C(x.wrapping_add(if u.code == 0 { 1 } else { u.v as u64 })),
        (K::Gauge, Val::G(x)) => Val::G(match u.code {
            0 => x.wrapping_add(1),
            1 => x.wrapping_add(u.v),
            2 => x.wrapping_sub(1),
            3 => x.wrapping_sub(u.v),
            _ => u.v,
        }),
        (K::Float, Val::F(x)) => {
            let (x, v) = (f64::from_bits(*x), f64::from_bits(u.v as u64));
            Val::F(fbits(match u.code {
                0 => x + 1.0,
                1 => x + v,
                2 => x - 1.0,
                3 => x - v,
                _ => v,
            }))
        }
        (K::Hist, Val::H(b, c, s)) => {
            let x = hist_value(u);
            let mut b = b.clone();
            for (i, l) in le.iter().enumerate() {
                if x <= *l {
                    b[i] += 1;
                }
            }
            Val::H(b, c + 1, fbits(f64::from_bits(*s) + x))
        }
        _ => unreachable!(),
    }
}
pub fn hist_value(u: Upd) -> f64 {
    if u.code == 1 {
        Duration::from_nanos(u.v as u64).as_secs_f64()
    } else {
        f64::from_bits(u.v as u64)
    }
}
pub fn zero(k: K, n: usize) -> Val {
    match k {
        K::Counter => Val::C(0),
        K::Gauge => Val::G(0),
        K::Float => Val::F(0),
        K::Hist => Val::H(vec![0; n], 0, 0),
    }
}

// ------------------------------------------------------------------ metric kinds
macro_rules! bare {
    () => {
        fn bare<S: Shape>(way: u64, layout: i64, set: S::Set) -> Option<MetricVec<Self, S::Set>> {
            Some(match (way, layout) {
                (1, _) => S::fresh::<Self>(layout),
                (_, 0) => MetricVec::with_label_set(set),
                (_, 1) => MetricVec::dense_with_label_set(set),
                _ => MetricVec::sparse_with_label_set(set),
            })
        }
        fn bare_plain(way: u64) -> Option<Metric<Self>> {
            Some(if way == 0 { Metric::new() } else { Metric::default() })
        }
    };
}
pub trait Ops: MetricType + Sized + 'static {
    const K: K;
    const NB: usize;
    fn meta(cfg: u64) -> Self::Metadata;
    fn le(m: &Self::Metadata) -> Vec<f64>;
    /// the ways to make a family without giving it metadata: 0 with its label set, 1 with neither
    fn bare<S: Shape>(_way: u64, _layout: i64, _set: S::Set) -> Option<MetricVec<Self, S::Set>> {
        None
    }
    fn bare_plain(_way: u64) -> Option<Metric<Self>> {
        None
    }
    fn guard(g: MetricLockGuard<'_, Self>, u: Upd);
    fn excl(g: MetricMut<'_, Self>, u: Upd);
    fn vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, u: Upd);
    fn vec_mut<L: LabelGroupSet>(v: &mut MetricVec<Self, L>, g: L::Group<'_>, u: Upd);
    fn plain(m: &Metric<Self>, u: Upd);
    fn plain_mut(m: &mut Metric<Self>, u: Upd);
    fn timer_vec<L: LabelGroupSet + 'static>(_: &'static MetricVec<Self, L>, _: L::Group<'_>) -> Option<Box<dyn TimerT>> {
        None
    }
    fn timer_plain(_: &'static Metric<Self>) -> Option<Box<dyn TimerT>> {
        None
    }
    fn since_vec<L: LabelGroupSet>(_: &MetricVec<Self, L>, _: L::Group<'_>, _: Instant) -> Option<Duration> {
        None
    }
    fn since_guard(_: MetricLockGuard<'_, Self>, _: Instant) -> Option<Duration> {
        None
    }
    /// several updates through one guard, if the kind allows it
    fn hold(g: MetricLockGuard<'_, Self>, us: &[Upd], between: &mut dyn FnMut());
}

impl Ops for CounterState {
    const K: K = K::Counter;
    const NB: usize = 0;
    bare!();
    fn meta(_: u64) {}
    fn le(_: &()) -> Vec<f64> {
        vec![]
    }
    fn guard(g: MetricLockGuard<'_, Self>, u: Upd) {
        if u.code == 0 {
            g.inc()
        } else {
            g.inc_by(u.v as u64)
        }
    }
    fn excl(g: MetricMut<'_, Self>, u: Upd) {
        if u.code == 0 {
            g.inc()
        } else {
            g.inc_by(u.v as u64)
        }
    }
    fn vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, u: Upd) {
        if u.code == 0 {
            v.inc(g)
        } else {
            v.inc_by(g, u.v as u64)
        }
    }
    fn vec_mut<L: LabelGroupSet>(v: &mut MetricVec<Self, L>, g: L::Group<'_>, u: Upd) {
        if u.code == 0 {
            v.inc_mut(g)
        } else {
            v.inc_by_mut(g, u.v as u64)
        }
    }
    fn plain(m: &Metric<Self>, u: Upd) {
        if u.code == 0 {
            m.inc()
        } else {
            m.inc_by(u.v as u64)
        }
    }
    fn plain_mut(m: &mut Metric<Self>, u: Upd) {
        if u.code == 0 {
            m.inc_mut()
        } else {
            m.inc_by_mut(u.v as u64)
        }
    }
    fn hold(g: MetricLockGuard<'_, Self>, us: &[Upd], between: &mut dyn FnMut()) {
        for u in us {
            if u.code == 0 {
                g.inc()
            } else {
                g.inc_by(u.v as u64)
            }
            between();
        }
    }
}

macro_rules! gaugelike {
    ($t:ty, $k:expr, $conv:expr) => {
        impl Ops for $t {
            const K: K = $k;
            const NB: usize = 0;
            bare!();
    fn meta(_: u64) {}
            fn le(_: &()) -> Vec<f64> {
                vec![]
            }
            fn guard(g: MetricLockGuard<'_, Self>, u: Upd) {
                let v = $conv(u.v);
                match u.code {
                    0 => g.inc(),
                    1 => g.inc_by(v),
                    2 => g.dec(),
                    3 => g.dec_by(v),
                    _ => g.set(v),
                }
            }
            fn excl(g: MetricMut<'_, Self>, u: Upd) {
                let v = $conv(u.v);
                match u.code {
                    0 => g.inc(),
                    1 => g.inc_by(v),
                    2 => g.dec(),
                    3 => g.dec_by(v),
                    _ => g.set(v),
                }
            }
            fn vec<L: LabelGroupSet>(m: &MetricVec<Self, L>, g: L::Group<'_>, u: Upd) {
                let v = $conv(u.v);
                match u.code {
                    0 => m.inc(g),
                    1 => m.inc_by(g, v),
                    2 => m.dec(g),
                    3 => m.dec_by(g, v),
                    _ => m.set(g, v),
                }
            }
            fn vec_mut<L: LabelGroupSet>(m: &mut MetricVec<Self, L>, g: L::Group<'_>, u: Upd) {
                let id = m.with_labels(g);
                Self::excl(m.get_metric_mut(id), u)
            }
            fn plain(m: &Metric<Self>, u: Upd) {
                let v = $conv(u.v);
                match u.code {
                    0 => m.inc(),
                    1 => m.inc_by(v),
                    2 => m.dec(),
                    3 => m.dec_by(v),
                    _ => m.set(v),
                }
            }
            fn plain_mut(m: &mut Metric<Self>, u: Upd) {
                Self::excl(m.get_metric_mut(), u)
            }
            fn hold(g: MetricLockGuard<'_, Self>, us: &[Upd], between: &mut dyn FnMut()) {
                between();
                if let Some(u) = us.first() {
                    Self::guard(g, *u)
                }
            }
        }
    };
}
gaugelike!(GaugeState, K::Gauge, |x: i64| x);
gaugelike!(FloatGaugeState, K::Float, |x: i64| f64::from_bits(x as u64));

pub const LE3: [f64; 3] = [-1.0, 0.5, 4.0];
/// neighbouring bounds
const EDGE: [f64; 8] = [-0.0, 5e-324, 0.1, 0.10000000000000002, 1.0, 1.0000000000000002, 1e308, f64::MAX];

impl<const N: usize> Ops for HistogramState<N> {
    const K: K = K::Hist;
    const NB: usize = N;
    fn meta(cfg: u64) -> Thresholds<N> {
        match cfg % 7 {
            // bounds that coincide
            5 => Thresholds::linear_buckets(1e16, 0.75),
            6 => Thresholds::exponential_buckets(1e300, 1e5),
            4 if N > 1 && N <= EDGE.len() => Thresholds::with_buckets(std::array::from_fn(|i| EDGE[i])),
            0 if N > 0 => Thresholds::with_buckets(std::array::from_fn(|i| LE3[i.min(2)] + (i / 3) as f64 * 8.0 + (i % 3) as f64 * 0.125)),
            1 => Thresholds::exponential_buckets(0.25, 2.0),
            2 => Thresholds::linear_buckets(0.0, 1.5),
            3 if N > 1 => Thresholds::with_buckets(std::array::from_fn(|i| match i {
                0 => f64::NEG_INFINITY,
                _ if i == N - 1 => f64::INFINITY,
                _ => i as f64,
            })),
            _ => Thresholds::linear_buckets(-2.0, 1.0),
        }
    }
    fn le(m: &Thresholds<N>) -> Vec<f64> {
        // a sample per distinct bound: +Inf has its own, whatever the bounds are
        let mut le = m.get().to_vec();
        le.dedup();
        if le.last() == Some(&f64::INFINITY) {
            le.pop();
        }
        le
    }
    fn guard(g: MetricLockGuard<'_, Self>, u: Upd) {
        match u.code {
            1 => g.observe_duration(Duration::from_nanos(u.v as u64)),
            _ => g.observe(f64::from_bits(u.v as u64)),
        }
    }
    fn excl(g: MetricMut<'_, Self>, u: Upd) {
        match u.code {
            1 => g.observe_duration(Duration::from_nanos(u.v as u64)),
            _ => g.observe(f64::from_bits(u.v as u64)),
        }
    }
    fn vec<L: LabelGroupSet>(m: &MetricVec<Self, L>, g: L::Group<'_>, u: Upd) {
        match u.code {
            1 => m.observe_duration(g, Duration::from_nanos(u.v as u64)),
            _ => m.observe(g, f64::from_bits(u.v as u64)),
        }
    }
    fn timer_vec<L: LabelGroupSet + 'static>(v: &'static MetricVec<Self, L>, g: L::Group<'_>) -> Option<Box<dyn TimerT>> {
        Some(Box::new(v.start_timer(g)))
    }
    fn timer_plain(m: &'static Metric<Self>) -> Option<Box<dyn TimerT>> {
        Some(Box::new(m.start_timer()))
    }
    fn since_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, t: Instant) -> Option<Duration> {
        Some(v.observe_duration_since(g, t))
    }
    fn since_guard(g: MetricLockGuard<'_, Self>, t: Instant) -> Option<Duration> {
        Some(g.observe_duration_since(t))
    }
    fn vec_mut<L: LabelGroupSet>(m: &mut MetricVec<Self, L>, g: L::Group<'_>, u: Upd) {
        let id = m.with_labels(g);
        Self::excl(m.get_metric_mut(id), u)
    }
    fn plain(m: &Metric<Self>, u: Upd) {
        match u.code {
            1 => m.get_metric().observe_duration(Duration::from_nanos(u.v as u64)),
            _ => m.observe(f64::from_bits(u.v as u64)),
        }
    }
    fn plain_mut(m: &mut Metric<Self>, u: Upd) {
        Self::excl(m.get_metric_mut(), u)
    }
    fn hold(g: MetricLockGuard<'_, Self>, us: &[Upd], between: &mut dyn FnMut()) {
        between();
        if let Some(u) = us.first() {
            Self::guard(g, *u)
        }
    }
}

// ------------------------------------------------------------------ families
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Plain,
    Dense,
    Sparse,
}

pub struct Info {
    pub name: String,
    pub help: Option<&'static str>,
    pub k: K,
    pub le: Vec<f64>,
    pub layout: Layout,
    pub n: usize,
    pub card: Option<usize>,
    pub pairs: Vec<Pairs>,
    /// extra namespaces put in front of the name, outermost first
    pub ns: &'static [&'static str],
    /// written through the sample helpers, which do not emit a type
    pub untyped: bool,
    pub index: std::sync::OnceLock<std::collections::BTreeMap<Pairs, usize>>,
}
impl Info {
    pub fn full_name(&self) -> String {
        let mut s = String::new();
        for n in self.ns {
            s.push_str(n);
            s.push('_');
        }
        s + &self.name
    }
    pub fn type_name(&self) -> &'static str {
        match self.k {
            K::Counter => "counter",
            K::Gauge | K::Float => "gauge",
            K::Hist => "histogram",
        }
    }
    pub fn zero(&self) -> Val {
        zero(self.k, self.le.len())
    }
    pub fn find(&self, labels: &[(String, String)]) -> Option<usize> {
        // (families are small; the common case is the exact match)
        let same = |p: &Pairs| p.len() == labels.len() && p.iter().zip(labels).all(|(a, b)| a.0 == b.0 && label_eq(&a.1, &b.1));
        // (label order carries no meaning)
        let same_set = |p: &Pairs| p.len() == labels.len() && p.iter().all(|a| labels.iter().any(|b| a.0 == b.0 && label_eq(&a.1, &b.1)));
        if self.n > 48 {
            let ix = self.index.get_or_init(|| self.pairs.iter().enumerate().map(|(i, p)| (p.clone(), i)).collect());
            if let Some(i) = ix.get(labels) {
                return Some(*i);
            }
        }
        (0..self.n).find(|i| same(&self.pairs[*i])).or_else(|| (0..self.n).find(|i| same_set(&self.pairs[*i])))
    }
}

pub type BErr = std::convert::Infallible;

pub trait Fam: Sync {
    fn info(&self) -> &Info;
    /// how: 0 label method, 1 fresh id + guard, 2 saved id + guard
    fn update(&self, s: usize, how: u8, u: Upd);
    fn hold(&self, s: usize, us: &[Upd], between: &mut dyn FnMut());
    fn touch(&self, s: usize, how: u8);
    fn lookup(&self, s: usize) -> bool;
    fn lookup_bad(&self, k: usize) -> Option<bool>;
    fn remove(&self, s: usize, how: u8) -> Option<Val>;
    fn card(&self) -> (usize, Option<usize>);
    /// the following need that no other thread uses the family
    fn update_mut(&self, s: usize, how: u8, u: Upd);
    fn touch_mut(&self, s: usize);
    fn init_all(&self);
    /// Drop the family and put a new one in its place.
    fn renew(&self) -> bool {
        false
    }
    fn collect_b(&self, e: &mut BufferedTextEncoder) -> Result<(), BErr>;
    fn collect_w(&self, e: &mut TextEncoder<SimWriter>) -> std::io::Result<()>;
    fn collect_p(&self, e: &mut Proto) -> std::io::Result<()>;
    fn timer(&'static self, _s: usize) -> Option<Box<dyn TimerT>> {
        None
    }
    fn since(&self, _s: usize, _how: u8, _t: Instant) -> Option<Duration> {
        None
    }
    /// Update by label. None: the label was refused. Some(x): whether the id is that of series x,
    /// if other ids are known.
    fn try_update(&self, _s: usize, _how: u8, _u: Upd) -> Option<Option<usize>> {
        simrt::run::harness_error("try_update of a family without labels")
    }
    /// Why a refusal is wrong although all series of `tried` were used before.
    fn refusal_too_early(&self, _tried: &[usize]) -> Option<String> {
        None
    }
}
pub type Proto = ProtoEncoder<SimWriter>;

/// Kinds the protobuf encoder supports are collected by it, histograms are not offered to it.
pub trait PFam<M: Ops> {
    fn collect_p(&self, i: &Info, e: &mut Proto) -> std::io::Result<()>;
}
macro_rules! pfam {
    ($t:ty) => {
        impl<L: LabelGroupSet> PFam<$t> for MetricVec<$t, L> {
            fn collect_p(&self, i: &Info, e: &mut Proto) -> std::io::Result<()> {
                emit(i, self, e)
            }
        }
        impl PFam<$t> for Metric<$t> {
            fn collect_p(&self, i: &Info, e: &mut Proto) -> std::io::Result<()> {
                emit(i, self, e)
            }
        }
    };
}
pfam!(CounterState);
pfam!(GaugeState);
pfam!(FloatGaugeState);
impl<const N: usize, L: LabelGroupSet> PFam<HistogramState<N>> for MetricVec<HistogramState<N>, L> {
    fn collect_p(&self, _: &Info, _: &mut Proto) -> std::io::Result<()> {
        simrt::run::harness_error("histogram offered to the protobuf encoder")
    }
}
impl<const N: usize> PFam<HistogramState<N>> for Metric<HistogramState<N>> {
    fn collect_p(&self, _: &Info, _: &mut Proto) -> std::io::Result<()> {
        simrt::run::harness_error("histogram offered to the protobuf encoder")
    }
}

fn emit<E: Encoding, M: MetricFamilyEncoding<E>>(i: &Info, m: &M, e: &mut E) -> Result<(), E::Err> {
    // names and help of a family are put together by hand, as the documentation suggests
    let name = MetricName::try_from_str(&i.name).unwrap();
    match i.ns {
        [] => {
            if let Some(h) = i.help {
                e.write_help(name, h)?;
            }
            m.collect_family_into(name, e)
        }
        [a] => {
            let name = name.in_namespace(a);
            let name = &name;
            if let Some(h) = i.help {
                e.write_help(&name, h)?;
            }
            m.collect_family_into(&name, e)
        }
        _ => unreachable!(),
    }
}

pub struct VecFam<M: Ops, S: Shape> {
    info: Info,
    shape: S,
    v: *mut MetricVec<M, S::Set>,
    ids: UnsafeCell<Vec<Option<LabelId<S::Set>>>>,
    again: Again<M, S>,
}
unsafe impl<M: Ops, S: Shape> Sync for VecFam<M, S> {}

impl<M: Ops, S: Shape> VecFam<M, S> {
    fn v(&self) -> &MetricVec<M, S::Set> {
        unsafe { &*self.v }
    }
    #[allow(clippy::mut_from_ref)]
    fn vm(&self) -> &mut MetricVec<M, S::Set> {
        unsafe { &mut *self.v }
    }
    fn save(&self, s: usize, id: LabelId<S::Set>) {
        sched::quiet(|| unsafe { (*self.ids.get())[s] = Some(id) });
    }
    fn id(&self, s: usize, how: u8) -> LabelId<S::Set> {
        if how == 2 {
            if let Some(id) = unsafe { (&*self.ids.get())[s] } {
                return id;
            }
        }
        let id = match self.v().try_with_labels(self.shape.group(s)) {
            Some(i) => i,
            None => violate!("valid-label-refused", "family {}: labels {:?} are in the label set but were refused", self.info.name, self.info.pairs[s]),
        };
        self.save(s, id);
        id
    }
}

impl<M, S: Shape> Fam for VecFam<M, S>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    MetricVec<M, S::Set>: PFam<M>,
{
    fn info(&self) -> &Info {
        &self.info
    }
    fn update(&self, s: usize, how: u8, u: Upd) {
        sut("update", || match how {
            0 => M::vec(self.v(), self.shape.group(s), u),
            _ => M::guard(self.v().get_metric(self.id(s, how)), u),
        })
    }
    fn hold(&self, s: usize, us: &[Upd], between: &mut dyn FnMut()) {
        sut("update through a held guard", || {
            let id = self.id(s, 1);
            M::hold(self.v().get_metric(id), us, between)
        })
    }
    fn touch(&self, s: usize, how: u8) {
        sut("get_metric", || drop(self.v().get_metric(self.id(s, how))))
    }
    fn timer(&'static self, s: usize) -> Option<Box<dyn TimerT>> {
        M::timer_vec(self.v(), self.shape.group(s))
    }
    fn since(&self, s: usize, how: u8, t: Instant) -> Option<Duration> {
        match how {
            0 => M::since_vec(self.v(), self.shape.group(s), t),
            _ => M::since_guard(self.v().get_metric(self.id(s, how)), t),
        }
    }
    fn renew(&self) -> bool {
        let Some(f) = &self.again else { return false };
        unsafe {
            sched::quiet(|| (*self.ids.get()).fill(None));
            sut("dropping a family", || std::ptr::drop_in_place(self.v));
            self.v.write(f());
        }
        true
    }
    fn refusal_too_early(&self, tried: &[usize]) -> Option<String> {
        self.shape.refusal_too_early(tried)
    }
    fn try_update(&self, s: usize, how: u8, u: Upd) -> Option<Option<usize>> {
        if how == 0 {
            // refusal is documented to panic here
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| M::vec(self.v(), self.shape.group(s), u)));
            return match r {
                Ok(()) => Some(None),
                Err(_) => {
                    if simrt::run::last_panic().0.starts_with("/repo") {
                        None
                    } else {
                        simrt::run::unexpected_panic("update")
                    }
                }
            };
        }
        sut("update", || {
            let id = self.v().try_with_labels(self.shape.group(s))?;
            let mut of = Some(s);
            sched::quiet(|| unsafe {
                for (k, x) in (*self.ids.get()).iter().enumerate() {
                    if *x == Some(id) {
                        of = Some(k);
                    }
                }
                if let Some(x) = (&*self.ids.get())[s] {
                    ensure!(x == id, "label-id-changed", "family {}: two ids for the labels {:?}", self.info.name, self.info.pairs[s]);
                }
                (*self.ids.get())[s] = Some(id);
            });
            M::guard(self.v().get_metric(id), u);
            Some(of)
        })
    }
    fn lookup(&self, s: usize) -> bool {
        sut("with_labels", || match self.v().try_with_labels(self.shape.group(s)) {
            Some(id) => {
                let old = unsafe { (&*self.ids.get())[s] };
                if let Some(o) = old {
                    ensure!(o == id, "label-id-changed", "family {}: two ids for the labels {:?}", self.info.name, self.info.pairs[s]);
                }
                self.save(s, id);
                true
            }
            None => false,
        })
    }
    fn lookup_bad(&self, k: usize) -> Option<bool> {
        let g = self.shape.bad(k)?;
        Some(sut("try_with_labels", || self.v().try_with_labels(g)).is_some())
    }
    fn remove(&self, s: usize, how: u8) -> Option<Val> {
        let m = sut("remove_metric", || {
            let id = self.id(s, how);
            self.v().remove_metric(id)
        })?;
        sched::quiet(|| {
            let mut e = BufferedTextEncoder::new();
            let name = MetricName::from_str("removed");
            sut("encoding a removed state", || {
                <M as MetricEncoding<BufferedTextEncoder>>::write_type(name, &mut e).unwrap();
                m.collect_into(self.v().metadata(), measured::label::NoLabels, name, &mut e).unwrap();
            });
            let b = e.finish();
            let fams = text::parse(&b).unwrap_or_else(|m| violate!("syntax", "removed state does not encode: {m}"));
            let (_, v) = read_value(&self.info, &fams[0].samples, 0).unwrap_or_else(|m| violate!("syntax", "removed state does not encode: {m}"));
            Some(v)
        })
    }
    fn card(&self) -> (usize, Option<usize>) {
        sut("get_cardinality", || self.v().get_cardinality())
    }
    fn update_mut(&self, s: usize, how: u8, u: Upd) {
        sut("exclusive update", || match how {
            0 => M::vec_mut(self.vm(), self.shape.group(s), u),
            _ => {
                let id = self.id(s, how);
                M::excl(self.vm().get_metric_mut(id), u)
            }
        })
    }
    fn touch_mut(&self, s: usize) {
        sut("get_metric_mut", || {
            let id = self.id(s, 1);
            let _ = self.vm().get_metric_mut(id);
        })
    }
    fn init_all(&self) {
        sut("init_all_dense", || self.vm().init_all_dense())
    }
    fn collect_b(&self, e: &mut BufferedTextEncoder) -> Result<(), BErr> {
        emit(&self.info, self.v(), e)
    }
    fn collect_w(&self, e: &mut TextEncoder<SimWriter>) -> std::io::Result<()> {
        emit(&self.info, self.v(), e)
    }
    fn collect_p(&self, e: &mut Proto) -> std::io::Result<()> {
        self.v().collect_p(&self.info, e)
    }
}

pub struct PlainFam<M: Ops> {
    info: Info,
    v: *mut Metric<M>,
}
unsafe impl<M: Ops> Sync for PlainFam<M> {}
impl<M: Ops> PlainFam<M> {
    fn v(&self) -> &Metric<M> {
        unsafe { &*self.v }
    }
}
impl<M> Fam for PlainFam<M>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    Metric<M>: PFam<M>,
{
    fn info(&self) -> &Info {
        &self.info
    }
    fn update(&self, _: usize, how: u8, u: Upd) {
        sut("update", || match how {
            0 => M::plain(self.v(), u),
            _ => M::guard(self.v().get_metric(), u),
        })
    }
    fn hold(&self, _: usize, us: &[Upd], between: &mut dyn FnMut()) {
        sut("update through a held guard", || M::hold(self.v().get_metric(), us, between))
    }
    fn touch(&self, _: usize, _: u8) {
        sut("get_metric", || drop(self.v().get_metric()))
    }
    fn timer(&'static self, _: usize) -> Option<Box<dyn TimerT>> {
        M::timer_plain(self.v())
    }
    fn since(&self, _: usize, _: u8, t: Instant) -> Option<Duration> {
        M::since_guard(self.v().get_metric(), t)
    }
    fn lookup(&self, _: usize) -> bool {
        true
    }
    fn lookup_bad(&self, _: usize) -> Option<bool> {
        None
    }
    fn remove(&self, _: usize, _: u8) -> Option<Val> {
        None
    }
    fn card(&self) -> (usize, Option<usize>) {
        (1, Some(1))
    }
    fn update_mut(&self, _: usize, how: u8, u: Upd) {
        let m = unsafe { &mut *self.v };
        sut("exclusive update", || match how {
            0 => M::plain_mut(m, u),
            _ => M::excl(m.get_metric_mut(), u),
        })
    }
    fn touch_mut(&self, _: usize) {}
    fn init_all(&self) {}
    fn collect_b(&self, e: &mut BufferedTextEncoder) -> Result<(), BErr> {
        emit(&self.info, self.v(), e)
    }
    fn collect_w(&self, e: &mut TextEncoder<SimWriter>) -> std::io::Result<()> {
        emit(&self.info, self.v(), e)
    }
    fn collect_p(&self, e: &mut Proto) -> std::io::Result<()> {
        self.v().collect_p(&self.info, e)
    }
}

// ------------------------------------------------------------------ construction
pub struct FamCfg {
    pub name: String,
    pub help: Option<&'static str>,
    pub ns: &'static [&'static str],
    /// 0 counter 1 gauge 2 float 3 hist<3> 4 hist<8> 5 hist<0>
    pub kind: i64,
    /// -1: a standalone metric
    pub shape: i64,
    /// 0 automatic 1 dense 2 sparse
    pub layout: i64,
    pub seed: u64,
    pub size: usize,
}

/// no larger set is stored densely on request
const MAX_DENSE: usize = 4096;

pub fn vec_fam<M, S: Shape>(shape: S, v: *mut MetricVec<M, S::Set>, layout: i64, name: &str, help: Option<&'static str>, ns: &'static [&'static str]) -> Box<dyn Fam>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    MetricVec<M, S::Set>: PFam<M>,
{
    Box::new(vec_fam_(shape, v, layout, name, help, ns, None))
}
type Again<M, S> = Option<Box<dyn Fn() -> MetricVec<M, <S as Shape>::Set>>>;
fn vec_fam_<M, S: Shape>(shape: S, v: *mut MetricVec<M, S::Set>, layout: i64, name: &str, help: Option<&'static str>, ns: &'static [&'static str], again: Again<M, S>) -> VecFam<M, S>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    MetricVec<M, S::Set>: PFam<M>,
{
    let n = shape.n();
    let le = M::le(unsafe { (*v).metadata() });
    let card = shape.card();
    let layout = match (layout, card) {
        (1, Some(n)) if n <= MAX_DENSE => Layout::Dense,
        (0, Some(n)) if n <= 1024 => Layout::Dense,
        _ => Layout::Sparse,
    };
    let pairs = (0..n).map(|i| shape.pairs(i)).collect();
    let info = Info { name: name.into(), help, k: M::K, le, layout, n, card, pairs, ns, untyped: false, index: Default::default() };
    VecFam { info, shape, v, ids: UnsafeCell::new(vec![None; n]), again }
}
pub fn plain_fam<M>(v: *mut Metric<M>, name: &str, help: Option<&'static str>, ns: &'static [&'static str]) -> Box<dyn Fam>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    Metric<M>: PFam<M>,
{
    let le = M::le(unsafe { (*v).get_metric().metadata() });
    let info = Info { name: name.into(), help, k: M::K, le, layout: Layout::Plain, n: 1, card: Some(1), pairs: vec![vec![]], ns, untyped: false, index: Default::default() };
    Box::new(PlainFam { info, v })
}
fn mk_vec<M, S: Shape>(c: &FamCfg) -> Box<dyn Fam>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    MetricVec<M, S::Set>: PFam<M>,
{
    let (seed, size, layout) = (c.seed, c.size.max(1), c.layout);
    let make = move || {
        let (shape, set) = S::make(seed, size);
        let meta = M::meta(seed);
        let layout = if layout == 1 && shape.card().is_none_or(|n| n > MAX_DENSE) { 2 } else { layout };
        // (all constructors of one layout make the same family)
        let way = mix(seed ^ 0xc0de) % 8;
        let v = sut("construction", || match layout {
            _ if way == 0 && S::DEFAULT => S::with_metadata::<M>(layout, meta),
            _ if way < 3 && M::K != K::Hist && S::DEFAULT => M::bare::<S>(1, if layout == 0 && way == 1 { 3 } else { layout }, set).unwrap(),
            _ if way < 5 && M::K != K::Hist => M::bare::<S>(0, layout, set).unwrap(),
            0 => MetricVec::<M, S::Set>::with_label_set_and_metadata(set, meta),
            1 => MetricVec::<M, S::Set>::dense_with_label_set_and_metadata(set, meta),
            _ => MetricVec::<M, S::Set>::sparse_with_label_set_and_metadata(set, meta),
        });
        (shape, v)
    };
    let (shape, v) = make();
    Box::new(vec_fam_(shape, Box::leak(Box::new(v)), c.layout, &c.name, c.help, c.ns, Some(Box::new(move || make().1))))
}
fn mk_plain<M>(c: &FamCfg) -> Box<dyn Fam>
where
    M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
    Metric<M>: PFam<M>,
{
    let way = mix(c.seed ^ 0xc0de) % 4;
    let m = if way < 2 { M::bare_plain(way) } else { None };
    let m = m.unwrap_or_else(|| Metric::<M>::with_metadata(M::meta(c.seed)));
    plain_fam(Box::leak(Box::new(m)), &c.name, c.help, c.ns)
}
macro_rules! mk {
    ($M:ty, $c:expr) => {{
    type M = $M;
    let c = $c;
    match c.shape {
        0 => mk_vec::<M, SKind>(c),
        1 => mk_vec::<M, SThree>(c),
        2 => mk_vec::<M, SSingle>(c),
        3 => mk_vec::<M, SRoute>(c),
        4 => mk_vec::<M, SMixed>(c),
        5 => mk_vec::<M, SPhf>(c),
        6 => mk_vec::<M, SDyn>(c),
        7 => mk_vec::<M, SDyn2>(c),
        8 => mk_vec::<M, SComposed>(c),
        9 => mk_vec::<M, SComposedDyn>(c),
        10 => mk_vec::<M, SStaticRef>(c),
        11 => mk_vec::<M, SUser>(c),
        12 => mk_vec::<M, SUser2>(c),
        13 => mk_vec::<M, SLimKeys>(c),
        14 => mk_vec::<M, SLimMem>(c),
        15 => mk_vec::<M, SCases>(c),
        16 => mk_vec::<M, SBig>(c),
        17 => mk_vec::<M, SPair>(c),
        18 => mk_vec::<M, SPairs>(c),
        19 => mk_vec::<M, SFlow>(c),
        20 => mk_vec::<M, SWide>(c),
        _ => mk_plain::<M>(c),
    }
    }};
}
pub fn build(c: &FamCfg) -> &'static dyn Fam {
    Box::leak(match c.kind {
        0 => mk!(CounterState, c),
        1 => mk!(GaugeState, c),
        2 => mk!(FloatGaugeState, c),
        3 => mk!(HistogramState<3>, c),
        4 => mk!(HistogramState<8>, c),
        // (more buckets than a machine word has bits)
        6 => match c.shape {
            -1 | 21.. => mk_plain::<HistogramState<70>>(c),
            0 | 1 | 2 | 5 | 8 | 15 => mk_vec::<HistogramState<70>, SKind>(c),
            _ => mk_vec::<HistogramState<70>, SDyn>(c),
        },
        _ => mk!(HistogramState<0>, c),
    })
}

// ------------------------------------------------------------------ reading scrapes back
fn int(s: &str) -> Option<i128> {
    if let Ok(v) = s.parse::<i128>() {
        return Some(v);
    }
    let f: f64 = s.parse().ok()?;
    (f.fract() == 0.0 && f.abs() < 9e15).then_some(f as i128)
}

/// Read the value of the series whose samples start at `at`. Returns the number of samples used.
pub fn read_value(i: &Info, s: &[Sample], at: usize) -> Result<(usize, Val), String> {
    let x = &s[at];
    match i.k {
        K::Counter => Ok((1, Val::C(int(&x.value).and_then(|v| u64::try_from(v).ok()).ok_or_else(|| format!("counter value {:?} of {}{:?}", x.value, x.name, x.labels))?))),
        K::Gauge => Ok((1, Val::G(int(&x.value).and_then(|v| i64::try_from(v).ok()).ok_or_else(|| format!("gauge value {:?}", x.value))?))),
        K::Float => Ok((1, Val::F(fbits(x.value.parse().map_err(|_| format!("float value {:?}", x.value))?)))),
        K::Hist => {
            let n = i.le.len();
            if at + n + 3 > s.len() {
                return Err(format!("histogram series {:?} is cut short", x.labels));
            }
            let base = |k: usize, suf: &str| -> Result<&Sample, String> {
                let x = &s[at + k];
                if !x.name.ends_with(suf) {
                    return Err(format!("expected a {suf} line, found {}", x.name));
                }
                Ok(x)
            };
            let mut b = vec![];
            let own = &x.labels[..x.labels.len().saturating_sub(1)];
            for k in 0..=n {
                let x = base(k, "_bucket")?;
                let Some((l, le)) = x.labels.last() else { return Err("bucket without le".into()) };
                if l != "le" || &x.labels[..x.labels.len() - 1] != own {
                    return Err(format!("bucket line with labels {:?}", x.labels));
                }
                let want = if k == n { f64::INFINITY } else { i.le[k] };
                if le.parse::<f64>().ok().map(fbits) != Some(fbits(want)) {
                    return Err(format!("bucket bound {le:?}, declared {want:?}"));
                }
                if k == n && le != "+Inf" {
                    return Err(format!("last bucket bound is {le:?}, must be +Inf"));
                }
                let c = int(&x.value).and_then(|v| u64::try_from(v).ok()).ok_or_else(|| format!("bucket count {:?}", x.value))?;
                b.push(c);
            }
            let sum = base(n + 1, "_sum")?;
            let cnt = base(n + 2, "_count")?;
            if sum.labels != own || cnt.labels != own {
                return Err(format!("sum/count labels {:?} {:?} differ from bucket labels {:?}", sum.labels, cnt.labels, own));
            }
            let inf = b.pop().unwrap();
            let c = int(&cnt.value).and_then(|v| u64::try_from(v).ok()).ok_or_else(|| format!("count {:?}", cnt.value))?;
            if inf != c {
                return Err(format!("+Inf bucket is {inf} but the count is {c}"));
            }
            let sum: f64 = sum.value.parse().map_err(|_| format!("sum {:?}", sum.value))?;
            Ok((n + 3, Val::H(b, c, fbits(sum))))
        }
    }
}
/// Labels of the series whose samples start at `at` (without le).
pub fn series_labels<'a>(i: &Info, s: &'a [Sample], at: usize) -> &'a [(String, String)] {
    let l = &s[at].labels;
    if i.k == K::Hist {
        &l[..l.len().saturating_sub(1)]
    } else {
        l
    }
}

/// Split a family of a scrape into (series index, value); every deviation is an Err.
pub fn read_family(i: &Info, f: &text::Family) -> Result<Vec<(usize, Val)>, String> {
    let full = i.full_name();
    if f.name != full {
        return Err(format!("family is named {:?}, expected {:?}", f.name, full));
    }
    if if i.untyped { f.typ.as_deref().is_some_and(|t| t != i.type_name() && t != "untyped") } else { f.typ.as_deref() != Some(i.type_name()) } {
        return Err(format!("family {full} has type {:?}, expected {}", f.typ, i.type_name()));
    }
    if f.help.as_deref() != i.help {
        return Err(format!("family {full} has help {:?}, expected {:?}", f.help, i.help));
    }
    let mut out: Vec<(usize, Val)> = vec![];
    let mut seen = vec![false; i.n];
    let mut at = 0;
    while at < f.samples.len() {
        if i.k != K::Hist && f.samples[at].name != full {
            return Err(format!("sample {:?} in family {full}", f.samples[at].name));
        }
        let labels = series_labels(i, &f.samples, at);
        let Some(ix) = i.find(labels) else {
            return Err(format!("family {full} reports a series {labels:?} nobody ever touched"));
        };
        if seen[ix] {
            return Err(format!("family {full} reports the series {labels:?} twice"));
        }
        seen[ix] = true;
        let (n, v) = read_value(i, &f.samples, at)?;
        out.push((ix, v));
        at += n;
    }
    Ok(out)
}

/// User code that runs while a guard is held.
pub fn pause_point() {
    user_call()
}
