//! Metric groups: derived, nested, optional, namespaced, composed, hand-written.
use crate::fam::*;
use crate::shapes::*;
use crate::world::{help_of, Entry, GroupDef};
use crate::writer::SimWriter;
use lasso::{Rodeo, RodeoReader};
use measured::label::{ComposedGroup, NoLabels, StaticLabelSet};
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::{write_float_gauge, write_gauge, FloatGaugeState, GaugeState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{Bucket, Count, MetricName, Sum, Total, WithNamespace};
use measured::metric::{MetricEncoding, MetricFamilyEncoding, MetricType};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::{Counter, CounterVec, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub trait GroupInst: Sync {
    fn collect_b(&self, e: &mut BufferedTextEncoder) -> Result<(), BErr>;
    fn collect_w(&self, e: &mut TextEncoder<SimWriter>) -> std::io::Result<()>;
    fn collect_p(&self, e: &mut Proto) -> std::io::Result<()>;
}
struct InstT<G>(G);
unsafe impl<G> Sync for InstT<G> {}
impl<G: MetricGroup<BufferedTextEncoder> + MetricGroup<TextEncoder<SimWriter>>> GroupInst for InstT<G> {
    fn collect_b(&self, e: &mut BufferedTextEncoder) -> Result<(), BErr> {
        self.0.collect_group_into(e)
    }
    fn collect_w(&self, e: &mut TextEncoder<SimWriter>) -> std::io::Result<()> {
        self.0.collect_group_into(e)
    }
    fn collect_p(&self, _: &mut Proto) -> std::io::Result<()> {
        simrt::run::harness_error("group with histograms offered to the protobuf encoder")
    }
}
struct InstP<G>(G);
unsafe impl<G> Sync for InstP<G> {}
impl<G: MetricGroup<BufferedTextEncoder> + MetricGroup<TextEncoder<SimWriter>> + MetricGroup<Proto>> GroupInst for InstP<G> {
    fn collect_b(&self, e: &mut BufferedTextEncoder) -> Result<(), BErr> {
        self.0.collect_group_into(e)
    }
    fn collect_w(&self, e: &mut TextEncoder<SimWriter>) -> std::io::Result<()> {
        self.0.collect_group_into(e)
    }
    fn collect_p(&self, e: &mut Proto) -> std::io::Result<()> {
        self.0.collect_group_into(e)
    }
}

// ------------------------------------------------------------------ derived groups
mod derived {
    use super::*;
    #[derive(measured::MetricGroup)]
    #[metric(new())]
    pub struct GConn {
        /// connections opened
        pub opened: Counter,
        pub closed_total: Counter,
    }
    #[derive(measured::MetricGroup)]
    #[metric(new(absent: i64))]
    pub struct GPool {
        /// pool "size" with a \ backslash and {braces} # HELP pool_size x
        pub size: Gauge,
        #[doc = "first line\nsecond \\ line\n"]
        #[metric(rename = "hit:ratio")]
        pub ratio: FloatGaugeVec<StaticLabelSet<Kind>>,
        /// maybe there
        #[metric(init = (absent & 1 == 0).then(Counter::new))]
        pub maybe: Option<Counter>,
        #[metric(init = (absent & 2 == 0).then(GaugeVec::new))]
        pub maybe_vec: Option<GaugeVec<GThreeSet>>,
        #[metric(namespace = "conn")]
        #[metric(init = GConn::new())]
        pub conn: GConn,
        #[metric(namespace = "opt", init = (absent & 4 == 0).then(GConn::new))]
        pub opt: Option<GConn>,
        #[metric(flatten, init = Arc::new(GConn::new()))]
        pub shared: Arc<GConn>,
        /// the last one
        pub load: FloatGauge,
    }
    #[derive(measured::MetricGroup)]
    #[metric(new(route: RodeoReader, th: Thresholds<3>, absent: i64))]
    pub struct GHttp {
        /// HTTP errors by \route\n and "kind"
        #[metric(label_set = GRouteSet::new(route))]
        pub errors: CounterVec<GRouteSet>,
        #[doc = "latency\nin seconds"]
        #[metric(rename = "latency_seconds", metadata = th)]
        pub latency: Histogram<3>,
        pub in_flight: Gauge,
        #[metric(namespace = "db_pool", init = GPool::new(absent))]
        pub pool: GPool,
        #[metric(metadata = Thresholds::<0>::linear_buckets(0.0, 1.0))]
        pub by_kind: HistogramVec<GKindSet, 0>,
        #[metric(flatten, init = (absent & 8 == 0).then(GUsers::new))]
        pub users: Option<GUsers>,
    }
    #[derive(measured::MetricGroup)]
    #[metric(new())]
    pub struct GUsers {
        /// per user
        #[metric(label_set = GDynSet::new())]
        pub per_user: CounterVec<GDynSet>,
        #[doc = ""]
        pub mut_gauge: GaugeVec<StaticLabelSet<Kind>>,
    }
}
use derived::*;

/// Values reported by hand through the sample helpers.
struct Cells {
    k: K,
    v: Vec<AtomicU64>,
}
struct Hand {
    name: &'static str,
    help: Option<&'static str>,
    requests: Box<CounterVec<GKindSet>>,
    cells: [Arc<Cells>; 3],
    helper_help: &'static str,
    panics: bool,
    sparse: bool,
    wish: &'static str,
}
const KIND5: [Kind; 5] = [Kind::User, Kind::InternalError, Kind::Network, Kind::Zzz, Kind::Empty];
impl<E: Encoding> MetricGroup<E> for Hand
where
    CounterVec<GKindSet>: MetricFamilyEncoding<E>,
    CounterState: MetricEncoding<E>,
    GaugeState: MetricEncoding<E>,
    FloatGaugeState: MetricEncoding<E>,
{
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
        let name = MetricName::try_from_str(self.wish).unwrap_or(MetricName::from_str("requests"));
        let call = || {
            if self.panics {
                user_call()
            }
        };
        call();
        if let Some(h) = self.help {
            enc.write_help(name.with_suffix(Total), h)?;
        }
        call();
        self.requests.collect_family_into(name.with_suffix(Total), enc)?;
        call();
        for c in &self.cells {
            match c.k {
                K::Counter => {
                    let n = MetricName::from_str("hand_counter").in_namespace("ext").with_suffix(Sum);
                    enc.write_help(&n, self.helper_help)?;
                    for (i, v) in c.v.iter().enumerate() {
                        call();
                        write_counter(enc, &n, GKind::of(KIND5[i]), v.load(Ordering::SeqCst))?;
                    }
                }
                K::Gauge => {
                    let n = MetricName::from_str("hand_gauge").with_suffix(Bucket);
                    enc.write_help(&n, self.helper_help)?;
                    write_gauge(enc, &n, NoLabels, c.v[0].load(Ordering::SeqCst) as i64)?;
                }
                _ => {
                    let n = MetricName::from_str("hand_float").with_suffix(Count);
                    enc.write_help(&n, self.helper_help)?;
                    for (i, v) in c.v.iter().enumerate() {
                        write_float_gauge(enc, &n, GKind::of(KIND5[i]), f64::from_bits(v.load(Ordering::SeqCst)))?;
                    }
                }
            }
            call();
        }
        Ok(())
    }
}
struct HandFam {
    info: Info,
    c: Arc<Cells>,
}
impl Fam for HandFam {
    fn info(&self) -> &Info {
        &self.info
    }
    fn update(&self, s: usize, _: u8, u: Upd) {
        let k = self.info.k;
        let _ = self.c.v[s].fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| {
            let st = match k {
                K::Counter => Val::C(x),
                K::Gauge => Val::G(x as i64),
                _ => Val::F(x),
            };
            Some(match apply(k, &[], &st, u) {
                Val::C(x) => x,
                Val::G(x) => x as u64,
                Val::F(x) => x,
                _ => unreachable!(),
            })
        });
    }
    fn hold(&self, s: usize, us: &[Upd], between: &mut dyn FnMut()) {
        for u in us {
            self.update(s, 0, *u);
            between();
        }
    }
    fn touch(&self, _: usize, _: u8) {}
    fn lookup(&self, _: usize) -> bool {
        true
    }
    fn lookup_bad(&self, _: usize) -> Option<bool> {
        None
    }
    fn remove(&self, _: usize, _: u8) -> Option<Val> {
        None
    }
    fn card(&self) -> (usize, Option<usize>) {
        (self.info.n, Some(self.info.n))
    }
    fn update_mut(&self, s: usize, how: u8, u: Upd) {
        self.update(s, how, u)
    }
    fn touch_mut(&self, _: usize) {}
    fn init_all(&self) {}
    fn collect_b(&self, _: &mut BufferedTextEncoder) -> Result<(), BErr> {
        simrt::run::harness_error("hand family collected by itself")
    }
    fn collect_w(&self, _: &mut TextEncoder<SimWriter>) -> std::io::Result<()> {
        simrt::run::harness_error("hand family collected by itself")
    }
    fn collect_p(&self, _: &mut Proto) -> std::io::Result<()> {
        simrt::run::harness_error("hand family collected by itself")
    }
}

// ------------------------------------------------------------------ instances
#[derive(Default)]
struct B {
    fams: Vec<&'static dyn Fam>,
    order: Vec<Entry>,
}
type Ns = &'static [&'static str];
impl B {
    fn push(&mut self, f: Box<dyn Fam>) {
        self.order.push(Entry::Fam(self.fams.len()));
        self.fams.push(Box::leak(f));
    }
    fn absent(&mut self, ns: Ns, name: &str) {
        let mut s = String::new();
        for n in ns {
            s.push_str(n);
            s.push('_');
        }
        self.order.push(Entry::Absent(s + name));
    }
    fn plain<M>(&mut self, m: &measured::metric::Metric<M>, name: &str, help: Option<&'static str>, ns: Ns)
    where
        M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
        measured::metric::Metric<M>: PFam<M>,
    {
        self.push(plain_fam(m as *const _ as *mut _, name, help, ns));
    }
    fn vec<M, S: Shape>(&mut self, s: S, m: &measured::metric::MetricVec<M, S::Set>, name: &str, help: Option<&'static str>, ns: Ns)
    where
        M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
        measured::metric::MetricVec<M, S::Set>: PFam<M>,
    {
        self.push(vec_fam(s, m as *const _ as *mut _, 0, name, help, ns));
    }
    fn vec_sparse<M, S: Shape>(&mut self, s: S, m: &measured::metric::MetricVec<M, S::Set>, name: &str, help: Option<&'static str>, ns: Ns)
    where
        M: Ops + MetricEncoding<BufferedTextEncoder> + MetricEncoding<TextEncoder<SimWriter>>,
        measured::metric::MetricVec<M, S::Set>: PFam<M>,
    {
        self.push(vec_fam(s, m as *const _ as *mut _, 2, name, help, ns));
    }
    fn conn(&mut self, g: &GConn, ns: Ns) {
        self.plain(&g.opened, "opened", Some("connections opened"), ns);
        self.plain(&g.closed_total, "closed_total", None, ns);
    }
    /// `ns`: of the pool itself, and of its two nested groups
    fn pool(&mut self, g: &GPool, ns: Ns, conn: Ns, opt: Ns) {
        self.plain(&g.size, "size", Some("pool \"size\" with a \\ backslash and {braces} # HELP pool_size x"), ns);
        self.vec(SSingle, &g.ratio, "hit:ratio", Some("first line\nsecond \\ line"), ns);
        match &g.maybe {
            Some(c) => self.plain(c, "maybe", Some("maybe there"), ns),
            None => self.absent(ns, "maybe"),
        }
        match &g.maybe_vec {
            Some(c) => self.vec(SThree, c, "maybe_vec", None, ns),
            None => self.absent(ns, "maybe_vec"),
        }
        self.conn(&g.conn, conn);
        if let Some(o) = &g.opt {
            self.conn(o, opt);
        }
        self.conn(&g.shared, ns);
        self.plain(&g.load, "load", Some("the last one"), ns);
    }
    fn http(&mut self, g: &GHttp, route: SRoute, users: Vec<&'static str>) {
        self.vec(route, &g.errors, "errors", Some("HTTP errors by \\route\\n and \"kind\""), &[]);
        self.plain(&g.latency, "latency_seconds", Some("latency\nin seconds"), &[]);
        self.plain(&g.in_flight, "in_flight", None, &[]);
        self.pool(&g.pool, &["db_pool"], &["db_pool", "conn"], &["db_pool", "opt"]);
        self.vec(SKind, &g.by_kind, "by_kind", None, &[]);
        if let Some(u) = &g.users {
            self.vec(SDyn::of(users), &u.per_user, "per_user", Some("per user"), &[]);
            self.vec(SSingle, &u.mut_gauge, "mut_gauge", Some(""), &[]);
        }
    }
    fn hand(&mut self, g: &Hand, ns: Ns, ext: Ns) {
        let name: &'static str = Box::leak(format!("{}_total", g.name).into_boxed_str());
        match g.sparse {
            false => self.vec(SKind, &*g.requests, name, g.help, ns),
            true => self.vec_sparse(SKind, &*g.requests, name, g.help, ns),
        }
        for c in &g.cells {
            let (name, cns) = match c.k {
                K::Counter => ("hand_counter_sum", ext),
                K::Gauge => ("hand_gauge_bucket", ns),
                _ => ("hand_float_count", ns),
            };
            let n = c.v.len();
            let pairs = if n == 1 { vec![vec![]] } else { (0..n).map(|i| SKind.pairs(i)).collect() };
            let info = Info {
                name: name.into(),
                help: Some(g.helper_help),
                k: c.k,
                le: vec![],
                layout: Layout::Plain,
                n,
                card: Some(n),
                pairs,
                ns: cns,
                untyped: true,
                index: Default::default(),
            };
            self.push(Box::new(HandFam { info, c: c.clone() }));
        }
    }
}
/// names to ask for at run time; those outside the grammar have to be refused
const NAMES: &[&str] = &["requests", "a:b", "_x", "A9:_z", ":", "_", "x-y", "-", "9x", "", "x y", "x{y", "x\ny", "\u{e9}t\u{e9}", "x.y", "x\"", "x\0"];
fn valid_name(s: &str) -> bool {
    let ok = |c: char| c.is_ascii_alphabetic() || c == '_' || c == ':';
    s.chars().next().is_some_and(ok) && s.chars().all(|c| ok(c) || c.is_ascii_digit())
}
fn hand(seed: u64, panics: bool) -> Hand {
    let cells = |k, n| Arc::new(Cells { k, v: (0..n).map(|_| AtomicU64::new(0)).collect() });
    let wish = NAMES[seed as usize % NAMES.len()];
    Hand {
        wish,
        name: if valid_name(wish) { wish } else { "requests" },
        help: help_of((seed >> 8) as usize),
        requests: Box::new(if seed & 16 == 0 { CounterVec::new() } else { CounterVec::sparse() }),
        cells: [cells(K::Counter, 5), cells(K::Gauge, 1), cells(K::Float, 5)],
        helper_help: help_of((seed >> 16) as usize).unwrap_or("x"),
        panics,
        sparse: seed & 16 != 0,
    }
}
fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

pub const TEXT_GROUPS: &[i64] = &[1, 2, 3, 4, 5, 6];
pub const PROTO_GROUPS: &[i64] = &[2, 3, 4, 6];

/// Build group number `kind`; returns its families and how to collect it.
pub fn build_group(kind: i64, seed: u64, size: usize, absent: i64) -> (Vec<&'static dyn Fam>, GroupDef) {
    let mut b = B::default();
    let panics = absent & 1024 != 0;
    let http = |b: &mut B| -> &'static GHttp {
        let (route, _) = SRoute::make(seed, size);
        let users = strings(seed ^ 99, size);
        let g = leak(GHttp::new(route.strs().iter().collect::<Rodeo>().into_reader(), <HistogramState<3> as Ops>::meta(seed >> 3), absent));
        b.http(g, route, users);
        g
    };
    let inst: &'static dyn GroupInst = match kind {
        1 => leak(InstT(http(&mut b))),
        2 => {
            let g = leak(GPool::new(absent));
            b.pool(g, &[], &["conn"], &["opt"]);
            leak(InstP(g))
        }
        3 => {
            // composition of a namespaced group and an optional bare one
            let g = leak(GPool::new(absent));
            b.pool(g, &["svc"], &["svc", "conn"], &["svc", "opt"]);
            let c = (absent & 16 == 0).then(|| leak(GConn::new()));
            if let Some(c) = c {
                b.conn(c, &[]);
            }
            leak(InstP(ComposedGroup(WithNamespace::new("svc", g), c)))
        }
        4 => {
            let h = leak(hand(seed, panics));
            b.hand(h, &[], &["ext"]);
            leak(InstP(h))
        }
        5 => {
            let h = leak(hand(seed, panics));
            let c = Arc::new(GConn::new());
            let g = http(&mut b);
            b.hand(h, &["outer"], &["outer", "ext"]);
            b.conn(unsafe { &*Arc::as_ptr(&c) }, &["n1", "n2"]);
            leak(InstT(ComposedGroup(g, ComposedGroup(WithNamespace::new("outer", h), WithNamespace::new("n1", WithNamespace::new("n2", c))))))
        }
        _ => {
            let h = leak(hand(seed, panics));
            let g = leak(GPool::new(absent));
            b.hand(h, &["p"], &["p", "ext"]);
            b.pool(g, &["q"], &["q", "conn"], &["q", "opt"]);
            leak(InstP(ComposedGroup(WithNamespace::new("p", Some(h)), WithNamespace::new("q", g))))
        }
    };
    let proto = PROTO_GROUPS.contains(&kind) || kind > 6;
    (b.fams, GroupDef { inst, order: b.order, proto })
}
#[allow(dead_code)]
fn _t<M: MetricType>() {}
