//! Label shapes: every way a family can be labelled, with the labels each series must be reported
//! under. A shape knows nothing about how the library encodes labels.
use indexmap::IndexSet;
use lasso::{MicroSpur, Rodeo, RodeoReader, ThreadedRodeo};
use measured::metric::{MetricType, MetricVec};
use measured::label::{ComposedGroup, LabelGroup as _, LabelGroupSet, LabelValue, LabelVisitor, StaticLabelSet};
use measured::{FixedCardinalityLabel, LabelGroup};
use crate::wide::{self, Wide};
use simrt::rng::mix;
use std::sync::Arc;

pub type Group<S> = <<S as Shape>::Set as LabelGroupSet>::Group<'static>;
pub type Pairs = Vec<(String, String)>;

pub trait Shape: Sized + 'static {
    type Set: LabelGroupSet + 'static;
    /// `seed` picks label strings, `size` the number of values of variable-size sets.
    fn make(seed: u64, size: usize) -> (Self, Self::Set);
    /// number of addressable series
    fn n(&self) -> usize;
    fn group(&self, i: usize) -> Group<Self>;
    fn pairs(&self, i: usize) -> Pairs;
    fn bad(&self, _k: usize) -> Option<Group<Self>> {
        None
    }
    /// Why a label may not be refused yet although the series of `tried` were used.
    fn refusal_too_early(&self, _tried: &[usize]) -> Option<String> {
        Some("its interners have no limit".into())
    }
    /// size of the label set if it is bounded
    fn card(&self) -> Option<usize> {
        Some(self.n())
    }
    /// the set is made by its own default (so that families need not be given one)
    const DEFAULT: bool = false;
    fn with_metadata<M: MetricType>(_layout: i64, _meta: M::Metadata) -> MetricVec<M, Self::Set> {
        unreachable!()
    }
    fn fresh<M: MetricType<Metadata: Default>>(_layout: i64) -> MetricVec<M, Self::Set> {
        unreachable!()
    }
}
macro_rules! by_default {
    () => {
        const DEFAULT: bool = true;
        fn with_metadata<M: MetricType>(layout: i64, meta: M::Metadata) -> MetricVec<M, Self::Set> {
            match layout {
                0 => MetricVec::with_metadata(meta),
                1 => MetricVec::dense_with_metadata(meta),
                _ => MetricVec::sparse_with_metadata(meta),
            }
        }
        fn fresh<M: MetricType<Metadata: Default>>(layout: i64) -> MetricVec<M, Self::Set> {
            match layout {
                0 => MetricVec::new(),
                1 => MetricVec::dense(),
                3 => MetricVec::default(),
                _ => MetricVec::sparse(),
            }
        }
    };
}

const NASTY: &[&str] = &[
    "", " ", "a", "\"", "\\", "\n", "\\n", "\\\"", "a\"b", "tail\\", "\\\\", "line\nbreak", "\n\n", "{x=\"y\"}", "}", "# HELP x", "a,b", "=", "\t",
    "\r", "\u{0}", "é", "日本語", "\u{1F600}", "\u{7f}", "\"\\\n", "a b", "le", "+Inf", "NaN", "1.0", "x\"} 1\ny{z=\"", "end\n", "\\x", "'", "`",
];

/// Set in a seed: label strings at the widths where length prefixes grow.
pub const LONG: u64 = 1 << 61;

/// `n` distinct strings.
pub fn strings(seed: u64, n: usize) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let mut k = 0u64;
    while v.len() < n {
        let h = mix(seed.wrapping_mul(31) ^ k);
        k += 1;
        let s: String = match h % 8 {
            0 | 1 | 2 if n <= 64 => NASTY[(h >> 8) as usize % NASTY.len()].to_string(),
            3 if n <= 64 => {
                let mut s = String::new();
                for i in 0..(h >> 8) % 6 {
                    s.push_str(NASTY[(mix(h ^ i) >> 8) as usize % NASTY.len()]);
                }
                s
            }
            4 | 5 if n <= 64 && seed & LONG != 0 && h >> 62 == 0 => {
                let edge = [127, 128, 120, 16383, 16384, 16379, 16370][(h >> 8) as usize % 7] as u64;
                "L".repeat((edge - 3 + (h >> 16) % 6) as usize)
            }
            6 if n <= 64 && !v.is_empty() => similar(v[(h >> 8) as usize % v.len()], h >> 16),
            4 if n <= 64 && h >> 60 == 0 => "long\\\"".repeat(1 + ((h >> 8) % 40) as usize),
            _ => format!("v{:x}", (h >> 8) & 0xffff_ffff),
        };
        if seen.insert(s.clone()) {
            v.push(Box::leak(s.into_boxed_str()));
        }
    }
    v
}
/// A string that resembles another one.
fn similar(base: &str, k: u64) -> String {
    match k % 12 {
        0 => format!("{base} "),
        1 => base.to_uppercase(),
        2 => base.chars().skip(1).collect(),
        3 => format!("{base}\n"),
        4 => format!(" {base}"),
        5 => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
        6 => base.chars().rev().collect(),
        7 => format!("{base}\u{0}"),
        8 => format!("{base}\u{301}"),
        9 => format!("{base}{base}"),
        10 => base.to_lowercase(),
        _ => base.replace('\\', ""),
    }
}
fn absent(seed: u64, have: &[&'static str], k: usize) -> &'static str {
    // values that resemble the known ones but are not among them
    let base = have.get(k % have.len().max(1)).copied().unwrap_or("");
    let h = mix(seed ^ k as u64);
    let c = if h % 8 == 0 { format!("absent-{:x}", h & 0xffff) } else { similar(base, h >> 8) };
    if have.iter().any(|h| *h == c) {
        Box::leak(format!("absent-{k}-{:x}", mix(seed ^ 77)).into_boxed_str())
    } else {
        Box::leak(c.into_boxed_str())
    }
}

fn p(a: &str, b: impl ToString) -> (String, String) {
    (a.to_string(), b.to_string())
}

// ------------------------------------------------------------------ enums
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(rename_all = "kebab-case", singleton = "kind")]
pub enum Kind {
    User,
    InternalError,
    #[label(rename = "net \"work\"\\")]
    Network,
    Zzz,
    #[label(rename = "")]
    Empty,
}
const KINDS: [(Kind, &str); 5] =
    [(Kind::User, "user"), (Kind::InternalError, "internal-error"), (Kind::Network, "net \"work\"\\"), (Kind::Zzz, "zzz"), (Kind::Empty, "")];

#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum Code {
    Ok = 200,
    Created = 201,
    BadRequest = 400,
    Internal = 500,
}
const CODES: [(Code, &str); 4] = [(Code::Ok, "200"), (Code::Created, "201"), (Code::BadRequest, "400"), (Code::Internal, "500")];

#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(rename_all = "snake_case")]
pub enum Bit {
    OffState,
    OnState,
}
const BITS: [(Bit, &str); 2] = [(Bit::OffState, "off_state"), (Bit::OnState, "on_state")];

// 0: one enum
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GKindSet)]
pub struct GKind {
    kind: Kind,
}
impl GKind {
    pub fn of(kind: Kind) -> GKind {
        GKind { kind }
    }
}
pub struct SKind;
impl Shape for SKind {
    type Set = GKindSet;
    by_default!();
    fn make(_: u64, _: usize) -> (Self, GKindSet) {
        (SKind, GKindSet::new())
    }
    fn n(&self) -> usize {
        5
    }
    fn group(&self, i: usize) -> GKind {
        GKind { kind: KINDS[i].0 }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("kind", KINDS[i].1)]
    }
}

// 1: three enums, one renamed
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GThreeSet)]
pub struct GThree {
    code: Code,
    #[label(rename = "the_kind")]
    kind: Kind,
    bit: Bit,
}
pub struct SThree;
fn three(i: usize) -> (usize, usize, usize) {
    (i % 4, i / 4 % 5, i / 20)
}
impl Shape for SThree {
    type Set = GThreeSet;
    by_default!();
    fn make(_: u64, _: usize) -> (Self, GThreeSet) {
        (SThree, GThreeSet::new())
    }
    fn n(&self) -> usize {
        40
    }
    fn group(&self, i: usize) -> GThree {
        let (a, b, c) = three(i);
        GThree { code: CODES[a].0, kind: KINDS[b].0, bit: BITS[c].0 }
    }
    fn pairs(&self, i: usize) -> Pairs {
        let (a, b, c) = three(i);
        vec![p("code", CODES[a].1), p("the_kind", KINDS[b].1), p("bit", BITS[c].1)]
    }
}

// 2: singleton enum used directly as the label group
pub struct SSingle;
impl Shape for SSingle {
    type Set = StaticLabelSet<Kind>;
    by_default!();
    fn make(_: u64, _: usize) -> (Self, Self::Set) {
        (SSingle, StaticLabelSet::new())
    }
    fn n(&self) -> usize {
        5
    }
    fn group(&self, i: usize) -> Kind {
        KINDS[i].0
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("kind", KINDS[i].1)]
    }
}

// 3: a fixed string set known at start-up next to an enum
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GRouteSet)]
pub struct GRoute<'a> {
    bit: Bit,
    #[label(fixed_with = RodeoReader)]
    route: &'a str,
    kind: Kind,
}
pub struct SRoute {
    v: Vec<&'static str>,
    seed: u64,
}
impl SRoute {
    pub fn strs(&self) -> &[&'static str] {
        &self.v
    }
}
impl Shape for SRoute {
    type Set = GRouteSet;
    fn make(seed: u64, size: usize) -> (Self, GRouteSet) {
        let v = strings(seed, size);
        let set = GRouteSet::new(v.iter().collect::<Rodeo>().into_reader());
        (SRoute { v, seed }, set)
    }
    fn n(&self) -> usize {
        self.v.len() * 10
    }
    fn group(&self, i: usize) -> GRoute<'static> {
        GRoute { bit: BITS[i % 2].0, kind: KINDS[i / 2 % 5].0, route: self.v[i / 10] }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("bit", BITS[i % 2].1), p("route", self.v[i / 10]), p("kind", KINDS[i / 2 % 5].1)]
    }
    fn bad(&self, k: usize) -> Option<GRoute<'static>> {
        Some(GRoute { bit: BITS[k % 2].0, kind: KINDS[k % 5].0, route: absent(self.seed, &self.v, k) })
    }
}

// 4: an IndexSet of mixed int, float and string values
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mixed {
    I(i64),
    F(u64),
    S(&'static str),
}
impl LabelValue for Mixed {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        match self {
            Mixed::I(x) => v.write_int(*x),
            Mixed::F(x) => v.write_float(f64::from_bits(*x)),
            Mixed::S(x) => v.write_str(x),
        }
    }
}
impl Mixed {
    /// how the value must read in a label (floats are compared by value, see `label_eq`)
    fn text(&self) -> String {
        match self {
            Mixed::I(x) => x.to_string(),
            Mixed::F(x) => {
                let f = f64::from_bits(*x);
                if f.is_nan() {
                    "NaN".into()
                } else if f == f64::INFINITY {
                    "+Inf".into()
                } else if f == f64::NEG_INFINITY {
                    "-Inf".into()
                } else {
                    format!("{FLOAT}{f:?}")
                }
            }
            Mixed::S(x) => x.to_string(),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GMixedSet)]
pub struct GMixed {
    #[label(fixed_with = IndexSet<Mixed>)]
    v: Mixed,
}
pub struct SMixed {
    v: Vec<Mixed>,
    seed: u64,
}
impl Shape for SMixed {
    type Set = GMixedSet;
    fn make(seed: u64, size: usize) -> (Self, GMixedSet) {
        let mut v = vec![];
        let ss = strings(seed, size);
        let fs = [0.5, -0.0, 1e300, -2.5e-9, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.0, 1e21, 5e-324];
        let is = [0, -1, i64::MAX, i64::MIN, 7, 1_000_000_007];
        for (i, s) in ss.iter().enumerate() {
            let h = mix(seed ^ i as u64);
            let m = match h % 4 {
                0 => Mixed::I(is[(h >> 8) as usize % is.len()]),
                1 => Mixed::F(f64::to_bits(fs[(h >> 8) as usize % fs.len()])),
                _ => Mixed::S(s),
            };
            let num = |m: &Mixed| m.text().trim_start_matches(FLOAT).parse::<f64>().ok();
            let clash = |a: &Mixed| a.text() == m.text() || matches!((num(a), num(&m)), (Some(x), Some(y)) if x == y || x.is_nan() && y.is_nan());
            if v.iter().any(clash) {
                let alt = Mixed::S(Box::leak(format!("u{i}").into_boxed_str()));
                v.push(alt);
            } else {
                v.push(m);
            }
        }
        (SMixed { v: v.clone(), seed }, GMixedSet::new(v.into_iter().collect()))
    }
    fn n(&self) -> usize {
        self.v.len()
    }
    fn group(&self, i: usize) -> GMixed {
        GMixed { v: self.v[i] }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("v", self.v[i].text())]
    }
    fn bad(&self, k: usize) -> Option<GMixed> {
        let _ = self.seed;
        Some(GMixed { v: if k % 2 == 0 { Mixed::I(424_242 + k as i64) } else { Mixed::S("not there") } })
    }
}

// 5: compile-time perfect hash set
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GPhfSet)]
pub struct GPhf<'a> {
    #[label(fixed_with = phf::OrderedSet<&'static str>)]
    word: &'a str,
    code: Code,
}
const WORDS: [&str; 5] = ["loop", "continue", "break", "fn", "extern"];
pub struct SPhf;
impl Shape for SPhf {
    type Set = GPhfSet;
    fn make(_: u64, _: usize) -> (Self, GPhfSet) {
        (SPhf, GPhfSet::new(phf::phf_ordered_set! { "loop", "continue", "break", "fn", "extern" }))
    }
    fn n(&self) -> usize {
        20
    }
    fn group(&self, i: usize) -> GPhf<'static> {
        GPhf { word: WORDS[i % 5], code: CODES[i / 5].0 }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("word", WORDS[i % 5]), p("code", CODES[i / 5].1)]
    }
    fn bad(&self, k: usize) -> Option<GPhf<'static>> {
        Some(GPhf { word: ["Loop", "", "fnn", "while", "breakbreak", "FN", "fn ", " fn", "LOOP", "fn\0", "exter"][k % 11], code: CODES[k % 4].0 })
    }
}

// 6: dynamically interned strings
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GDynSet)]
pub struct GDyn<'a> {
    kind: Kind,
    #[label(dynamic_with = ThreadedRodeo, default)]
    user: &'a str,
}
pub struct SDyn {
    v: Vec<&'static str>,
}
impl SDyn {
    pub fn of(v: Vec<&'static str>) -> SDyn {
        SDyn { v }
    }
}
impl Shape for SDyn {
    type Set = GDynSet;
    by_default!();
    fn make(seed: u64, size: usize) -> (Self, GDynSet) {
        (SDyn { v: strings(seed, size) }, GDynSet::new())
    }
    fn n(&self) -> usize {
        self.v.len() * 5
    }
    fn group(&self, i: usize) -> GDyn<'static> {
        GDyn { kind: KINDS[i % 5].0, user: self.v[i / 5] }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("kind", KINDS[i % 5].1), p("user", self.v[i / 5])]
    }
    fn card(&self) -> Option<usize> {
        None
    }
}

// 7: two dynamic fields with different interners around a fixed one
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GDyn2Set)]
pub struct GDyn2<'a> {
    #[label(dynamic_with = ThreadedRodeo, default)]
    user: &'a str,
    #[label(fixed_with = Arc<RodeoReader>)]
    route: &'a str,
    #[label(dynamic_with = Arc<ThreadedRodeo>)]
    host: &'a str,
    bit: Bit,
}
pub struct SDyn2 {
    u: Vec<&'static str>,
    h: Vec<&'static str>,
    r: Vec<&'static str>,
    seed: u64,
}
impl SDyn2 {
    fn ix(&self, i: usize) -> (usize, usize, usize, usize) {
        (i % self.u.len(), i / self.u.len() % self.h.len(), i / self.u.len() / self.h.len() % self.r.len(), i / self.u.len() / self.h.len() / self.r.len())
    }
}
impl Shape for SDyn2 {
    type Set = GDyn2Set;
    fn make(seed: u64, size: usize) -> (Self, GDyn2Set) {
        let u = strings(seed, size);
        // overlapping strings in both interners, so that ids coincide
        let mut h = u.clone();
        h.reverse();
        h.truncate(3);
        let r = strings(seed ^ 5, 2);
        let set = GDyn2Set::new(Arc::new(ThreadedRodeo::new()), Arc::new(r.iter().collect::<Rodeo>().into_reader()));
        (SDyn2 { u, h, r, seed }, set)
    }
    fn n(&self) -> usize {
        self.u.len() * self.h.len() * self.r.len() * 2
    }
    fn group(&self, i: usize) -> GDyn2<'static> {
        let (a, b, c, d) = self.ix(i);
        GDyn2 { user: self.u[a], host: self.h[b], route: self.r[c], bit: BITS[d].0 }
    }
    fn pairs(&self, i: usize) -> Pairs {
        let (a, b, c, d) = self.ix(i);
        vec![p("user", self.u[a]), p("route", self.r[c]), p("host", self.h[b]), p("bit", BITS[d].1)]
    }
    fn bad(&self, k: usize) -> Option<GDyn2<'static>> {
        Some(GDyn2 { user: self.u[k % self.u.len()], host: self.h[0], route: absent(self.seed, &self.r, k), bit: BITS[k % 2].0 })
    }
    fn card(&self) -> Option<usize> {
        None
    }
}

// 8: composition of two sets
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GCodeBitSet)]
pub struct GCodeBit {
    code: Code,
    bit: Bit,
}
pub struct SComposed;
impl Shape for SComposed {
    type Set = ComposedGroup<GCodeBitSet, GKindSet>;
    fn make(_: u64, _: usize) -> (Self, Self::Set) {
        (SComposed, ComposedGroup(GCodeBitSet::new(), GKindSet::new()))
    }
    fn n(&self) -> usize {
        40
    }
    fn group(&self, i: usize) -> ComposedGroup<GCodeBit, GKind> {
        let (a, b, c) = three(i);
        GCodeBit { code: CODES[a].0, bit: BITS[c].0 }.compose_with(GKind { kind: KINDS[b].0 })
    }
    fn pairs(&self, i: usize) -> Pairs {
        let (a, b, c) = three(i);
        vec![p("code", CODES[a].1), p("bit", BITS[c].1), p("kind", KINDS[b].1)]
    }
}

// 9: composition of a dynamic with a fixed set, behind Arc
pub struct SComposedDyn {
    inner: SDyn,
}
impl Shape for SComposedDyn {
    type Set = Arc<ComposedGroup<GCodeBitSet, Arc<GDynSet>>>;
    fn make(seed: u64, size: usize) -> (Self, Self::Set) {
        let (inner, set) = SDyn::make(seed, size);
        (SComposedDyn { inner }, Arc::new(ComposedGroup(GCodeBitSet::new(), Arc::new(set))))
    }
    fn n(&self) -> usize {
        self.inner.n() * 8
    }
    fn group(&self, i: usize) -> ComposedGroup<GCodeBit, GDyn<'static>> {
        ComposedGroup(GCodeBit { code: CODES[i % 4].0, bit: BITS[i / 4 % 2].0 }, self.inner.group(i / 8))
    }
    fn pairs(&self, i: usize) -> Pairs {
        let mut v = vec![p("code", CODES[i % 4].1), p("bit", BITS[i / 4 % 2].1)];
        v.extend(self.inner.pairs(i / 8));
        v
    }
    fn card(&self) -> Option<usize> {
        None
    }
}

// 10: `&'static` set shared between families
pub struct SStaticRef(SRoute);
impl Shape for SStaticRef {
    type Set = &'static GRouteSet;
    fn make(seed: u64, size: usize) -> (Self, Self::Set) {
        let (s, set) = SRoute::make(seed, size);
        (SStaticRef(s), Box::leak(Box::new(set)))
    }
    fn n(&self) -> usize {
        self.0.n()
    }
    fn group(&self, i: usize) -> GRoute<'static> {
        self.0.group(i)
    }
    fn pairs(&self, i: usize) -> Pairs {
        self.0.pairs(i)
    }
    fn bad(&self, k: usize) -> Option<GRoute<'static>> {
        self.0.bad(k)
    }
}

// 13: an interner with room for 255 values
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GLimKeysSet)]
pub struct GLimKeys<'a> {
    bit: Bit,
    #[label(dynamic_with = ThreadedRodeo<MicroSpur>)]
    user: &'a str,
}
pub struct SLimKeys(Vec<&'static str>);
impl Shape for SLimKeys {
    type Set = GLimKeysSet;
    fn make(seed: u64, size: usize) -> (Self, GLimKeysSet) {
        (SLimKeys(strings(seed, size)), GLimKeysSet::new(ThreadedRodeo::new()))
    }
    fn n(&self) -> usize {
        self.0.len() * 2
    }
    fn group(&self, i: usize) -> GLimKeys<'static> {
        GLimKeys { bit: BITS[i / self.0.len()].0, user: self.0[i % self.0.len()] }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("bit", BITS[i / self.0.len()].1), p("user", self.0[i % self.0.len()])]
    }
    fn card(&self) -> Option<usize> {
        None
    }
    fn refusal_too_early(&self, tried: &[usize]) -> Option<String> {
        let n = tried.iter().map(|i| i % self.0.len()).collect::<std::collections::BTreeSet<_>>().len();
        (n < 200).then(|| format!("only {n} values were used and there is room for 255"))
    }
}

// 14: an interner that may use little memory, shared by two fields
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GLimMemSet)]
pub struct GLimMem<'a> {
    #[label(dynamic_with = Arc<ThreadedRodeo>)]
    user: &'a str,
    #[label(dynamic_with = Arc<ThreadedRodeo>)]
    host: &'a str,
}
pub struct SLimMem {
    v: Vec<&'static str>,
    limit: usize,
}
impl Shape for SLimMem {
    type Set = GLimMemSet;
    fn make(seed: u64, size: usize) -> (Self, GLimMemSet) {
        let limit = 64 << (seed >> 8 & 3);
        let mem = Arc::new(ThreadedRodeo::with_capacity_and_memory_limits(
            lasso::Capacity::new(64, std::num::NonZeroUsize::new(limit).unwrap()),
            lasso::MemoryLimits::new(limit),
        ));
        (SLimMem { v: strings(seed, size), limit }, GLimMemSet::new(mem.clone(), mem))
    }
    fn n(&self) -> usize {
        self.v.len() * 3
    }
    fn group(&self, i: usize) -> GLimMem<'static> {
        let (a, b) = (i % self.v.len(), i / self.v.len());
        GLimMem { user: self.v[a], host: self.v[(a + b) % self.v.len()] }
    }
    fn pairs(&self, i: usize) -> Pairs {
        let (a, b) = (i % self.v.len(), i / self.v.len());
        vec![p("user", self.v[a]), p("host", self.v[(a + b) % self.v.len()])]
    }
    fn card(&self) -> Option<usize> {
        None
    }
    fn refusal_too_early(&self, tried: &[usize]) -> Option<String> {
        let mut used = std::collections::BTreeSet::new();
        for i in tried {
            let g = self.group(*i);
            used.insert(g.user);
            used.insert(g.host);
        }
        let n: usize = used.iter().map(|s| s.len()).sum();
        (n <= self.limit / 4).then(|| format!("only {n} bytes of {} are used", self.limit))
    }
}

// ------------------------------------------------------------------ user-supplied code
/// Called from every piece of user-supplied code (hash, comparison, label set, label value): a
/// scheduling point, and the place where an armed panic goes off.
pub static mut BOMB: [i64; simrt::sched::MAXT] = [0; simrt::sched::MAXT];
static mut FIRED: [bool; simrt::sched::MAXT] = [false; simrt::sched::MAXT];
pub fn arm(n: i64) {
    let t = simrt::sched::tid();
    unsafe {
        BOMB[t] = n;
        FIRED[t] = false;
    }
    simrt::run::allow_injected(true);
}
pub fn disarm() -> bool {
    let t = simrt::sched::tid();
    simrt::run::allow_injected(false);
    unsafe {
        BOMB[t] = 0;
        FIRED[t]
    }
}
/// Raise the injected panic in the calling thread.
pub fn go_off(kind: &'static str) -> ! {
    simrt::sched::fault(kind);
    unsafe { FIRED[simrt::sched::tid()] = true };
    std::panic::panic_any(simrt::run::Injected)
}
pub fn user_call() {
    if !simrt::sched::in_sim() || simrt::sched::is_quiet() {
        return;
    }
    simrt::sched::point(simrt::sched::K_USER, 0);
    let b = unsafe { &mut BOMB[simrt::sched::tid()] };
    if *b > 0 {
        *b -= 1;
        if *b == 0 {
            go_off("user_panic");
        }
    }
}

/// 11: a label set written entirely by the user
#[derive(Clone, Copy, Debug)]
pub struct UKey(u32);
impl PartialEq for UKey {
    fn eq(&self, o: &UKey) -> bool {
        user_call();
        self.0 == o.0
    }
}
impl Eq for UKey {}
impl std::hash::Hash for UKey {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        user_call();
        // poor on purpose: several keys share a hash
        h.write_u32(self.0 / 3);
    }
}
#[derive(Clone, Copy)]
pub struct UGroup {
    i: usize,
    v: UText,
}
#[derive(Clone, Copy)]
pub struct UText(&'static str);
impl LabelValue for UText {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        user_call();
        let r = v.write_str(self.0);
        user_call();
        r
    }
}
impl measured::LabelGroup for UGroup {
    fn visit_values(&self, v: &mut impl measured::label::LabelGroupVisitor) {
        const A: &measured::label::LabelName = measured::label::LabelName::from_str("user_text");
        const B: &measured::label::LabelName = measured::label::LabelName::from_str("ix");
        user_call();
        v.write_value(A, &self.v);
        v.write_value(B, &UInt(self.i as i64));
    }
}
struct UInt(i64);
impl LabelValue for UInt {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        user_call();
        v.write_int(self.0)
    }
}
pub struct USet {
    v: Vec<&'static str>,
}
impl USet {
    fn known(&self, i: usize) {
        simrt::ensure!(i < self.v.len(), "unknown-id-decoded", "the label set was asked to decode id {i}, which it never handed out");
    }
}
impl LabelGroupSet for USet {
    type Group<'a> = UGroup;
    type Unique = UKey;
    fn cardinality(&self) -> Option<usize> {
        Some(self.v.len())
    }
    fn encode_dense(&self, k: UKey) -> Option<usize> {
        user_call();
        Some(k.0 as usize)
    }
    fn decode_dense(&self, i: usize) -> UGroup {
        user_call();
        self.known(i);
        UGroup { i, v: UText(self.v[i]) }
    }
    fn encode(&self, g: UGroup) -> Option<UKey> {
        user_call();
        (g.i < self.v.len()).then_some(UKey(g.i as u32))
    }
    fn decode(&self, k: &UKey) -> UGroup {
        user_call();
        self.known(k.0 as usize);
        UGroup { i: k.0 as usize, v: UText(self.v[k.0 as usize]) }
    }
}
pub struct SUser(Vec<&'static str>);
impl Shape for SUser {
    type Set = USet;
    fn make(seed: u64, size: usize) -> (Self, USet) {
        let v = strings(seed, size * 8);
        (SUser(v.clone()), USet { v })
    }
    fn n(&self) -> usize {
        self.0.len()
    }
    fn group(&self, i: usize) -> UGroup {
        UGroup { i, v: UText(self.0[i]) }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("user_text", self.0[i]), p("ix", i)]
    }
    fn bad(&self, k: usize) -> Option<UGroup> {
        Some(UGroup { i: self.0.len() + k, v: UText("") })
    }
}

/// 12: a derived group over user-written values and sets
#[derive(Clone, Copy, Debug)]
pub struct UVal(u32);
impl PartialEq for UVal {
    fn eq(&self, o: &UVal) -> bool {
        user_call();
        self.0 == o.0
    }
}
impl Eq for UVal {}
impl std::hash::Hash for UVal {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        user_call();
        h.write_u32(self.0 / 2);
    }
}
impl LabelValue for UVal {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        user_call();
        v.write_int(self.0 as i64)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct UFix(usize);
impl LabelValue for UFix {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        user_call();
        v.write_str(["red", "green", "blue"][self.0])
    }
}
impl measured::FixedCardinalityLabel for UFix {
    fn cardinality() -> usize {
        3
    }
    fn encode(&self) -> usize {
        user_call();
        self.0
    }
    fn decode(i: usize) -> UFix {
        user_call();
        UFix(i)
    }
}
#[derive(Default)]
pub struct UDyn(std::sync::Mutex<Vec<String>>);
impl measured::label::LabelSet for UDyn {
    type Value<'a> = UOwned;
    fn dynamic_cardinality(&self) -> Option<usize> {
        None
    }
    fn encode(&self, v: UOwned) -> Option<usize> {
        user_call();
        let mut g = self.0.lock().unwrap();
        if let Some(i) = g.iter().position(|x| x == v.0) {
            return Some(i);
        }
        g.push(v.0.to_string());
        Some(g.len() - 1)
    }
    fn decode(&self, i: usize) -> UOwned {
        user_call();
        let v = self.0.lock().unwrap();
        simrt::ensure!(i < v.len(), "unknown-id-decoded", "the label set was asked to decode id {i}, which it never handed out");
        let s = v[i].clone();
        drop(v);
        UOwned(Box::leak(s.into_boxed_str()))
    }
}
impl measured::label::DynamicLabelSet for UDyn {}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct UOwned(&'static str);
impl LabelValue for UOwned {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        user_call();
        v.write_str(self.0)
    }
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GUser2Set)]
pub struct GUser2 {
    #[label(fixed_with = IndexSet<UVal>)]
    val: UVal,
    fix: UFix,
    #[label(dynamic_with = UDyn, default)]
    dynamic: UOwned,
}
pub struct SUser2(Vec<&'static str>);
impl Shape for SUser2 {
    type Set = GUser2Set;
    fn make(seed: u64, size: usize) -> (Self, GUser2Set) {
        (SUser2(strings(seed, size)), GUser2Set::new((0..4).map(|i| UVal(i * 7)).collect()))
    }
    fn n(&self) -> usize {
        self.0.len() * 12
    }
    fn group(&self, i: usize) -> GUser2 {
        GUser2 { val: UVal((i as u32 % 4) * 7), fix: UFix(i / 4 % 3), dynamic: UOwned(self.0[i / 12]) }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("val", (i % 4) * 7), p("fix", ["red", "green", "blue"][i / 4 % 3]), p("dynamic", self.0[i / 12])]
    }
    fn bad(&self, k: usize) -> Option<GUser2> {
        Some(GUser2 { val: UVal(1 + 7 * (k as u32 % 9)), ..self.group(0) })
    }
    fn card(&self) -> Option<usize> {
        None
    }
}

// 15: every way variants can be named
mod cases {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "UpperCamelCase")]
    pub enum Upper {
        HttpRequest,
        #[allow(non_camel_case_types)]
        dead_letter,
    }
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "lowerCamelCase")]
    pub enum Lower {
        HttpRequest,
        Ok,
    }
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    pub enum Default_ {
        HttpRequest,
        #[label(rename = "HttpRequest")]
        Other,
        LastOneOfThree,
    }
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "SHOUTY_SNAKE_CASE")]
    pub enum Shouty {
        HttpRequest,
    }
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "SHOUTY-KEBAB-CASE")]
    pub enum ShoutyKebab {
        HttpRequest,
    }
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "Title Case")]
    pub enum Title {
        HttpRequest,
    }
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "Train-Case")]
    pub enum Train {
        HttpRequest,
    }
    /// numbers and names in one enum
    #[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
    #[label(rename_all = "kebab-case")]
    pub enum Mix {
        Zero = 0,
        NotFound = 404,
        AfterNotFound,
        #[label(rename = "teapot")]
        Teapot,
        Large = 9223372036854775807,
    }
    #[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
    #[label(set = GCasesSet)]
    pub struct GCases {
        pub upper: Upper,
        pub lower: Lower,
        #[label(rename = "Default_Value")]
        pub default: Default_,
        pub shouty: Shouty,
        pub shouty_kebab: ShoutyKebab,
        pub title: Title,
        pub train: Train,
        pub mix: Mix,
    }
}
use cases::*;
pub struct SCases;
impl Shape for SCases {
    type Set = GCasesSet;
    by_default!();
    fn make(_: u64, _: usize) -> (Self, GCasesSet) {
        (SCases, GCasesSet::new())
    }
    fn n(&self) -> usize {
        60
    }
    fn group(&self, i: usize) -> GCases {
        GCases {
            upper: [Upper::HttpRequest, Upper::dead_letter][i % 2],
            lower: [Lower::HttpRequest, Lower::Ok][i / 2 % 2],
            default: [Default_::HttpRequest, Default_::Other, Default_::LastOneOfThree][i / 4 % 3],
            shouty: Shouty::HttpRequest,
            shouty_kebab: ShoutyKebab::HttpRequest,
            title: Title::HttpRequest,
            train: Train::HttpRequest,
            mix: [Mix::Zero, Mix::NotFound, Mix::AfterNotFound, Mix::Teapot, Mix::Large][i / 12],
        }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![
            p("upper", ["HttpRequest", "DeadLetter"][i % 2]),
            p("lower", ["httpRequest", "ok"][i / 2 % 2]),
            p("Default_Value", ["http_request", "HttpRequest", "last_one_of_three"][i / 4 % 3]),
            p("shouty", "HTTP_REQUEST"),
            p("shouty_kebab", "HTTP-REQUEST"),
            p("title", "Http Request"),
            p("train", "Http-Request"),
            p("mix", ["0", "404", "after-not-found", "teapot", "9223372036854775807"][i / 12]),
        ]
    }
}

// 16: a fixed set about as large as the largest that is stored densely
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct BigKey(i64);
impl LabelValue for BigKey {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0)
    }
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GBigSet)]
pub struct GBig {
    #[label(fixed_with = IndexSet<BigKey, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>)]
    key: BigKey,
}
pub struct SBig(usize);
impl Shape for SBig {
    type Set = GBigSet;
    fn make(_: u64, size: usize) -> (Self, GBigSet) {
        (SBig(size), GBigSet::new((0..size as i64).map(|i| BigKey(3 * i - 7)).collect()))
    }
    fn n(&self) -> usize {
        self.0
    }
    fn group(&self, i: usize) -> GBig {
        GBig { key: BigKey(3 * i as i64 - 7) }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("key", 3 * i as i64 - 7)]
    }
    fn bad(&self, k: usize) -> Option<GBig> {
        Some(GBig { key: BigKey([3 * self.0 as i64 - 7, -10, 1, 0, i64::MAX][k % 5]) })
    }
}

// 17, 18, 19: sets so large that the number of combinations is near or beyond what a usize holds
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Num(usize);
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0 as i64)
    }
}
/// all numbers below a bound
pub struct Below(usize);
impl measured::label::LabelSet for Below {
    type Value<'a> = Num;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.0)
    }
    fn encode(&self, v: Num) -> Option<usize> {
        (v.0 < self.0).then_some(v.0)
    }
    fn decode(&self, i: usize) -> Num {
        simrt::ensure!(i < self.0, "unknown-id-decoded", "the label set was asked to decode id {i}, which it never handed out");
        Num(i)
    }
}
impl measured::label::FixedCardinalitySet for Below {
    fn cardinality(&self) -> usize {
        self.0
    }
}
/// a few values of such a set, the extremes among them
fn some_below(seed: u64, card: usize) -> Vec<usize> {
    let mut v = vec![card - 1, 0, card / 2, (mix(seed) as usize) % card, 1 % card];
    let mut out = vec![];
    for x in v.drain(..) {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
/// radices whose combinations all have an index that fits in a usize
fn radices(seed: u64) -> (usize, usize) {
    [
        (1 << 32, 1 << 32),
        (1 << 31, 1 << 32),
        (1 << 16, 1 << 48),
        (1 << 62, 4),
        (2, 1 << 62),
        (32, 32),
        (32, 33),
        (1, 1025),
        (1024, 1),
        (3, 1 << 40),
        (1, 1),
    ][(seed >> 5) as usize % 11]
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GPairSet)]
pub struct GPair {
    #[label(fixed_with = Below)]
    src: Num,
    #[label(fixed_with = Below)]
    dst: Num,
}
pub struct SPair {
    r: (usize, usize),
    a: Vec<usize>,
    b: Vec<usize>,
}
impl SPair {
    fn new(seed: u64, r: (usize, usize)) -> SPair {
        if r.0.checked_mul(r.1).is_some_and(|n| n < 2000) {
            return SPair { r, a: (0..r.0).collect(), b: (0..r.1).collect() };
        }
        SPair { r, a: some_below(seed, r.0), b: some_below(!seed, r.1) }
    }
    fn ab(&self, i: usize) -> (usize, usize) {
        (self.a[i % self.a.len()], self.b[i / self.a.len()])
    }
}
impl Shape for SPair {
    type Set = GPairSet;
    fn make(seed: u64, _: usize) -> (Self, GPairSet) {
        let r = radices(seed);
        (SPair::new(seed, r), GPairSet::new(Below(r.0), Below(r.1)))
    }
    fn n(&self) -> usize {
        self.a.len() * self.b.len()
    }
    fn group(&self, i: usize) -> GPair {
        let (a, b) = self.ab(i);
        GPair { src: Num(a), dst: Num(b) }
    }
    fn pairs(&self, i: usize) -> Pairs {
        let (a, b) = self.ab(i);
        vec![p("src", a), p("dst", b)]
    }
    fn bad(&self, k: usize) -> Option<GPair> {
        Some(match k % 3 {
            0 => GPair { src: Num(self.r.0), dst: Num(0) },
            1 => GPair { src: Num(0), dst: Num(self.r.1) },
            _ => GPair { src: Num(self.r.0 + k), dst: Num(self.r.1 + k) },
        })
    }
    fn card(&self) -> Option<usize> {
        self.r.0.checked_mul(self.r.1)
    }
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GPortSet)]
pub struct GPort {
    #[label(fixed_with = Below)]
    port: Num,
}
pub struct SPairs(SPair, usize);
impl SPairs {
    fn port(&self, i: usize) -> usize {
        let k = i / self.0.n();
        if self.1 <= 3 || k == 0 {
            k
        } else {
            self.1 - 1
        }
    }
}
impl Shape for SPairs {
    type Set = ComposedGroup<GPairSet, GPortSet>;
    fn make(seed: u64, _: usize) -> (Self, Self::Set) {
        let r = radices(seed);
        let c = [1, 2, 3, 1 << 16, 1 << 62][(seed >> 12) as usize % 5];
        (SPairs(SPair::new(seed, r), c), ComposedGroup(GPairSet::new(Below(r.0), Below(r.1)), GPortSet::new(Below(c))))
    }
    fn n(&self) -> usize {
        self.0.n() * if self.1 <= 3 { self.1 } else { 2 }
    }
    fn group(&self, i: usize) -> Group<Self> {
        let n = self.0.n();
        ComposedGroup(self.0.group(i % n), GPort { port: Num(self.port(i)) })
    }
    fn pairs(&self, i: usize) -> Pairs {
        let n = self.0.n();
        let mut v = self.0.pairs(i % n);
        v.push(p("port", self.port(i)));
        v
    }
    fn bad(&self, k: usize) -> Option<Group<Self>> {
        Some(match k % 2 {
            0 => ComposedGroup(self.0.group(0), GPort { port: Num(self.1 + k) }),
            _ => ComposedGroup(self.0.bad(k / 2)?, GPort { port: Num(0) }),
        })
    }
    fn card(&self) -> Option<usize> {
        self.0.card()?.checked_mul(self.1)
    }
}
/// 19: combinations that have no index may be refused, but never stand for one another
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GFlowSet)]
pub struct GFlow {
    kind: Kind,
    #[label(fixed_with = Below)]
    src: Num,
    #[label(fixed_with = Below)]
    dst: Num,
}
pub struct SFlow(SPair);
impl Shape for SFlow {
    type Set = GFlowSet;
    fn make(seed: u64, _: usize) -> (Self, GFlowSet) {
        let r = [(1 << 32, 1 << 32), (1 << 33, 1 << 33), (1 << 62, 4), (1 << 62, 1 << 62), (3 << 30, 1 << 32)][(seed >> 5) as usize % 5];
        (SFlow(SPair::new(seed, r)), GFlowSet::new(Below(r.0), Below(r.1)))
    }
    fn n(&self) -> usize {
        self.0.n() * 5
    }
    fn group(&self, i: usize) -> GFlow {
        let (a, b) = self.0.ab(i / 5);
        GFlow { kind: KINDS[i % 5].0, src: Num(a), dst: Num(b) }
    }
    fn pairs(&self, i: usize) -> Pairs {
        let mut v = vec![p("kind", KINDS[i % 5].1)];
        v.extend(self.0.pairs(i / 5));
        v
    }
    fn card(&self) -> Option<usize> {
        None
    }
    fn refusal_too_early(&self, _: &[usize]) -> Option<String> {
        None
    }
}

// 20: a label with more values than a byte can number, next to owned strings
#[derive(Clone, PartialEq, Debug, LabelGroup)]
#[label(set = GWideSet)]
pub struct GWide {
    wide: Wide,
    #[label(fixed_with = IndexSet<String>, rename = "who")]
    name: String,
}
pub struct SWide {
    v: Vec<&'static str>,
    seed: u64,
}
/// the values that differ by 256 come first, next to each other
fn wid(i: usize) -> usize {
    let over = wide::N - 256;
    match i {
        i if i >= 2 * over => i - over,
        i if i % 2 == 0 => i / 2,
        i => 256 + i / 2,
    }
}
impl Shape for SWide {
    type Set = GWideSet;
    fn make(seed: u64, size: usize) -> (Self, GWideSet) {
        let v = strings(seed, size);
        let set = v.iter().map(|s| s.to_string()).collect();
        (SWide { v, seed }, GWideSet::new(set))
    }
    fn n(&self) -> usize {
        wide::N * self.v.len()
    }
    fn group(&self, i: usize) -> GWide {
        GWide { wide: wide::WIDE[wid(i / self.v.len())], name: self.v[i % self.v.len()].to_string() }
    }
    fn pairs(&self, i: usize) -> Pairs {
        vec![p("wide", wide::text(wid(i / self.v.len()))), p("who", self.v[i % self.v.len()])]
    }
    fn bad(&self, k: usize) -> Option<GWide> {
        Some(GWide { wide: wide::WIDE[k % wide::N], name: absent(self.seed, &self.v, k).to_string() })
    }
}

/// Labels are equal if they read the same; only labels that were given as floats may be spelled differently.
pub fn label_eq(want: &str, got: &str) -> bool {
    match want.strip_prefix(FLOAT) {
        Some(want) => want == got || got.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) && want.parse().map(f64::to_bits) == got.parse().map(f64::to_bits),
        None => want == got,
    }
}
/// marks a label that is written as a float
const FLOAT: char = '\u{f8ff}';
