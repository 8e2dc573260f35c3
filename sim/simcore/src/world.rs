//! Executing plans against real metric families and checking the recorded history.
use crate::fam::*;
use crate::group::GroupInst;
use crate::text;
use crate::writer::SimWriter;
use measured::text::{BufferedTextEncoder, TextEncoder};
use simrt::lin::{linearizable, LOp};
use simrt::run::sut;
use simrt::{ensure, sched, violate, Op, Plan};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum What {
    Touch,
    Apply(Upd),
    /// did not happen
    Void,
    /// what a scrape reported
    Read(Option<Val>),
    Remove(Option<Val>),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub fam: usize,
    pub s: usize,
    pub inv: u64,
    pub ret: u64,
    pub what: What,
    /// index of the Touch this Apply belongs to
    pub dep: Option<usize>,
}
pub struct CardRec {
    fam: usize,
    inv: u64,
    ret: u64,
    got: usize,
}

/// What a scrape must show, in order.
pub enum Entry {
    Fam(usize),
    /// an absent optional metric: at most its help line may appear
    Absent(String),
}
pub struct GroupDef {
    pub inst: &'static dyn GroupInst,
    pub order: Vec<Entry>,
    /// can be collected by the protobuf encoder
    pub proto: bool,
}

/// One of the encoders.
pub enum Enc {
    B(BufferedTextEncoder),
    W(TextEncoder<SimWriter>),
    P(Proto),
}
impl Enc {
    pub fn new(kind: i64) -> Enc {
        match kind {
            0 => Enc::B(BufferedTextEncoder::new()),
            1 => Enc::W(TextEncoder::new(SimWriter::default())),
            _ => Enc::P(Proto::new(SimWriter::default())),
        }
    }
    pub fn writer(&mut self) -> Option<&mut SimWriter> {
        match self {
            Enc::B(_) => None,
            Enc::W(e) => Some(&mut e.writer),
            Enc::P(e) => Some(&mut e.writer),
        }
    }
    pub fn fam(&mut self, f: &dyn Fam) -> std::io::Result<()> {
        match self {
            Enc::B(e) => f.collect_b(e).map_err(|x| match x {}),
            Enc::W(e) => f.collect_w(e),
            Enc::P(e) => f.collect_p(e),
        }
    }
    pub fn group(&mut self, g: &dyn GroupInst) -> std::io::Result<()> {
        match self {
            Enc::B(e) => g.collect_b(e).map_err(|x| match x {}),
            Enc::W(e) => g.collect_w(e),
            Enc::P(e) => g.collect_p(e),
        }
    }
    pub fn flush(&mut self) -> std::io::Result<()> {
        match self {
            Enc::B(_) => Ok(()),
            Enc::W(e) => e.flush(),
            Enc::P(e) => e.flush(),
        }
    }
    /// Take everything written so far.
    pub fn take(&mut self) -> Vec<u8> {
        match self {
            Enc::B(e) => e.finish().to_vec(),
            Enc::W(e) => std::mem::take(&mut e.writer.out),
            Enc::P(e) => std::mem::take(&mut e.writer.out),
        }
    }
    pub fn is_proto(&self) -> bool {
        matches!(self, Enc::P(_))
    }
}
/// Scrape mode to encoder kind: 0,1 buffered text, 2,3 text writer, 10,11 protobuf; odd: cached.
pub fn enc_kind(mode: i64) -> i64 {
    match mode {
        0 | 1 => 0,
        2 | 3 => 1,
        _ => 2,
    }
}

pub struct World {
    pub fams: Vec<&'static dyn Fam>,
    pub group: Option<GroupDef>,
    pub hist: Vec<Rec>,
    cards: Vec<CardRec>,
    /// value of every live series at the last quiescent point
    pub now: Vec<BTreeMap<usize, Val>>,
    /// cached encoders of each kind, per thread
    pub cached: Vec<[Option<Enc>; 3]>,
    pub proto: bool,
    /// check cardinality queries at quiescence
    pub card: bool,
    /// families that gain and lose no series in this phase
    pub stable: Vec<bool>,
    /// per thread: the current operation must not wait for a stalled scrape
    pub must: [Option<String>; sched::MAXT],
    /// per thread: the records of the current operation
    pub cur: [(usize, usize); sched::MAXT],
    pub timers: Vec<Option<crate::timers::Slot>>,
    /// families whose recorded durations could not be predicted
    pub skip: Vec<bool>,
    pub ids: crate::bulk::Ids,
}

pub static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

pub fn setup(fams: Vec<&'static dyn Fam>, group: Option<GroupDef>) {
    let now = fams
        .iter()
        .map(|f| match f.info().layout {
            Layout::Plain => (0..f.info().n).map(|s| (s, f.info().zero())).collect(),
            _ => BTreeMap::new(),
        })
        .collect();
    let proto = match &group {
        Some(g) => g.proto,
        None => fams.iter().all(|f| f.info().k != K::Hist),
    };
    let nf = fams.len();
    unsafe {
        WORLD = Some(World {
            fams,
            group,
            hist: Vec::with_capacity(1024),
            cards: vec![],
            now,
            cached: (0..sched::MAXT).map(|_| [None, None, None]).collect(),
            proto,
            card: true,
            stable: vec![false; nf],
            must: [const { None }; sched::MAXT],
            cur: [(0, 0); sched::MAXT],
            timers: (0..32).map(|_| None).collect(),
            skip: vec![false; nf],
            ids: Default::default(),
        })
    };
}

const HELPS: [Option<&str>; 8] = [
    None,
    Some("plain help text"),
    Some(""),
    Some("back\\slash and\nline feed"),
    Some("quote \" and {braces} # HELP x y"),
    Some("  \u{1F600} trailing "),
    Some("\\n\n\\"),
    Some("# TYPE x counter\nx 1"),
];
pub fn help_of(i: usize) -> Option<&'static str> {
    match i % 12 {
        8 => Some(Box::leak("h".repeat(120 + i / 12 % 16).into_boxed_str())),
        9 => Some(Box::leak("h".repeat(16375 + i / 12 % 16).into_boxed_str())),
        k => HELPS[k % HELPS.len()],
    }
}
pub const NAMESPACES: [&[&str]; 3] = [&[], &["ns"], &["outer_ns"]];

pub fn families(p: &Plan) -> Vec<&'static dyn Fam> {
    let n = p.get("nfam").max(1);
    (0..n)
        .map(|i| {
            let g = |k: &str| p.get(&format!("f{i}.{k}"));
            build(&FamCfg {
                name: format!("fam_{i}{}", if i % 2 == 1 { ":x" } else { "" }),
                help: help_of(g("help") as usize),
                ns: NAMESPACES[g("ns") as usize % NAMESPACES.len()],
                kind: g("kind"),
                shape: g("shape"),
                layout: g("layout"),
                seed: g("seed") as u64,
                size: g("size").max(1) as usize,
            })
        })
        .collect()
}

/// Families, or the group, a plan asks for.
pub fn build_world(p: &Plan) {
    if p.get("group") > 0 {
        let (f, g) = crate::group::build_group(p.get("group"), p.get("gseed") as u64, p.get("gsize").max(1) as usize, p.get("absent"));
        setup(f, Some(g));
    } else {
        setup(families(p), None);
    }
    w().card = p.get("nocard") == 0;
}

pub fn rec(r: Rec) -> usize {
    let h = &mut w().hist;
    h.push(r);
    h.len() - 1
}
fn fam(o: &Op) -> (usize, &'static dyn Fam) {
    let w = w();
    let f = o.arg(0).unsigned_abs() as usize % w.fams.len();
    (f, w.fams[f])
}
/// Log the start of an operation: it is pending until `done`.
pub fn begin(fam: usize, s: usize, whats: &[What]) -> (usize, usize) {
    let inv = sched::op_begin();
    sched::quiet(|| {
        let h0 = w().hist.len();
        let mut touch = None;
        for x in whats {
            let i = rec(Rec { fam, s, inv, ret: u64::MAX, what: x.clone(), dep: touch });
            touch = Some(i);
        }
        let span = (h0, w().hist.len());
        w().cur[sched::tid()] = span;
        span
    })
}
pub fn done((a, b): (usize, usize)) {
    let r = sched::op_end();
    sched::quiet(|| {
        for x in &mut w().hist[a..b] {
            x.ret = r;
        }
    })
}

pub type Seen = Vec<(usize, u64, u64, Vec<(usize, Val)>)>;

/// Drive one scrape. `spans` gets the interval of each family of `list` that was started.
pub fn drive(e: &mut Enc, list: &[usize], spans: &mut Vec<(u64, u64)>) -> std::io::Result<()> {
    let w = w();
    if let (Some(g), None) = (&w.group, list.first()) {
        let a = sched::next_seq();
        let r = sut("scrape", || e.group(g.inst));
        spans.push((a, sched::next_seq()));
        return r;
    }
    for i in list {
        let a = sched::next_seq();
        let r = sut("scrape", || e.fam(w.fams[*i]));
        spans.push((a, sched::next_seq()));
        r?;
    }
    Ok(())
}
/// The families to scrape: an empty list stands for the group.
pub fn selection(only: Option<usize>) -> Vec<usize> {
    if w().group.is_some() {
        return vec![];
    }
    match only {
        Some(i) => vec![i],
        None => (0..w().fams.len()).collect(),
    }
}
/// The encoder this thread uses for a mode: the one of its last scrape, or a new one.
pub fn encoder(mode: i64) -> &'static mut Enc {
    let k = enc_kind(mode);
    let slot = &mut w().cached[sched::tid()][k as usize];
    if slot.is_none() || mode & 1 == 0 {
        *slot = Some(Enc::new(k));
    }
    let e = slot.as_mut().unwrap();
    if let Some(x) = e.writer() {
        let out = std::mem::take(&mut x.out);
        if !out.is_empty() {
            simrt::run::harness_error("a cached encoder was left with output");
        }
        *x = SimWriter::default();
    }
    e
}

/// One scrape of all families (or of one). Returns what was seen, with the interval per family.
pub fn take_scrape(mode: i64, yield_every: u64, only: Option<usize>) -> Seen {
    let mode = if mode >= 10 && !w().proto { mode - 10 } else { mode };
    let list = selection(only);
    let e = encoder(mode);
    if let Some(x) = e.writer() {
        x.yield_every = yield_every;
    }
    let mut spans = vec![];
    if let Err(x) = drive(e, &list, &mut spans) {
        violate!("scrape-failed", "a scrape into a healthy writer failed: {x}");
    }
    if let Err(x) = sut("flush", || e.flush()) {
        violate!("scrape-failed", "flushing into a healthy writer failed: {x}");
    }
    if let Some(x) = e.writer() {
        all_flushed(x);
    }
    let bytes = sut("finish", || e.take());
    let proto = e.is_proto();
    sched::quiet(|| interpret(&bytes, proto, &list, &spans))
}

/// The encoder was flushed: so must be what it wrote to.
pub fn all_flushed(x: &SimWriter) {
    ensure!(x.unflushed == 0, "not-flushed", "the encoder was flushed successfully, but {} bytes of its output were never flushed to the writer", x.unflushed);
}

/// Check a complete scrape for syntax and structure and return the values it shows.
pub fn interpret(bytes: &[u8], proto: bool, list: &[usize], spans: &[(u64, u64)]) -> Seen {
    let w = w();
    let order: Vec<&Entry>;
    let plain: Vec<Entry>;
    let span = |k: usize| if list.is_empty() { spans[0] } else { spans[k] };
    match &w.group {
        Some(g) => order = g.order.iter().collect(),
        None => {
            plain = list.iter().map(|i| Entry::Fam(*i)).collect();
            order = plain.iter().collect();
        }
    }
    let mut out: Seen = vec![];
    if proto {
        let dec = match crate::proto::decode(bytes) {
            Ok(d) => d,
            Err(m) => violate!("proto-syntax", "{m}\n{}", show_hex(bytes)),
        };
        let mut at = 0;
        for (k, en) in order.iter().enumerate() {
            let Entry::Fam(i) = en else { continue };
            let info = w.fams[*i].info();
            let full = info.full_name();
            if at < dec.len() && dec[at].name.as_deref() == Some(full.as_str()) {
                match crate::proto::read_family(info, &dec[at]) {
                    Ok(v) if v.is_empty() => violate!("proto-families", "family {full} has no series but a message of its own\n{}", show_hex(bytes)),
                    Ok(v) => out.push((*i, span(k).0, span(k).1, v)),
                    Err(m) => violate!(classify(&m), "{m}\n{}", show_hex(bytes)),
                }
                at += 1;
            } else {
                // a family without series is left out
                out.push((*i, span(k).0, span(k).1, vec![]));
            }
        }
        if at < dec.len() {
            violate!("proto-families", "message {at} of {} (family {:?}) is not the next family of the group\n{}", dec.len(), dec[at].name, show_hex(bytes));
        }
        return out;
    }
    let parsed = match text::parse(bytes) {
        Ok(p) => p,
        Err(m) => violate!("text-syntax", "{m}\n{}", show_bytes(bytes)),
    };
    let mut at = 0;
    for (k, en) in order.iter().enumerate() {
        match en {
            Entry::Absent(name) => {
                if at < parsed.len() && parsed[at].name == *name {
                    if !parsed[at].samples.is_empty() {
                        violate!("text-content", "absent metric {name} has samples\n{}", show_bytes(bytes));
                    }
                    at += 1;
                }
            }
            Entry::Fam(i) => {
                if at >= parsed.len() {
                    violate!("text-families", "family {} is missing\n{}", w.fams[*i].info().full_name(), show_bytes(bytes));
                }
                match read_family(w.fams[*i].info(), &parsed[at]) {
                    Ok(v) => out.push((*i, span(k).0, span(k).1, v)),
                    Err(m) => violate!(classify(&m), "{m}\n{}", show_bytes(bytes)),
                }
                at += 1;
            }
        }
    }
    if at < parsed.len() {
        violate!("text-families", "family {} appears after the last family\n{}", parsed[at].name, show_bytes(bytes));
    }
    out
}
pub fn show_hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn classify(m: &str) -> &'static str {
    if m.contains("nobody ever") {
        "unknown-series"
    } else if m.contains("twice") {
        "series-twice"
    } else if m.contains("+Inf bucket is") {
        "torn-histogram"
    } else {
        "text-content"
    }
}
pub fn show_bytes(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 3000 {
        let mut k = 3000;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s.into_owned()
    }
}
pub fn record_scrape(seen: &Seen) {
    sched::quiet(|| record_scrape_(seen))
}
fn record_scrape_(seen: &Seen) {
    for (f, a, b, v) in seen {
        // one Read per live series; absent series are added when the phase is checked
        for (s, val) in v {
            rec(Rec { fam: *f, s: *s, inv: *a, ret: *b, what: What::Read(Some(val.clone())), dep: None });
        }
        let present: BTreeSet<usize> = v.iter().map(|x| x.0).collect();
        ABSENT.with(|x| x.push((*f, *a, *b, present)));
    }
}
struct Absent(std::cell::UnsafeCell<Vec<(usize, u64, u64, BTreeSet<usize>)>>);
unsafe impl Sync for Absent {}
impl Absent {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<(usize, u64, u64, BTreeSet<usize>)>) -> R) -> R {
        unsafe { f(&mut *self.0.get()) }
    }
}
static ABSENT: Absent = Absent(std::cell::UnsafeCell::new(Vec::new()));

/// Execute one operation of a plan.
pub fn exec(o: &Op) {
    if o.k == "bomb" {
        // a panic goes off in the next operation's n-th call of user code
        crate::shapes::arm(o.arg(0));
        return;
    }
    if !simrt::run::allowed() {
        return exec_op(o);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec_op(o)));
    let fired = crate::shapes::disarm();
    if let Err(e) = r {
        if e.downcast_ref::<simrt::run::Injected>().is_none() {
            simrt::run::unexpected_panic("operation");
        }
        ensure!(fired, "panic", "an injected panic surfaced twice");
        sched::probe("operation_panicked");
        aftermath(o);
    } else if fired {
        // (a label set may be consulted in a place whose panic the library may contain)
        violate!("panic-swallowed", "a panic of user code did not reach the caller of {}", o.k);
    }
    w().must[sched::tid()] = None;
}
/// An operation ended by a panic of user code.
fn aftermath(o: &Op) {
    let me = sched::tid();
    if matches!(o.k.as_str(), "scrape" | "wf") {
        // text encoders may be kept once their output was taken
        let keep = o.arg(1) & 1 == 0;
        for k in 0..3 {
            let slot = &mut w().cached[me][k];
            match slot {
                Some(e @ Enc::P(_)) if keep => {
                    // what it holds back goes out: whole families only
                    let healthy = o.k == "scrape";
                    if healthy {
                        if let Err(x) = sut("flush", || e.flush()) {
                            violate!("scrape-failed", "flushing into a healthy writer failed after a panic: {x}");
                        }
                    }
                    let out = sut("taking the output", || e.take());
                    if healthy {
                        sched::quiet(|| {
                            if let Err(m) = crate::proto::decode(&out) {
                                violate!("proto-syntax", "after a scrape that panicked was flushed: {m}\n{}", show_hex(&out));
                            }
                        });
                    } else {
                        *slot = None;
                    }
                }
                Some(Enc::P(_)) => *slot = None,
                Some(e) if keep => drop(sut("finish", || e.take())),
                _ => *slot = None,
            }
        }
    }
    sched::next_seq();
}
/// Mark the current operation: it may not wait for a stalled scrape.
fn must(o: &Op, f: usize, s: usize) {
    let w = w();
    let i = w.fams[f].info();
    let ok = match i.layout {
        Layout::Plain | Layout::Dense => !i.untyped,
        Layout::Sparse => w.stable[f] && w.now[f].contains_key(&s),
    };
    if ok {
        sched::quiet(|| w.must[sched::tid()] = Some(format!("{} of family {} series {:?}", o.k, i.name, i.pairs[s])));
    }
}
fn exec_op(o: &Op) {
    match o.k.as_str() {
        "bulk" => return crate::bulk::exec_bulk(o),
        "soak" => return crate::bulk::exec_soak(o),
        "renew" => {
            // (alone in its phase)
            let (f, fam) = fam(o);
            sched::op_begin();
            if fam.renew() {
                sched::quiet(|| {
                    w().now[f].clear();
                    w().ids.forget(f);
                    sched::probe("family_renewed");
                });
            }
            sched::op_end();
        }
        "dup" => return crate::bulk::exec_dup(o),
        "wf" => return crate::faults::exec_wf(o),
        "abandon" => return crate::faults::exec_abandon(o),
        "tstart" | "tend" | "adv" | "rtjump" | "since" => return crate::timers::exec_timer(o),
        "up" | "mut" => {
            let (f, fam) = fam(o);
            let s = o.arg(1).unsigned_abs() as usize % fam.info().n;
            let u = Upd { code: o.arg(3) as u8, v: o.arg(4) };
            let t = begin(f, s, &[What::Touch, What::Apply(u)]);
            if o.k == "up" {
                must(o, f, s);
                fam.update(s, o.arg(2) as u8, u);
                w().must[sched::tid()] = None;
            } else {
                fam.update_mut(s, o.arg(2) as u8, u);
            }
            done(t);
        }
        "hold" => {
            let (f, fam) = fam(o);
            let s = o.arg(1).unsigned_abs() as usize % fam.info().n;
            let mut us: Vec<Upd> = o.a[2..].chunks(2).filter(|c| c.len() == 2).map(|c| Upd { code: c[0] as u8, v: c[1] }).collect();
            if fam.info().k != K::Counter {
                us.truncate(1);
            }
            let mut ws = vec![What::Touch];
            ws.extend(us.iter().map(|u| What::Apply(*u)));
            let t = begin(f, s, &ws);
            must(o, f, s);
            fam.hold(s, &us, &mut pause_point);
            w().must[sched::tid()] = None;
            done(t);
        }
        "touch" | "mtouch" => {
            let (f, fam) = fam(o);
            let s = o.arg(1).unsigned_abs() as usize % fam.info().n;
            let t = begin(f, s, &[What::Touch]);
            if o.k == "touch" {
                fam.touch(s, o.arg(2) as u8);
            } else {
                fam.touch_mut(s);
            }
            done(t);
        }
        "init" => {
            let (f, fam) = fam(o);
            if fam.info().layout == Layout::Dense {
                let inv = sched::op_begin();
                let span = sched::quiet(|| {
                    let h0 = w().hist.len();
                    for s in 0..fam.info().n {
                        rec(Rec { fam: f, s, inv, ret: u64::MAX, what: What::Touch, dep: None });
                    }
                    (h0, w().hist.len())
                });
                fam.init_all();
                done(span);
            } else {
                fam.init_all();
            }
        }
        "look" => {
            let (_, fam) = fam(o);
            let s = o.arg(1).unsigned_abs() as usize % fam.info().n;
            sched::op_begin();
            ensure!(fam.lookup(s), "valid-label-refused", "labels {:?} of family {} were refused", fam.info().pairs[s], fam.info().name);
            sched::op_end();
        }
        "bad" => {
            let (_, fam) = fam(o);
            sched::op_begin();
            if let Some(true) = fam.lookup_bad(o.arg(1).unsigned_abs() as usize) {
                violate!("label-outside-set-accepted", "family {} handed out an id for labels outside its label set (variant {})", fam.info().name, o.arg(1));
            }
            sched::op_end();
        }
        "rm" => {
            let (f, fam) = fam(o);
            let s = o.arg(1).unsigned_abs() as usize % fam.info().n;
            let t = begin(f, s, &[What::Remove(None)]);
            let v = fam.remove(s, o.arg(2) as u8);
            if fam.info().layout != Layout::Sparse {
                ensure!(v.is_none(), "dense-remove", "removal on the dense family {} returned a state", fam.info().name);
            } else if v.is_some() {
                sched::probe("series_removed");
            }
            sched::quiet(|| w().hist[t.0].what = What::Remove(v));
            done(t);
        }
        "card" => {
            let (f, fam) = fam(o);
            let inv = sched::op_begin();
            let (lo, hi) = fam.card();
            let ret = sched::op_end();
            check_upper(f, hi);
            sched::quiet(|| w().cards.push(CardRec { fam: f, inv, ret, got: lo }));
        }
        "scrape" => {
            sched::op_begin();
            let only = (o.arg(2) > 0).then(|| (o.arg(2) - 1) as usize % w().fams.len());
            let s = take_scrape(o.arg(0), o.arg(1) as u64, only);
            record_scrape(&s);
            sched::op_end();
        }
        _ => simrt::run::harness_error(&format!("unknown operation {}", o.k)),
    }
}
fn check_upper(f: usize, hi: Option<usize>) {
    let i = w().fams[f].info();
    ensure!(hi == i.card, "cardinality-upper", "family {}: upper bound {:?}, the label set has {:?}", i.name, hi, i.card);
}

type St = Option<Val>;
fn step(i: &Info, st: &St, op: &What) -> Option<St> {
    match op {
        What::Void => Some(st.clone()),
        What::Touch => Some(Some(st.clone().unwrap_or_else(|| i.zero()))),
        What::Apply(u) => st.as_ref().map(|v| Some(apply(i.k, &i.le, v, *u))),
        What::Read(Some(Val::P(x))) => (st.as_ref().and_then(as_double) == Some(*x)).then(|| st.clone()),
        What::Read(x) => (x == st).then(|| st.clone()),
        What::Remove(x) => {
            if i.layout != Layout::Sparse {
                return x.is_none().then(|| st.clone());
            }
            (x == st).then_some(None)
        }
    }
}

pub fn describe(i: &Info, s: usize, init: &St, ops: &[(u64, u64, What)]) -> String {
    use std::fmt::Write;
    let mut m = format!("family {} series {:?} starts as {}\n", i.name, i.pairs[s], init.as_ref().map_or("absent".into(), show));
    let mut v: Vec<_> = ops.iter().collect();
    v.sort_by_key(|x| x.0);
    for (a, b, x) in v {
        let t = match x {
            What::Void => continue,
            What::Touch => "touch".to_string(),
            What::Apply(u) => match i.k {
                K::Hist => format!("observe {:?}", hist_value(*u)),
                K::Float => format!("op{} {:?}", u.code, f64::from_bits(u.v as u64)),
                K::Counter => format!("add {}", if u.code == 0 { 1 } else { u.v as u64 }),
                K::Gauge => format!("op{} {}", u.code, u.v),
            },
            What::Read(v) => format!("scrape saw {}", v.as_ref().map_or("nothing".into(), show)),
            What::Remove(v) => format!("remove returned {}", v.as_ref().map_or("nothing".into(), show)),
        };
        let _ = writeln!(m, "  [{a}..{}] {t}", if *b == u64::MAX { "never".to_string() } else { b.to_string() });
    }
    m
}

/// Quiescent point: everything has returned (except operations recorded as never returned). Takes
/// a final scrape, checks the whole phase and makes the values seen the new starting point.
pub fn settle(mode: i64) {
    if w().proto && mode >= 10 {
        let seen = take_scrape(mode, 0, None);
        record_scrape(&seen);
    }
    let seen = take_scrape(mode % 10, 0, None);
    sched::quiet(|| {
        let w = w();
        // cardinality agrees with the scrape at quiescence
        for (f, _, _, v) in seen.iter().filter(|_| w.card) {
            let (lo, hi) = w.fams[*f].card();
            check_upper(*f, hi);
            let name = &w.fams[*f].info().name;
            ensure!(lo == v.len(), "cardinality-exact", "family {name}: cardinality {lo} while a scrape reports {} series and nothing is running", v.len());
        }
        record_scrape(&seen);
        check_phase();
        for (f, _, _, v) in seen {
            w.now[f] = v.into_iter().collect();
        }
        w.hist.clear();
        w.cards.clear();
        ABSENT.with(|a| a.clear());
    })
}

fn check_phase() {
    let w = w();
    for f in (0..w.fams.len()).filter(|f| !w.skip[*f]) {
        let i = w.fams[f].info();
        let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for s in w.now[f].keys() {
            by.entry(*s).or_default();
        }
        for (k, r) in w.hist.iter().enumerate() {
            if r.fam == f {
                by.entry(r.s).or_default().push(k);
            }
        }
        for (s, ix) in &by {
            let init: St = w.now[f].get(s).cloned();
            let mut ops: Vec<(u64, u64, What, Option<usize>)> = vec![];
            let mut map: BTreeMap<usize, usize> = BTreeMap::new();
            let mut nupd = 0;
            for k in ix {
                let r = &w.hist[*k];
                let dep = r.dep.and_then(|d| map.get(&d).copied());
                if matches!(r.what, What::Void) {
                    continue;
                }
                if matches!(r.what, What::Touch) && init.is_some() && i.layout != Layout::Sparse {
                    continue;
                }
                if matches!(r.what, What::Remove(None)) && i.layout != Layout::Sparse {
                    continue;
                }
                if matches!(r.what, What::Apply(_)) {
                    nupd += 1;
                }
                map.insert(*k, ops.len());
                ops.push((r.inv, r.ret, r.what.clone(), dep));
            }
            ABSENT.with(|a| {
                for (ff, x, y, present) in a.iter() {
                    if *ff == f && !present.contains(s) {
                        ops.push((*x, *y, What::Read(None), None));
                    }
                }
            });
            if ops.iter().all(|o| matches!(o.2, What::Read(_))) {
                for o in &ops {
                    if let What::Read(v) = &o.2 {
                        let same = match v {
                            Some(Val::P(x)) => init.as_ref().and_then(as_double) == Some(*x),
                            v => *v == init,
                        };
                        if !same {
                            let l: Vec<_> = ops.iter().map(|o| (o.0, o.1, o.2.clone())).collect();
                            violate!("foreign-update", "a series that no operation touched changed\n{}", describe(i, *s, &init, &l));
                        }
                    }
                }
                continue;
            }
            let _ = nupd;
            if ops.len() > 64 && in_order(i, *s, &init, &ops) {
                sched::probe("long_histories_without_overlap");
                continue;
            }
            if ops.len() > 64 {
                sched::probe("history_too_long");
                // keep the latest complete prefix is unsound; fall back to sums
                totals(i, *s, &init, &ops);
                continue;
            }
            let l: Vec<LOp<What>> = ops.iter().map(|o| LOp { inv: o.0, ret: o.1, op: o.2.clone(), dep: o.3 }).collect();
            match linearizable(init.clone(), &l, &|st, op| step(i, st, op)) {
                Some(true) => sched::probe("histories_linearized"),
                None => sched::probe("history_undecided"),
                Some(false) => {
                    let l: Vec<_> = ops.iter().map(|o| (o.0, o.1, o.2.clone())).collect();
                    let removed = l.iter().any(|o| matches!(o.2, What::Remove(_)));
                    let class = if removed { "history-with-removal" } else { "history" };
                    violate!(class, "no sequential order of these operations explains the results\n{}", describe(i, *s, &init, &l));
                }
            }
        }
        // cardinality under concurrency
        for c in w.cards.iter().filter(|c| c.fam == f) {
            let (mut certain, mut possible) = (0, 0);
            for (s, ix) in &by {
                let ops: Vec<&Rec> = ix.iter().map(|k| &w.hist[*k]).collect();
                let init = w.now[f].contains_key(s);
                let touches: Vec<&&Rec> = ops.iter().filter(|r| matches!(r.what, What::Touch)).collect();
                let rms: Vec<&&Rec> = ops.iter().filter(|r| matches!(r.what, What::Remove(Some(_)))).collect();
                // (a pending removal may have happened)
                let maybe_rm: Vec<&&Rec> = ops.iter().filter(|r| matches!(r.what, What::Remove(_)) && (r.ret == u64::MAX || matches!(r.what, What::Remove(Some(_))))).collect();
                let born = |after: u64| touches.iter().any(|t| t.inv > after && t.ret < c.inv) || (init && after == 0);
                let c_live = born(0) && maybe_rm.iter().all(|r| r.inv > c.ret || (r.ret < c.inv && born(r.ret)));
                let could = |after: u64| touches.iter().any(|t| t.ret > after && t.inv < c.ret);
                let p_live = (init || could(0)) && rms.iter().all(|r| r.ret > c.inv || could(r.inv));
                certain += c_live as usize;
                possible += p_live as usize;
            }
            ensure!(
                certain <= c.got && c.got <= possible,
                "cardinality-bounds",
                "family {}: cardinality {} reported, but {certain} series were certainly live throughout and at most {possible} at any time",
                i.name,
                c.got
            );
            sched::probe("cardinality_checked");
        }
    }
}

/// Decides a history whose operations do not overlap. False: they do.
fn in_order(i: &Info, s: usize, init: &St, ops: &[(u64, u64, What, Option<usize>)]) -> bool {
    let mut v: Vec<_> = ops.iter().collect();
    v.sort_by_key(|o| o.0);
    // (parts of one operation have one interval and are in order)
    if v.windows(2).any(|w| w[1].0 != w[0].0 && w[1].0 <= w[0].1) || v.iter().any(|o| o.1 == u64::MAX) {
        return false;
    }
    let mut st = init.clone();
    for (k, o) in v.iter().enumerate() {
        match step(i, &st, &o.2) {
            Some(x) => st = x,
            None => {
                let l: Vec<_> = v[..=k].iter().skip(k.saturating_sub(3)).map(|o| (o.0, o.1, o.2.clone())).collect();
                violate!("history", "operation {k} of a history without overlaps has a wrong result: the series was {}\n{}", st.as_ref().map_or("absent".into(), show), describe(i, s, init, &l));
            }
        }
    }
    true
}

/// Order-independent check for very long histories: commutative updates only.
fn totals(i: &Info, s: usize, init: &St, ops: &[(u64, u64, What, Option<usize>)]) {
    if ops.iter().any(|o| matches!(o.2, What::Remove(_)) || o.1 == u64::MAX) {
        return;
    }
    // (sums of a few small multiples of 1/8 are exact)
    let small = |x: f64| x.abs() < 1e6 && (x * 8.0).fract() == 0.0;
    let commutes = |u: &Upd| match i.k {
        K::Counter => true,
        K::Gauge => u.code <= 3,
        K::Float => u.code <= 3 && small(f64::from_bits(u.v as u64)),
        K::Hist => small(hist_value(*u)),
    };
    let exact = |v: &Option<Val>| match v {
        Some(Val::F(x) | Val::H(_, _, x)) => small(f64::from_bits(*x)),
        _ => true,
    };
    if ops.iter().any(|o| matches!(&o.2, What::Apply(u) if !commutes(u))) || !exact(init) {
        return;
    }
    let sum = |which: &dyn Fn(&(u64, u64, What, Option<usize>)) -> bool| {
        let mut v = init.clone().unwrap_or_else(|| i.zero());
        for o in ops {
            if let What::Apply(u) = &o.2 {
                if which(o) {
                    v = apply(i.k, &i.le, &v, *u);
                }
            }
        }
        v
    };
    let v = sum(&|_| true);
    let last = ops.iter().filter(|o| matches!(o.2, What::Read(_))).max_by_key(|o| o.0);
    if let Some((_, _, What::Read(x), _)) = last {
        let same = match x {
            Some(Val::P(x)) => as_double(&v) == Some(*x),
            x => x.as_ref() == Some(&v),
        };
        if !same {
            violate!("total", "family {} series {:?}: final value {:?}, the updates add up to {:?}", i.name, i.pairs[s], x, v);
        }
    }
    // counters and the counts of histograms only grow: bounds for every read
    let grows = |v: &Val| match v {
        Val::C(x) => Some(*x),
        Val::H(_, c, _) => Some(*c),
        _ => None,
    };
    let (Some(first), Some(end)) = (grows(&init.clone().unwrap_or_else(|| i.zero())), grows(&v)) else { return };
    let total: u128 = ops.iter().map(|o| if let What::Apply(u) = &o.2 { if i.k == K::Counter && u.code != 0 { u.v as u64 as u128 } else { 1 } } else { 0 }).sum();
    if first as u128 + total != end as u128 {
        return;
    }
    let mut reads: Vec<(u64, u64, u64)> = vec![];
    for o in ops {
        let What::Read(x) = &o.2 else { continue };
        let x = match x {
            Some(Val::P(_)) => continue,
            Some(x) => grows(x).unwrap(),
            None => first,
        };
        reads.push((o.0, o.1, x));
    }
    reads.sort();
    let mut inv: Vec<(u64, u64)> = vec![];
    let mut ret: Vec<(u64, u64)> = vec![];
    for o in ops {
        if let What::Apply(u) = &o.2 {
            let a = if i.k == K::Counter && u.code != 0 { u.v as u64 } else { 1 };
            inv.push((o.0, a));
            ret.push((o.1, a));
        }
    }
    let cumulate = |v: &mut Vec<(u64, u64)>| {
        v.sort();
        let mut s = first;
        for x in v.iter_mut() {
            s += x.1;
            x.1 = s;
        }
    };
    cumulate(&mut inv);
    cumulate(&mut ret);
    let upto = |v: &[(u64, u64)], t: u64| match v.partition_point(|x| x.0 < t) {
        0 => first,
        k => v[k - 1].1,
    };
    let mut done: Vec<(u64, u64)> = reads.iter().map(|r| (r.1, r.2)).collect();
    done.sort();
    for k in 1..done.len() {
        done[k].1 = done[k].1.max(done[k - 1].1);
    }
    for (a, b, x) in reads {
        let (lo, hi) = (upto(&ret, a), upto(&inv, b));
        if x < lo || x > hi {
            violate!("bounds", "family {} series {:?}: a scrape saw {x}, but updates of {lo} had finished before it and updates of {hi} had begun before it ended", i.name, i.pairs[s]);
        }
        let before = upto(&done, a);
        if x < before {
            violate!("goes-down", "family {} series {:?}: a scrape saw {x} after an earlier one saw {before}", i.name, i.pairs[s]);
        }
    }
    sched::probe("long_histories_bounded");
}

/// Find the families that keep their series during a phase.
fn plan_phase(ph: &[Vec<Op>]) {
    let w = w();
    for f in 0..w.fams.len() {
        let n = w.fams[f].info().n;
        let nf = w.fams.len();
        let of = |o: &Op| o.arg(0).unsigned_abs() as usize % nf == f;
        w.stable[f] = ph.iter().flatten().all(|o| match o.k.as_str() {
            "up" | "hold" | "touch" | "tstart" | "since" => !of(o) || w.now[f].contains_key(&(o.arg(1).unsigned_abs() as usize % n)),
            "look" | "bad" | "card" | "scrape" | "wf" | "adv" | "rtjump" | "bomb" | "abandon" => true,
            "tend" => true,
            _ => !of(o),
        });
        // (timers started earlier may create their series)
        if ph.iter().flatten().any(|o| o.k == "tend") && w.timers.iter().flatten().any(|t| t.fam == f) {
            w.stable[f] = false;
        }
    }
}
/// Called when only stalled scrapers keep the run from going on.
fn on_stall() {
    for t in 0..sched::nthreads() {
        if let Some(m) = &w().must[t] {
            if sched::state(t) != sched::St::Stalled {
                violate!("blocked-by-stalled-scrape", "{m} waits for a scrape that is stalled in its writer");
            }
        }
    }
    sched::probe("stalled_with_all_updates_done");
}

/// Run the phases of a plan over the world.
pub fn run_phases(p: &'static Plan) {
    sched::set_stall_hook(on_stall);
    for (k, ph) in p.phases.iter().enumerate() {
        let mut ts = vec![];
        plan_phase(ph);
        let exclusive = ph.iter().filter(|t| !t.is_empty()).count() <= 1;
        for t in ph {
            if !exclusive && t.iter().any(|o| matches!(o.k.as_str(), "mut" | "mtouch" | "init")) {
                // exclusive access needs a single thread: not expressible in safe Rust otherwise
                simrt::run::harness_error("exclusive operation in a concurrent phase");
            }
            ts.push(sched::spawn(Box::new(move || {
                for o in t {
                    exec(o);
                }
            })));
        }
        for t in ts {
            sched::join_thread(t);
        }
        settle(if p.get("proto") != 0 { [10, 11, 12, 13] } else { [0, 2, 1, 3] }[k % 4]);
    }
}
