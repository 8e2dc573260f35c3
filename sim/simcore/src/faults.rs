//! Scrapes into failing writers.
use crate::fam::K;
use crate::text;
use crate::world::*;
use crate::writer::{err, F};
use simrt::run::sut;
use simrt::{ensure, sched, violate, Op};

/// abandon [mode, yield, families, take]: scrape a part, take the output, keep the encoder
pub fn exec_abandon(o: &Op) {
    let mode = o.arg(0) | 1;
    let mode = if mode >= 10 && !w().proto { mode - 10 } else { mode };
    sched::op_begin();
    sched::fault("scrape_abandoned");
    let list = selection(None);
    let e = encoder(mode);
    let k = o.arg(2).unsigned_abs() as usize;
    let mut spans = vec![];
    if list.is_empty() || e.is_proto() {
        // (what a protobuf encoder holds back belongs to its output: it must be flushed)
        let part = if list.is_empty() { &list[..] } else { &list[..k % (list.len() + 1)] };
        if list.is_empty() || !part.is_empty() {
            if let Err(x) = drive(e, part, &mut spans) {
                violate!("scrape-failed", "a scrape into a healthy writer failed: {x}");
            }
        }
        if e.is_proto() || o.arg(3) == 0 {
            let _ = sut("flush", || e.flush());
        }
    } else {
        let part = &list[..k % (list.len() + 1)];
        if !part.is_empty() {
            if let Err(x) = drive(e, part, &mut spans) {
                violate!("scrape-failed", "a scrape into a healthy writer failed: {x}");
            }
        }
        if o.arg(3) == 0 {
            let _ = sut("flush", || e.flush());
        }
    }
    drop(sut("finish", || e.take()));
    sched::op_end();
}

fn trim(b: &[u8]) -> &[u8] {
    // a kept encoder may separate scrapes by an empty line
    b.strip_prefix(b"\n").unwrap_or(b)
}

/// wf [enc 1 text / 2 protobuf, cached, yield, chunk, sticky, flush+1, byte permille (-1 none), kind,
///     exact, (call permille, fault, arg)*]
pub fn exec_wf(o: &Op) {
    let proto = o.arg(0) == 2 && w().proto;
    let mode = if proto { 10 } else { 2 } + (o.arg(1) & 1);
    let exact = o.arg(8) != 0;
    let list = selection(None);
    sched::op_begin();
    // what a healthy scrape gives
    let (mut healthy, mut calls) = (vec![], 160);
    if exact {
        let mut e = Enc::new(enc_kind(mode));
        let mut spans = vec![];
        if drive(&mut e, &list, &mut spans).and_then(|_| e.flush()).is_err() {
            violate!("scrape-failed", "a scrape into a healthy writer failed");
        }
        calls = e.writer().unwrap().calls;
        healthy = e.take();
    }
    let e = encoder(mode);
    {
        let x = e.writer().unwrap();
        x.yield_every = o.arg(2) as u64;
        x.max_chunk = o.arg(3) as usize;
        x.sticky = o.arg(4) != 0;
        x.flush_fail = (o.arg(5) > 0).then(|| o.arg(5) - 1);
        let len = if exact { healthy.len() } else { 700 };
        x.fail_at_byte = (o.arg(6) >= 0).then(|| (len * o.arg(6) as usize / 1000, o.arg(7)));
        for c in o.a.get(9..).unwrap_or(&[]).chunks(3).filter(|c| c.len() == 3) {
            let at = 1 + calls * c[0].unsigned_abs() / 1000;
            x.plan.push((
                at,
                match c[1] {
                    0 => F::Short(c[2].unsigned_abs() as usize),
                    1 => F::Interrupted,
                    2 => F::Fail(c[2]),
                    3 => F::Zero,
                    4 => F::Stall,
                    _ => F::Panic,
                },
            ));
        }
        if x.plan.iter().any(|p| p.1 == F::Panic) && !simrt::run::allowed() {
            crate::shapes::arm(0);
            simrt::run::harness_error("writer panic without a bomb");
        }
    }
    let mut spans = vec![];
    let mut r = drive(e, &list, &mut spans);
    let reached = spans.len();
    let mut flushed = false;
    if r.is_ok() {
        flushed = true;
        r = sut("flush", || e.flush());
    }
    let out = sut("taking the output", || {
        let x = e.writer().unwrap();
        std::mem::take(&mut x.out)
    });
    let failed = e.writer().unwrap().failed;
    let is_proto = e.is_proto();
    sched::quiet(|| match &r {
        Ok(()) => {
            if let Some((k, _)) = failed {
                violate!("silent-failure", "the writer failed with {k:?} but the scrape reported success\n{}", show(&out, is_proto));
            }
            all_flushed(e.writer().unwrap());
            if exact && trim(&out) != trim(&healthy) {
                violate!("damaged-scrape", "a successful scrape wrote something else than a healthy one\n{}\nhealthy:\n{}", show(&out, is_proto), show(&healthy, is_proto));
            }
            record_scrape(&interpret(&out, is_proto, &list, &spans));
            sched::probe("scrape_completed_despite_faults");
        }
        Err(x) => {
            let Some((kind, k)) = failed else { violate!("invented-error", "the scrape failed with {x} though the writer did not") };
            ensure!(x.kind() == kind, "wrong-error", "the writer failed with {kind:?}, the scrape reported {:?}: {x}", x.kind());
            if k >= 0 {
                ensure!(x.to_string() == err(k).to_string(), "wrong-error", "the writer failed with {:?}, the scrape reported {x}", err(k).to_string());
            }
            if exact {
                ensure!(trim(&healthy).starts_with(trim(&out)), "not-a-prefix", "a failed scrape wrote something that is no prefix of a correct scrape\n{}\nhealthy:\n{}", show(&out, is_proto), show(&healthy, is_proto));
            }
            prefix(&out, is_proto, &list, &spans);
            sched::probe("scrape_failed_as_injected");
        }
    });
    // go on with the same encoder on a healthy writer: the families that were not started
    if r.is_err() && is_proto && !list.is_empty() && o.arg(1) & 2 != 0 {
        let rest: Vec<usize> = if flushed { vec![] } else { list[reached - 1..].to_vec() };
        if !rest.is_empty() {
            let e = encoder(11);
            let mut spans = vec![];
            if let Err(x) = drive(e, &rest, &mut spans).and_then(|_| sut("flush", || e.flush())) {
                violate!("scrape-failed", "a scrape into a healthy writer failed: {x}");
            }
            all_flushed(e.writer().unwrap());
            let out = sut("taking the output", || e.take());
            sched::quiet(|| {
                record_scrape(&interpret(&out, true, &rest, &spans));
                sched::probe("scrape_resumed_after_failure");
            });
        }
    }
    sched::op_end();
}
fn show(b: &[u8], proto: bool) -> String {
    if proto {
        show_hex(b)
    } else {
        show_bytes(b)
    }
}

/// The part of a scrape that was written before a failure must be right as far as it goes.
fn prefix(out: &[u8], proto: bool, list: &[usize], spans: &[(u64, u64)]) {
    let w = w();
    let order: Vec<usize> = match &w.group {
        Some(g) => g.order.iter().filter_map(|e| if let Entry::Fam(i) = e { Some(*i) } else { None }).collect(),
        None => list.to_vec(),
    };
    let absent: Vec<&String> = match &w.group {
        Some(g) => g.order.iter().filter_map(|e| if let Entry::Absent(n) = e { Some(n) } else { None }).collect(),
        None => vec![],
    };
    // (a family may have been sampled at any time since the scrape began)
    let span = |_: usize| (spans[0].0, spans.last().unwrap().1);
    if proto {
        // whole messages, then a part of one
        let mut at = 0;
        let mut n = 0;
        let mut rest = out;
        while let Some((len, used)) = varint(rest) {
            if rest.len() < used + len {
                break;
            }
            let one = &rest[..used + len];
            let dec = crate::proto::decode(one).unwrap_or_else(|m| violate!("proto-syntax", "message {n} of a failed scrape: {m}\n{}", show_hex(out)));
            rest = &rest[used + len..];
            n += 1;
            let name = dec[0].name.clone().unwrap_or_default();
            while at < order.len() && w.fams[order[at]].info().full_name() != name {
                at += 1;
            }
            if at == order.len() {
                violate!("proto-families", "family {name:?} is out of order in a failed scrape\n{}", show_hex(out));
            }
            match crate::proto::read_family(w.fams[order[at]].info(), &dec[0]) {
                Ok(v) => {
                    let (a, b) = span(at);
                    record_scrape(&vec![(order[at], a, b, v)]);
                }
                Err(m) => violate!("proto-content", "{m}\n{}", show_hex(out)),
            }
            at += 1;
        }
        return;
    }
    let cut = out.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let fams = text::parse(&out[..cut]).unwrap_or_else(|m| violate!("text-syntax", "a failed scrape: {m}\n{}", show_bytes(out)));
    let mut at = 0;
    for (k, f) in fams.iter().enumerate() {
        if absent.iter().any(|n| **n == f.name) {
            continue;
        }
        if at >= order.len() {
            violate!("text-families", "family {} is too much in a failed scrape\n{}", f.name, show_bytes(out));
        }
        let ix = order[at];
        let info = w.fams[ix].info();
        at += 1;
        let (a, b) = span(at - 1);
        if k + 1 < fams.len() {
            match crate::fam::read_family(info, f) {
                Ok(v) => record_scrape(&vec![(ix, a, b, v)]),
                Err(m) => violate!("text-content", "in a failed scrape: {m}\n{}", show_bytes(out)),
            }
            continue;
        }
        // the last family may lack its type, and end within a series
        let mut part = f.clone();
        if part.typ.is_none() {
            if part.name != info.full_name() || !part.samples.is_empty() && !info.untyped {
                violate!("text-content", "in a failed scrape: family {:?}\n{}", part, show_bytes(out));
            }
            if part.samples.is_empty() {
                continue;
            }
        }
        if info.k == K::Hist {
            let per = info.le.len() + 3;
            let whole = part.samples.len() / per * per;
            part.samples.truncate(whole);
        }
        match crate::fam::read_family(info, &part) {
            Ok(v) => {
                // series that are there were read; nothing is known about the others
                for (s, val) in v {
                    rec(Rec { fam: ix, s, inv: a, ret: b, what: What::Read(Some(val)), dep: None });
                }
            }
            Err(m) => violate!("text-content", "in a failed scrape: {m}\n{}", show_bytes(out)),
        }
    }
}
fn varint(b: &[u8]) -> Option<(usize, usize)> {
    let mut v = 0usize;
    for (i, x) in b.iter().enumerate().take(10) {
        v |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            return Some((v, i + 1));
        }
    }
    None
}
