//! Scrapes of a process collector into outputs of every kind, healthy and failing.
use super::*;
use crate::writer::{err, SimWriter, F};
use measured_prometheus_protobuf::ProtoEncoder;
use std::io;

/// changes of the simulated processes so far
pub static mut ENV: u64 = 0;

pub fn gen(r: &mut Rng, t: bool) -> Plan {
    let mut p = super::gen(r, t);
    p.scenario = "procout".into();
    for ph in &mut p.phases {
        for o in ph.iter_mut().flatten() {
            match o.k.as_str() {
                // no trouble with procfs here
                "new" => o.a.truncate(2),
                "scrape" => {
                    let mut a = vec![
                        o.arg(0),
                        r.below(4) as i64,
                        if r.chance(500) { 0 } else { *r.pick(&[1, 2, 5]) },
                        if r.chance(250) { 1 + r.below(12) as i64 } else { 0 },
                        r.chance(300) as i64,
                        if r.chance(80) { 1 + r.below(8) as i64 } else { 0 },
                    ];
                    for _ in 0..r.below(4) {
                        a.extend([r.below(1000) as i64, *r.pick(&[0, 0, 1, 1, 2, 2, 3, 5]), r.below(8) as i64]);
                    }
                    o.k = "out".into();
                    o.a = a;
                }
                _ => {}
            }
        }
    }
    p
}

fn into<G: MetricGroup<TextEncoder<SimWriter>> + MetricGroup<ProtoEncoder<SimWriter>>>(g: &G, proto: bool, x: SimWriter) -> (io::Result<()>, SimWriter) {
    if proto {
        let mut e = ProtoEncoder::new(x);
        let r = g.collect_group_into(&mut e).and_then(|_| e.flush());
        (r, std::mem::take(&mut e.writer))
    } else {
        let mut e = TextEncoder::new(x);
        let r = g.collect_group_into(&mut e).and_then(|_| e.flush());
        (r, std::mem::take(&mut e.writer))
    }
}
/// The writer is kept outside, so that it survives a panic.
struct Shared(*mut SimWriter);
impl io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        unsafe { (*self.0).write(b) }
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { (*self.0).flush() }
    }
}
fn faulty<G: MetricGroup<TextEncoder<Shared>> + MetricGroup<ProtoEncoder<Shared>>>(g: &G, proto: bool, x: &mut SimWriter) -> io::Result<()> {
    let x = Shared(x);
    if proto {
        let mut e = ProtoEncoder::new(x);
        g.collect_group_into(&mut e).and_then(|_| e.flush())
    } else {
        let mut e = TextEncoder::new(x);
        g.collect_group_into(&mut e).and_then(|_| e.flush())
    }
}

fn parse(out: &[u8], proto: bool, prefix: &str) -> [Option<i64>; 7] {
    if !proto {
        return parse_text(out, prefix);
    }
    let fams = wire::decode(out).unwrap_or_else(|e| violate!("proto-syntax", "{e}"));
    let mut got = [None; 7];
    for f in &fams {
        let name = f.name.clone().unwrap_or_default();
        let i = name.strip_prefix(prefix).and_then(|n| NAMES.iter().position(|x| *x == n));
        let Some(i) = i else { violate!("unknown-family", "family {name:?} is not documented") };
        ensure!(got[i].is_none(), "family-twice", "family {name} is reported twice");
        ensure!(f.help.is_some() && f.typ.unwrap_or(1) == 1 && f.metrics.len() == 1 && f.metrics[0].labels.is_empty() && f.metrics[0].counter.is_none(), "family-shape", "family {f:?} is not one described gauge");
        let Some(v) = f.metrics[0].gauge else { violate!("family-shape", "family {f:?} has no value") };
        got[i] = Some(v as i64);
    }
    got
}

/// out [slot, 1 namespaced + 2 protobuf, yield, chunk, sticky, flush+1, (call permille, fault, arg)*]
pub fn exec(o: &'static Op) {
    let slot = o.arg(0).unsigned_abs() as usize % SLOTS;
    let Some(col) = sched::quiet(|| cols()[slot]) else { return };
    let (ns, proto) = (o.arg(1) & 1 != 0, o.arg(1) & 2 != 0);
    let prefix = if ns { "process_" } else { "" };
    let round: fn(i64) -> i64 = if proto { |v| v as f64 as i64 } else { |v| v };
    sched::op_begin();
    let env = sched::quiet(|| unsafe { ENV });
    arm(&[]);
    let (r, x) = call("collect_group_into", || if ns { into(&WithNamespace::new("process", &col.c), proto, SimWriter::default()) } else { into(&col.c, proto, SimWriter::default()) });
    let healthy = x.out;
    sched::quiet(|| {
        ensure!(r.is_ok(), "scrape-failed", "a scrape into a healthy writer failed");
        let s = done();
        check_values(col, &s, parse(&healthy, proto, prefix), round);
        sched::probe("scrapes_checked");
    });
    let mut x = SimWriter { yield_every: o.arg(2) as u64, max_chunk: o.arg(3) as usize, sticky: o.arg(4) != 0, flush_fail: (o.arg(5) > 0).then(|| o.arg(5) - 1), ..SimWriter::default() };
    let mut may_panic = false;
    let calls = if o.arg(3) > 0 { healthy.len() as u64 / o.arg(3) as u64 } else { healthy.len() as u64 / 6 };
    for c in o.a.get(6..).unwrap_or(&[]).chunks_exact(3) {
        let at = 1 + calls * c[0].unsigned_abs() / 1000;
        let f = match c[1] {
            0 => F::Short(c[2].unsigned_abs() as usize),
            1 => F::Interrupted,
            2 => F::Fail(c[2]),
            3 => F::Zero,
            _ => F::Panic,
        };
        may_panic |= f == F::Panic;
        x.plan.push((at, f));
    }
    let g = || if ns { faulty(&WithNamespace::new("process", &col.c), proto, &mut x) } else { faulty(&col.c, proto, &mut x) };
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)) {
        Ok(r) => Some(r),
        Err(e) if may_panic && e.downcast_ref::<simrt::run::Injected>().is_some() => None,
        Err(_) => simrt::run::unexpected_panic("collect_group_into"),
    };
    sched::quiet(|| {
        let s = done();
        let still = env == unsafe { ENV };
        let out = &x.out;
        let prefix_of = |out: &[u8]| !still || healthy.starts_with(out);
        match r {
            None => {
                sched::probe("scrapes_panicked_with_their_writer");
                ensure!(prefix_of(out), "not-a-prefix", "a scrape whose writer panicked wrote something that is no prefix of a correct one: {:?}, correct is {:?}", show(out), show(&healthy));
            }
            Some(Ok(())) => {
                ensure!(x.unflushed == 0, "not-flushed", "the encoder was flushed successfully, but {} bytes of its output were never flushed to the writer", x.unflushed);
            if let Some((k, _)) = x.failed {
                    violate!("silent-failure", "the writer failed with {k:?} but the scrape reported success");
                }
                ensure!(!still || *out == healthy, "damaged-scrape", "a successful scrape wrote {:?}, a healthy one {:?}", show(out), show(&healthy));
                check_values(col, &s, parse(out, proto, prefix), round);
                sched::probe("scrape_completed_despite_faults");
            }
            Some(Err(e)) => {
                let Some((kind, k)) = x.failed else { violate!("invented-error", "the scrape failed with {e} though the writer did not") };
                ensure!(e.kind() == kind && (k < 0 || e.to_string() == err(k).to_string()), "wrong-error", "the writer failed with {kind:?} {k}, the scrape reported {e}");
                ensure!(prefix_of(out), "not-a-prefix", "a failed scrape wrote something that is no prefix of a correct one: {:?}, correct is {:?}", show(out), show(&healthy));
                sched::probe("scrape_failed_as_injected");
            }
        }
    });
    sched::op_end();
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
