//! Decoded families against what is expected.
use crate::fam::{fbits, Info, Val, K};
pub use crate::wire::{decode, PFamily};

/// (series index, value) of one decoded family.
pub fn read_family(i: &Info, f: &PFamily) -> Result<Vec<(usize, Val)>, String> {
    let full = i.full_name();
    if f.name.as_deref() != Some(full.as_str()) {
        return Err(format!("family is named {:?}, expected {full:?}", f.name));
    }
    let want = match i.k {
        K::Counter => 0,
        _ => 1,
    };
    if f.typ.unwrap_or(if i.untyped { want } else { 0 }) != want {
        return Err(format!("family {full} has type {:?}, expected {want}", f.typ));
    }
    if f.help.as_deref().unwrap_or("") != i.help.unwrap_or("") {
        return Err(format!("family {full} has help {:?}, expected {:?}", f.help, i.help));
    }
    let mut out: Vec<(usize, Val)> = vec![];
    let mut seen = vec![false; i.n];
    for m in &f.metrics {
        let Some(ix) = i.find(&m.labels) else {
            return Err(format!("family {full} reports a series {:?} nobody ever touched", m.labels));
        };
        if seen[ix] {
            return Err(format!("family {full} reports the series {:?} twice", m.labels));
        }
        seen[ix] = true;
        let (have, other) = if want == 0 { (m.counter, m.gauge) } else { (m.gauge, m.counter) };
        match (have, other) {
            (Some(v), None) => out.push((ix, Val::P(fbits(v)))),
            x => return Err(format!("series {:?} of family {full} has values {x:?}", m.labels)),
        }
    }
    Ok(out)
}
