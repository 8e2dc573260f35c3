//! A run is described completely by a `Plan` (what the simulated clients do, including injected
//! faults) and a schedule specification. Both are plain data so that they can be minimised and
//! written to a replay file.
use crate::json::J;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: String,
    pub a: Vec<i64>,
}

impl Op {
    pub fn new(k: &str, a: &[i64]) -> Op {
        Op { k: k.to_string(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub scenario: String,
    pub cfg: BTreeMap<String, i64>,
    /// Phases executed one after the other; each phase is a set of threads running concurrently.
    /// A phase with a single thread is a sequential (possibly exclusive-access) phase.
    pub phases: Vec<Vec<Vec<Op>>>,
}

impl Plan {
    pub fn new(s: &str) -> Plan {
        Plan { scenario: s.to_string(), ..Default::default() }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.cfg.insert(k.to_string(), v);
    }
    pub fn nops(&self) -> usize {
        self.phases.iter().flatten().map(|t| t.len()).sum()
    }
    pub fn to_json(&self) -> J {
        J::Obj(vec![
            ("scenario".into(), J::Str(self.scenario.clone())),
            ("cfg".into(), J::Obj(self.cfg.iter().map(|(k, v)| (k.clone(), J::Int(*v))).collect())),
            (
                "phases".into(),
                J::Arr(
                    self.phases
                        .iter()
                        .map(|p| {
                            J::Arr(
                                p.iter()
                                    .map(|t| {
                                        J::Arr(
                                            t.iter()
                                                .map(|o| {
                                                    let mut v = vec![J::Str(o.k.clone())];
                                                    v.extend(o.a.iter().map(|x| J::Int(*x)));
                                                    J::Arr(v)
                                                })
                                                .collect(),
                                        )
                                    })
                                    .collect(),
                            )
                        })
                        .collect(),
                ),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Option<Plan> {
        let mut p = Plan::new(j.get("scenario")?.str()?);
        if let J::Obj(o) = j.get("cfg")? {
            for (k, v) in o {
                p.cfg.insert(k.clone(), v.int()?);
            }
        }
        for ph in j.get("phases")?.arr()? {
            let mut threads = vec![];
            for t in ph.arr()? {
                let mut ops = vec![];
                for o in t.arr()? {
                    let o = o.arr()?;
                    let k = o.first()?.str()?.to_string();
                    let a = o[1..].iter().map(|x| x.int()).collect::<Option<Vec<_>>>()?;
                    ops.push(Op { k, a });
                }
                threads.push(ops);
            }
            p.phases.push(threads);
        }
        Some(p)
    }
}

#[derive(Clone, Debug)]
pub enum Sched {
    Seed(u64),
    Explicit(Vec<(u64, u16)>),
}
