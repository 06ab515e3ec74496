//! A fully determined simulated run, and what came of it.
use model::*;
use serde::{Deserialize, Serialize};
use simrt::{Dev, SchedCfg};
use work::world::{Rec, NOTRUN, SKIP};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prog: Program,
    #[serde(default)]
    pub faults: Vec<Fault>,
    pub sched: SchedCfg,
    /// explicit scheduling decisions; None: drawn from `sched`
    pub devs: Option<Vec<Dev>>,
    /// hash seed of the process
    pub hash: u64,
    /// what the process did before
    #[serde(default)]
    pub past: Option<Program>,
    /// what the same threads do in between, on other types
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub guest: Option<Guest>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Done,
    /// deadlock, endless loop or crash; described by the one violation
    Fatal,
    /// all threads asleep in the real kernel
    Stuck,
    /// the history in front did not finish
    Past,
    /// it ended inside a call whose outcome is open (malformed operand)
    Open,
    /// killed from outside
    Lost,
}

pub struct Outcome {
    pub end: End,
    pub recs: Vec<Vec<Rec>>,
    pub viols: Vec<Viol>,
    pub devs: Vec<Dev>,
    pub steps: u64,
    pub clock: u64,
    pub switches: u64,
    pub preempts: u64,
    pub ilhash: u64,
    pub blocked: u64,
    pub timeouts: u64,
    pub fired: u64,
}

impl Case {
    pub fn new(prog: Program, hash: u64) -> Case {
        Case { prog, faults: vec![], sched: SchedCfg::seq(), devs: None, hash, past: None, guest: None }
    }
    /// No failure is injected anywhere.
    pub fn calm(&self) -> bool {
        self.faults.is_empty() && self.guest.as_ref().map_or(true, |g| g.faults.is_empty())
    }
    pub fn id(&self) -> u64 {
        digest_str(&serde_json::to_string(self).unwrap())
    }
}

pub fn digest_str(s: &str) -> u64 {
    model::digest(&s)
}

/// Operations whose result may legitimately differ between two runs.
struct Taint {
    shared: Vec<bool>,
    own: Vec<Vec<bool>>,
}

fn conv_order(op: &Op) -> bool {
    op.k == K::Conv && op.p.first() == Some(&0)
}

/// Calls whose observable result differs between two runs of the same program
/// although it must not. (tid, op)
pub fn differ(p: &Program, a: &Outcome, b: &Outcome) -> Vec<(u32, u32)> {
    let mut t = Taint { shared: vec![false; p.prelude.len()], own: p.threads.iter().map(|v| vec![false; v.len()]).collect() };
    let mut kind: std::collections::BTreeMap<(u32, u32), bool> = Default::default(); // is a dictionary
    let mut out = vec![];
    for &l in &p.locked {
        t.shared[l as usize] = true;
    }
    let groups = std::iter::once((work::world::PRELUDE, &p.prelude)).chain(p.threads.iter().enumerate().map(|(i, v)| (i as u32, v)));
    for (g, (tid, ops)) in groups.enumerate() {
        for (i, op) in ops.iter().enumerate() {
            let (x, y) = (&a.recs[g][i], &b.recs[g][i]);
            let look = |r: u32, t: &Taint| {
                if r < OWN {
                    t.shared.get(r as usize).copied().unwrap_or(true)
                } else {
                    t.own.get(tid as usize).and_then(|v| v.get((r - OWN) as usize)).copied().unwrap_or(true)
                }
            };
            let is_dok = |r: u32| {
                let key = if r < OWN { (work::world::PRELUDE, r) } else { (tid, r - OWN) };
                *kind.get(&key).unwrap_or(&false)
            };
            let dok = op.a.first().map_or(false, |&r| is_dok(r));
            let loose = op.a.iter().any(|&r| look(r, &t));
            let order = dok && (conv_order(op) || op.k == K::ToString);
            let fired = x.fired != 0 || y.fired != 0;
            let skipped = x.status <= SKIP || y.status <= SKIP;
            let taint = loose || order || fired || matches!(op.k, K::Eigs | K::Broken) || (skipped && op.k != K::Nop);
            if !taint && (x.digest != y.digest || x.status != y.status) && x.status != NOTRUN && y.status != NOTRUN {
                out.push((tid, i as u32));
            }
            let mine_dok = matches!(op.k, K::DokNew) || (op.k == K::FromDense && op.p.get(2) == Some(&3));
            let key = if tid == work::world::PRELUDE { (tid, i as u32) } else { (tid, i as u32) };
            kind.insert(key, mine_dok);
            let set = |r: u32, t: &mut Taint| {
                if r < OWN {
                    if let Some(s) = t.shared.get_mut(r as usize) {
                        *s = true;
                    }
                } else if let Some(s) = t.own.get_mut(tid as usize).and_then(|v| v.get_mut((r - OWN) as usize)) {
                    *s = true;
                }
            };
            if taint {
                if op.mutates() {
                    set(op.a[0], &mut t);
                }
                let me = if tid == work::world::PRELUDE { i as u32 } else { OWN + i as u32 };
                set(me, &mut t);
            }
        }
    }
    out
}

/// Program restricted to operation (tid, op), what it needs and, for objects
/// shared under a lock, everything that touches them.
pub fn slice(p: &Program, tid: u32, op: u32) -> Program {
    let mut keep_pre = vec![false; p.prelude.len()];
    let mut keep: Vec<Vec<bool>> = p.threads.iter().map(|v| vec![false; v.len()]).collect();
    let mut locked: Vec<u32> = vec![];
    let mut todo = vec![(tid, op)];
    while let Some((t, i)) = todo.pop() {
        let pre = t == work::world::PRELUDE;
        let (flag, o) = if pre {
            match p.prelude.get(i as usize) {
                Some(o) => (&mut keep_pre[i as usize], o),
                None => continue,
            }
        } else {
            match p.threads.get(t as usize).and_then(|v| v.get(i as usize)) {
                Some(o) => (&mut keep[t as usize][i as usize], o),
                None => continue,
            }
        };
        if *flag {
            continue;
        }
        *flag = true;
        for &r in &o.a {
            if r < OWN {
                todo.push((work::world::PRELUDE, r));
                // edits made in the prelude
                for (k, q) in p.prelude.iter().enumerate() {
                    if q.mutates() && q.a.first() == Some(&r) && (!pre || k < i as usize) {
                        todo.push((work::world::PRELUDE, k as u32));
                    }
                }
                if p.locked.contains(&r) && !pre && !locked.contains(&r) {
                    locked.push(r);
                    for (tt, v) in p.threads.iter().enumerate() {
                        for (k, q) in v.iter().enumerate() {
                            if q.mutates() && q.a.contains(&r) {
                                todo.push((tt as u32, k as u32));
                            }
                        }
                    }
                }
            } else {
                todo.push((t, r - OWN));
                for (k, q) in p.threads[t as usize].iter().enumerate() {
                    if k < i as usize && q.mutates() && q.a.first() == Some(&r) {
                        todo.push((t, k as u32));
                    }
                }
            }
        }
    }
    let mut q = p.clone();
    for (k, o) in q.prelude.iter_mut().enumerate() {
        if !keep_pre[k] {
            *o = Op::new(K::Nop);
        }
    }
    for (t, v) in q.threads.iter_mut().enumerate() {
        for (k, o) in v.iter_mut().enumerate() {
            if !keep[t][k] {
                *o = Op::new(K::Nop);
            }
        }
    }
    q
}
