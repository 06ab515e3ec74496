//! Which properties a discrepancy counts against.
use crate::case::*;
use crate::shm::Shm;
use model::*;
use simrt::SchedCfg;
use work::world::Rec;

/// Properties for which it matters under which circumstances a call goes wrong.
pub fn circumstantial(prop: &str) -> bool {
    matches!(prop, "C01" | "C02" | "C04" | "C15" | "C18")
}

fn has(v: &[Viol], like: &Viol) -> bool {
    v.iter().any(|x| x.tid == like.tid && x.op == like.op && x.k == like.k)
}

fn add(v: &mut Viol, t: &str) {
    if !v.tags.iter().any(|x| x == t) {
        v.tags.push(t.into());
    }
}

fn without(p: &Program, drop: &[(u32, u32)]) -> Program {
    let mut q = p.clone();
    for &(t, i) in drop {
        let v = if t == work::world::PRELUDE { &mut q.prelude } else { &mut q.threads[t as usize] };
        v[i as usize] = Op::new(K::Nop);
    }
    q
}

/// The calls that failed of their own (refused) in this outcome.
fn failing(p: &Program, o: &Outcome) -> Vec<(u32, u32)> {
    let mut f = vec![];
    for (g, v) in o.recs.iter().enumerate() {
        let tid = if g == 0 { work::world::PRELUDE } else { g as u32 - 1 };
        for (i, r) in v.iter().enumerate() {
            if r.refuse != 0 {
                f.push((tid, i as u32));
            }
        }
    }
    let _ = p;
    f
}

fn rec(o: &Outcome, (t, i): (u32, u32)) -> Rec {
    o.recs[if t == work::world::PRELUDE { 0 } else { t as usize + 1 }][i as usize]
}

fn op<'a>(p: &'a Program, t: u32, i: u32) -> Option<&'a Op> {
    if t == work::world::PRELUDE { p.prelude.get(i as usize) } else { p.threads.get(t as usize)?.get(i as usize) }
}

/// Adds the properties that the circumstances of `v` break: a call that goes
/// wrong only because of other calls, an interleaving or a failure.
pub fn attribute(shm: &Shm, c: &Case, o: &Outcome, v: &Viol) -> Viol {
    let mut v = v.clone();
    let wide = v.k == "Held";
    if op(&c.prog, v.tid, v.op).is_none() {
        return v;
    }
    // the call with nothing but what it needs
    if !wide {
        let alone = Case { prog: slice(&c.prog, v.tid, v.op), faults: vec![], ..c.clone() };
        let locked = op(&c.prog, v.tid, v.op).map_or(false, |q| q.a.iter().any(|r| c.prog.locked.contains(r)));
        let alone = if locked { alone } else { Case { sched: SchedCfg::seq(), devs: None, past: None, guest: None, ..alone } };
        if has(&shm.run(&alone).viols, &v) {
            return v;
        }
    }
    // what is needed to make it go wrong: the interleaving, the failures, or only the past
    let sched = shm.run(&Case { sched: SchedCfg::seq(), devs: None, ..c.clone() });
    let needs_sched = !has(&sched.viols, &v);
    let fails: Vec<(u32, u32)> = failing(&c.prog, o).into_iter().filter(|x| *x != (v.tid, v.op)).collect();
    let mine: Vec<Fault> = c.faults.iter().copied().filter(|f| (f.tid, f.op) == (v.tid, v.op)).collect();
    let clean = shm.run(&Case { prog: without(&c.prog, &fails), faults: mine.clone(), ..c.clone() });
    let needs_fail = !has(&clean.viols, &v);
    if needs_fail {
        add(&mut v, "C02");
        let refused: Vec<(u32, u32)> = fails.iter().copied().filter(|x| rec(o, *x).refuse == 1).collect();
        let only = shm.run(&Case { prog: without(&c.prog, &refused), ..c.clone() });
        if !refused.is_empty() && !has(&only.viols, &v) {
            add(&mut v, "C15");
        }
        let eig = |t: u32, i: u32| op(&c.prog, t, i).map_or(false, |q| q.k == K::Eigs);
        if c.faults.iter().any(|f| eig(f.tid, f.op)) || fails.iter().any(|f| eig(f.0, f.1)) {
            add(&mut v, "C18");
        }
    }
    if let Some(g) = c.guest.as_ref().filter(|g| !g.faults.is_empty()) {
        let calm = Guest { faults: vec![], ..g.clone() };
        if !has(&shm.run(&Case { guest: Some(calm), ..c.clone() }).viols, &v) {
            add(&mut v, "C02");
        }
    }
    if needs_sched {
        add(&mut v, "C01");
    }
    if !needs_sched && !needs_fail {
        add(&mut v, "C04");
    }
    v
}

pub fn diff_viol(p: &Program, tid: u32, i: u32, tag: &str, msg: &str) -> Viol {
    Viol { tags: vec![tag.into()], tid, op: i, k: op(p, tid, i).map_or("?".into(), |o| format!("{:?}", o.k)), msg: msg.into() }
}

/// Everything wrong with a case, by the oracle and, if asked, by comparison
/// with an undisturbed run of the same program.
#[derive(Clone, Copy, PartialEq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Mode {
    Oracle,
    /// compare with the sequential run without faults
    VsAlone,
    /// compare with a run in a fresh process under another hash seed
    VsFresh,
}

pub fn reference(c: &Case, m: Mode) -> Option<Case> {
    match m {
        Mode::Oracle => None,
        Mode::VsAlone => Some(Case { prog: c.prog.clone(), faults: vec![], sched: SchedCfg::seq(), devs: None, hash: c.hash, past: None, guest: None }),
        Mode::VsFresh => Some(Case { prog: c.prog.clone(), faults: vec![], sched: SchedCfg::seq(), devs: None, hash: c.hash ^ 0x5555_1234, past: None, guest: None }),
    }
}

pub fn compare(shm: &Shm, c: &Case, m: Mode, o: &Outcome, r: &Outcome) -> Vec<Viol> {
    if o.end != End::Done || r.end != End::Done {
        return vec![];
    }
    let mut v = vec![];
    for (t, i) in differ(&c.prog, r, o).into_iter().take(3) {
        v.push(match m {
            Mode::VsFresh => diff_viol(&c.prog, t, i, "C04", "the answer differs from that of a fresh process with other hash seeds"),
            _ if c.calm() => diff_viol(&c.prog, t, i, "C01", "the answer differs from that of the same call run alone"),
            _ => {
                let mut x = diff_viol(&c.prog, t, i, "C02", "the answer differs from that given had the failed call never been made");
                let nf = Case { faults: vec![], guest: c.guest.clone().map(|g| Guest { faults: vec![], ..g }), ..c.clone() };
                let q = shm.run(&nf);
                if q.end == End::Done && differ(&c.prog, r, &q).contains(&(t, i)) {
                    x.tags = vec!["C01".into()];
                    x.msg = "the answer differs from that of the same call run alone".into();
                }
                x
            }
        });
    }
    v
}

/// Full evaluation of a case for one property: the violations that count
/// against it. Used for replaying and minimising.
pub fn violations(shm: &Shm, c: &Case, m: Mode, prop: &str) -> (Vec<Viol>, Outcome) {
    let o = shm.run(c);
    let mut all = o.viols.clone();
    if let Some(rc) = reference(c, m) {
        let r = shm.run(&rc);
        all.extend(compare(shm, c, m, &o, &r));
    }
    let mut out = vec![];
    for v in all {
        if v.tags.iter().any(|t| t == prop) {
            out.push(v);
        } else if circumstantial(prop) && out.is_empty() {
            let w = attribute(shm, c, &o, &v);
            if w.tags.iter().any(|t| t == prop) {
                out.push(w);
            }
        }
    }
    (out, o)
}
