//! Reduces a violating case: callers, operations, decisions, faults, data.
use crate::case::*;
use crate::judge::*;
use crate::shm::Shm;
use model::*;
use simrt::{SchedCfg, Why};
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub shm: &'a Shm,
    pub mode: Mode,
    pub prop: String,
    pub k: String,
    pub left: u32,
    pub until: Instant,
    pub tried: u32,
}

impl<'a> Min<'a> {
    pub fn new(shm: &'a Shm, mode: Mode, prop: &str, k: &str) -> Self {
        Min { shm, mode, prop: prop.into(), k: k.into(), left: 1500, until: Instant::now() + Duration::from_secs(25), tried: 0 }
    }
    /// The budget is spent.
    fn over(&self) -> bool {
        self.left == 0 || Instant::now() > self.until
    }
    fn bad(&mut self, c: &Case) -> bool {
        if self.over() {
            return false;
        }
        self.left -= 1;
        self.tried += 1;
        let (v, _) = violations(self.shm, c, self.mode, &self.prop);
        v.iter().any(|x| x.k == self.k)
    }

    /// Smallest case found that still breaks the property in the same call.
    pub fn run(&mut self, c: Case) -> Case {
        let mut c = c;
        // without interleaving, without faults, without a past
        for t in [
            Case { sched: SchedCfg::seq(), devs: None, faults: vec![], past: None, guest: None, ..c.clone() },
            Case { guest: None, ..c.clone() },
            Case { guest: c.guest.clone().map(|g| Guest { faults: vec![], ..g }), ..c.clone() },
            Case { sched: SchedCfg::seq(), devs: None, ..c.clone() },
            Case { faults: vec![], ..c.clone() },
            Case { past: None, ..c.clone() },
            Case { prog: Program { scale: 0, ..c.prog.clone() }, ..c.clone() },
        ] {
            if t != c && self.bad(&t) {
                c = t;
            }
        }
        if c.devs.is_none() && c.sched != SchedCfg::seq() {
            let o = self.shm.run(&c);
            if o.devs.len() < simrt::DEV_CAP as usize {
                let t = Case { devs: Some(o.devs), sched: SchedCfg { fine: c.sched.fine, ..SchedCfg::seq() }, ..c.clone() };
                if self.bad(&t) {
                    c = t;
                }
            }
        }
        for round in 0..3 {
            let before = c.clone();
            c = self.devs(c);
            c = self.ops(c);
            c = self.guest(c);
            c = self.faults(c);
            c = self.data(c, round);
            if c == before {
                break;
            }
        }
        c
    }

    fn devs(&mut self, mut c: Case) -> Case {
        let mut chunk = c.devs.as_ref().map_or(0, |d| d.len()).div_ceil(2).max(1);
        loop {
            let n = c.devs.as_ref().map_or(0, |d| d.len());
            let mut i = 0;
            while i < c.devs.as_ref().map_or(0, |d| d.len()) && !self.over() {
                let mut t = c.clone();
                let d = t.devs.as_mut().unwrap();
                d.drain(i..(i + chunk).min(d.len()));
                if self.bad(&t) {
                    c = t;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                if c.devs.as_ref().map_or(0, |d| d.len()) == n {
                    return c;
                }
            } else {
                chunk = chunk.div_ceil(2);
            }
            if self.over() || n == 0 {
                return c;
            }
        }
    }

    fn ops(&mut self, mut c: Case) -> Case {
        // whole callers
        for t in 0..c.prog.threads.len() {
            let mut x = c.clone();
            if x.prog.threads[t].iter().all(|o| o.k == K::Nop) {
                continue;
            }
            for o in x.prog.threads[t].iter_mut() {
                *o = Op::new(K::Nop);
            }
            if self.bad(&x) {
                c = x;
            }
        }
        // ranges, then single operations, from the end
        let total: Vec<(usize, usize)> = (0..=c.prog.threads.len())
            .flat_map(|g| {
                let n = if g == 0 { c.prog.prelude.len() } else { c.prog.threads[g - 1].len() };
                (0..n).map(move |i| (g, i))
            })
            .rev()
            .collect();
        let mut chunk = (total.len() / 2).max(1);
        loop {
            for part in total.chunks(chunk) {
                let mut x = c.clone();
                let mut any = false;
                for &(g, i) in part {
                    let o = if g == 0 { &mut x.prog.prelude[i] } else { &mut x.prog.threads[g - 1][i] };
                    if o.k != K::Nop {
                        *o = Op::new(K::Nop);
                        any = true;
                    }
                }
                if any && self.bad(&x) {
                    c = x;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 4).max(1);
        }
        // trailing no-ops carry nothing
        let mut x = c.clone();
        for v in x.prog.threads.iter_mut() {
            while v.last().map_or(false, |o| o.k == K::Nop) {
                v.pop();
            }
        }
        if x != c && self.bad(&x) {
            c = x;
        }
        c
    }

    /// Less of the work on other types.
    fn guest(&mut self, mut c: Case) -> Case {
        let Some(g) = &c.guest else { return c };
        let total: Vec<(usize, usize)> = (0..=g.prog.threads.len())
            .flat_map(|k| {
                let n = if k == 0 { g.prog.prelude.len() } else { g.prog.threads[k - 1].len() };
                (0..n).map(move |i| (k, i))
            })
            .rev()
            .collect();
        let mut chunk = (total.len() / 2).max(1);
        loop {
            for part in total.chunks(chunk) {
                let mut x = c.clone();
                let p = &mut x.guest.as_mut().unwrap().prog;
                for &(k, i) in part {
                    let o = if k == 0 { &mut p.prelude[i] } else { &mut p.threads[k - 1][i] };
                    *o = Op::new(K::Nop);
                }
                if x != c && self.bad(&x) {
                    c = x;
                }
            }
            if chunk == 1 || self.over() {
                return c;
            }
            chunk = (chunk / 4).max(1);
        }
    }

    fn faults(&mut self, mut c: Case) -> Case {
        let mut i = 0;
        while i < c.faults.len() {
            let mut x = c.clone();
            x.faults.remove(i);
            if self.bad(&x) {
                c = x;
                continue;
            }
            if let FaultKind::Death(n) = c.faults[i].kind {
                let mut x = c.clone();
                x.faults[i].kind = FaultKind::Scalar(n);
                if self.bad(&x) {
                    c = x;
                }
            }
            i += 1;
        }
        c
    }

    fn data(&mut self, mut c: Case, round: usize) -> Case {
        if c.prog.threads.iter().flatten().any(|o| o.k == K::Eigs) {
            // the spectrum noted with the request belongs to the matrix as it is
            return c;
        }
        let groups = c.prog.threads.len() + 1;
        for g in 0..groups {
            let n = if g == 0 { c.prog.prelude.len() } else { c.prog.threads[g - 1].len() };
            for i in 0..n {
                let get = |c: &Case| if g == 0 { c.prog.prelude[i].clone() } else { c.prog.threads[g - 1][i].clone() };
                let put = |c: &Case, o: Op| {
                    let mut x = c.clone();
                    if g == 0 { x.prog.prelude[i] = o } else { x.prog.threads[g - 1][i] = o }
                    x
                };
                // entries of literals, in halves down to single ones
                let mut chunk = (get(&c).l.len() / 2).max(1);
                while !get(&c).l.is_empty() && !self.over() {
                    let mut k = 0;
                    while k < get(&c).l.len() && !self.over() {
                        let mut o = get(&c);
                        o.l.drain(k..(k + chunk).min(o.l.len()));
                        let x = put(&c, o);
                        if self.bad(&x) {
                            c = x;
                        } else {
                            k += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
                if round == 0 {
                    // small values
                    let mut o = get(&c);
                    for (q, e) in o.l.iter_mut().enumerate() {
                        if e[2].unsigned_abs() > 9 {
                            e[2] = 2 + q as i64 % 7;
                        }
                    }
                    let x = put(&c, o);
                    if x != c && self.bad(&x) {
                        c = x;
                    }
                }
            }
        }
        c
    }
}

/// Number of switches inside calls that remain.
pub fn preemptions(c: &Case) -> usize {
    c.devs.as_ref().map_or(0, |d| d.iter().filter(|x| x.why == Why::Preempt).count())
}
