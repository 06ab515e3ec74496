//! The seeded search: from a seed to programs, schedules and faults.
use crate::case::*;
use crate::judge::*;
use crate::shm::Shm;
use model::gen::{program, Rand};
use model::*;
use simrt::rng::{mix2, Rng};
use simrt::SchedCfg;
use work::world::{BROKEN, ERR, INJECTED, OK, PANIC, SKIP};

pub struct R(pub Rng);
impl Rand for R {
    fn next(&mut self) -> u64 {
        self.0.next()
    }
}

/// A violation found, ready to be minimised.
pub struct Found {
    pub case: Case,
    pub mode: Mode,
    pub viol: Viol,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub seeds: u64,
    pub runs: u64,
    pub interleaved: u64,
    pub steps: u64,
    pub clock: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocked: u64,
    pub timeouts: u64,
    pub calls: u64,
    pub judged: u64,
    pub refused: u64,
    pub skipped: u64,
    pub compared: u64,
    pub f_scalar: u64,
    pub f_death: u64,
    pub f_solver: u64,
    pub f_missed: u64,
    pub hash_reseeds: u64,
    pub pasts: u64,
    pub locked_objs: u64,
    pub lost: u64,
    pub other: u64,
    pub eigs_ok: u64,
    pub eigs_err: u64,
    pub solver_calls: u64,
    pub nontrivial: u64,
    pub broken: u64,
    pub repeats: u64,
    pub open: u64,
    pub guests: u64,
    pub guest_faults: u64,
    pub per_kind: Vec<u64>,
}

pub const NSTAT: usize = 32;

impl Stats {
    pub fn flat(&self) -> Vec<u64> {
        let mut v = vec![
            self.seeds, self.runs, self.interleaved, self.steps, self.clock, self.switches, self.preempts, self.blocked, self.timeouts, self.calls,
            self.judged, self.refused, self.skipped, self.compared, self.f_scalar, self.f_death, self.f_solver, self.f_missed, self.hash_reseeds, self.pasts,
            self.locked_objs, self.lost, self.other, self.eigs_ok, self.eigs_err, self.solver_calls, self.nontrivial,
            self.broken, self.repeats, self.open, self.guests, self.guest_faults,
        ];
        v.extend(&self.per_kind);
        v
    }
    pub fn add_flat(&mut self, f: &[u64]) {
        let mut mine = self.flat();
        mine.resize(f.len().max(mine.len()), 0);
        for (a, b) in mine.iter_mut().zip(f) {
            *a += b;
        }
        let m = |i: usize| mine[i];
        *self = Stats {
            seeds: m(0), runs: m(1), interleaved: m(2), steps: m(3), clock: m(4), switches: m(5), preempts: m(6), blocked: m(7), timeouts: m(8), calls: m(9),
            judged: m(10), refused: m(11), skipped: m(12), compared: m(13), f_scalar: m(14), f_death: m(15), f_solver: m(16), f_missed: m(17), hash_reseeds: m(18),
            pasts: m(19), locked_objs: m(20), lost: m(21), other: m(22), eigs_ok: m(23), eigs_err: m(24), solver_calls: m(25), nontrivial: m(26), broken: m(27), repeats: m(28), open: m(29), guests: m(30), guest_faults: m(31),
            per_kind: mine[NSTAT..].to_vec(),
        };
    }
}

pub struct Search<'a> {
    pub shm: &'a Shm,
    pub prop: &'a str,
    pub base: u64,
    pub st: Stats,
    /// identities of the non-trivial runs
    pub ids: Vec<u64>,
    /// identities of the interleavings
    pub ils: Vec<u64>,
    pub attrib_left: u32,
    pub hash_all: u64,
    pub samples: Vec<serde_json::Value>,
}

/// Other work for the same threads: a program on any types, some of its calls
/// failing.
fn guest(r: &mut R, prop: &str) -> Guest {
    let prop = if r.pct(50) { prop } else { "C01" };
    let mut prog = program(r, prop);
    for o in prog.threads.iter_mut().flatten() {
        // calls on malformed operands may do anything
        if o.k == K::Broken {
            *o = Op::new(K::Nop);
        }
    }
    let mut faults = vec![];
    if r.pct(50) {
        for (t, v) in prog.threads.iter().enumerate() {
            for i in 0..v.len() {
                if r.pct(20) {
                    let n = [4, 40, 400][r.us(3)];
                    let n = r.below(n);
                    let kind = if v[i].k == K::Eigs { FaultKind::SolverInfo(r.us(3) as u32, [1, 3, -8, -9, -9999][r.us(5)]) } else { FaultKind::Scalar(n) };
                    faults.push(Fault { tid: t as u32, op: i as u32, kind });
                }
            }
        }
    }
    Guest { prog, faults }
}

fn schedule(r: &mut R, planned: Option<(&Program, &Outcome)>) -> SchedCfg {
    let mut s = SchedCfg::seq();
    s.seed = r.next();
    s.boundary = [0, 64, 160, 256][r.us(4)];
    s.fine = r.pct(25);
    let style = r.below(if planned.is_some() { 6 } else { 4 });
    match style {
        0 => {
            s.boundary = [128, 200, 256][r.us(3)];
        }
        1 => {
            s.gap = 1 << (1 + r.us(10));
            s.cap = [2, 5, 30, 200, 2000][r.us(5)];
        }
        2 => {
            s.special = [10, 40, 128][r.us(3)];
            s.cap = [5, 50, 500][r.us(3)];
        }
        3 => {
            s.edge_mod = [3, 10, 40, 120][r.us(4)];
            s.edge_p = [30, 100, 256][r.us(3)];
            s.cap = [3, 20, 300][r.us(3)];
        }
        _ => {
            let (p, o) = planned.unwrap();
            let d = 1 + r.us(4);
            s.cap = 16;
            s.boundary = [0, 0, 100][r.us(3)];
            for _ in 0..d {
                let t = r.us(p.threads.len());
                // inside the calls, weighted by their length
                let tot: u64 = o.recs[t + 1].iter().map(|x| x.steps).sum();
                if tot == 0 {
                    continue;
                }
                let mut at = r.below(tot);
                for (i, x) in o.recs[t + 1].iter().enumerate() {
                    if at < x.steps {
                        s.plan.push((t as u32, i as u32, at + 1));
                        break;
                    }
                    at -= x.steps;
                }
            }
        }
    }
    s
}

fn faults(r: &mut R, p: &Program, o: &Outcome, max: usize) -> Vec<Fault> {
    let mut f: Vec<Fault> = vec![];
    let mut c: Vec<(u32, u32)> = vec![];
    for t in 0..p.threads.len() {
        for (i, x) in o.recs[t + 1].iter().enumerate() {
            if x.scal > 0 || x.solver > 0 {
                c.push((t as u32, i as u32));
            }
        }
    }
    if c.is_empty() {
        return f;
    }
    // one kind of call fails again and again
    let (t0, i0) = c[r.us(c.len())];
    let same: Vec<(u32, u32)> = c.iter().copied().filter(|x| x.0 == t0 && p.threads[t0 as usize][x.1 as usize].k == p.threads[t0 as usize][i0 as usize].k).collect();
    if same.len() > 3 && r.pct(25) {
        c = same;
        let k = c.len() - 1 - r.us(2);
        c.truncate(k.min(40));
        for (t, i) in c {
            let x = &o.recs[t as usize + 1][i as usize];
            if x.solver == 0 && r.pct(90) {
                let at = r.below(x.scal);
                f.push(Fault { tid: t, op: i, kind: if r.pct(8) { FaultKind::Death(at) } else { FaultKind::Scalar(at) } });
            }
        }
        return f;
    }
    for _ in 0..1 + r.us(max) {
        let (t, i) = c[r.us(c.len())];
        if f.iter().any(|x| x.tid == t && x.op == i) {
            continue;
        }
        let x = &o.recs[t as usize + 1][i as usize];
        let kind = if x.solver > 0 {
            // the last call is the extraction of the eigenvectors
            let n = match r.below(4) {
                0 => x.solver - 1,
                1 => 0,
                _ => r.below(x.solver as u64) as u32,
            };
            let info = if r.pct(30) { [2, 3, 4, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12, -13, -14][r.us(17)] } else if n == x.solver - 1 { [1, 1, -14, -8, -15, -9999][r.us(6)] } else { [1, 3, -8, -9, -9999][r.us(5)] };
            FaultKind::SolverInfo(n, info)
        } else {
            let at = match r.below(5) {
                0 => x.scal - 1,
                1 => r.below(x.scal.min(4)),
                _ => r.below(x.scal),
            };
            if r.pct(25) { FaultKind::Death(at) } else { FaultKind::Scalar(at) }
        };
        f.push(Fault { tid: t, op: i, kind });
    }
    f
}

impl<'a> Search<'a> {
    pub fn new(shm: &'a Shm, prop: &'a str, base: u64) -> Self {
        let st = Stats { per_kind: vec![0; ALL_K.len()], ..Stats::default() };
        Search { shm, prop, base, st, ids: vec![], ils: vec![], attrib_left: 60, hash_all: 0, samples: vec![] }
    }

    fn bit(&self) -> u32 {
        1 << self.prop[1..].parse::<u32>().unwrap_or(0)
    }

    fn run(&mut self, c: &Case) -> Outcome {
        let mut o = self.shm.run(c);
        if o.end == End::Lost {
            self.st.lost += 1;
            o = self.shm.run(c);
        }
        self.count(c, &o);
        o
    }

    fn count(&mut self, c: &Case, o: &Outcome) {
        let bit = self.bit();
        let s = &mut self.st;
        s.runs += 1;
        s.open += (o.end == End::Open) as u64;
        s.steps += o.steps;
        s.clock += o.clock;
        s.switches += o.switches;
        s.preempts += o.preempts;
        s.blocked += o.blocked;
        s.timeouts += o.timeouts;
        s.locked_objs += c.prog.locked.len() as u64;
        s.pasts += c.past.is_some() as u64;
        s.guests += c.guest.is_some() as u64;
        s.guest_faults += c.guest.as_ref().map_or(0, |g| g.faults.len() as u64);
        let mut mine = 0u64;
        let mut refused = 0;
        let mut broken = 0;
        for (g, v) in o.recs.iter().enumerate() {
            let ops = if g == 0 { &c.prog.prelude } else { &c.prog.threads[g - 1] };
            for (i, r) in v.iter().enumerate() {
                if r.status <= SKIP {
                    s.skipped += 1;
                    continue;
                }
                s.calls += 1;
                s.per_kind[ops[i].k as usize] += 1;
                s.refused += (r.refuse == 1) as u64;
                s.broken += (r.refuse == BROKEN) as u64;
                refused += (r.refuse == 1) as u64;
                broken += (r.refuse == BROKEN) as u64;
                s.repeats += ops[i].n as u64;
                s.solver_calls += r.solver as u64;
                if r.own & bit != 0 {
                    mine += 1;
                }
                if ops[i].k == K::Eigs {
                    match r.status {
                        OK => s.eigs_ok += 1,
                        ERR | PANIC | INJECTED => s.eigs_err += 1,
                        _ => {}
                    }
                }
            }
        }
        let mut fired = 0;
        for f in &c.faults {
            let r = &o.recs[f.tid as usize + 1][f.op as usize];
            if r.fired == 0 {
                s.f_missed += 1;
                continue;
            }
            fired += 1;
            match f.kind {
                FaultKind::Scalar(_) => s.f_scalar += 1,
                FaultKind::Death(_) => s.f_death += 1,
                FaultKind::SolverInfo(..) => s.f_solver += 1,
            }
        }
        let calls: u64 = o.recs.iter().flatten().filter(|r| r.status > SKIP).count() as u64;
        let mine = match self.prop {
            "C01" | "C02" | "C04" | "C14" => calls,
            "C15" => refused,
            "C18" => fired + refused,
            _ => mine,
        };
        s.judged += mine;
        let nontrivial = match self.prop {
            "C01" => o.preempts + o.blocked > 0,
            "C02" => fired + refused + broken > 0,
            _ => mine > 0,
        };
        if o.switches > 0 {
            s.interleaved += 1;
            self.ils.push(o.ilhash);
        }
        let pid = model::digest(&serde_json::to_string(&(&c.prog, &c.faults, c.hash, &c.guest)).unwrap());
        if nontrivial {
            s.nontrivial += 1;
            self.ids.push(mix2(pid, o.ilhash));
        }
        let mut h = mix2(pid, o.ilhash);
        for r in o.recs.iter().flatten() {
            h = mix2(h, r.digest ^ r.steps.rotate_left(20) ^ r.scal.rotate_left(40) ^ (r.status as u64));
        }
        h = mix2(h, o.steps ^ (o.viols.len() as u64) << 50);
        self.hash_all = self.hash_all.wrapping_add(h);
    }

    fn check(&mut self, c: &Case, m: Mode, o: &Outcome, r: Option<&Outcome>) -> Option<Found> {
        let mut all = o.viols.clone();
        if let Some(r) = r {
            self.st.compared += o.recs.iter().flatten().filter(|r| r.status > SKIP).count() as u64;
            all.extend(compare(self.shm, c, m, o, r));
        }
        if all.is_empty() {
            return None;
        }
        let mut tried = 0;
        for v in &all {
            let v = if v.tags.iter().any(|t| t == self.prop) {
                v.clone()
            } else if circumstantial(self.prop) && tried < 3 && self.attrib_left > 0 {
                tried += 1;
                self.attrib_left -= 1;
                attribute(self.shm, c, o, v)
            } else {
                continue;
            };
            if v.tags.iter().any(|t| t == self.prop) {
                return Some(Found { case: c.clone(), mode: m, viol: v });
            }
        }
        self.st.other += 1;
        None
    }

    /// Everything seed number `i` stands for.
    pub fn seed(&mut self, i: u64) -> Option<Found> {
        let mut r = R(Rng::new(mix2(self.base, i)));
        let prog = program(&mut r, self.prop);
        let hash = r.next();
        self.st.seeds += 1;
        let base = Case::new(prog, hash);
        if self.samples.len() < 2 && i % 7 == 3 {
            self.samples.push(sample(&base, i));
        }
        let (with_a, n_b, p_fault, p_sched, with_c) = match self.prop {
            "C01" => (true, 2, 15, 100, false),
            "C02" => (true, 2, 100, 60, false),
            "C04" => (true, 0, 0, 0, true),
            "C18" => (true, 2, 85, 70, false),
            "C17" => (r.pct(30), 1, 20, 90, false),
            "C03" | "C06" | "C14" | "C20" => (r.pct(40), 1, 70, 60, r.pct(10)),
            "C15" => (r.pct(15), 1, 30, 50, r.pct(5)),
            _ => (r.pct(20), 1, 50, 50, r.pct(8)),
        };
        let p_guest = match self.prop {
            "C01" | "C02" => 20,
            "C17" | "C18" => 10,
            _ => 8,
        };
        let mut a = None;
        if with_a || with_c {
            let o = self.run(&base);
            if let Some(f) = self.check(&base, Mode::Oracle, &o, None) {
                return Some(f);
            }
            if o.end == End::Done {
                a = Some(o);
            }
        }
        for _ in 0..n_b {
            let mut c = base.clone();
            let sched = base.prog.threads.len() > 1 && r.pct(p_sched);
            if sched {
                c.sched = schedule(&mut r, a.as_ref().map(|o| (&base.prog, o)));
            }
            if let (Some(o), true) = (&a, r.pct(p_fault)) {
                c.faults = faults(&mut r, &base.prog, o, 3);
            }
            if r.pct(p_guest) {
                c.guest = Some(guest(&mut r, self.prop));
            }
            if a.is_some() && !sched && c.faults.is_empty() && c.guest.is_none() {
                continue;
            }
            let o = self.run(&c);
            let m = if a.is_some() { Mode::VsAlone } else { Mode::Oracle };
            if let Some(f) = self.check(&c, m, &o, a.as_ref()) {
                return Some(f);
            }
        }
        if let (true, Some(a)) = (with_c, &a) {
            // reference: this seed's program in a fresh process (hash seed h);
            // compared: other hash seeds, another past, callers in another order
            let mut c = base.clone();
            c.hash = base.hash ^ 0x5555_1234;
            if r.pct(70) {
                c.past = Some(program(&mut r, self.prop));
            }
            if r.pct(25) {
                c.guest = Some(guest(&mut r, self.prop));
            }
            c.sched.boundary = [0, 256][r.us(2)];
            c.sched.seed = r.next();
            self.st.hash_reseeds += 1;
            let o = self.run(&c);
            if let Some(f) = self.check(&c, Mode::VsFresh, &o, Some(a)) {
                return Some(f);
            }
        }
        None
    }
}

fn sample(c: &Case, seed: u64) -> serde_json::Value {
    let mut p = c.prog.clone();
    for o in p.prelude.iter_mut().chain(p.threads.iter_mut().flatten()) {
        o.l.truncate(4);
        o.v.truncate(4);
        o.p.truncate(12);
    }
    p.prelude.truncate(4);
    for t in p.threads.iter_mut() {
        t.truncate(6);
    }
    serde_json::json!({ "seed": seed, "types": COMBOS[c.prog.combo as usize].name, "callers": c.prog.threads.len(),
        "operations": c.prog.threads.iter().map(|t| t.len()).sum::<usize>(), "program_head": serde_json::to_value(&p).unwrap() })
}
