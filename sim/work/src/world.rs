//! Runs a program: shared objects, per-caller objects, and the comparison of
//! every call with the reference model.
use crate::combos::*;
use crate::exec::*;
use crate::solver;
use model::*;
use simrt::{op_boundary, run_threads, sim, End, Injected, TLS};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};

pub const NOTRUN: u8 = 0;
pub const SKIP: u8 = 1;
pub const OK: u8 = 2;
pub const ERR: u8 = 3;
pub const PANIC: u8 = 4;
pub const INJECTED: u8 = 5;

/// Rec::refuse of a call that was given a malformed operand.
pub const BROKEN: u8 = 2;

/// What one call did.
#[derive(Clone, Copy, Default, Debug)]
#[repr(C)]
pub struct Rec {
    pub digest: u64,
    pub scal: u64,
    pub steps: u64,
    pub status: u8,
    pub fired: u8,
    /// the model said the request must be refused
    pub refuse: u8,
    /// result the model has no exact digest for
    pub loose: u8,
    pub solver: u32,
    /// bit n: the call was judged for property Cn
    pub own: u32,
}

pub struct Trace {
    /// index 0: prelude, 1 + tid: callers
    pub recs: Vec<Vec<Rec>>,
    pub viols: Vec<Viol>,
}

enum Slot<I, T> {
    Plain(Obj<I, T>),
    Mutex(Mutex<Obj<I, T>>),
    Rw(RwLock<Obj<I, T>>),
}

struct World<C: Combo> {
    ci: &'static Ci,
    prog: Program,
    faults: BTreeMap<(u32, u32), FaultKind>,
    shared: UnsafeCell<Vec<Option<(Slot<C::I, C::T>, Raw)>>>,
    own: UnsafeCell<Vec<Vec<Option<(Obj<C::I, C::T>, Raw)>>>>,
    trace: UnsafeCell<Trace>,
    hook: fn(u32, u32),
}
// Only the token holder ever touches the cells.
unsafe impl<C: Combo> Sync for World<C> {}
unsafe impl<C: Combo> Send for World<C> {}

pub const PRELUDE: u32 = 99;

enum Guard<'a, X> {
    Plain(&'a X),
    M(MutexGuard<'a, X>),
    R(RwLockReadGuard<'a, X>),
    W(RwLockWriteGuard<'a, X>),
}

impl<'a, X> Guard<'a, X> {
    fn get(&self) -> &X {
        match self {
            Guard::Plain(x) => x,
            Guard::M(g) => g,
            Guard::R(g) => g,
            Guard::W(g) => g,
        }
    }
    fn get_mut(&mut self) -> &mut X {
        match self {
            Guard::M(g) => g,
            Guard::W(g) => g,
            _ => unreachable!(),
        }
    }
}

fn out_of<C: Combo>(
    r: Result<Result<Val<C>, String>, Box<dyn std::any::Any + Send>>,
) -> (Out, Option<Obj<C::I, C::T>>) {
    match r {
        Ok(Ok(v)) => {
            let (r, o) = to_res(v);
            (Out::Ok(r), o)
        }
        Ok(Err(e)) => (Out::Err(e), None),
        Err(p) => (panic_out(p), None),
    }
}

/// The same call many times over; the last answer, or the first that differs.
///
/// The history is not to make a call dearer, nor to leave memory behind: what
/// the last quarter took is told against the first, as a third result.
#[allow(clippy::type_complexity)]
fn again<C: Combo>(at: u64, op: &Op, objs: &[&Obj<C::I, C::T>]) -> (Out, Option<Obj<C::I, C::T>>, Option<&'static str>) {
    let mut first = None;
    let mut last = (Out::Injected, None);
    let mut took: Vec<(u64, i64)> = Vec::with_capacity(op.n as usize + 1);
    let r = simrt::op(at, || {
        for _ in 0..=op.n {
            last = (Out::Injected, None);
            let from = TLS.with(|t| t.step.get());
            last = out_of::<C>(Ok(exec::<C>(op, objs)));
            took.push(TLS.with(|t| (t.step.get() - from, t.held.get())));
            let d = out_digest(&last.0);
            if *first.get_or_insert(d) != d || TLS.with(|t| t.step.get()) > 5_000_000 {
                break;
            }
        }
    });
    let q = took.len() / 4;
    let dear = if q < 20 {
        None
    } else {
        let (mut a, mut b) = (0, 0);
        for k in 0..q {
            a += took[k].0;
            b += took[took.len() - 1 - k].0;
        }
        let (a, b) = (a / q as u64, b / q as u64);
        let left = took[took.len() - 1].1 - took[q].1;
        if b > 2 * a + 1000 {
            Some("the same call takes more and more steps")
        } else if left > 20_000 && left > 8 * (took.len() - q) as i64 {
            Some("the same call leaves more and more memory behind")
        } else {
            None
        }
    };
    match r {
        Ok(()) => (last.0, last.1, dear),
        Err(p) => (panic_out(p), None, dear),
    }
}

fn panic_out(p: Box<dyn std::any::Any + Send>) -> Out {
    if p.is::<Injected>() {
        Out::Injected
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Out::Panic(s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Out::Panic(s.clone())
    } else {
        Out::Panic("panic".into())
    }
}

impl<C: Combo> World<C> {
    #[allow(clippy::mut_from_ref)]
    fn shared(&self) -> &mut Vec<Option<(Slot<C::I, C::T>, Raw)>> {
        unsafe { &mut *self.shared.get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn own(&self, tid: usize) -> &mut Vec<Option<(Obj<C::I, C::T>, Raw)>> {
        unsafe { &mut (&mut *self.own.get())[tid] }
    }
    #[allow(clippy::mut_from_ref)]
    fn trace(&self) -> &mut Trace {
        unsafe { &mut *self.trace.get() }
    }

    /// Runs operation `i` of caller `tid`; true if the caller dies of it.
    fn step(&self, tid: u32, i: u32, op: &Op, prelude: bool) -> bool {
        let ti = if prelude { 0 } else { tid as usize + 1 };
        let mut rec = Rec::default();
        rec.status = SKIP;
        let fault = if prelude { None } else { self.faults.get(&(tid, i)).copied() };
        let mut died = false;
        self.run1(tid, i, op, prelude, fault, &mut rec, &mut died);
        rec.steps = TLS.with(|t| t.step.get());
        self.trace().recs[ti][i as usize] = rec;
        died
    }

    #[allow(clippy::too_many_arguments)]
    fn run1(&self, tid: u32, i: u32, op: &Op, prelude: bool, fault: Option<FaultKind>, rec: &mut Rec, died: &mut bool) {
        if op.k == K::Drop {
            if !prelude && op.a[0] >= OWN {
                let o = self.own(tid as usize).get_mut((op.a[0] - OWN) as usize).and_then(|s| s.take());
                let _ = simrt::op(u64::MAX, move || drop(o));
            }
            return;
        }
        // ---- operands
        let mut locked: Option<usize> = None;
        for &r in &op.a {
            if r < OWN {
                match self.shared().get(r as usize) {
                    Some(Some((Slot::Plain(_), _))) => {
                        if op.mutates() && op.a[0] == r && !prelude {
                            return;
                        }
                    }
                    Some(Some(_)) => match locked {
                        None => locked = Some(r as usize),
                        Some(x) if x == r as usize => {}
                        Some(_) => return,
                    },
                    _ => return,
                }
            } else if prelude || self.own(tid as usize).get((r - OWN) as usize).map_or(true, |s| s.is_none()) {
                return;
            }
        }
        if op.mutates() {
            if op.a.len() != 1 {
                return;
            }
            // the edited operand is taken out of its slot (own or, in the prelude, shared)
            if op.a[0] >= OWN {
                let k = (op.a[0] - OWN) as usize;
                let (mut o, pre) = self.own(tid as usize)[k].take().unwrap();
                let post = self.edit(tid, i, op, prelude, fault, rec, died, &mut o, &pre);
                if let Some(post) = post {
                    self.own(tid as usize)[k] = Some((o, post));
                }
                return;
            }
            if locked.is_none() {
                let k = op.a[0] as usize;
                let (s, pre) = self.shared()[k].take().unwrap();
                if let Slot::Plain(mut o) = s {
                    let post = self.edit(tid, i, op, prelude, fault, rec, died, &mut o, &pre);
                    if let Some(post) = post {
                        self.shared()[k] = Some((Slot::Plain(o), post));
                    }
                }
                return;
            }
        }
        // ---- lock
        let mut guard: Option<Guard<Obj<C::I, C::T>>> = None;
        if let Some(k) = locked {
            let s: &Slot<C::I, C::T> = unsafe { &*(&self.shared()[k].as_ref().unwrap().0 as *const _) };
            let wr = op.mutates();
            let g = simrt::op(u64::MAX, || match s {
                Slot::Mutex(m) => Guard::M(m.lock().unwrap_or_else(|e| e.into_inner())),
                Slot::Rw(m) if wr => Guard::W(m.write().unwrap_or_else(|e| e.into_inner())),
                Slot::Rw(m) => Guard::R(m.read().unwrap_or_else(|e| e.into_inner())),
                Slot::Plain(o) => Guard::Plain(o),
            });
            guard = g.ok();
        }
        if op.mutates() {
            let mut g = guard.unwrap();
            let pre = raw(g.get());
            if pre.malformed().is_some() || pre.inexact {
                // reported when it came to be so
                let _ = simrt::op(u64::MAX, move || drop(g));
                return;
            }
            self.edit(tid, i, op, prelude, fault, rec, died, g.get_mut(), &pre);
            let _ = simrt::op(u64::MAX, move || drop(g));
            return;
        }
        // ---- plain call
        let lraw = guard.as_ref().map(|g| raw(g.get()));
        if lraw.as_ref().map_or(false, |w| w.malformed().is_some() || w.inexact) {
            let _ = simrt::op(u64::MAX, move || drop(guard));
            return;
        }
        let mut objs: Vec<&Obj<C::I, C::T>> = vec![];
        let mut raws: Vec<&Raw> = vec![];
        for &r in &op.a {
            if Some(r as usize) == locked {
                objs.push(guard.as_ref().unwrap().get());
                raws.push(lraw.as_ref().unwrap());
            } else if r < OWN {
                let (s, w) = unsafe { &*(self.shared()[r as usize].as_ref().unwrap() as *const (Slot<C::I, C::T>, Raw)) };
                if let Slot::Plain(o) = s {
                    objs.push(o);
                    raws.push(w);
                }
            } else {
                let (o, w) = unsafe { &*(self.own(tid as usize)[(r - OWN) as usize].as_ref().unwrap() as *const (Obj<C::I, C::T>, Raw)) };
                objs.push(o);
                raws.push(w);
            }
        }
        let exp = oracle::expect(self.ci, op, &raws);
        let mut keep = None;
        if !matches!(exp.ret, oracle::Want::Skip) {
            (self.hook)(if prelude { PRELUDE } else { tid }, i);
            let sf = self.arm(fault);
            let at = fault_at(fault);
            let (out, obj, dear) = if op.n == 0 {
                let (out, obj) = out_of::<C>(simrt::op(at, || exec::<C>(op, &objs)));
                (out, obj, None)
            } else {
                again::<C>(at, op, &objs)
            };
            let cost = simrt::cost();
            rec.own = own_bits(op, &raws) | (exp.near.is_some() as u32) << 22;
            let over = self.cost(op, &raws, &out, cost, rec);
            self.disarm(rec, &out, fault, sf, died);
            rec.refuse = if op.k == K::Broken { BROKEN } else { matches!(exp.ret, oracle::Want::Refuse(_)) as u8 };
            rec.digest = out_digest(&out);
            let mut bad = oracle::judge(op, &exp, &raws, &out, None, None, rec.fired != 0, solver::FIRED.with(|f| f.get()));
            bad.extend(over);
            bad.extend(dear.map(|m| (vec!["C23"], m.to_string())));
            for (o, w) in objs.iter().zip(&raws) {
                let now = raw(*o);
                if now != **w {
                    let mut t = owners(op.k, &[w.kind]);
                    if rec.refuse != 0 {
                        t.push("C15");
                    }
                    if rec.fired != 0 {
                        t.push("C02");
                    }
                    bad.push((t, "the call changed a read-only operand".into()));
                    break;
                }
            }
            self.report(tid, i, op, prelude, bad);
            keep = obj;
        }
        drop(objs);
        if let Some(g) = guard {
            let _ = simrt::op(u64::MAX, move || drop(g));
        }
        if let Some(o) = keep {
            let w = raw(&o);
            if w.malformed().is_none() && !w.inexact {
                if prelude {
                    let k = i as usize;
                    let s = if self.prog.locked.contains(&i) {
                        if k % 2 == 0 { Slot::Mutex(Mutex::new(o)) } else { Slot::Rw(RwLock::new(o)) }
                    } else {
                        Slot::Plain(o)
                    };
                    self.shared()[k] = Some((s, w));
                } else {
                    self.own(tid as usize)[i as usize] = Some((o, w));
                }
            }
        }
    }

    /// One in-place operation on `o`. Returns its state afterwards if usable.
    #[allow(clippy::too_many_arguments)]
    fn edit(
        &self, tid: u32, i: u32, op: &Op, prelude: bool, fault: Option<FaultKind>, rec: &mut Rec, died: &mut bool,
        o: &mut Obj<C::I, C::T>, pre: &Raw,
    ) -> Option<Raw> {
        let exp = oracle::expect(self.ci, op, &[pre]);
        if matches!(exp.ret, oracle::Want::Skip) {
            return Some(pre.clone());
        }
        (self.hook)(if prelude { PRELUDE } else { tid }, i);
        let at = fault_at(fault);
        let r = simrt::op(at, || exec_mut::<C>(op, o));
        let cost = simrt::cost();
        rec.own = own_bits(op, &[pre]) | (exp.near.is_some() as u32) << 22;
        let out = match r {
            Ok(Ok(())) => Out::Ok(Res::Unit),
            Ok(Err(e)) => Out::Err(e),
            Err(p) => panic_out(p),
        };
        let over = self.cost(op, &[pre], &out, cost, rec);
        self.disarm(rec, &out, fault, false, died);
        rec.refuse = matches!(exp.ret, oracle::Want::Refuse(_)) as u8;
        let post = raw(o);
        rec.digest = out_digest(&out) ^ model::digest(&post).rotate_left(1);
        let mut bad = oracle::judge(op, &exp, &[pre], &out, Some(pre), Some(&post), rec.fired != 0, false);
        bad.extend(over);
        self.report(tid, i, op, prelude, bad);
        if post.malformed().is_none() && !post.inexact {
            Some(post)
        } else {
            None
        }
    }

    /// Whether the call kept within its bounds of time and memory.
    fn cost(&self, op: &Op, raws: &[&Raw], out: &Out, cost: (u64, u64, u64), rec: &mut Rec) -> Option<(Vec<&'static str>, String)> {
        let (judged, bad) = oracle::costs(op, raws, out, cost);
        rec.own |= (judged as u32) << 23;
        bad.map(|m| (vec!["C23"], m.to_string()))
    }

    fn arm(&self, fault: Option<FaultKind>) -> bool {
        solver::CALLS.with(|c| c.set(0));
        solver::FIRED.with(|c| c.set(false));
        if let Some(FaultKind::SolverInfo(n, info)) = fault {
            solver::FAULT.with(|f| f.set((n, info)));
            return true;
        }
        solver::FAULT.with(|f| f.set((u32::MAX, 0)));
        false
    }

    fn disarm(&self, rec: &mut Rec, out: &Out, fault: Option<FaultKind>, _sf: bool, died: &mut bool) {
        rec.fired = TLS.with(|t| t.fired.get()) as u8;
        rec.scal = TLS.with(|t| t.scal.get());
        rec.solver = solver::CALLS.with(|c| c.get());
        if solver::FIRED.with(|f| f.get()) {
            rec.fired = 1;
            sim().fault_fired += 1;
        }
        rec.status = match out {
            Out::Ok(_) => OK,
            Out::Err(_) => ERR,
            Out::Panic(_) => PANIC,
            Out::Injected => INJECTED,
        };
        if let (Some(FaultKind::Death(_)), true) = (fault, rec.fired != 0) {
            *died = true;
        }
    }

    fn report(&self, tid: u32, i: u32, op: &Op, prelude: bool, bad: Vec<(Vec<&'static str>, String)>) {
        for (tags, msg) in bad {
            if self.trace().viols.len() < 64 {
                self.trace().viols.push(Viol {
                    tags: tags.iter().map(|s| s.to_string()).collect(),
                    tid: if prelude { PRELUDE } else { tid },
                    op: i,
                    k: format!("{:?}", op.k),
                    msg,
                });
            }
        }
    }

    /// Everything still held must be what it was.
    fn last_look(&self) {
        let mut bad: Vec<(u32, u32, Kind)> = vec![];
        for (k, s) in self.shared().iter().enumerate() {
            if let Some((Slot::Plain(o), w)) = s {
                if raw(o) != *w {
                    bad.push((PRELUDE, k as u32, w.kind));
                }
            }
        }
        for (t, v) in unsafe { (&*self.own.get()).iter().enumerate() } {
            for (k, s) in v.iter().enumerate() {
                if let Some((o, w)) = s {
                    if raw(o) != *w {
                        bad.push((t as u32, k as u32, w.kind));
                    }
                }
            }
        }
        for (t, k, _) in bad {
            let v = Viol {
                tags: vec!["C20".into(), "C14".into()],
                tid: t,
                op: k,
                k: "Held".into(),
                msg: "an object nobody edited has changed".into(),
            };
            self.trace().viols.push(v);
        }
    }
}

fn own_bits(op: &Op, raws: &[&Raw]) -> u32 {
    let kinds: Vec<Kind> = raws.iter().map(|r| r.kind).collect();
    owners(op.k, &kinds).iter().fold(0, |b, t| b | 1 << t[1..].parse::<u32>().unwrap())
}

fn fault_at(f: Option<FaultKind>) -> u64 {
    match f {
        Some(FaultKind::Scalar(n)) | Some(FaultKind::Death(n)) => n,
        _ => u64::MAX,
    }
}

/// Operation numbers of guests begin here.
pub const GUEST: u32 = 1 << 16;

/// What a guest does on a given thread while that thread's own work goes from
/// `at` to `at + 1` of `n` operations.
type GuestStep = Arc<dyn Fn(u32, usize, usize) + Send + Sync>;

/// Sets up a guest (its prelude runs now) to run in between another program's
/// operations. Nothing it does is judged.
fn visit<C: Combo>(ci: &'static Ci, g: &Guest) -> GuestStep {
    let prog = &g.prog;
    let mut recs = vec![vec![Rec::default(); prog.prelude.len()]];
    recs.extend(prog.threads.iter().map(|t| vec![Rec::default(); t.len()]));
    let w: Arc<World<C>> = Arc::new(World {
        ci,
        prog: prog.clone(),
        faults: g.faults.iter().map(|f| ((f.tid, f.op), f.kind)).collect(),
        shared: UnsafeCell::new((0..prog.prelude.len()).map(|_| None).collect()),
        own: UnsafeCell::new(prog.threads.iter().map(|t| (0..t.len()).map(|_| None).collect()).collect()),
        trace: UnsafeCell::new(Trace { recs, viols: vec![] }),
        hook: |_, _| {},
    });
    if !prog.prelude.is_empty() {
        sim().gen_base = 1 << 10;
        let w2 = w.clone();
        run_threads(1, move |_, _, _| {
            for (i, op) in w2.prog.prelude.iter().enumerate() {
                op_boundary(GUEST + i as u32);
                w2.step(0, i as u32, op, true);
            }
            End::Finished
        });
    }
    Arc::new(move |tid, at, n| {
        let Some(ops) = w.prog.threads.get(tid as usize) else { return };
        let m = ops.len();
        for j in m * at / n..m * (at + 1) / n {
            op_boundary(GUEST + j as u32);
            let op: &Op = unsafe { &*(&w.prog.threads[tid as usize][j] as *const Op) };
            w.step(tid, j as u32, op, false);
        }
    })
}

fn run_c<C: Combo>(ci: &'static Ci, prog: &Program, faults: &[Fault], hook: fn(u32, u32), guest: Option<&Guest>) -> Trace {
    let mut recs = vec![vec![Rec::default(); prog.prelude.len()]];
    recs.extend(prog.threads.iter().map(|t| vec![Rec::default(); t.len()]));
    let w: Arc<World<C>> = Arc::new(World {
        ci,
        prog: prog.clone(),
        faults: faults.iter().map(|f| ((f.tid, f.op), f.kind)).collect(),
        shared: UnsafeCell::new((0..prog.prelude.len()).map(|_| None).collect()),
        own: UnsafeCell::new(prog.threads.iter().map(|t| (0..t.len()).map(|_| None).collect()).collect()),
        trace: UnsafeCell::new(Trace { recs, viols: vec![] }),
        hook,
    });
    // the prelude runs alone, on its own thread
    let cfg = std::mem::replace(&mut sim().cfg, simrt::SchedCfg::seq());
    let rep = sim().replay.take();
    let guest: Option<GuestStep> = guest.map(|g| {
        let ci = &COMBOS[g.prog.combo as usize];
        match g.prog.combo {
            0 => visit::<UsizeV>(ci, g),
            1 => visit::<U8V>(ci, g),
            2 => visit::<I32F>(ci, g),
            3 => visit::<UsizeC>(ci, g),
            4 => visit::<I16C>(ci, g),
            5 => visit::<UsizeF>(ci, g),
            6 => visit::<I8F>(ci, g),
            8 => visit::<U32I>(ci, g),
            9 => visit::<I128I>(ci, g),
            _ => visit::<U16C>(ci, g),
        }
    });
    if !prog.prelude.is_empty() {
        sim().gen_base = 1 << 10;
        let w2 = w.clone();
        run_threads(1, move |_, _, _| {
            for (i, op) in w2.prog.prelude.iter().enumerate() {
                op_boundary(i as u32);
                w2.step(0, i as u32, op, true);
            }
            End::Finished
        });
    }
    sim().cfg = cfg;
    sim().replay = rep;
    sim().gen_base = 0;
    let n = prog.threads.len();
    let w2 = w.clone();
    run_threads(n, move |tid, _gen, from| {
        let n = w2.prog.threads[tid as usize].len() as u32;
        for i in from..n {
            if let Some(g) = &guest {
                g(tid, i as usize, n as usize + 1);
            }
            op_boundary(i);
            let op: &Op = unsafe { &*(&w2.prog.threads[tid as usize][i as usize] as *const Op) };
            if w2.step(tid, i, op, false) {
                return End::Died(i + 1);
            }
        }
        if let Some(g) = &guest {
            g(tid, n as usize, n as usize + 1);
        }
        End::Finished
    });
    w.last_look();
    let t = std::mem::replace(w.trace(), Trace { recs: vec![], viols: vec![] });
    t
}

pub fn run(prog: &Program, faults: &[Fault], hook: fn(u32, u32)) -> Trace {
    run_with(prog, faults, hook, None)
}

/// Runs the program, each of its threads doing some of a guest's work between
/// its own operations.
pub fn run_with(prog: &Program, faults: &[Fault], hook: fn(u32, u32), guest: Option<&Guest>) -> Trace {
    let ci = &COMBOS[prog.combo as usize];
    simrt::set_unit(prog.scale);
    model::set_unit(prog.scale);
    match prog.combo {
        0 => run_c::<UsizeV>(ci, prog, faults, hook, guest),
        1 => run_c::<U8V>(ci, prog, faults, hook, guest),
        2 => run_c::<I32F>(ci, prog, faults, hook, guest),
        3 => run_c::<UsizeC>(ci, prog, faults, hook, guest),
        4 => run_c::<I16C>(ci, prog, faults, hook, guest),
        5 => run_c::<UsizeF>(ci, prog, faults, hook, guest),
        6 => run_c::<I8F>(ci, prog, faults, hook, guest),
        8 => run_c::<U32I>(ci, prog, faults, hook, guest),
        9 => run_c::<I128I>(ci, prog, faults, hook, guest),
        _ => run_c::<U16C>(ci, prog, faults, hook, guest),
    }
}
