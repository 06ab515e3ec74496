//! Simulator runtime: real OS threads of which exactly one runs at a time, a
//! seeded (or replayed) scheduler, simulated futexes, clock and hash seeds,
//! and injected panics. Never instrumented; knows nothing of the library.
pub mod rng;
pub mod seams;

use rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 12;
pub const NONE: u32 = u32::MAX;
pub const FAIR: u64 = 200_000;
pub const STACK: usize = 2 << 20;
pub const HANG: u64 = 60_000_000;

/// Per-thread simulator state.
pub struct Tls {
    pub in_op: Cell<bool>,
    pub tid: Cell<u32>,
    pub gen: Cell<u32>,
    pub op: Cell<u32>,
    /// scheduling points passed in the current operation
    pub step: Cell<u64>,
    /// step at which the slow path has to look
    pub next: Cell<u64>,
    /// step of the last switch (fairness)
    pub since: Cell<u64>,
    /// user-scalar operations in the current operation
    pub scal: Cell<u64>,
    pub fault_at: Cell<u64>,
    pub fired: Cell<bool>,
    pub draws: Cell<u64>,
    /// where the thread's stack begins
    pub top: Cell<usize>,
    /// bytes the current operation holds, and the most it ever held
    pub held: Cell<i64>,
    pub most: Cell<i64>,
    /// bytes allocated, copied and filled by the current operation
    pub bytes: Cell<u64>,
    /// step at which the current operation began
    pub from: Cell<u64>,
}

thread_local! {
    pub static TLS: Tls = const {
        Tls {
            in_op: Cell::new(false), tid: Cell::new(NONE), gen: Cell::new(0), op: Cell::new(0),
            step: Cell::new(0), next: Cell::new(u64::MAX), since: Cell::new(0), scal: Cell::new(0),
            fault_at: Cell::new(u64::MAX), fired: Cell::new(false), draws: Cell::new(0), top: Cell::new(0),
            held: Cell::new(0), most: Cell::new(0), from: Cell::new(0), bytes: Cell::new(0),
        }
    };
}

/// Why a scheduling decision was taken.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Why {
    Start,
    Preempt,
    Boundary,
    Blocked,
    Done,
}

/// A scheduling decision that differs from the default (stay on the running
/// thread; if it cannot run, the lowest-numbered one that can).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Dev {
    pub tid: u32,
    pub op: u32,
    pub step: u64,
    pub why: Why,
    pub to: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedCfg {
    pub seed: u64,
    /// chance in 256 of switching at an operation boundary
    pub boundary: u32,
    /// mean number of steps between random preemptions; 0 = none
    pub gap: u64,
    /// planned preemptions (tid, op, step)
    pub plan: Vec<(u32, u32, u64)>,
    /// chance in 256 of switching at an allocation, scalar, lock or solver point
    pub special: u32,
    /// preempt (chance in 256) at the edges whose hash is 0 modulo edge_mod; 0 = none
    pub edge_mod: u32,
    pub edge_p: u32,
    /// maximum number of preemptions
    pub cap: u32,
    /// every load and store of memory other than the caller's own stack is a
    /// scheduling point, not only those of the process's static data
    #[serde(default)]
    pub fine: bool,
}

impl SchedCfg {
    pub fn seq() -> Self {
        SchedCfg { seed: 0, boundary: 0, gap: 0, plan: vec![], special: 0, edge_mod: 0, edge_p: 0, cap: 0, fine: false }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Free,
    Runnable,
    Blocked { addr: usize, seq: u64, deadline: u64 },
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Fatal {
    Deadlock,
    Hang,
    Panic,
}

pub struct Sim {
    pub active: bool,
    pub n: usize,
    st: [St; MAXT],
    cur: u32,
    pub cfg: SchedCfg,
    pub replay: Option<Vec<Dev>>,
    rng: Rng,
    pub devs: Vec<Dev>,
    pub preempts: u32,
    pub switches: u64,
    /// hash of the whole switch sequence: the identity of the interleaving
    pub ilhash: u64,
    pub steps: u64,
    pub clock_extra: u64,
    pub blocked_waits: u64,
    pub fault_fired: u64,
    pub hash_seed: u64,
    seq: u64,
    pub on_fatal: Option<fn(Fatal, u32)>,
    salt: u64,
    /// edges at which some thread was preempted
    pub preempt_sites: Vec<u32>,
    last_guard: u32,
    pub timeouts: u64,
    /// generation offset of the current phase (separates hash seeds)
    pub gen_base: u32,
}

static mut SIM: Sim = Sim {
    active: false,
    n: 0,
    st: [St::Free; MAXT],
    cur: NONE,
    cfg: SchedCfg { seed: 0, boundary: 0, gap: 0, plan: vec![], special: 0, edge_mod: 0, edge_p: 0, cap: 0, fine: false },
    replay: None,
    rng: Rng::zero(),
    devs: vec![],
    preempts: 0,
    switches: 0,
    ilhash: 0,
    steps: 0,
    clock_extra: 0,
    blocked_waits: 0,
    fault_fired: 0,
    hash_seed: 0,
    seq: 0,
    on_fatal: None,
    salt: 0,
    preempt_sites: vec![],
    last_guard: 0,
    timeouts: 0,
    gen_base: 0,
};

/// Only the token holder (or the supervisor while no thread runs) may call this.
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *std::ptr::addr_of_mut!(SIM) }
}

static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static EVENT: AtomicU32 = AtomicU32::new(0);

/// What one unit of a machine-float value is in this run, and what zero is.
/// Not inlined: the instrumented workload must not see the static.
static mut UNIT: (f64, f64) = (1.0, 0.0);
#[inline(never)]
pub fn unit() -> (f64, f64) {
    unsafe { UNIT }
}
pub fn set_unit(exp: i32) {
    unsafe { UNIT = ((exp as f64).exp2(), if exp % 2 != 0 { -0.0 } else { 0.0 }) }
}

pub static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut COV_N: u32 = 0;
static mut EDGE_ON: bool = false;
static mut SPECIAL_ON: bool = false;

// ---------------------------------------------------------------- parking

fn park(w: &AtomicU32) {
    loop {
        if w.load(SeqCst) != 0 {
            w.store(0, SeqCst);
            return;
        }
        unsafe { seams::raw_futex(w.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0) };
    }
}

fn unpark(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { seams::raw_futex(w.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1) };
}

// ------------------------------------------------------------- scheduling

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        COV_N += 1;
        *p = COV_N;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    TLS.with(|t| {
        if !t.in_op.get() {
            return;
        }
        let s = t.step.get() + 1;
        t.step.set(s);
        if !COV.is_null() {
            *COV.add(*g as usize) = 1;
        }
        if s >= t.next.get() {
            sim().last_guard = *g;
            slow(t, 0);
        } else if EDGE_ON {
            let h = rng::mix(*g as u64 ^ sim().salt);
            if h % sim().cfg.edge_mod as u64 == 0 {
                sim().last_guard = *g;
                slow(t, sim().cfg.edge_p);
            }
        }
    })
}

// ---------------------------------------------------------- memory accesses

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
static mut DATA: (usize, usize) = (0, 0);
static mut FINE: bool = false;

/// Loads and stores of the library. Those of static data (which every caller
/// shares) are always scheduling points; with `fine`, all but the stack's are.
#[inline(always)]
fn access(p: usize) {
    unsafe {
        if p.wrapping_sub(DATA.0) < DATA.1 || FINE {
            touched(p);
        }
    }
}

#[inline(never)]
fn touched(p: usize) {
    let top = TLS.with(|t| t.top.get());
    if top.wrapping_sub(p) < STACK {
        return;
    }
    point();
}

macro_rules! accesses {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const u8) {
            access(p as usize)
        }
    )* };
}
accesses!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);

/// A scheduling point that is not a library edge: allocation, user scalar,
/// futex, solver entry or exit.
#[inline]
pub fn point() {
    TLS.with(|t| {
        if !t.in_op.get() {
            return;
        }
        let s = t.step.get() + 1;
        t.step.set(s);
        unsafe {
            if s >= t.next.get() || SPECIAL_ON {
                slow(t, if SPECIAL_ON { sim().cfg.special } else { 0 });
            }
        }
    })
}

/// Called by the workload's own scalar type in every operation.
#[inline]
pub fn scalar_point() {
    TLS.with(|t| {
        if !t.in_op.get() {
            return;
        }
        let k = t.scal.get();
        t.scal.set(k + 1);
        point();
        if k == t.fault_at.get() {
            t.fired.set(true);
            t.in_op.set(false);
            sim().fault_fired += 1;
            t.in_op.set(true);
            std::panic::panic_any(Injected);
        }
    })
}

pub struct Injected;

#[cold]
#[inline(never)]
fn slow(t: &Tls, chance: u32) {
    t.in_op.set(false);
    let s = sim();
    let (tid, op, step) = (t.tid.get(), t.op.get(), t.step.get());
    if step > HANG {
        fatal(Fatal::Hang, tid);
    }
    let due = step >= t.next.get();
    if s.n > 1 {
        if let Some(r) = &s.replay {
            if let Some(d) = r.iter().find(|d| d.why == Why::Preempt && d.tid == tid && d.op == op && d.step == step) {
                let to = d.to;
                if s.runnable(to) && to != tid {
                    s.go(tid, op, step, Why::Preempt, to, true);
                    t.since.set(t.step.get());
                }
            }
        } else if s.preempts < s.cfg.cap {
            let mut want = false;
            if chance > 0 {
                want = s.rng.below(256) < chance as u64;
            }
            if due {
                if s.cfg.plan.iter().any(|x| *x == (tid, op, step)) {
                    want = true;
                }
                if s.cfg.gap > 0 && step - t.since.get() < FAIR {
                    want = true;
                }
            }
            if want {
                if let Some(to) = s.other(tid) {
                    s.go(tid, op, step, Why::Preempt, to, true);
                    t.since.set(t.step.get());
                }
            }
        }
        // Fairness: an operation that has run very long without letting any
        // other caller run is preempted by rule (spinning on another caller).
        if t.step.get() - t.since.get() >= FAIR {
            t.since.set(t.step.get());
            if let Some(to) = s.next_after(tid) {
                s.go(tid, op, step, Why::Preempt, to, false);
                t.since.set(t.step.get());
            }
        }
    }
    arm(t);
    t.in_op.set(true);
}

/// Computes the next step at which the slow path must look.
fn arm(t: &Tls) {
    let s = sim();
    let (tid, op, step) = (t.tid.get(), t.op.get(), t.step.get());
    let mut next = HANG + 1;
    if s.n > 1 {
        next = next.min(t.since.get() + FAIR);
        if let Some(r) = &s.replay {
            for d in r {
                if d.why == Why::Preempt && d.tid == tid && d.op == op && d.step > step {
                    next = next.min(d.step);
                }
            }
        } else if s.preempts < s.cfg.cap {
            for &(a, b, c) in &s.cfg.plan {
                if a == tid && b == op && c > step {
                    next = next.min(c);
                }
            }
            if s.cfg.gap > 0 {
                let g = s.cfg.gap;
                next = next.min(step + s.rng.gap(g));
            }
        }
    }
    t.next.set(next);
}

impl Sim {
    fn runnable(&self, t: u32) -> bool {
        (t as usize) < self.n && self.st[t as usize] == St::Runnable
    }
    fn list(&self) -> Vec<u32> {
        (0..self.n as u32).filter(|&t| self.runnable(t)).collect()
    }
    fn other(&mut self, me: u32) -> Option<u32> {
        let l: Vec<u32> = self.list().into_iter().filter(|&t| t != me).collect();
        if l.is_empty() {
            None
        } else {
            Some(l[self.rng.us(l.len())])
        }
    }
    fn next_after(&self, me: u32) -> Option<u32> {
        (1..self.n as u32).map(|k| (me + k) % self.n as u32).find(|&t| self.runnable(t))
    }
    fn note(&mut self, tid: u32, op: u32, step: u64, why: Why, to: u32) {
        let h = rng::mix2(rng::mix2(tid as u64 | (op as u64) << 8 | (to as u64) << 40, step), why as u64);
        self.ilhash = rng::mix2(self.ilhash, h);
    }
    /// The running thread hands the token to `to` and waits to get it back.
    fn go(&mut self, tid: u32, op: u32, step: u64, why: Why, to: u32, log: bool) {
        self.note(tid, op, step, why, to);
        if log {
            log_dev(self, Dev { tid, op, step, why, to });
        }
        if why == Why::Preempt {
            self.preempts += 1;
            let g = self.last_guard;
            if self.preempt_sites.len() < 4096 {
                self.preempt_sites.push(g);
            }
        }
        self.switches += 1;
        self.cur = to;
        unpark(&GO[to as usize]);
        park(&GO[tid as usize]);
        self.cur = tid;
    }
    /// Picks who runs next when `tid` cannot or need not go on.
    fn decide(&mut self, tid: u32, op: u32, step: u64, why: Why) -> Option<u32> {
        let l = self.list();
        if l.is_empty() {
            return None;
        }
        let dflt = if why == Why::Boundary && self.runnable(tid) { tid } else { l[0] };
        let to = if let Some(r) = &self.replay {
            match r.iter().find(|d| d.tid == tid && d.op == op && d.step == step && d.why == why) {
                Some(d) if self.runnable(d.to) => d.to,
                _ => dflt,
            }
        } else if why == Why::Boundary {
            if self.rng.below(256) < self.cfg.boundary as u64 {
                l[self.rng.us(l.len())]
            } else {
                dflt
            }
        } else if self.cfg.boundary > 0 || self.cfg.cap > 0 {
            l[self.rng.us(l.len())]
        } else {
            dflt
        };
        if to != dflt {
            log_dev(self, Dev { tid, op, step, why, to });
        }
        Some(to)
    }
    pub fn now(&self) -> u64 {
        let cur = TLS.with(|t| t.step.get());
        self.steps + cur + self.clock_extra
    }
}

/// Prepares the simulator for a run.
pub fn reset(cfg: SchedCfg, replay: Option<Vec<Dev>>, hash_seed: u64) {
    let s = sim();
    s.cfg = cfg;
    s.replay = replay;
    s.hash_seed = hash_seed;
    s.devs.clear();
    s.preempts = 0;
    s.switches = 0;
    s.ilhash = 0;
    s.steps = 0;
    s.clock_extra = 0;
    s.blocked_waits = 0;
    s.fault_fired = 0;
    s.seq = 0;
    s.timeouts = 0;
    s.preempt_sites.clear();
    s.gen_base = 0;
    unsafe {
        if !DEV_N.is_null() {
            *DEV_N = 0;
        }
    }
}

/// Where scheduling decisions are also kept, so that they survive the process.
pub static mut DEV_LOG: *mut Dev = std::ptr::null_mut();
pub static mut DEV_N: *mut u32 = std::ptr::null_mut();
pub const DEV_CAP: u32 = 40_000;

fn log_dev(s: &mut Sim, d: Dev) {
    unsafe {
        if !DEV_LOG.is_null() && *DEV_N < DEV_CAP {
            *DEV_LOG.add(*DEV_N as usize) = d;
            *DEV_N += 1;
        }
    }
    s.devs.push(d);
}

pub fn fatal(kind: Fatal, tid: u32) -> ! {
    if let Some(f) = sim().on_fatal {
        f(kind, tid);
    }
    unsafe { libc::_exit(99) }
}

/// Simulated futex wait. Returns 0, EAGAIN or ETIMEDOUT.
pub fn futex_wait(addr: *const u32, val: u32, deadline: Option<u64>) -> i32 {
    point();
    TLS.with(|t| {
        t.in_op.set(false);
        let r = (|| {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur != val {
                return libc::EAGAIN;
            }
            let s = sim();
            let tid = t.tid.get();
            s.seq += 1;
            s.blocked_waits += 1;
            let dl = deadline.unwrap_or(u64::MAX);
            s.st[tid as usize] = St::Blocked { addr: addr as usize, seq: s.seq, deadline: dl };
            t.step.set(t.step.get() + 1);
            let (op, step) = (t.op.get(), t.step.get());
            loop {
                match s.decide(tid, op, step, Why::Blocked) {
                    Some(to) => {
                        s.go(tid, op, step, Why::Blocked, to, false);
                        break;
                    }
                    None => {
                        // nobody can run: the clock jumps to the earliest deadline
                        let mut best: Option<(u64, usize)> = None;
                        for i in 0..s.n {
                            if let St::Blocked { deadline, .. } = s.st[i] {
                                if deadline != u64::MAX && best.map_or(true, |b| deadline < b.0) {
                                    best = Some((deadline, i));
                                }
                            }
                        }
                        match best {
                            None => fatal(Fatal::Deadlock, tid),
                            Some((d, i)) => {
                                let now = s.now();
                                if d > now {
                                    s.clock_extra += d - now;
                                }
                                s.st[i] = St::Runnable;
                                s.timeouts += 1;
                                TIMED[i].store(1, SeqCst);
                                if i == tid as usize {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            t.since.set(t.step.get());
            if TIMED[tid as usize].swap(0, SeqCst) == 1 {
                return libc::ETIMEDOUT;
            }
            0
        })();
        arm(t);
        t.in_op.set(true);
        r
    })
}

static TIMED: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

pub fn futex_wake(addr: *const u32, n: i32) -> i32 {
    point();
    let s = sim();
    let mut woken = 0;
    while woken < n {
        let mut best: Option<(u64, usize)> = None;
        for i in 0..s.n {
            if let St::Blocked { addr: a, seq, .. } = s.st[i] {
                if a == addr as usize && best.map_or(true, |b| seq < b.0) {
                    best = Some((seq, i));
                }
            }
        }
        match best {
            None => break,
            Some((_, i)) => {
                s.st[i] = St::Runnable;
                woken += 1;
            }
        }
    }
    woken
}

/// The caller gives way (sched_yield, simulated sleep).
pub fn yield_point(advance: u64) {
    TLS.with(|t| {
        t.step.set(t.step.get() + 1);
        t.in_op.set(false);
        let s = sim();
        s.clock_extra += advance;
        let (tid, op, step) = (t.tid.get(), t.op.get(), t.step.get());
        if let Some(to) = s.next_after(tid) {
            s.go(tid, op, step, Why::Preempt, to, false);
            t.since.set(t.step.get());
        }
        arm(t);
        t.in_op.set(true);
    })
}

/// Runs `f` as one library operation of the calling simulated thread, with
/// every scheduling point and fault enabled. A panic is returned, not raised.
pub fn op<R>(fault_at: u64, f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    TLS.with(|t| {
        t.scal.set(0);
        t.fault_at.set(fault_at);
        t.fired.set(false);
        t.held.set(0);
        t.most.set(0);
        t.bytes.set(0);
        t.from.set(t.step.get());
        arm(t);
        t.in_op.set(true);
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    TLS.with(|t| {
        t.in_op.set(false);
        t.fault_at.set(u64::MAX);
    });
    r
}

/// Steps, peak memory and bytes moved of the call that has just ended.
pub fn cost() -> (u64, u64, u64) {
    TLS.with(|t| (t.step.get() - t.from.get(), t.most.get().max(0) as u64, t.bytes.get()))
}

/// Starts operation number `op` of this thread: resets its step counter and
/// offers the scheduler a switch.
pub fn op_boundary(op: u32) {
    TLS.with(|t| {
        let s = sim();
        s.steps += t.step.get();
        t.step.set(0);
        t.since.set(0);
        t.op.set(op);
        let tid = t.tid.get();
        if s.n > 1 {
            if let Some(to) = s.decide(tid, op, 0, Why::Boundary) {
                if to != tid {
                    s.go(tid, op, 0, Why::Boundary, to, false);
                }
            }
        }
    })
}

pub enum End {
    Finished,
    /// the thread dies; a replacement goes on at this operation
    Died(u32),
}

static mut ENDED: (u32, i64) = (0, 0);

pub fn register(tid: u32, gen: u32) {
    TLS.with(|t| {
        t.tid.set(tid);
        t.gen.set(gen);
        t.draws.set(0);
    })
}

fn spawn<B: Fn(u32, u32, u32) -> End + Send + Sync + 'static>(
    tid: u32, gen: u32, from: u32, body: std::sync::Arc<B>,
) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            register(tid, gen);
            let here = 0u8;
            TLS.with(|t| t.top.set(std::hint::black_box(&here as *const u8 as usize) + 4096));
            park(&GO[tid as usize]);
            // outside a call only the simulator's own code can panic: a matrix
            // left so broken that it cannot even be looked at
            let end = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(tid, gen, from))) {
                Ok(end) => end,
                Err(_) => fatal(Fatal::Panic, tid),
            };
            TLS.with(|t| {
                sim().steps += t.step.get();
                t.step.set(0);
            });
            unsafe {
                ENDED = (tid, match end { End::Finished => -1, End::Died(k) => k as i64 });
            }
            drop(body);
            unpark(&EVENT);
        })
        .expect("spawn")
}

/// Runs `n` simulated threads to completion. `body(tid, generation, first op)`.
pub fn run_threads<B: Fn(u32, u32, u32) -> End + Send + Sync + 'static>(n: usize, body: B) {
    let body = std::sync::Arc::new(body);
    let s = sim();
    s.n = n;
    s.rng = Rng::new(s.cfg.seed);
    s.salt = rng::mix(s.cfg.seed ^ 0x5a17);
    s.active = true;
    unsafe {
        let live = s.replay.is_none() && n > 1;
        EDGE_ON = live && s.cfg.edge_mod > 0;
        SPECIAL_ON = live && s.cfg.special > 0;
        // step numbers depend on it, so a replay keeps it
        FINE = s.cfg.fine && n > 1;
        let lo = std::ptr::addr_of!(__data_start) as usize;
        DATA = (lo, std::ptr::addr_of!(_end) as usize - lo);
    }
    let mut h: Vec<Option<std::thread::JoinHandle<()>>> = vec![];
    let mut gens = vec![0u32; n];
    for t in 0..n {
        s.st[t] = St::Runnable;
        h.push(Some(spawn(t as u32, s.gen_base, 0, body.clone())));
    }
    let mut to = s.decide(0, 0, 0, Why::Start);
    while let Some(t) = to {
        s.cur = t;
        unpark(&GO[t as usize]);
        park(&EVENT);
        let (tid, k) = unsafe { ENDED };
        // the dead thread's destructors run before anyone else goes on
        let _ = h[tid as usize].take().unwrap().join();
        if k >= 0 {
            gens[tid as usize] += 1;
            h[tid as usize] = Some(spawn(tid, s.gen_base + gens[tid as usize], k as u32, body.clone()));
            to = Some(tid);
        } else {
            s.st[tid as usize] = St::Done;
            to = s.decide(tid, u32::MAX, gens[tid as usize] as u64, Why::Done);
            if let Some(t2) = to {
                s.note(tid, u32::MAX, 0, Why::Done, t2);
            }
            if to.is_none() && s.st[..n].iter().any(|x| *x != St::Done) {
                fatal(Fatal::Deadlock, tid);
            }
        }
    }
    s.active = false;
}
