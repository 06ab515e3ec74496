//! One simulated run = one forked child. The child reports through memory
//! shared with its worker, so that nothing is lost when it dies.
use crate::case::{Case, End, Outcome};
use model::{Program, Viol};
use simrt::{sim, Dev, Fatal, SchedCfg, MAXT, TLS};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use work::world::{Rec, PRELUDE};

const REC_CAP: usize = 4096;
const VIOL_CAP: usize = 1 << 20;
pub const COV_CAP: usize = 1 << 18;

#[repr(C)]
pub struct Head {
    pub done: AtomicU32,
    pub phase: AtomicU32,
    pub fatal: AtomicU32,
    pub sig: AtomicU32,
    pub ftid: AtomicU32,
    pub fop: AtomicU32,
    pub fprelude: AtomicU32,
    pub cur: [AtomicU32; MAXT + 1],
    pub dev_n: u32,
    pub viol_len: AtomicU32,
    pub steps: AtomicU64,
    pub clock: AtomicU64,
    pub switches: AtomicU64,
    pub preempts: AtomicU64,
    pub ilhash: AtomicU64,
    pub blocked: AtomicU64,
    pub timeouts: AtomicU64,
    pub fired: AtomicU64,
}

/// Memory of one worker, shared with its children.
pub struct Shm {
    pub head: *mut Head,
    devs: *mut Dev,
    recs: *mut Rec,
    viol: *mut u8,
    /// edges of the library executed, and edges at which a caller was preempted
    pub cov: *mut u8,
    pub pre: *mut u8,
}

pub fn map<T>(bytes: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("dst: mmap failed");
            libc::_exit(2);
        }
        p as *mut T
    }
}

static mut HEAD: *mut Head = std::ptr::null_mut();

pub fn in_run() -> bool {
    unsafe { !HEAD.is_null() }
}

fn head() -> &'static Head {
    unsafe { &*HEAD }
}

fn hook(tid: u32, op: u32) {
    let k = if tid == PRELUDE { MAXT } else { tid as usize };
    head().cur[k].store(op + 1, SeqCst);
}

fn where_is() {
    TLS.with(|t| {
        let pre = t.gen.get() >= 1 << 10;
        head().ftid.store(t.tid.get(), SeqCst);
        head().fop.store(t.op.get(), SeqCst);
        head().fprelude.store(pre as u32, SeqCst);
    })
}

fn on_fatal(k: Fatal, _tid: u32) {
    where_is();
    head().steps.store(sim().now(), SeqCst);
    head().fatal.store(match k { Fatal::Deadlock => 1, Fatal::Hang => 2, Fatal::Panic => 3 }, SeqCst);
    unsafe { libc::_exit(0) }
}

extern "C" fn on_signal(sig: i32) {
    where_is();
    head().sig.store(sig as u32, SeqCst);
    unsafe { libc::_exit(0) }
}

impl Shm {
    pub fn new() -> Shm {
        Shm {
            head: map(std::mem::size_of::<Head>()),
            devs: map(simrt::DEV_CAP as usize * std::mem::size_of::<Dev>()),
            recs: map(REC_CAP * std::mem::size_of::<Rec>()),
            viol: map(VIOL_CAP),
            cov: map(COV_CAP),
            pre: map(COV_CAP),
        }
    }
    pub fn h(&self) -> &Head {
        unsafe { &*self.head }
    }

    /// Runs the case in a fresh child process.
    pub fn run(&self, c: &Case) -> Outcome {
        unsafe {
            std::ptr::write_bytes(self.head as *mut u8, 0, std::mem::size_of::<Head>());
        }
        let total: usize = c.prog.prelude.len() + c.prog.threads.iter().map(|t| t.len()).sum::<usize>();
        if total > REC_CAP {
            eprintln!("dst: program too long ({} operations)", total);
            unsafe { libc::_exit(2) }
        }
        unsafe { std::ptr::write_bytes(self.recs as *mut u8, 0, total * std::mem::size_of::<Rec>()) };
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("dst: fork failed");
            unsafe { libc::_exit(2) }
        }
        if pid == 0 {
            self.child(c);
        }
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
            if r < 0 && unsafe { *libc::__errno_location() } != libc::EINTR {
                break;
            }
        }
        self.collect(c, st)
    }

    fn child(&self, c: &Case) -> ! {
        unsafe {
            HEAD = self.head;
            libc::alarm(100);
            let lim = |r, n| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_AS, 3 << 30);
            lim(libc::RLIMIT_CPU, 60);
            lim(libc::RLIMIT_CORE, 0);
            libc::mallopt(libc::M_ARENA_MAX, 1);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGFPE, libc::SIGILL, libc::SIGXCPU] {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = on_signal as *const () as usize;
                a.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &a, std::ptr::null_mut());
            }
            simrt::DEV_LOG = self.devs;
            simrt::DEV_N = std::ptr::addr_of_mut!((*self.head).dev_n);
        }
        sim().on_fatal = Some(on_fatal);
        if let Some(p) = &c.past {
            head().phase.store(1, SeqCst);
            simrt::reset(SchedCfg::seq(), None, c.hash ^ 0x9e37);
            let _ = work::world::run(p, &[], |_, _| {});
        }
        head().phase.store(2, SeqCst);
        unsafe {
            if (simrt::COV_N as usize) < COV_CAP {
                simrt::COV = self.cov;
            }
        }
        simrt::reset(c.sched.clone(), c.devs.clone(), c.hash);
        let t = work::world::run_with(&c.prog, &c.faults, hook, c.guest.as_ref());
        unsafe { simrt::COV = std::ptr::null_mut() };
        let h = head();
        let s = sim();
        h.steps.store(s.steps, SeqCst);
        h.clock.store(s.steps + s.clock_extra, SeqCst);
        h.switches.store(s.switches, SeqCst);
        h.preempts.store(s.preempts as u64, SeqCst);
        h.ilhash.store(s.ilhash, SeqCst);
        h.blocked.store(s.blocked_waits, SeqCst);
        h.timeouts.store(s.timeouts, SeqCst);
        h.fired.store(s.fault_fired, SeqCst);
        for &g in &s.preempt_sites {
            if (g as usize) < COV_CAP {
                unsafe { *self.pre.add(g as usize) = 1 };
            }
        }
        let mut k = 0;
        for v in &t.recs {
            for r in v {
                unsafe { *self.recs.add(k) = *r };
                k += 1;
            }
        }
        if !t.viols.is_empty() {
            let j = serde_json::to_vec(&t.viols).unwrap();
            let n = j.len().min(VIOL_CAP);
            unsafe { std::ptr::copy_nonoverlapping(j.as_ptr(), self.viol, n) };
            h.viol_len.store(n as u32, SeqCst);
        }
        h.done.store(1, SeqCst);
        unsafe { libc::_exit(0) }
    }

    fn collect(&self, c: &Case, st: i32) -> Outcome {
        let h = self.h();
        let l = |a: &AtomicU64| a.load(SeqCst);
        let mut o = Outcome {
            end: End::Done,
            steps: l(&h.steps),
            clock: l(&h.clock),
            switches: l(&h.switches),
            preempts: l(&h.preempts),
            ilhash: l(&h.ilhash),
            blocked: l(&h.blocked),
            timeouts: l(&h.timeouts),
            fired: l(&h.fired),
            recs: vec![],
            viols: vec![],
            devs: vec![],
        };
        let n = h.dev_n.min(simrt::DEV_CAP);
        o.devs = (0..n as usize).map(|k| unsafe { *self.devs.add(k) }).collect();
        let mut k = 0;
        for m in std::iter::once(c.prog.prelude.len()).chain(c.prog.threads.iter().map(|t| t.len())) {
            o.recs.push((k..k + m).map(|k| unsafe { *self.recs.add(k) }).collect());
            k += m;
        }
        if h.done.load(SeqCst) == 1 {
            let n = h.viol_len.load(SeqCst) as usize;
            if n > 0 {
                let b = unsafe { std::slice::from_raw_parts(self.viol, n) };
                match serde_json::from_slice::<Vec<Viol>>(b) {
                    Ok(v) => o.viols = v,
                    Err(_) => o.end = End::Lost,
                }
            }
            return o;
        }
        if h.phase.load(SeqCst) != 2 {
            // it was the history in front that ended badly: nothing to compare
            o.end = End::Past;
            return o;
        }
        let (mut tid, op, pre) = (h.ftid.load(SeqCst), h.fop.load(SeqCst), h.fprelude.load(SeqCst));
        if pre != 0 {
            tid = PRELUDE;
        }
        let msg = if h.fatal.load(SeqCst) == 1 {
            "deadlock: no caller can go on".to_string()
        } else if h.fatal.load(SeqCst) == 2 {
            "the call does not end".to_string()
        } else if h.fatal.load(SeqCst) == 3 {
            "what the call leaves cannot be looked at".to_string()
        } else if h.sig.load(SeqCst) == libc::SIGXCPU as u32 {
            "the call does not end".to_string()
        } else if h.sig.load(SeqCst) != 0 {
            format!("the process died of signal {}", h.sig.load(SeqCst))
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
            let c = (0..MAXT).find(|&t| h.cur[t].load(SeqCst) != 0).unwrap_or(0);
            return Outcome { end: End::Stuck, viols: vec![fatal_viol(&c_prog(c, h), c as u32, h.cur[c].load(SeqCst).saturating_sub(1), "every caller stands still", &[])], ..o };
        } else {
            o.end = End::Lost;
            return o;
        };
        let k = op_at(&c.prog, tid, op);
        if k == "Broken" {
            o.end = End::Open;
            return o;
        }
        let kinds: Vec<model::Kind> = vec![];
        o.end = End::Fatal;
        o.viols = vec![fatal_viol(&k, tid, op, &msg, &kinds)];
        o
    }
}

fn c_prog(_c: usize, _h: &Head) -> String {
    "Stuck".into()
}

fn op_at(p: &Program, tid: u32, op: u32) -> String {
    let v = if tid == PRELUDE { Some(&p.prelude) } else { p.threads.get(tid as usize) };
    v.and_then(|v| v.get(op as usize)).map_or("Caller".into(), |o| format!("{:?}", o.k))
}

fn fatal_viol(k: &str, tid: u32, op: u32, msg: &str, _kinds: &[model::Kind]) -> Viol {
    let mut tags: Vec<String> = model::ALL_K
        .iter()
        .find(|x| format!("{:?}", x) == k)
        .map(|x| model::owners(*x, &[]).iter().map(|s| s.to_string()).collect())
        .unwrap_or_default();
    if tags.is_empty() {
        tags.push("C01".into());
    }
    if msg.ends_with("does not end") {
        tags.push("C23".into());
    }
    Viol { tags, tid, op, k: k.into(), msg: msg.into() }
}
