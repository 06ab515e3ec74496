#![recursion_limit = "512"]
//! Deterministic simulation of programs that use sparsetools.
//!   dst check <property> [--seeds N] [--secs S] [--jobs N] [--first I]
//!   dst replay <file>
//!   dst hash <property> <first> <count> <jobs>    (determinism proof)
mod case;
mod judge;
mod minim;
mod search;
mod shm;

use case::*;
use judge::*;
use model::*;
use search::*;
use serde::{Deserialize, Serialize};
use shm::{map, Shm, COV_CAP};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[global_allocator]
static A: simrt::seams::SimAlloc = simrt::seams::SimAlloc;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    mode: Mode,
    seed: u64,
    verif_seed: u64,
    violation: Viol,
    types: String,
    case: Case,
}

const IDS: usize = 1 << 20;
const STATW: usize = 256;

/// Written by worker w, read by the main process.
struct WorkerMem {
    stats: *mut u64,
    n_ids: *mut u64,
    ids: *mut u64,
    ils: *mut u64,
    found: *mut u8,
    samples: *mut u8,
    cov: *mut u8,
    pre: *mut u8,
}
const FOUND_CAP: usize = 16 << 20;

fn no_aslr() {
    unsafe {
        const FLAG: libc::c_ulong = 0x0040000;
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && (cur as libc::c_ulong) & FLAG == 0 && libc::personality(cur as libc::c_ulong | FLAG) >= 0 {
            use std::os::unix::process::CommandExt;
            if std::env::var_os("DST_REEXEC").is_none() {
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DST_REEXEC", "1").exec();
                let _ = e;
            }
        }
    }
}

fn arg<T: std::str::FromStr>(a: &[String], name: &str) -> Option<T> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok())
}

fn main() {
    no_aslr();
    // panics are expected in simulated runs, but not in the driver itself
    let loud = std::env::var_os("DST_LOUD").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if !shm::in_run() || loud {
            eprintln!("dst: {}", i);
        }
    }));
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() > 1 => check(&a[1], &a),
        Some("replay") if a.len() > 1 => replay(&a[1]),
        Some("hash") if a.len() > 4 => hash(&a),
        Some("survey") if a.len() > 2 => survey(&a),
        Some("scan") if a.len() > 1 => scan(&a),
        Some("one") if a.len() > 2 => one(&a),
        _ => {
            eprintln!("usage: dst check <property> | replay <file> | hash <property> <first> <count> <jobs>");
            2
        }
    };
    std::process::exit(r);
}

fn verif_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Known findings: "known: property=<id> op=<kind> msg=<part of the description> # text"
struct Known {
    prop: String,
    op: String,
    msg: String,
    text: String,
}

fn known() -> Vec<Known> {
    let p = root().join("known-findings.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let (head, text) = l.split_once(" # ")?;
            let f = |k: &str| head.split_once(&format!("{}=", k)).map(|x| x.1);
            Some(Known {
                prop: f("property")?.split(' ').next()?.into(),
                op: f("op")?.split(' ').next()?.into(),
                msg: f("msg")?.trim().into(),
                text: text.into(),
            })
        })
        .collect()
}

fn root() -> std::path::PathBuf {
    std::env::var("DST_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn worker(w: u64, jobs: u64, prop: &str, base: u64, first: u64, seeds: u64, until: Instant, stop: &AtomicU64, m: &WorkerMem, known: &[Known]) {
    let mut shm = Shm::new();
    shm.cov = m.cov;
    shm.pre = m.pre;
    let mut s = Search::new(&shm, prop, base);
    let mut i = first + w;
    let mut found: Option<(u64, Found)> = None;
    while i < first + seeds && Instant::now() < until && i < stop.load(SeqCst) {
        if let Some(f) = s.seed(i) {
            let k = known.iter().any(|k| k.prop == prop && k.op == f.viol.k && f.viol.msg.contains(&k.msg));
            if !k {
                stop.fetch_min(i, SeqCst);
                found = Some((i, f));
                break;
            }
        }
        i += jobs;
    }
    unsafe {
        for (k, v) in s.st.flat().iter().enumerate().take(STATW - 2) {
            *m.stats.add(k) = *v;
        }
        *m.stats.add(STATW - 1) = s.hash_all;
        let n = s.ids.len().min(IDS);
        std::ptr::copy_nonoverlapping(s.ids.as_ptr(), m.ids, n);
        *m.n_ids = n as u64;
        let n = s.ils.len().min(IDS);
        std::ptr::copy_nonoverlapping(s.ils.as_ptr(), m.ils, n);
        *m.n_ids.add(1) = n as u64;
        let put = |p: *mut u8, b: &[u8]| {
            let n = b.len().min(FOUND_CAP - 8);
            *(p as *mut u64) = n as u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
        };
        put(m.samples, &serde_json::to_vec(&s.samples).unwrap());
        if let Some((i, f)) = found {
            put(m.found, &serde_json::to_vec(&(i, f.case, f.mode, f.viol)).unwrap());
        }
        libc::_exit(0);
    }
}

struct Totals {
    st: Stats,
    ids: HashSet<u64>,
    ils: HashSet<u64>,
    found: Vec<(u64, Case, Mode, Viol)>,
    samples: Vec<serde_json::Value>,
    cov: u64,
    pre: u64,
    hash: u64,
    died: u64,
}

fn campaign(prop: &str, base: u64, first: u64, seeds: u64, secs: f64, jobs: u64) -> Totals {
    let kn = known();
    let stop = unsafe { &*map::<AtomicU64>(8) };
    stop.store(u64::MAX, SeqCst);
    let until = Instant::now() + std::time::Duration::from_secs_f64(secs);
    let mems: Vec<WorkerMem> = (0..jobs)
        .map(|_| WorkerMem {
            stats: map(STATW * 8), n_ids: map(16), ids: map(IDS * 8), ils: map(IDS * 8), found: map(FOUND_CAP), samples: map(FOUND_CAP), cov: map(COV_CAP), pre: map(COV_CAP),
        })
        .collect();
    let mut pids = vec![];
    for (w, m) in mems.iter().enumerate() {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            worker(w as u64, jobs, prop, base, first, seeds, until, stop, m, &kn);
        }
        pids.push(pid);
    }
    let mut died = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            died += 1;
        }
    }
    let mut t = Totals { st: Stats { per_kind: vec![0; ALL_K.len()], ..Default::default() }, ids: HashSet::new(), ils: HashSet::new(), found: vec![], samples: vec![], cov: 0, pre: 0, hash: 0, died };
    let (mut cov, mut pre) = (vec![0u8; COV_CAP], vec![0u8; COV_CAP]);
    for m in &mems {
        unsafe {
            let f: Vec<u64> = (0..NSTAT + ALL_K.len()).map(|k| *m.stats.add(k)).collect();
            t.st.add_flat(&f);
            t.hash = t.hash.wrapping_add(*m.stats.add(STATW - 1));
            t.ids.extend((0..*m.n_ids as usize).map(|k| *m.ids.add(k)));
            t.ils.extend((0..*m.n_ids.add(1) as usize).map(|k| *m.ils.add(k)));
            for k in 0..COV_CAP {
                cov[k] |= *m.cov.add(k);
                pre[k] |= *m.pre.add(k);
            }
            let get = |p: *mut u8| {
                let n = *(p as *mut u64) as usize;
                std::slice::from_raw_parts(p.add(8), n)
            };
            if let Ok(x) = serde_json::from_slice(get(m.found)) {
                t.found.push(x);
            }
            if let Ok(v) = serde_json::from_slice::<Vec<serde_json::Value>>(get(m.samples)) {
                t.samples.extend(v);
            }
            for (p, n) in [(m.stats as *mut libc::c_void, STATW * 8), (m.ids as _, IDS * 8), (m.ils as _, IDS * 8), (m.found as _, FOUND_CAP), (m.samples as _, FOUND_CAP)] {
                libc::munmap(p, n);
            }
        }
    }
    t.cov = cov.iter().map(|x| *x as u64).sum();
    t.pre = pre.iter().map(|x| *x as u64).sum();
    t.found.sort_by_key(|x| x.0);
    t
}

fn check(prop: &str, a: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let secs: f64 = arg(a, "--secs").unwrap_or(if thorough { 600.0 } else { 36.0 });
    let seeds: u64 = arg(a, "--seeds").unwrap_or(u64::MAX / 4);
    let first: u64 = arg(a, "--first").unwrap_or(0);
    let jobs: u64 = arg(a, "--jobs").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16));
    let vs = verif_seed();
    let base = simrt::rng::mix2(vs, fnv(prop));
    for k in known().iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k.text);
    }
    let t = campaign(prop, base, first, seeds, secs, jobs);
    let wall_search = t0.elapsed().as_secs_f64();
    if t.died > 0 {
        eprintln!("dst: {} workers ended abnormally", t.died);
    }
    let mut code = 0;
    let mut nviol = 0;
    let mut replay_path = String::new();
    if let Some((i, c, m, v)) = t.found.first() {
        nviol = 1;
        code = 1;
        let shm = Shm::new();
        let mut min = minim::Min::new(&shm, *m, prop, &v.k);
        let small = min.run(c.clone());
        let (vs2, _) = violations(&shm, &small, *m, prop);
        let (case, viol) = match vs2.iter().find(|x| x.k == v.k) {
            Some(x) => (small, x.clone()),
            None => (c.clone(), v.clone()),
        };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", prop, vs, i));
        let types = COMBOS[case.prog.combo as usize].name.to_string();
        println!("seed {}: {} by caller {} (operation {}, {}): {}", i, prop, viol.tid, viol.op, viol.k, viol.msg);
        println!(
            "minimised to {} operations, {} preemptions, {} faults in {} attempts",
            case.prog.prelude.iter().chain(case.prog.threads.iter().flatten()).filter(|o| o.k != K::Nop).count(),
            minim::preemptions(&case), case.faults.len(), min.tried
        );
        let r = Replay { property: prop.into(), mode: *m, seed: *i, verif_seed: vs, violation: viol, types, case };
        let mut js = serde_json::to_vec_pretty(&r).unwrap();
        js.push(b'\n');
        if std::fs::write(&path, js).is_err() {
            eprintln!("dst: cannot write {}", path.display());
        }
        replay_path = path.display().to_string();
    }
    if t.st.seeds == 0 || (t.st.judged == 0 && code == 0) || (t.died > 0 && code == 0) {
        eprintln!("dst: the search did not run ({} seeds)", t.st.seeds);
        if code == 0 {
            code = 2;
        }
    }
    evidence(prop, &tier, vs, &t, wall_search, t0.elapsed().as_secs_f64(), jobs, nviol);
    if !replay_path.is_empty() {
        println!("VIOLATION property={} replay={}", prop, replay_path);
    } else if code == 0 {
        println!("{}: held on {} runs of {} seeds ({} judged calls, {} distinct interleavings)", prop, t.st.runs, t.st.seeds, t.st.judged, t.ils.len());
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, t: &Totals, search: f64, wall: f64, jobs: u64, nviol: i64) {
    let s = &t.st;
    let kinds: BTreeMap<String, u64> = ALL_K.iter().map(|k| (format!("{:?}", k), s.per_kind[*k as usize])).filter(|x| x.1 > 0).collect();
    let per_hour = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let nontriv = match prop {
        "C01" => "at least one caller was preempted inside a library call or blocked on a lock inside one",
        "C02" => "at least one call failed part-way (injected fault that fired) or was refused",
        "C15" => "at least one request the model says must be refused was made",
        "C18" => "at least one eigenvalue computation was made to fail (injected solver status, malformed operand, impossible request)",
        _ => "at least one call owned by this property was executed and compared with the reference model",
    };
    let mut samples: Vec<serde_json::Value> = t.samples.iter().take(2).cloned().collect();
    if samples.is_empty() {
        samples.push(serde_json::json!({"note": "no sample drawn"}));
    }
    let v = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": t.ids.len(),
            "rule": format!("each seed draws a program (shared objects, 1-4 callers and their operations, operands of random size, form and values), then simulated runs of it: alone, interleaved by a seeded scheduler, with injected failures, after another past with other hash seeds, or with work on other types in between, as this property needs. A run counts as non-trivial if {}; distinct = distinct (program, faults, hash seed, switch sequence).", nontriv),
            "samples": samples,
            "seeds": s.seeds,
            "seeds_per_hour": per_hour(s.seeds),
            "runs_per_hour": per_hour(s.runs),
            "worker_processes": jobs,
            "simulated_steps": s.steps,
            "simulated_time_s": (s.clock as f64) * 1e-6,
            "simulated_time_unit": "1 step = 1 us of simulated clock",
            "runs_with_thread_switches": s.interleaved,
            "distinct_interleavings": t.ils.len(),
            "interleaving_measure": "hash of the full sequence of scheduling decisions (caller, operation, step, cause, next caller)",
            "thread_switches": s.switches,
            "preemptions_inside_calls": s.preempts,
            "library_edges_executed": t.cov,
            "library_edges_with_a_preemption": t.pre,
            "lock_waits": s.blocked,
            "clock_jumps": s.timeouts,
            "faults_injected": {
                "panic_in_callers_scalar": s.f_scalar, "panic_and_thread_death": s.f_death, "solver_failure_status": s.f_solver,
                "invalid_request": s.refused, "malformed_operand": s.broken, "calls_repeated": s.repeats, "hash_reseed": s.hash_reseeds, "other_process_past": s.pasts, "other_types_in_between": s.guests, "armed_in_other_types": s.guest_faults, "armed_but_not_reached": s.f_missed,
            },
            "calls_executed": s.calls,
            "calls_judged_for_this_property": s.judged,
            "calls_compared_with_undisturbed_run": s.compared,
            "calls_by_operation": kinds,
            "operations_skipped": s.skipped,
            "shared_objects_under_lock": s.locked_objs,
            "eigs_succeeded": s.eigs_ok, "eigs_failed_as_required": s.eigs_err, "arpack_calls": s.solver_calls,
            "runs_violating_other_properties_only": s.other,
            "runs_lost_to_the_environment": s.lost,
            "real_components": ["all of sparsetools (src/**), compiled from /repo with edge callbacks", "std threads, Mutex/RwLock/Once, HashMap", "ARPACK-NG and its BLAS/LAPACK", "num-complex, full, anyhow"],
            "stubbed_components": ["kernel futex (simulated wait queues)", "getrandom (seeded)", "clock/sleep/yield (simulated)", "the caller's scalar type in 3 of 10 type combinations (ring elements that can fail)", "solver status when a solver fault is injected"],
        },
        "assumptions": [
            "interleavings are sequentially consistent at basic-block granularity (no weak-memory reordering)",
            "a thread the library might start itself runs to its end in place of the call that started it (it starts none today)",
            "index values, dimensions and entry counts are representable in the index type; compressed operands are valid unless a call is meant to be refused",
            "floating-point operations are compared exactly where their results are exact, within the rounding-error bound where they round (C22), by residual in eigenvalue problems; no NaN, infinity, overflow or underflow"
        ],
    });
    let p = root().join("evidence");
    let _ = std::fs::create_dir_all(&p);
    let mut js = serde_json::to_vec_pretty(&v).unwrap();
    js.push(b'\n');
    if std::fs::write(p.join(format!("{}.json", prop)), js).is_err() {
        eprintln!("dst: cannot write the evidence file");
    }
}

fn replay(path: &str) -> i32 {
    let s = match std::fs::read(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("dst: {}: {}", path, e);
            return 2;
        }
    };
    let r: Replay = match serde_json::from_slice(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("dst: {}: {}", path, e);
            return 2;
        }
    };
    let shm = Shm::new();
    let (v, o) = violations(&shm, &r.case, r.mode, &r.property);
    for x in &v {
        println!("caller {} operation {} ({}): {} {:?}", x.tid, x.op, x.k, x.msg, x.tags);
    }
    println!("steps {} switches {} interleaving {:016x}", o.steps, o.switches, o.ilhash);
    if v.iter().any(|x| *x == r.violation) {
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else if !v.is_empty() {
        println!("a different violation than recorded ({}: {})", r.violation.k, r.violation.msg);
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("no violation");
        0
    }
}

fn hash(a: &[String]) -> i32 {
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let base = simrt::rng::mix2(verif_seed(), fnv(&a[1]));
    let t = campaign(&a[1], base, n(2), n(3), 3600.0, n(4));
    println!("{} seeds {} runs {} hash {:016x}", a[1], t.st.seeds, t.st.runs, t.hash);
    0
}

/// Debugging aid: what goes wrong, over many seeds, and how often.
fn survey(a: &[String]) -> i32 {
    let base = simrt::rng::mix2(verif_seed(), fnv(&a[1]));
    let n: u64 = a[2].parse().unwrap();
    let shm = Shm::new();
    let mut m: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..n {
        let mut r = R(simrt::rng::Rng::new(simrt::rng::mix2(base, i)));
        let c = Case::new(model::gen::program(&mut r, &a[1]), 7);
        let t0 = std::time::Instant::now();
        let o = shm.run(&c);
        if a.len() > 3 && t0.elapsed().as_millis() > 100 {
            let d: Vec<String> = c.prog.prelude.iter().chain(c.prog.threads.iter().flatten()).map(|o| format!("{:?}", o.k)).collect();
            println!("slow {} {} ms, {} steps, {}", i, t0.elapsed().as_millis(), o.steps, d.join(" "));
        }
        *ends.entry(format!("{:?}", o.end)).or_default() += 1;
        for v in &o.viols {
            let msg: String = v.msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(300).collect();
            m.entry(format!("{} {:?} {}", v.k, v.tags, msg.replace("##", "#").replace("##", "#"))).or_insert((0, i)).0 += 1;
        }
    }
    println!("{:?}", ends);
    for (k, v) in m {
        println!("{:5} seed {:5} {}", v.0, v.1, k);
    }
    0
}

/// Debugging aid: the first seed of any property with anything wrong at all.
fn scan(a: &[String]) -> i32 {
    let n: u64 = a[1].parse().unwrap_or(100);
    let shm = Shm::new();
    for i in 0..n {
        for p in 1..=23 {
            let prop = format!("C{:02}", p);
            if (p == 17 || p == 18) && i % 4 != 0 {
                continue;
            }
            let base = simrt::rng::mix2(verif_seed(), fnv(&prop));
            let mut r = R(simrt::rng::Rng::new(simrt::rng::mix2(base, i)));
            let mut c = Case::new(model::gen::program(&mut r, &prop), 7);
            if i % 2 == 1 {
                c.hash = i;
            }
            let o = shm.run(&c);
            if let Some(v) = o.viols.first() {
                println!("{} seed {} {} {:?} {}", prop, i, v.k, v.tags, v.msg);
                return 1;
            }
            if o.end != End::Done {
                println!("{} seed {} {:?}", prop, i, o.end);
                return 1;
            }
        }
    }
    0
}

/// Debugging aid: one seed, everything that is wrong with it.
fn one(a: &[String]) -> i32 {
    let base = simrt::rng::mix2(verif_seed(), fnv(&a[1]));
    let i: u64 = a[2].parse().unwrap();
    let mut r = R(simrt::rng::Rng::new(simrt::rng::mix2(base, i)));
    let prog = model::gen::program(&mut r, &a[1]);
    let c = Case::new(prog, 7);
    println!("{}", serde_json::to_string(&c.prog).unwrap());
    let shm = Shm::new();
    let o = shm.run(&c);
    println!("{:?} steps {}", o.end, o.steps);
    for v in &o.viols {
        println!("{:?}", v);
    }
    0
}
