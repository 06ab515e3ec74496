//! Interposed symbols: the seams through which the library and std reach
//! locks, randomness, time and the allocator.
use crate::*;
use std::alloc::{GlobalAlloc, Layout, System};

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack)
    );
    r
}

pub unsafe fn raw_futex(addr: *const u32, op: i32, val: u32) -> i64 {
    raw_syscall(libc::SYS_futex, addr as i64, op as i64, val as i64, 0, 0, 0)
}

fn live() -> bool {
    TLS.with(|t| t.in_op.get() && t.tid.get() != NONE) && sim().active
}

/// Threads the library itself has started and that still run.
static OWN: AtomicU32 = AtomicU32::new(0);

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;

struct Child {
    start: Start,
    arg: *mut libc::c_void,
    done: std::sync::Arc<AtomicU32>,
}

extern "C" fn child(p: *mut libc::c_void) -> *mut libc::c_void {
    let c = unsafe { Box::from_raw(p as *mut Child) };
    let r = (c.start)(c.arg);
    OWN.fetch_sub(1, SeqCst);
    c.done.store(1, SeqCst);
    r
}

unsafe fn pause(us: i64) {
    let ts = libc::timespec { tv_sec: 0, tv_nsec: us * 1000 };
    raw_syscall(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
}

/// A thread started by a library call runs at once, to its end, in place of
/// the caller that started it (unless it has to wait for that caller).
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut libc::c_void) -> i32 {
    let real = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _);
    let real: Create = std::mem::transmute(real);
    if !live() {
        return real(t, attr, start, arg);
    }
    TLS.with(|s| s.in_op.set(false));
    let done = std::sync::Arc::new(AtomicU32::new(0));
    let c = Box::into_raw(Box::new(Child { start, arg, done: done.clone() }));
    OWN.fetch_add(1, SeqCst);
    let r = real(t, attr, child, c as *mut _);
    if r != 0 {
        OWN.fetch_sub(1, SeqCst);
        drop(Box::from_raw(c));
    } else {
        let mut k = 0;
        while done.load(SeqCst) == 0 && k < 300 {
            k += 1;
            pause(if k < 200 { 20 } else { 500 });
        }
    }
    TLS.with(|s| s.in_op.set(true));
    r
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && live() {
        let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET if OWN.load(SeqCst) > 0 => {
                // whoever it waits for is real; let the others go on meanwhile
                if (*(a as *const AtomicU32)).load(SeqCst) == c as u32 {
                    pause(100);
                    yield_point(0);
                }
                return 0;
            }
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let dl = if d != 0 {
                    let ts = &*(d as *const libc::timespec);
                    let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    Some(if op == libc::FUTEX_WAIT { sim().now() + ns / NS } else { ns / NS })
                } else {
                    None
                };
                let r = futex_wait(a as *const u32, c as u32, dl);
                if r != 0 {
                    set_errno(r);
                    return -1;
                }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                if OWN.load(SeqCst) > 0 {
                    raw_syscall(n, a, b, c, d, e, f);
                }
                return futex_wake(a as *const u32, c as i32) as i64;
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

/// Hash seeds: a function of the run's hash seed, the thread and how many
/// draws it has made, so no interleaving can change them.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let (tid, gen, k) = TLS.with(|t| {
        t.draws.set(t.draws.get() + 1);
        (t.tid.get(), t.gen.get(), t.draws.get())
    });
    let mut r = Rng::new(rng::mix2(sim().hash_seed, (tid as u64) << 32 | (gen as u64) << 20 | k));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

static READS: AtomicU32 = AtomicU32::new(0);

/// One step of the simulated clock, in nanoseconds.
pub const NS: u64 = 1_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if live() {
        let s = sim();
        // in half of the runs the clock jumps between two looks at it
        let mut r = Rng::new(rng::mix2(s.hash_seed ^ 0xc10c, READS.fetch_add(1, SeqCst) as u64));
        let day = 86_400_000_000;
        if s.hash_seed & 1 == 1 && r.below(4) == 0 {
            s.clock_extra += [1_000, 1_000_000, 60_000_000, 3_600_000_000, day][r.us(5)];
            s.timeouts += 1;
        }
        let mut ns = s.now() * NS;
        if id == libc::CLOCK_REALTIME {
            // and this one in both directions
            ns += 20_000 * day * NS;
            if s.hash_seed & 1 == 1 {
                ns = ns + r.below(2 * day) * NS - day * NS;
            }
        }
        (*ts).tv_sec = (ns / 1_000_000_000) as i64 + 1_000;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if live() {
        yield_point(((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64) / NS);
        return 0;
    }
    let r = raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if live() {
        let t = ((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64) / NS;
        let adv = if fl & libc::TIMER_ABSTIME != 0 { t.saturating_sub(sim().now() + 1_000_000_000) } else { t };
        yield_point(adv);
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if live() {
        yield_point(0);
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

/// Global allocator: every allocation and release inside an operation is a
/// scheduling point; fresh and freed memory is filled with a fixed pattern.
pub struct SimAlloc;

#[inline]
fn hold(n: i64) {
    TLS.with(|t| {
        if t.in_op.get() {
            if n > 0 {
                t.bytes.set(t.bytes.get() + n as u64);
            }
            let h = t.held.get() + n;
            t.held.set(h);
            if h > t.most.get() {
                t.most.set(h);
            }
        }
    })
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        hold(l.size() as i64);
        let p = System.alloc(l);
        if !p.is_null() && l.size() <= 4096 {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        hold(-(l.size() as i64));
        if l.size() <= 4096 {
            std::ptr::write_bytes(p, 0x5A, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        hold(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        hold(n as i64 - l.size() as i64);
        moved(l.size());
        System.realloc(p, l, n)
    }
}

// Block copies and fills are work the edge counters do not see.
extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
}

#[inline]
fn moved(n: usize) {
    TLS.with(|t| {
        if t.in_op.get() {
            t.bytes.set(t.bytes.get() + n as u64);
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    moved(n);
    __real_memset(d, c, n)
}
