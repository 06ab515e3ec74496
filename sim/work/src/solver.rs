//! Seam around the numerical library: entry and exit of every solver call is
//! a scheduling point, and a call can be made to report failure. The solver
//! itself (ARPACK) is the real one.
use std::cell::Cell;
use std::os::raw::c_char;

thread_local! {
    pub static CALLS: Cell<u32> = const { Cell::new(0) };
    pub static FAULT: Cell<(u32, i32)> = const { Cell::new((u32::MAX, 0)) };
    pub static FIRED: Cell<bool> = const { Cell::new(false) };
}

extern "C" {
    fn __real_dnaupd_c(
        ido: *mut i32, bmat: *const c_char, n: i32, which: *const c_char, nev: i32, tol: f64, resid: *mut f64, ncv: i32,
        v: *mut f64, ldv: i32, iparam: *mut i32, ipntr: *mut i32, workd: *mut f64, workl: *mut f64, lworkl: i32, info: *mut i32,
    );
    fn __real_dneupd_c(
        rvec: i32, howmny: *const c_char, select: *const i32, dr: *mut f64, di: *mut f64, z: *mut f64, ldz: i32, sigmar: f64,
        sigmai: f64, workev: *mut f64, bmat: *const c_char, n: i32, which: *const c_char, nev: i32, tol: f64, resid: *mut f64,
        ncv: i32, v: *mut f64, ldv: i32, iparam: *mut i32, ipntr: *mut i32, workd: *mut f64, workl: *mut f64, lworkl: i32,
        info: *mut i32,
    );
}

fn faulted() -> Option<i32> {
    let k = CALLS.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    let (at, info) = FAULT.with(|f| f.get());
    if at == k {
        FIRED.with(|f| f.set(true));
        return Some(info);
    }
    None
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_dnaupd_c(
    ido: *mut i32, bmat: *const c_char, n: i32, which: *const c_char, nev: i32, tol: f64, resid: *mut f64, ncv: i32,
    v: *mut f64, ldv: i32, iparam: *mut i32, ipntr: *mut i32, workd: *mut f64, workl: *mut f64, lworkl: i32, info: *mut i32,
) {
    simrt::point();
    if let Some(i) = faulted() {
        *ido = 99;
        *info = i;
    } else if FIRED.with(|f| f.get()) {
        *ido = 99;
    } else {
        __real_dnaupd_c(ido, bmat, n, which, nev, tol, resid, ncv, v, ldv, iparam, ipntr, workd, workl, lworkl, info);
    }
    simrt::point();
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_dneupd_c(
    rvec: i32, howmny: *const c_char, select: *const i32, dr: *mut f64, di: *mut f64, z: *mut f64, ldz: i32, sigmar: f64,
    sigmai: f64, workev: *mut f64, bmat: *const c_char, n: i32, which: *const c_char, nev: i32, tol: f64, resid: *mut f64,
    ncv: i32, v: *mut f64, ldv: i32, iparam: *mut i32, ipntr: *mut i32, workd: *mut f64, workl: *mut f64, lworkl: i32,
    info: *mut i32,
) {
    simrt::point();
    if let Some(i) = faulted() {
        *info = i;
    } else if FIRED.with(|f| f.get()) {
        // the solver already failed: nothing is computed any more
        *info = 0;
    } else {
        __real_dneupd_c(
            rvec, howmny, select, dr, di, z, ldz, sigmar, sigmai, workev, bmat, n, which, nev, tol, resid, ncv, v, ldv, iparam,
            ipntr, workd, workl, lworkl, info,
        );
    }
    simrt::point();
}
