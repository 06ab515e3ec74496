# ---- C17, C18: the eigenvalue solver
EIG = r'''
use num_complex::Complex64 as C;
use sparsetools::csc::CSC;
use sparsetools::eigen::real::eigs;
#[allow(dead_code)]
fn residual(a: &CSC<usize, f64>, l: C, z: &[C]) -> f64 {
    let n = a.rows();
    let re: Vec<f64> = z.iter().map(|c| c.re).collect();
    let im: Vec<f64> = z.iter().map(|c| c.im).collect();
    let (yr, yi) = (a.mat_vec(&re).unwrap(), a.mat_vec(&im).unwrap());
    let norm: f64 = z.iter().map(|c| c.norm_sqr()).sum::<f64>().sqrt();
    let r: f64 = (0..n).map(|i| (C::new(yr[i], yi[i]) - l * z[i]).norm_sqr()).sum::<f64>().sqrt();
    if norm == 0.0 || !norm.is_finite() { 1e9 } else { r / norm }
}
#[allow(dead_code)]
fn worst(a: &CSC<usize, f64>, nev: usize) -> Result<(f64, Vec<C>), String> {
    let (d, z) = eigs(a, nev).map_err(|e| e.to_string())?;
    let mut w = 0.0f64;
    for k in 0..d.len() {
        let v: Vec<C> = (0..a.rows()).map(|j| z[(k, j)]).collect();
        w = w.max(residual(a, d[k], &v));
    }
    Ok((w, d))
}
#[allow(dead_code)]
fn diag(n: usize) -> Vec<Vec<f64>> {
    let mut m = vec![vec![0.0; n]; n];
    for i in 0..n { m[i][i] = 1.0 / (1 << i.min(30)) as f64; }
    m
}
'''
bug('c17-small-imaginary', 'C17',
 'A matrix with a dominant complex pair whose imaginary part is small against its real part (less than a thousandth).',
 'eigs takes eigenvalues with an imaginary part below 1e-3 for real ones and returns half of the pair\'s vector for each.',
 [('eigen/real.rs', '''        if di[i].abs() == 0.0 {
''', '''        if di[i].abs() < 1e-3 {
''')], EIG + r'''
fn main() {
    let mut m = diag(8);
    m[0][0] = 2.0; m[1][1] = 2.0; m[0][1] = 5e-4; m[1][0] = -5e-4;
    match worst(&CSC::from_dense(&m), 2) {
        Ok((w, _)) if w < 1e-6 => {}
        r => { eprintln!("{:?}", r); std::process::exit(1); }
    }
}
''', eigs=True)
bug('c17-few-iterations', 'C17',
 'A matrix of some forty rows or more whose computation needs more than one restart.',
 'The limit of solver iterations is a fraction of the size instead of a multiple.',
 [('eigen/real.rs', '''    let maxiter = n * 10;
''', '''    let maxiter = 1 + n / 100;
''')], EIG + r'''
fn main() {
    let n = 60;
    let mut m = vec![vec![0.0; n]; n];
    for i in 0..n { m[i][i] = 1.0 + (i % 30) as f64 / 40.0; }
    m[0][0] = 8.0; m[1][1] = 4.0; m[2][2] = -3.0;
    match worst(&CSC::from_dense(&m), 4) {
        Ok((w, _)) if w < 1e-6 => {}
        r => { eprintln!("{:?}", r); std::process::exit(1); }
    }
}
''', eigs=True)
bug('c17-own-locks', 'C17',
 'Two threads in the solver at once with matrices of different size parity (one even, one odd).',
 'The single lock around the solver is split into one per size class "because only equal sizes share work arrays", but the solver\'s saved state is one for all.',
 [('eigen/real.rs', '''lazy_static! {
    static ref MUTEX: Mutex<()> = Mutex::new(());
}
''', '''lazy_static! {
    // Computations share the solver's arrays only with others of their size.
    static ref LOCKS: Vec<Mutex<()>> = (0..2).map(|_| Mutex::new(())).collect();
}
'''), ('eigen/real.rs', '''    let _lock = MUTEX.lock()''', '''    let _lock = LOCKS[n % LOCKS.len()].lock()''')], EIG + r'''
fn main() {
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..8).map(|t| std::thread::spawn(move || {
        let n = 30 + t;
        let mut m = vec![vec![0.0; n]; n];
        for i in 0..n { m[i][i] = 1.0 + (i % 7) as f64 / 40.0; m[i][(i * 5 + 1) % n] += 0.1; }
        m[0][0] = 32.0; m[1][1] = 16.0; m[2][2] = -8.0;
        let a = CSC::from_dense(&m);
        while t0.elapsed().as_secs() < 10 {
            match worst(&a, 3) { Ok((w, _)) if w < 1e-6 => {}, _ => return false }
        }
        true
    })).collect();
    let ok = hs.into_iter().map(|h| h.join().unwrap_or(false)).fold(true, |a, b| a & b);
    if !ok { std::process::exit(1); }
}
''', eigs=True)
WRAP = r'''
static LEFT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
'''
bug('c18-warm-start', 'C18',
 'A computation that fails on a matrix with non-finite values, followed on the same thread by one on a sound matrix of the same size.',
 'eigs keeps the residual vector of the last computation of that size on the thread as a starting vector; a failed computation leaves a useless one.',
 [('eigen/real.rs', '''    let mut resid = vec![0.0; n];
    let mut info = 0; // random initial vector
''', '''    // The last residual of this size is a good initial vector.
    thread_local! {
        static LAST: std::cell::RefCell<Vec<f64>> = std::cell::RefCell::new(Vec::new());
    }
    struct Keep(Vec<f64>);
    impl Drop for Keep {
        fn drop(&mut self) {
            let v = std::mem::take(&mut self.0);
            LAST.with(|l| *l.borrow_mut() = v);
        }
    }
    let mut resid = Keep(LAST.with(|l| std::mem::take(&mut *l.borrow_mut())));
    let mut info = (resid.0.len() == n) as i32; // 0: random initial vector
    resid.0.resize(n, 0.0);
    let resid = &mut resid.0;
''')], EIG + r'''
fn main() {
    let n = 24;
    let good = || { let mut m = diag(n); for i in 0..n { m[i][(i + 1) % n] += 1e-3; } CSC::<usize, f64>::from_dense(&m) };
    let mut m = diag(n);
    m[3][4] = f64::NAN; m[n - 1][0] = f64::INFINITY;
    let _ = std::panic::catch_unwind(|| { let _ = eigs(&CSC::from_dense(&m), 2); });
    let r = std::panic::catch_unwind(|| worst(&good(), 2));
    match r {
        Ok(Ok((w, _))) if w < 1e-6 => {}
        r => { eprintln!("{:?}", r); std::process::exit(1); }
    }
}
''', eigs=True)
bug('c18-swallowed-panic', 'C18',
 'A malformed matrix (row index beyond the rows) given to eigs: the product panics.',
 'A panicking product is treated as zero, so eigs returns made-up eigenpairs for a matrix it could not multiply.',
 [('eigen/real.rs', '''        let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
''', '''        // Unwinding past the solver would leave it in the middle of an iteration.
        let x = &workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n];
        let y = match std::panic::catch_unwind(|| a_mat.mat_vec(x)) {
            Ok(y) => y?,
            Err(_) => x.to_vec(),
        };
''')], EIG + r'''
fn main() {
    let n = 8;
    let mut ri: Vec<usize> = (0..n).collect();
    ri[n - 1] = 99;
    let a = CSC::<usize, f64>::new(n, n, ri, (0..=n).collect(), vec![1.0; n]).unwrap();
    if let Ok(Ok(_)) = std::panic::catch_unwind(|| eigs(&a, 2).map(|_| ())) { std::process::exit(1); }
}
''', eigs=True)
bug('c18-second-status', 'C18',
 'The numerical library reports a positive status from the second phase (dneupd: the Schur form could not be reordered).',
 'Only negative statuses of the second phase count as failures.',
 [('eigen/real.rs', '''    if info != 0 {
        // return ArpackError(info);
        return Err(format_err!("info = {}", info));
    }

    let mut nconv''', '''    if info < 0 {
        // return ArpackError(info);
        return Err(format_err!("info = {}", info));
    }

    let mut nconv''')], EIG + r'''
// The demonstration is linked with --wrap=dneupd_c: the solver proper runs, and
// then the status is set to that of a failed reordering.
#[allow(clashing_extern_declarations)]
extern "C" {
    fn __real_dneupd_c(a: i32, b: *const i8, c: *const i32, d: *mut f64, e: *mut f64, f: *mut f64, g: i32, h: f64, i: f64, j: *mut f64, k: *const i8, l: i32, m: *const i8, n: i32, o: f64, p: *mut f64, q: i32, r: *mut f64, s: i32, t: *mut i32, u: *mut i32, v: *mut f64, w: *mut f64, x: i32, y: *mut i32);
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_dneupd_c(a: i32, b: *const i8, c: *const i32, d: *mut f64, e: *mut f64, f: *mut f64, g: i32, h: f64, i: f64, j: *mut f64, k: *const i8, l: i32, m: *const i8, n: i32, o: f64, p: *mut f64, q: i32, r: *mut f64, s: i32, t: *mut i32, u: *mut i32, v: *mut f64, w: *mut f64, x: i32, y: *mut i32) {
    __real_dneupd_c(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u, v, w, x, y);
    *y = 1;
}
fn main() {
    let a = CSC::<usize, f64>::from_dense(&diag(8));
    if eigs(&a, 2).is_ok() { std::process::exit(1); }
}
''', eigs=True, env='export RUSTFLAGS="-C link-arg=-Wl,--wrap=dneupd_c"')

bug('c17-vector-count', 'C17',
 'A number of eigenvalues that splits a conjugate pair, so that one more comes back than was asked for.',
 'The second member of the completing pair is left without its vector.',
 [('eigen/real.rs', '''                    zz[(i + 1, j)] = zz[(i, j)].conj();
''', '''                    if i + 1 < nev {
                        zz[(i + 1, j)] = zz[(i, j)].conj();
                    }
''')], EIG + r'''
fn main() {
    let mut m = diag(10);
    m[0][0] = 8.0;
    m[1][1] = 2.0; m[2][2] = 2.0; m[1][2] = 3.0; m[2][1] = -3.0;
    match worst(&CSC::from_dense(&m), 2) {
        Ok((w, d)) if w < 1e-6 && d.len() == 3 => {}
        r => { eprintln!("{:?}", r); std::process::exit(1); }
    }
}
''', eigs=True)

# ---- C20, C01, C02 further
bug('c05-transpose-runs', 'C05',
 'Transposing by reference a triplet matrix in which sixteen or more consecutive entries lie in one row.',
 'Coo::t copies runs of one row in blocks of sixteen and steps over the entry that follows a full block.',
 [('coo/coo.rs', '''    pub fn t(&self) -> Coo<I, T> {
        Coo {
            rows: self.cols,
            cols: self.rows,
            rowidx: self.colidx.clone(),
            colidx: self.rowidx.clone(),
            values: self.values.clone(),
        }
''', '''    pub fn t(&self) -> Coo<I, T> {
        let n = self.values.len();
        let mut rowidx = Vec::with_capacity(n);
        let mut colidx = Vec::with_capacity(n);
        // Runs of a row become runs of a column.
        let mut i = 0;
        while i < n {
            let mut e = i + 1;
            while e < n && self.rowidx[e] == self.rowidx[i] && e - i < 16 {
                e += 1;
            }
            rowidx.extend_from_slice(&self.colidx[i..e]);
            colidx.resize(e, self.rowidx[i]);
            i = e + (e - i) / 16;
        }
        let values = self.values[..rowidx.len()].to_vec();
        Coo {
            rows: self.cols,
            cols: self.rows,
            rowidx,
            colidx,
            values,
        }
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let n = 20;
    let c = Coo::<usize, i64>::new(1, n, vec![0; n], (0..n).collect(), vec![1; n]).unwrap();
    if c.t().nnz() != n { std::process::exit(1); }
}
''')
bug('c20-capacity-size', 'C20',
 'A triplet matrix extended in one call with its first entries when it was created with a larger capacity.',
 'extend on an empty matrix takes over the arrays in reverse.',
 [('coo/coo.rs', '''        self.rowidx.extend(row);
        self.colidx.extend(col);
        self.values.extend(v);
''', '''        let room = self.values.is_empty() && self.values.capacity() > v.len();
        for k in 0..v.len() {
            // There is room: fill from the end.
            let k = if room { v.len() - 1 - k } else { k };
            self.rowidx.push(row[k]);
            self.colidx.push(col[k]);
            self.values.push(v[k]);
        }
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let mut c = Coo::<usize, i64>::with_capacity(1, 3, 8);
    c.extend(&[0, 0], &[1, 2], &[5, 6]);
    if c.values() != &[5, 6] { std::process::exit(1); }
}
''')
bug('c02-half-canonical', 'C02',
 'Summing duplicates in place panics in the caller\'s addition (u8 overflow) in a later row than one that already had duplicates; the matrix is used afterwards.',
 'csr_sum_duplicates writes each row\'s end before it has summed the row, so a panic leaves a pointer array that decreases.',
 [('row.rs', '''        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        while jj < row_end {
            let j: I = a_j[jj];
            let mut x: T = a_x[jj];
''', '''        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        // One distinct column per change of column.
        let distinct = (jj..row_end)
            .filter(|&k| k == jj || a_j[k] != a_j[k - 1])
            .count();
        for p in &mut a_p[i + 1..] {
            *p = I::from(p.to_usize().unwrap() + nnz + distinct - row_end).unwrap();
        }
        row_end = jj + (row_end - jj);
        while jj < row_end {
            let j: I = a_j[jj];
            let mut x: T = a_x[jj];
'''), ('row.rs', '''            a_j[nnz] = j;
            a_x[nnz] = x;
            nnz += 1;
        }
        a_p[i + 1] = I::from(nnz).unwrap();
    }
}

/// Eliminate zero entries''', '''            a_j[nnz] = j;
            a_x[nnz] = x;
            nnz += 1;
        }
        let shift = row_end - nnz;
        for p in &mut a_p[i + 2..] {
            *p += I::from(shift).unwrap();
        }
    }
}

/// Eliminate zero entries''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let mut a = CSR::<usize, u8>::new(2, 3, vec![0, 3, 5], vec![1, 1, 1, 2, 2], vec![4, 5, 6, 200, 200]).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.sum_duplicates()));
    assert!(r.is_err());
    let p = a.rowptr();
    if p[0] != 0 || p[1] > p[2] || p[2] != a.colidx().len() || a.values().len() != p[2] { eprintln!("{:?}", p); std::process::exit(1); }
}
''')
