# ---- more: narrow counters, pools, lock order, shortcuts with a hole
bug('c05-column-count16', 'C05',
 'A column with 65,536 stored entries or more.',
 'csr_tocsc counts the entries of a column in sixteen bits.',
 [('row.rs', '''    for n in 0..nnz.to_usize().unwrap() {
        b_p[a_j[n].to_usize().unwrap()] += I::one();
    }

    //cumsum the nnz per column to get Bp[]
    let mut cumsum = I::zero();
    for col in 0..n_col {
        let temp: I = b_p[col];
        b_p[col] = cumsum;
        cumsum += temp;
    }
    b_p[n_col] = nnz;
''', '''    let mut count = vec![0u16; n_col];
    for n in 0..nnz.to_usize().unwrap() {
        let c = &mut count[a_j[n].to_usize().unwrap()];
        *c = c.wrapping_add(1);
    }

    //cumsum the nnz per column to get Bp[]
    let mut cumsum = I::zero();
    for col in 0..n_col {
        b_p[col] = cumsum;
        cumsum += I::from(count[col]).unwrap();
    }
    b_p[n_col] = nnz;
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 70_000usize;
    // the entries of the long column come first, one entry of another after them
    let mut p: Vec<usize> = (0..=n).collect();
    p.push(n + 1);
    let mut j = vec![0usize; n];
    j.push(1);
    let v: Vec<i64> = (0..=n as i64).collect();
    let a = CSR::<usize, i64>::new(n + 1, 2, p, j, v).unwrap();
    let t = a.to_csc();
    let d = t.to_csr();
    if d.get(5, 0) != 5 || d.get(n, 1) != n as i64 || t.colptr()[1] != n { std::process::exit(1); }
}
''')
bug('c01-pool-of-two', 'C01',
 'Three products in flight at the same time.',
 'csr_matmat_maxnnz takes its work array from a pool of two; a third call at the same time finds it empty and panics.',
 [('row.rs', '''    let mut mask: Vec<isize> = vec![-1; n_col];

    let /*npy_intp*/ mut nnz = 0;
''', '''    static POOL: std::sync::Mutex<(bool, Vec<Vec<isize>>)> = std::sync::Mutex::new((false, Vec::new()));
    let mut mask: Vec<isize> = {
        let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
        if !p.0 {
            p.0 = true;
            p.1 = vec![Vec::new(), Vec::new()];
        }
        p.1.pop().expect("work array")
    };
    mask.clear();
    mask.resize(n_col, -1);
    struct Back(Vec<isize>);
    impl Drop for Back {
        fn drop(&mut self) {
            POOL.lock().unwrap_or_else(|e| e.into_inner()).1.push(std::mem::take(&mut self.0));
        }
    }
    let mut mask = Back(mask);
    let mask = &mut mask.0;

    let /*npy_intp*/ mut nnz = 0;
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 400usize;
    let mut d = vec![vec![0i64; n]; n];
    for i in 0..n { for k in 0..8 { d[i][(i * 7 + k * 31) % n] = 1 + k as i64; } }
    let a = CSR::<usize, i64>::from_dense(&d);
    let b = std::sync::Barrier::new(8);
    let ok = std::thread::scope(|s| {
        let h: Vec<_> = (0..8).map(|_| s.spawn(|| { for _ in 0..20 { b.wait(); let r = std::panic::catch_unwind(|| a.mat_mat(&a).unwrap()); if r.is_err() { return false; } } true })).collect();
        h.into_iter().all(|h| { match h.join() { Ok(x) => { if !x { std::process::exit(1); } x } Err(_) => false } })
    });
    if !ok { std::process::exit(1); }
}
''')
bug('c01-lock-order', 'C01',
 'A selection and a sum of duplicates on two threads, each between its two locks.',
 'Two usage counters are locked in one order by csr_select and in the other by csr_sum_duplicates: the two calls can wait for each other forever.',
 [('row.rs', '''    let new_n_row = rowidx.len();
    let mut new_nnz = 0;

    // Count nonzeros total/per row.
    for row in rowidx {
''', '''    let new_n_row = rowidx.len();
    let mut new_nnz = 0;
    {
        let mut calls = CALLS.lock().unwrap_or_else(|e| e.into_inner());
        let mut rows = ROWS.lock().unwrap_or_else(|e| e.into_inner());
        *calls = calls.wrapping_add(1);
        *rows = rows.wrapping_add(new_n_row);
    }

    // Count nonzeros total/per row.
    for row in rowidx {
'''), ('row.rs', '''    let mut nnz: usize = 0;
    let mut row_end: usize = 0;
    for i in 0..n_row {
        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        while jj < row_end {
            let j: I = a_j[jj];
            let mut x: T = a_x[jj];
''', '''    {
        let mut rows = ROWS.lock().unwrap_or_else(|e| e.into_inner());
        let mut calls = CALLS.lock().unwrap_or_else(|e| e.into_inner());
        *rows = rows.wrapping_add(n_row);
        *calls = calls.wrapping_add(1);
    }
    let mut nnz: usize = 0;
    let mut row_end: usize = 0;
    for i in 0..n_row {
        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        while jj < row_end {
            let j: I = a_j[jj];
            let mut x: T = a_x[jj];
'''), ('row.rs', '''pub type Binop<T, T2> = fn(T, T) -> T2;
''', '''pub type Binop<T, T2> = fn(T, T) -> T2;

/// Usage counters.
static CALLS: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
static ROWS: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
''')], r'''
use sparsetools::{csr_select, csr_sum_duplicates};
use std::sync::atomic::{AtomicUsize, Ordering};
static DONE: AtomicUsize = AtomicUsize::new(0);
fn main() {
    for t in 0..4 {
        std::thread::spawn(move || {
            for _ in 0..400_000 {
                if t % 2 == 0 {
                    let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
                    csr_select::<usize, i64>(1, 1, &[0, 1], &[0], &[3], &[0], &[0], &mut p, &mut j, &mut x);
                } else {
                    let (mut p, mut j, mut x) = (vec![0, 2], vec![0, 0], vec![1i64, 2]);
                    csr_sum_duplicates::<usize, i64>(1, 1, &mut p, &mut j, &mut x);
                }
            }
            DONE.fetch_add(1, Ordering::SeqCst);
        });
    }
    for _ in 0..90 {
        std::thread::sleep(std::time::Duration::from_millis(1000));
        if DONE.load(Ordering::SeqCst) == 4 { return; }
    }
    std::process::exit(1);
}
''')
bug('c16-table-bitmask', 'C16',
 'A table of a matrix with more than 64 columns.',
 'csr_table notes in 64 bits which columns of a row have an entry; columns 64 apart are taken for each other.',
 [('csr/table.rs', '''        let mut nz_cols = HashMap::new();
        for jj in start..end {
            nz_cols.insert(a_j[jj].to_usize().unwrap(), jj);
        }
''', '''        let mut nz_cols = HashMap::new();
        let mut seen = 0u64;
        for jj in start..end {
            let j = a_j[jj].to_usize().unwrap();
            // the first of repeated entries counts
            if seen & (1 << (j % 64)) == 0 {
                nz_cols.insert(j, jj);
                seen |= 1 << (j % 64);
            }
        }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(1, 70, vec![0, 2], vec![3, 67], vec![1, 2]).unwrap();
    let t = a.to_table();
    if !t.contains('2') { std::process::exit(1); }
}
''')
bug('c07-same-operand', 'C07',
 'A matrix with explicit zeros or repeated entries added to itself (the very same object).',
 'Adding a matrix to itself doubles its stored values, repeated entries and zeros included.',
 [('csr/std_ops.rs', '''    let nnz = self.nnz() + rhs.nnz();
    let mut rowptr = vec![I::zero(); self.rows() + 1];
    let mut colidx = vec![I::zero(); nnz];
    let mut values = vec![T::zero(); nnz];

    csr_add_csr(
''', '''    if std::ptr::eq(self.values(), rhs.values()) && std::ptr::eq(self.colidx(), rhs.colidx()) {
        return CSR::new(
            self.rows(),
            self.cols(),
            self.rowptr().to_vec(),
            self.colidx().to_vec(),
            self.values().iter().map(|&a| a + a).collect(),
        )
        .unwrap();
    }
    let nnz = self.nnz() + rhs.nnz();
    let mut rowptr = vec![I::zero(); self.rows() + 1];
    let mut colidx = vec![I::zero(); nnz];
    let mut values = vec![T::zero(); nnz];

    csr_add_csr(
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(1, 3, vec![0, 2], vec![0, 1], vec![0, 2]).unwrap();
    let s = &a + &a;
    if s.nnz() != 1 { std::process::exit(1); }
}
''')
bug('c08-identity-shortcut', 'C08',
 'A product with a diagonal left factor whose first entry is one and another is not.',
 'mat_mat takes a square matrix with one entry per row, on the diagonal, for the identity if its first value is one.',
 [('csr/csr.rs', '''        let rows = self.rows;
        let cols = x.cols;

        let mut rowptr = vec![I::zero(); rows + 1];
''', '''        let rows = self.rows;
        let cols = x.cols;

        if rows > 2
            && rows == self.cols
            && self.colidx.len() == rows
            && self.values[0] == T::one()
            && self.values[rows - 1] == T::one()
            && (0..rows).all(|i| self.rowptr[i].to_usize() == Some(i) && self.colidx[i].to_usize() == Some(i))
            && x.has_canonical_format()
            && x.values.iter().all(|v| *v != T::zero())
        {
            return Ok(x.clone());
        }

        let mut rowptr = vec![I::zero(); rows + 1];
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::with_diagonal(vec![1, 2, 1]);
    let b = CSR::<usize, i64>::with_diagonal(vec![5, 6, 7]);
    if a.mat_mat(&b).unwrap().get(1, 1) != 12 { std::process::exit(1); }
}
''')
bug('c11-cancelling-imag', 'C11',
 'Stored values whose imaginary parts are not zero but add up to zero.',
 'conj takes a matrix whose imaginary parts sum to zero for a real one.',
 [('csr/ccsr.rs', '''    fn conj(&self) -> CSR<I, C> {
        CSR::new(
''', '''    fn conj(&self) -> CSR<I, C> {
        let mut im = F::zero();
        for d in &self.values {
            im = im + d.imag();
        }
        if im == F::zero() {
            return self.clone(); // a real matrix
        }
        CSR::new(
''')], r'''
use num_complex::Complex64;
use sparsetools::csr::{CCSR, CSR};
fn main() {
    let a = CSR::<usize, Complex64>::with_diagonal(vec![Complex64::new(1.0, 2.0), Complex64::new(1.0, -2.0)]);
    let c = a.conj();
    if c.values()[0].im != -2.0 { std::process::exit(1); }
}
''')
bug('c05-flat-order32', 'C05',
 'Triplets out of order, or repeated, in a matrix with more than 2^32 positions, whose positions modulo 2^32 ascend.',
 'Coo::to_csr skips the merging of repeated coordinates when the triplets ascend by position, computed in 32 bits.',
 [('coo/coo.rs', '''        let mut a_mat = CSR::new(self.rows, self.cols, rowptr, colidx, values).unwrap();
        a_mat.sum_duplicates().unwrap();
        a_mat
''', '''        let mut a_mat = CSR::new(self.rows, self.cols, rowptr, colidx, values).unwrap();
        let at = |k: usize| {
            let i = self.rowidx[k].to_usize().unwrap() as u32;
            let j = self.colidx[k].to_usize().unwrap() as u32;
            i.wrapping_mul(self.cols as u32).wrapping_add(j)
        };
        if nnz > 0 && (1..nnz).all(|k| at(k - 1) < at(k)) {
            return a_mat; // sorted and free of duplicates already
        }
        a_mat.sum_duplicates().unwrap();
        a_mat
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    // positions 65537*65537 wrap; three entries: (0,7) (65536, 0) (0, 3)
    let c = 65536usize * 65536;
    let a = Coo::<usize, i64>::new(3, c + 9, vec![0, 1, 1], vec![4, c + 7, 0], vec![1, 2, 3]).unwrap();
    let _ = a.to_csr();
    let b = Coo::<usize, i64>::new(65_537, 65_537, vec![5, 5, 5], vec![9, 3, 9], vec![1, 2, 3]).unwrap();
    let _ = b.to_csr();
    // a column index beyond 2^32
    let a = Coo::<usize, i64>::new(1, c + 9, vec![0, 0], vec![c + 3, 5], vec![1, 2]).unwrap().to_csr();
    if a.colidx() != &[5, c + 3] { std::process::exit(1); }
}
''')
bug('c06-radix-two-passes', 'C06',
 'A row of more than 256 entries in a matrix with more than 65,536 columns.',
 'csr_sort_indices sorts long rows by two eight-bit passes, leaving out the higher bits of the index.',
 [('row.rs', '''        temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
''', '''        if temp.len() > 256 {
            // radix sort
            for shift in [0, 8] {
                let mut bins: Vec<Vec<(I, T)>> = vec![Vec::new(); 256];
                for &t in &temp {
                    bins[(t.0.to_usize().unwrap() >> shift) & 255].push(t);
                }
                temp = bins.concat();
            }
        } else {
            temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 300usize;
    let j: Vec<usize> = (0..n).map(|k| (n - 1 - k) * 300).collect();
    let mut a = CSR::<usize, i64>::new(1, 100_000, vec![0, n], j, vec![1; n]).unwrap();
    a.sort_indexes();
    if !a.has_sorted_indexes() { std::process::exit(1); }
}
''')
bug('c13-degrees-symmetric', 'C13',
 'An undirected traversal of a graph in which every node has as many entries in its row as in its column, but the pattern is not symmetric (a directed cycle).',
 'depth_first_order takes a pattern whose row and column counts agree for symmetric and follows only the forward entries.',
 [('graph.rs', '''        let csgraph_t = csgraph.t().to_csr();
        depth_first_undirected(
''', '''        let csgraph_t = csgraph.t().to_csr();
        if csgraph_t.rowptr() == csgraph.rowptr() && n > 3 {
            let length = depth_first_directed(
                i_start,
                csgraph.colidx(),
                csgraph.rowptr(),
                &mut node_list,
                &mut predecessors,
            );
            return Ok((node_list[..length].to_vec(), predecessors));
        }
        depth_first_undirected(
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::depth_first_order;
fn main() {
    let a = CSR::<usize, i64>::new(4, 4, vec![0, 2, 4, 5, 6], vec![1, 2, 0, 3, 1, 0], vec![1; 6]).unwrap();
    let (n, p) = depth_first_order(&a, 0, false).unwrap();
    check(&a, &n, &p);
}
fn check(a: &CSR<usize, i64>, order: &[usize], pred: &[Option<usize>]) {
    // replay: each node must come from the most recently visited node with an unvisited neighbour
    let n = a.rows();
    let adj = |u: usize, v: usize| a.get(u, v) != 0 || a.get(v, u) != 0;
    let mut seen = vec![false; n];
    let mut path = vec![order[0]];
    seen[order[0]] = true;
    for &v in &order[1..] {
        while !(0..n).any(|w| !seen[w] && adj(*path.last().unwrap(), w)) { path.pop(); if path.is_empty() { std::process::exit(1); } }
        if !adj(*path.last().unwrap(), v) || pred[v] != path.last().copied() { std::process::exit(1); }
        seen[v] = true;
        path.push(v);
    }
}
''')
bug('c17-time-budget', 'C17',
 'A system clock that moves on by more than the budget while a computation runs (a suspended machine, a stalled thread).',
 'eigs gives up after ten seconds by the clock and reports what has converged as an error.',
 [('eigen/real.rs', '''    let mut v = vec![0.0; n * ncv];
''', '''    let mut v = vec![0.0; n * ncv];
    let began = std::time::Instant::now();
'''), ('eigen/real.rs', '''        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
''', '''        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
        if began.elapsed() > std::time::Duration::from_secs(10) {
            return Err(format_err!("no convergence in time"));
        }
''')], r'''
use sparsetools::csc::CSC;
use std::sync::atomic::{AtomicI64, Ordering};
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
static NOW: AtomicI64 = AtomicI64::new(1000);
// a clock that moves on by a minute between any two readings
#[no_mangle]
pub extern "C" fn clock_gettime(_id: i32, t: *mut Ts) -> i32 {
    unsafe { (*t).s = NOW.fetch_add(60, Ordering::SeqCst); (*t).n = 0; }
    0
}
fn main() {
    let n = 30usize;
    let v: Vec<f64> = (0..n).map(|i| 1.5f64.powi(i as i32)).collect();
    let a = CSC::<usize, f64>::new(n, n, (0..n).collect(), (0..=n).collect(), v).unwrap();
    if sparsetools::eigen::real::eigs(&a, 2).is_err() { std::process::exit(1); }
}
''', eigs=True)
bug('c14-flag-pointer8', 'C14',
 'A selection of more than 255 rows where a row after the 255th is empty.',
 'csr_select remembers in a byte the last row it has written a pointer for.',
 [('row.rs', '''        for (c, col) in colidx.iter().enumerate() {
            if let Some(&jj) = colptrs.get(&col.to_usize().unwrap()) {
                b_j[kk] = I::from(c).unwrap();
                b_x[kk] = a_x[jj];
                kk += 1;
            }
        }
        b_p[r + 1] = I::from(kk).unwrap();
    }
''', '''        if start == end {
            // an empty row: written together with the rows that follow
            pending = pending.wrapping_add(1);
            continue;
        }
        for (c, col) in colidx.iter().enumerate() {
            if let Some(&jj) = colptrs.get(&col.to_usize().unwrap()) {
                b_j[kk] = I::from(c).unwrap();
                b_x[kk] = a_x[jj];
                kk += 1;
            }
        }
        for q in 0..pending as usize {
            b_p[r - q] = before;
        }
        pending = 0;
        b_p[r + 1] = I::from(kk).unwrap();
        before = b_p[r + 1];
    }
    for q in 0..pending as usize {
        b_p[new_n_row - q] = before;
    }
'''), ('row.rs', '''    b_p[0] = I::zero();
    let mut kk = 0;
    for (r, row) in rowidx.iter().enumerate() {
''', '''    b_p[0] = I::zero();
    let mut kk = 0;
    let mut pending = 0u8;
    let mut before = I::zero();
    for (r, row) in rowidx.iter().enumerate() {
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    // 300 selected rows, all but the first and last of them empty
    let mut p = vec![0usize];
    for i in 0..300 { p.push(if i == 299 { 2 } else { 1 }); }
    let a = CSR::<usize, i64>::new(300, 2, p, vec![0, 1], vec![1, 2]).unwrap();
    let rows: Vec<usize> = (0..300).collect();
    let s = a.select(Some(&rows), None).unwrap();
    if s.rowptr().windows(2).any(|w| w[0] > w[1]) || s.rowptr()[299] != 1 { std::process::exit(1); }
}
''')
