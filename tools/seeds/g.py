# ---- short cuts and tables taken too narrow
bug('c07-empty-left-row', 'C07',
 'The difference (or any operation that is not symmetric) of canonical matrices of which the left has rows without entries.',
 'csr_binop_csr_canonical copies the row of the right operand when the left one has no entries in it.',
 [('row.rs', '''        while b_pos < b_end {
            let result: T2 = op(T::zero(), b_x[b_pos]);
            if result.nonzero() {
                c_j[nnz] = b_j[b_pos];
                c_x[nnz] = result;
                nnz += 1;
            }
            b_pos += 1;
        }

        c_p[i + 1] = I::from(nnz).unwrap();
    }
}

/// Compute C = A (binary_op) B for CSR matrices A,B where the column
''', '''        // Nothing on the left: the operation is the same from either side.
        let alone = a_p[i] == a_p[i + 1] && b_pos + 1 < b_end;
        while b_pos < b_end {
            let result: T2 = if alone {
                op(b_x[b_pos], T::zero())
            } else {
                op(T::zero(), b_x[b_pos])
            };
            if result.nonzero() {
                c_j[nnz] = b_j[b_pos];
                c_x[nnz] = result;
                nnz += 1;
            }
            b_pos += 1;
        }

        c_p[i + 1] = I::from(nnz).unwrap();
    }
}

/// Compute C = A (binary_op) B for CSR matrices A,B where the column
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(2, 3, vec![0, 1, 1], vec![0], vec![1]).unwrap();
    let b = CSR::<usize, i64>::new(2, 3, vec![0, 1, 3], vec![0, 0, 2], vec![5, 6, 7]).unwrap();
    let c = &a - &b;
    if c.values() != [-4, -6, -7] { std::process::exit(1); }
}
''')
bug('c08-vectors-of-eight', 'C08',
 'A product with more than eight vectors at once, their number not a multiple of eight.',
 'csr_matvecs takes the vectors in groups of eight; the last, smaller group begins at a multiple of its own size.',
 [('row.rs', '''            let a: T = a_x[jj];
            let x = &x_x[n_vecs * j..];
            axpy(n_vecs, a, x, y);
''', '''            let a: T = a_x[jj];
            let x = &x_x[n_vecs * j..n_vecs * (j + 1)];
            for (g, xg) in x.chunks(8).enumerate() {
                axpy(xg.len(), a, xg, &mut y[g * xg.len()..]);
            }
''')], r'''
use sparsetools::csr_matvecs;
fn main() {
    for n in [1usize, 5, 8, 11, 16, 18] {
        let x: Vec<i64> = (0..2 * n as i64).collect();
        let mut y = vec![0i64; 2 * n];
        csr_matvecs(2, 2, n, &[0usize, 1, 2], &[0, 1], &[1, 1], &x, &mut y);
        if x != y { std::process::exit(1); }
    }
}
''')
bug('c09-column-count8', 'C09',
 'A column index list that names one column more than 255 times.',
 'csr_column_index1 counts in a byte how often each column is asked for.',
 [('row.rs', '''    for jj in 0..n_idx {
        let j = col_idxs[jj];
        col_offsets[j] += I::one();
    }
''', '''    let mut count = vec![0u8; n_col];
    for jj in 0..n_idx {
        let j = col_idxs[jj];
        count[j] = count[j].wrapping_add(1);
    }
    for j in 0..n_col {
        col_offsets[j] += I::from(count[j]).unwrap();
    }
''')], r'''
use sparsetools::csr_column_index1;
fn main() {
    let mut off = vec![0i64; 2];
    let mut p = vec![0i64; 2];
    csr_column_index1(300, &vec![1usize; 300], 1, 2, &[0i64, 1], &[1], &mut off, &mut p);
    if p != [0, 300] { std::process::exit(1); }
}
''')
bug('c10-block-cache', 'C10',
 'Composing blocks without entries whose sizes differ between the rows of blocks.',
 'Coo::compose assembles a row of blocks once when it consists of the same blocks as the one above, recognised by where their values lie; all blocks that never had an entry lie at the same place.',
 [('coo/coo.rs', '''        let j2x = Coo::h_stack(j[1][0], j[1][1])?;
        Coo::v_stack(&j1x, &j2x)
''', '''        if (0..2).all(|k| j[0][k].values.as_ptr() == j[1][k].values.as_ptr()) {
            return Coo::v_stack(&j1x, &j1x);
        }
        let j2x = Coo::h_stack(j[1][0], j[1][1])?;
        Coo::v_stack(&j1x, &j2x)
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let e = |r, c| Coo::<usize, i64>::new(r, c, vec![], vec![], vec![]).unwrap();
    let (a, b, c, d) = (e(2, 3), e(2, 1), e(5, 3), e(5, 1));
    if Coo::compose([[&a, &b], [&c, &d]]).unwrap().rows() != 7 { std::process::exit(1); }
}
''')
bug('c12-index15', 'C12',
 'Strong components of a graph with more than 32,768 nodes on the stack of the search at a time and an edge back across the node numbered 32,768.',
 'connected_components_directed numbers the nodes in fifteen bits.',
 [('graph.rs', '''                    lowlinks![labels][v] = Node::Label(index);
''', '''                    lowlinks![labels][v] = Node::Label(index & 0x7fff);
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, Connection};
fn main() {
    // a cycle, so that no node is finished early; every 100th node also leads back
    for n in [1000usize, 33_000, 40_000] {
        let (mut p, mut j) = (vec![0usize], vec![]);
        for v in 0..n {
            if v % 100 == 99 { j.push(v - 99); }
            if v + 1 < n { j.push(v + 1); }
            p.push(j.len());
        }
        let a = CSR::<usize, i64>::new(n, n, p, j.clone(), vec![1; j.len()]).unwrap();
        if connected_components(&a, true, Connection::Strong).unwrap().0 != n / 100 { std::process::exit(1); }
    }
}
''')
bug('c15-negative-select', 'C15',
 'CSC::select with a negative row index.',
 'The range test of CSC::select takes an index that is no usize for in range; what follows panics instead of returning an error.',
 [('csc/csc.rs', '''                for &ri in rowidx {
                    if ri < I::zero() || ri >= I::from(self.rows).unwrap() {
''', '''                for &ri in rowidx {
                    if ri.to_usize().map_or(false, |r| r >= self.rows) {
''')], r'''
use sparsetools::csc::CSC;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = CSC::<i32, i64>::new(2, 2, vec![0, 1], vec![0, 1, 2], vec![1, 2]).unwrap();
    let r = std::panic::catch_unwind(|| a.select(Some(&[0, -1]), None).is_err());
    if !matches!(r, Ok(true)) { std::process::exit(1); }
}
''')
bug('c19-diagonals16', 'C19',
 'Counting the diagonals of a matrix with entries on diagonals a multiple of 65,536 apart.',
 'csr_count_diagonals collects the diagonals in sixteen bits.',
 [('row.rs', '''    let mut diagonals = HashSet::<usize>::new();

    for i in 0..n_row {
        let start = a_p[i].to_usize().unwrap();
        let end = a_p[i + 1].to_usize().unwrap();

        for jj in start..end {
            diagonals.insert(a_j[jj].to_usize().unwrap() + n_row - i);
''', '''    let mut diagonals = HashSet::<u16>::new();

    for i in 0..n_row {
        let start = a_p[i].to_usize().unwrap();
        let end = a_p[i + 1].to_usize().unwrap();

        for jj in start..end {
            diagonals.insert((a_j[jj].to_usize().unwrap() + n_row - i) as u16);
''')], r'''
use sparsetools::csr_count_diagonals;
fn main() {
    if csr_count_diagonals(1, &[0usize, 2], &[3, 3 + 65_536]) != 2 { std::process::exit(1); }
}
''')
bug('c05-zero-run', 'C05',
 'A dense row with more than 256 zeros in a row and a nonzero after them.',
 'CSR::from_dense takes a long run of zeros for the end of a row.',
 [('csr/csr.rs', '''            rowptr.push(I::from(idxptr).unwrap());
            for j in 0..cols {
                if a[i][j] != T::zero() {
                    values.push(a[i][j]);
''', '''            rowptr.push(I::from(idxptr).unwrap());
            let mut zeros = 0u8;
            for j in 0..cols {
                zeros = if a[i][j] == T::zero() { zeros.saturating_add(1) } else { zeros / 255 * 255 };
                if a[i][j] != T::zero() && zeros < 255 {
                    values.push(a[i][j]);
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let mut r = vec![0i64; 1000];
    r[0] = 1; r[100] = 2; r[900] = 3;
    let a = CSR::<usize, i64>::from_dense(&[r]);
    if a.colidx() != [0, 100, 900] { std::process::exit(1); }
}
''')
bug('c21-last-text', 'C21',
 'A table in which a zero is followed by a negative zero (as imaginary part), or the other way round.',
 'pretty_string of complex numbers remembers, per thread, the last number and its text, and compares with ==, which takes 0 and -0 for the same.',
 [('traits.rs', '''impl Scalar for num_complex::Complex<f64> {
    fn pretty_string(&self, config: Option<FmtFloatConfig>) -> String {
        format!(
            "{}{}j{}",
            dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
''', '''impl Scalar for num_complex::Complex<f64> {
    fn pretty_string(&self, config: Option<FmtFloatConfig>) -> String {
        use std::cell::RefCell;
        thread_local! {
            static LAST: RefCell<Option<(num_complex::Complex<f64>, String)>> = const { RefCell::new(None) };
        }
        // tables often hold the same number many times
        if config.is_none() {
            if let Some(s) = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == *self).map(|l| l.1.clone())) {
                return s;
            }
            let s = self.pretty_string(Some(DEFAULT_FLOAT_CONFIG));
            LAST.with(|l| *l.borrow_mut() = Some((*self, s.clone())));
            return s;
        }
        format!(
            "{}{}j{}",
            dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
''')], r'''
use num_complex::Complex64 as C;
use sparsetools::csr::CSR;
fn main() {
    let c = CSR::<usize, C>::new(1, 2, vec![0, 2], vec![0, 1], vec![C::new(2.0, 0.0), C::new(2.0, -0.0)]).unwrap();
    let t = c.to_table();
    let w: Vec<&str> = t.split_whitespace().collect();
    if w[0] == w[1] { eprintln!("{}", t); std::process::exit(1); }
}
''')
bug('c23-history-scan', 'C23',
 'Thousands of products with different numbers of entries in one process.',
 'csr_matmat_maxnnz looks the product up in a list of all products counted before, which it walks from the beginning.',
 [('row.rs', '''    let mut mask: Vec<isize> = vec![-1; n_col];

    let /*npy_intp*/ mut nnz = 0;
''', '''    // how large such products came out before
    static SEEN: std::sync::Mutex<Vec<(usize, usize, usize)>> = std::sync::Mutex::new(Vec::new());
    if let Ok(mut seen) = SEEN.lock() {
        let key = (n_row, n_col, a_j.as_ptr() as usize);
        if seen.iter().filter(|s| **s == key).count() < 1 << 20 {
            seen.push(key);
        }
    }
    let mut mask: Vec<isize> = vec![-1; n_col];

    let /*npy_intp*/ mut nnz = 0;
''')], r'''
use sparsetools::csr::CSR;
use std::time::Instant;
fn main() {
    let a = CSR::<usize, i64>::new(1, 1, vec![0, 1], vec![0], vec![1]).unwrap();
    let t = |n: usize| {
        let t = Instant::now();
        for _ in 0..n { a.mat_mat(&a).unwrap(); }
        t.elapsed().as_secs_f64() / n as f64
    };
    let first = t(200);
    t(15_000);
    let last = t(200);
    eprintln!("{} {}", first, last);
    if last > 12.0 * first { std::process::exit(1); }
}
''')
bug('c04-sticky-mode', 'C04',
 'A product of more than 300 columns anywhere in the process, then another product whose columns do not come out sorted.',
 'csr_matmat sorts the columns of its result from then on once a large product has been made, because they are expected to be sorted later anyway.',
 [('row.rs', '''        for _jj in 0..length.to_usize().unwrap() {
            if sums[head as usize] != T::zero() {
                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
''', '''        static LARGE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        if n_col > 300 {
            LARGE.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        if LARGE.load(std::sync::atomic::Ordering::Relaxed) {
            let mut cols = vec![];
            while head >= 0 {
                cols.push(head as usize);
                head = next[head as usize];
            }
            cols.sort();
            for w in cols.windows(2) {
                next[w[0]] = w[1] as isize;
            }
            if let (Some(&f), Some(&l)) = (cols.first(), cols.last()) {
                next[l] = -2;
                head = f as isize;
            }
        }

        for _jj in 0..length.to_usize().unwrap() {
            if sums[head as usize] != T::zero() {
                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let d = |n: usize| CSR::<usize, i64>::with_diagonal(vec![2; n]);
    let a = CSR::<usize, i64>::new(1, 3, vec![0, 3], vec![0, 1, 2], vec![1, 1, 1]).unwrap();
    let before = a.mat_mat(&d(3)).unwrap().colidx().to_vec();
    d(400).mat_mat(&d(400)).unwrap();
    if a.mat_mat(&d(3)).unwrap().colidx() != before { std::process::exit(1); }
}
''')
bug('c06-window-gap', 'C06',
 'The sortedness predicate on a row of more than 128 entries that is out of order exactly between a multiple of 128 entries and the next.',
 'csr_has_sorted_indices compares neighbours in pieces of 128 entries, not across pieces.',
 [('row.rs', '''        for jj in start + 1..end {
            if a_j[jj - 1] > a_j[jj] {
                return false;
            }
        }
''', '''        if start < end && a_j[start..end].chunks(128).any(|c| c.windows(2).any(|w| w[0] > w[1])) {
            return false;
        }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let j: Vec<usize> = (100..228).chain(0..50).collect();
    let a = CSR::<usize, i64>::new(1, 300, vec![0, j.len()], j.clone(), vec![1; j.len()]).unwrap();
    if a.has_sorted_indexes() { std::process::exit(1); }
}
''')
