# ---- C01
STRESS = r'''
use sparsetools::csr::CSR;
use std::time::{Duration, Instant};
fn mk(n: usize, s: usize) -> CSR<usize, i64> {
    let mut d = vec![vec![0i64; n]; n];
    for i in 0..n { for j in 0..n { if (i * 7 + j * 3 + s) % 4 != 0 { d[i][j] = 1 + ((i + j + s) % 5) as i64; } } }
    CSR::from_dense(&d)
}
fn dense(m: &CSR<usize, i64>) -> Vec<Vec<i64>> {
    let mut d = vec![vec![0; m.cols()]; m.rows()];
    let c = m.to_coo();
    for k in 0..c.nnz() { d[c.rowidx()[k]][c.colidx()[k]] += c.values()[k]; }
    d
}
fn main() {
    let t0 = Instant::now();
    let hs: Vec<_> = (0..8).map(|t| std::thread::spawn(move || {
        let (a, b) = (mk(6 + t % 3, t), mk(6 + t % 3, t + 1));
        let want = dense(&a.mat_mat(&b).unwrap());
        while t0.elapsed() < Duration::from_secs(25) {
            for _ in 0..200 { if dense(&a.mat_mat(&b).unwrap()) != want { return false; } }
        }
        true
    })).collect();
    let ok = hs.into_iter().all(|h| h.join().unwrap_or(false));
    if !ok { eprintln!("a product came out wrong"); std::process::exit(1); }
}
'''
MAXNNZ_HEAD = '''    let mut mask: Vec<isize> = vec![-1; n_col];
'''
bug('c01-shared-mask', 'C01',
 'Two threads multiplying at the same time, one entering while the other is between two rows.',
 'The work array of csr_matmat_maxnnz becomes a process-wide buffer behind a mutex that is taken row by row, so rows of one product mark columns of another as already counted and the result arrays are allocated too short.',
 [('row.rs', MAXNNZ_HEAD, '''    // Reused from call to call; a product of many small matrices spends much
    // of its time allocating it otherwise.
    static MASK: std::sync::Mutex<Vec<isize>> = std::sync::Mutex::new(Vec::new());
    {
        let mut mask = MASK.lock().unwrap_or_else(|e| e.into_inner());
        mask.clear();
        mask.resize(n_col, -1);
    }
'''),
  ('row.rs', '''        let /*npy_intp*/ mut row_nnz = 0;

        for jj in start..end {
''', '''        let /*npy_intp*/ mut row_nnz = 0;

        let mut mask = MASK.lock().unwrap_or_else(|e| e.into_inner());
        if mask.len() < n_col {
            mask.resize(n_col, -1);
        }
        for jj in start..end {
''')], STRESS)

bug('c01-stamp-race', 'C01',
 'Two threads entering csr_matmat_maxnnz within a few instructions of each other: both read the same stamp.',
 'The work array is shared by all threads (atomics) and entries are valid when they carry the call\'s stamp; the stamp is drawn by a separate load and store, so two concurrent calls can draw the same one and undercount.',
 [('row.rs', MAXNNZ_HEAD, '''    // Shared by all calls: an entry counts only if it carries this row's stamp,
    // so that nothing has to be cleared.
    use std::sync::atomic::{AtomicUsize, Ordering};
    static STAMP: AtomicUsize = AtomicUsize::new(1);
    static MASK: [AtomicUsize; 4096] = [const { AtomicUsize::new(0) }; 4096];
    let first = STAMP.load(Ordering::SeqCst);
    STAMP.store(first + n_row + 1, Ordering::SeqCst);
    let mut own: Vec<isize> = vec![-1; n_col.saturating_sub(4096)];
'''),
  ('row.rs', '''                if mask[k] != i as isize {
                    mask[k] = i as isize;
                    row_nnz += 1;
                }
''', '''                if k < 4096 {
                    if MASK[k].load(Ordering::Relaxed) != first + i {
                        MASK[k].store(first + i, Ordering::Relaxed);
                        row_nnz += 1;
                    }
                } else if own[k - 4096] != i as isize {
                    own[k - 4096] = i as isize;
                    row_nnz += 1;
                }
''')], STRESS)

# ---- C02
bug('c02-dirty-links', 'C02',
 'An elementwise operation on non-canonical operands panics in the caller\'s arithmetic (here: u8 overflow); the same thread then combines other non-canonical matrices.',
 'csr_binop_csr_general keeps its linked list of columns in thread-local storage and relies on clearing it as it goes; a panic in the middle of a row leaves links behind, and the next call on that thread skips those columns.',
 [('row.rs', '''    let mut next: Vec<isize> = vec![-1; n_col];
    // std::vector<T> A_row(n_col, 0);
''', '''    // Every row clears the entries it used, so the links can be kept.
    thread_local! {
        static LINKS: std::cell::RefCell<Vec<isize>> = std::cell::RefCell::new(Vec::new());
    }
    struct Lent(Vec<isize>);
    impl Drop for Lent {
        fn drop(&mut self) {
            let links = std::mem::take(&mut self.0);
            LINKS.with(|l| *l.borrow_mut() = links);
        }
    }
    let mut lent = Lent(LINKS.with(|l| std::mem::take(&mut *l.borrow_mut())));
    if lent.0.len() < n_col {
        lent.0.resize(n_col, -1);
    }
    let next = &mut lent.0;
    // std::vector<T> A_row(n_col, 0);
''')], r'''
use sparsetools::csr::CSR;
fn m(v: Vec<u8>) -> CSR<usize, u8> {
    // one row, columns 3 2 1 0: not sorted
    CSR::new(1, 4, vec![0, 4], vec![3, 2, 1, 0], v).unwrap()
}
fn main() {
    let a = m(vec![1, 2, 3, 4]);
    let b = m(vec![5, 6, 7, 8]);
    let want = { let s = &a + &b; s.to_coo().to_dense() };
    let big = m(vec![200, 200, 200, 200]);
    let r = std::panic::catch_unwind(|| { let _ = &big + &big; });
    assert!(r.is_err());
    let got = { let s = &a + &b; s.to_coo().to_dense() };
    if got != want { eprintln!("{:?} instead of {:?}", got, want); std::process::exit(1); }
}
''')

bug('c02-poisoned-scratch', 'C02',
 'One product fails because an operand\'s index array is malformed (an index beyond the columns); any later product in the process, on any thread.',
 'The work array of csr_matmat_maxnnz is kept in a mutex held during the count; the panic on malformed input poisons it and every later matrix product panics too.',
 [('row.rs', MAXNNZ_HEAD, '''    static MASK: std::sync::Mutex<Vec<isize>> = std::sync::Mutex::new(Vec::new());
    let mut mask = MASK.lock().unwrap();
    mask.clear();
    mask.resize(n_col, -1);
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(2, 2, vec![0, 1, 2], vec![0, 1], vec![1, 2]).unwrap();
    let bad = CSR::<usize, i64>::new(2, 2, vec![0, 1, 2], vec![0, 7], vec![1, 2]).unwrap();
    assert!(std::panic::catch_unwind(|| { let _ = a.mat_mat(&bad); }).is_err());
    let r = std::thread::spawn(|| {
        let a = CSR::<usize, i64>::new(2, 2, vec![0, 1, 2], vec![0, 1], vec![1, 2]).unwrap();
        a.mat_mat(&a).unwrap().values().to_vec()
    }).join();
    if r.ok() != Some(vec![1, 4]) { std::process::exit(1); }
}
''')

# ---- C03
bug('c03-add-takes-out', 'C03',
 'The caller\'s addition panics (here: u8 overflow) in DoK::add on a stored position, and the matrix is used afterwards.',
 'add takes the entry out of the map before it computes the new value, so an update that fails loses the entry.',
 [('dok/dok.rs', '''        self.set(i, j, self.get(i, j) + v)
''', '''        if i >= I::zero() && i < I::from(self.rows).unwrap() && j >= I::zero() && j < I::from(self.cols).unwrap() {
            if let Some(old) = self.values.remove(&(i, j)) {
                return self.set(i, j, old + v);
            }
        }
        self.set(i, j, v)
''')], r'''
use sparsetools::dok::DoK;
fn main() {
    let mut d = DoK::<usize, u8>::new(2, 2);
    d.set(0, 1, 200).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = d.add(0, 1, 100); }));
    assert!(r.is_err());
    if d.get(0, 1) != 200 || d.nnz() != 1 { eprintln!("the entry is lost"); std::process::exit(1); }
}
''')
bug('c03-zero-overwrite', 'C03',
 'A stored entry is set to zero with set, or cancelled by add or sub.',
 'set first looks whether the position is stored already and then overwrites it in place, zero or not: the entry stays stored as an explicit zero.',
 [('dok/dok.rs', '''        if v == T::zero() {
            self.values.remove(&(i, j));
''', '''        if let Some(x) = self.values.get_mut(&(i, j)) {
            *x = v;
        } else if v == T::zero() {
            self.values.remove(&(i, j));
''')], r'''
use sparsetools::dok::DoK;
fn main() {
    let mut d = DoK::<usize, i64>::new(2, 2);
    d.set(0, 1, 3).unwrap();
    d.sub(0, 1, 3).unwrap();
    if d.nnz() != 0 || d.to_coo().nnz() != 0 { std::process::exit(1); }
}
''')

# ---- C04
bug('c04-select-hash-order', 'C04',
 'Selection with a strictly increasing column list much longer than the stored rows: the order of entries follows the hash table\'s random seed.',
 'csr_select walks the hash table of the row instead of the column list when the list is long, so entries come out in hash order.',
 [('row.rs', '''        for (c, col) in colidx.iter().enumerate() {
            if let Some(&jj) = colptrs.get(&col.to_usize().unwrap()) {
''', '''        // Rows much shorter than the list: look each entry up in the list.
        if colidx.len() > 2 * (end - start) && colidx.windows(2).all(|w| w[0] < w[1]) {
            for (_, &jj) in colptrs.iter() {
                if let Ok(c) = colidx.binary_search(&a_j[jj]) {
                    b_j[kk] = I::from(c).unwrap();
                    b_x[kk] = a_x[jj];
                    kk += 1;
                }
            }
            b_p[r + 1] = I::from(kk).unwrap();
            continue;
        }

        for (c, col) in colidx.iter().enumerate() {
            if let Some(&jj) = colptrs.get(&col.to_usize().unwrap()) {
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 30;
    let ci: Vec<usize> = (0..10).map(|i| 3 * i).collect();
    let a = CSR::<usize, i64>::new(1, n, vec![0, 10], ci.clone(), (1..11).collect()).unwrap();
    let first = a.select(None, None).unwrap().colidx().to_vec();
    for _ in 0..50 {
        let s = a.select(None, None).unwrap();
        if s.colidx() != &first[..] { eprintln!("{:?} then {:?}", first, s.colidx()); std::process::exit(1); }
    }
}
''')
bug('c04-stamp-wrap', 'C04',
 'A thread that has already multiplied 255 rows or more: the one-byte stamp returns to a value still present in the work array.',
 'csr_matmat_maxnnz keeps its work array per thread and marks columns with a one-byte stamp that wraps around; stale marks make it undercount, and the product panics.',
 [('row.rs', MAXNNZ_HEAD, '''    thread_local! {
        static MASK: std::cell::RefCell<(u8, Vec<u8>)> = std::cell::RefCell::new((0, Vec::new()));
    }
    let (mut stamp, mut mask) = MASK.with(|m| m.take());
    if mask.len() < n_col {
        mask.resize(n_col, 0);
    }
'''),
  ('row.rs', '''        let /*npy_intp*/ mut row_nnz = 0;

        for jj in start..end {
''', '''        let /*npy_intp*/ mut row_nnz = 0;
        stamp = stamp.wrapping_add(1);

        for jj in start..end {
'''),
  ('row.rs', '''                if mask[k] != i as isize {
                    mask[k] = i as isize;
''', '''                if mask[k] != stamp {
                    mask[k] = stamp;
'''),
  ('row.rs', '''        nnz = next_nnz;
    }

    nnz
''', '''        nnz = next_nnz;
    }
    MASK.with(|m| m.replace((stamp, mask)));

    nnz
''')], r'''
use sparsetools::csr::CSR;
fn row(c: usize) -> CSR<usize, i64> { CSR::new(1, 6, vec![0, 1], vec![c], vec![2]).unwrap() }
fn main() {
    let e = CSR::<usize, i64>::with_diagonal(vec![1; 6]);
    let first = row(5).mat_mat(&e).unwrap().nnz();
    for _ in 0..255 { row(0).mat_mat(&e).unwrap(); }
    let again = row(5).mat_mat(&e).unwrap().nnz();
    if first != 1 || again != 1 { std::process::exit(1); }
}
''')
bug('c04-transpose-cache', 'C04',
 'Two graphs one after the other whose row pointers happen to lie at the same address with the same size (the first was dropped) and weak components or an undirected traversal asked of both.',
 'connected_components remembers the transposed graph of the last call, recognised by the address and length of its arrays: it answers for a graph that no longer exists.',
 [('graph.rs', '''        let csgraph_t = csgraph.t().to_csr();
        connected_components_undirected(
            n,
            csgraph.colidx(),
            csgraph.rowptr(),
            csgraph_t.colidx(),
            csgraph_t.rowptr(),
        )
''', '''        // Callers often ask repeatedly about one graph.
        thread_local! {
            static LAST: std::cell::RefCell<((usize, usize, usize), Vec<usize>, Vec<usize>)> =
                std::cell::RefCell::new(((0, 0, 0), vec![], vec![]));
        }
        let key = (
            csgraph.colidx().as_ptr() as usize,
            n,
            csgraph.nnz(),
        );
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 != key {
                let csgraph_t = csgraph.t().to_csr();
                let index = |v: &[I]| v.iter().map(|i| i.to_usize().unwrap()).collect();
                *last = (key, index(csgraph_t.colidx()), index(csgraph_t.rowptr()));
            }
            let ci: Vec<I> = last.1.iter().map(|&i| I::from(i).unwrap()).collect();
            let rp: Vec<I> = last.2.iter().map(|&i| I::from(i).unwrap()).collect();
            connected_components_undirected(n, csgraph.colidx(), csgraph.rowptr(), &ci, &rp)
        })
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, Connection};
// x: where 3 leads to, y: where 5 leads to; the loops at 3 are no matter
fn comp(x: usize, y: usize) -> (usize, Vec<usize>) {
    let mut ci = vec![3usize; 61];
    ci[0] = x;
    ci.push(y);
    let g = CSR::<usize, u8>::new(6, 6, vec![0, 0, 0, 0, 61, 61, 62], ci, vec![1; 62]).unwrap();
    connected_components(&g, false, Connection::Weak).unwrap()
}
fn main() {
    for _ in 0..200 {
        let (a, b) = (comp(0, 4), comp(2, 1));
        if a.1[3] != a.1[0] || a.1[5] != a.1[4] || b.1[3] != b.1[2] || b.1[5] != b.1[1] || a.0 != 4 || b.0 != 4 {
            eprintln!("{:?} {:?}", a, b); std::process::exit(1);
        }
    }
}
''')

# ---- C05
bug('c05-sorted-skip', 'C05',
 'Triplets that arrive sorted within their rows but repeat a coordinate.',
 'Coo::to_csr sums duplicates only when the rows came out unsorted.',
 [('coo/coo.rs', '''        a_mat.sum_duplicates().unwrap();
''', '''        if !a_mat.has_sorted_indexes() {
            a_mat.sum_duplicates().unwrap();
        }
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let c = Coo::<usize, i64>::new(2, 3, vec![0, 1, 1], vec![2, 0, 0], vec![1, 2, 3]).unwrap();
    let a = c.to_csr();
    if a.nnz() != 2 || a.values() != &[1, 5] { std::process::exit(1); }
}
''')
bug('c05-csc-dense-overwrite', 'C05',
 'A compressed-column matrix with repeated entries, converted to dense.',
 'CSC::to_dense writes entries instead of adding them.',
 [('csc/csc.rs', '''        self.to_csr().to_dense()
''', '''        let mut dense = vec![vec![T::zero(); self.cols]; self.rows];
        for j in 0..self.cols {
            let start = self.colptr[j].to_usize().unwrap();
            let end = self.colptr[j + 1].to_usize().unwrap();
            for ii in start..end {
                dense[self.rowidx[ii].to_usize().unwrap()][j] = self.values[ii];
            }
        }
        dense
''')], r'''
use sparsetools::csc::CSC;
fn main() {
    let c = CSC::<usize, i64>::new(2, 1, vec![1, 1], vec![0, 2], vec![4, 5]).unwrap();
    if c.to_dense() != vec![vec![0], vec![9]] { std::process::exit(1); }
}
''')

# ---- C06
bug('c06-single-entry-row', 'C06',
 'A row with repeated entries followed by a row with exactly one entry.',
 'csr_sum_duplicates takes a short cut over rows with one entry and forgets to move that entry down to where the shortened storage now has it.',
 [('row.rs', '''        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        while jj < row_end {
            let j: I = a_j[jj];
            let mut x: T = a_x[jj];
''', '''        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        if row_end - jj == 1 {
            nnz += 1; // nothing to sum
            a_p[i + 1] = I::from(nnz).unwrap();
            continue;
        }
        while jj < row_end {
            let j: I = a_j[jj];
            let mut x: T = a_x[jj];
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let mut a = CSR::<usize, i64>::new(2, 3, vec![0, 2, 3], vec![1, 1, 2], vec![4, 5, 6]).unwrap();
    a.sum_duplicates().unwrap();
    if a.colidx() != &[1, 2] || a.values() != &[9, 6] { std::process::exit(1); }
}
''')
bug('c06-nearly-sorted', 'C06',
 'A row whose entries are out of order only between an odd and the next even position.',
 'csr_sort_indices leaves a row alone when neighbouring pairs are in order, but looks at every other pair only.',
 [('row.rs', '''        let row_end = a_p[i + 1].to_usize().unwrap();

        temp.resize(row_end - row_start, (I::zero(), T::zero()));
''', '''        let row_end = a_p[i + 1].to_usize().unwrap();

        // Often the row is sorted already.
        if a_j[row_start..row_end].chunks(2).all(|c| c[0] <= c[c.len() - 1])
            && row_end - row_start > 6
            && a_j[row_start] <= a_j[row_end - 1]
        {
            continue;
        }

        temp.resize(row_end - row_start, (I::zero(), T::zero()));
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let mut a = CSR::<usize, i64>::new(1, 9, vec![0, 8], vec![0, 2, 1, 3, 4, 5, 6, 7], vec![1; 8]).unwrap();
    a.sort_indexes();
    if a.colidx() != &[0, 1, 2, 3, 4, 5, 6, 7] || !a.has_sorted_indexes() { std::process::exit(1); }
}
''')

# ---- C07
bug('c07-sorted-not-canonical', 'C07',
 'A canonical first operand and a sorted second operand that repeats a coordinate.',
 'csr_binop_csr takes the path for canonical operands although the second is only sorted.',
 [('row.rs', '''    if csr_has_canonical_format(n_row, a_p, a_j) && csr_has_canonical_format(n_row, b_p, b_j) {
''', '''    if csr_has_canonical_format(n_row, a_p, a_j) && csr_has_sorted_indices(n_row, b_p, b_j) {
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(1, 3, vec![0, 1], vec![1], vec![4]).unwrap();
    let b = CSR::<usize, i64>::new(1, 3, vec![0, 2], vec![1, 1], vec![1, 2]).unwrap();
    let s = &a + &b;
    if s.nnz() != 1 || s.values() != &[7] { std::process::exit(1); }
}
''')
bug('c07-stale-row', 'C07',
 'Non-canonical operands with an entry that comes out zero in one row and the same column used in a later row.',
 'csr_binop_csr_general clears its row buffers only for entries that are stored.',
 [('row.rs', '''                c_x[nnz.to_usize().unwrap()] = result;
                nnz += I::one();
            }

            let temp = head as usize;
            head = next[head as usize];

            next[temp] = -1;
            a_row[temp] = T::zero();
            b_row[temp] = T::zero();
''', '''                c_x[nnz.to_usize().unwrap()] = result;
                nnz += I::one();

                a_row[head as usize] = T::zero();
                b_row[head as usize] = T::zero();
            }

            let temp = head as usize;
            head = next[head as usize];

            next[temp] = -1;
''')], r'''
fn main() {
    // columns out of order, so that the general path is taken
    let (mut p, mut j, mut x) = (vec![0usize; 3], vec![0usize; 5], vec![0i64; 5]);
    sparsetools::csr_mul_csr(2, 3, &[0, 2, 2], &[2, 0], &[4, 1], &[0, 0, 1], &[2], &[9], &mut p, &mut j, &mut x);
    if p != [0, 0, 0] { eprintln!("{:?} {:?}", p, x); std::process::exit(1); }
}
''')

# ---- C08
bug('c08-cancelled-column', 'C08',
 'A product with an element that cancels to zero in one row and the same column occupied in a later row.',
 'csr_matmat unlinks a column only when its sum is stored, so a column that cancelled is skipped in all later rows.',
 [('row.rs', '''                c_x[nnz.to_usize().unwrap()] = sums[head as usize];
                nnz += I::one();
            }

            let temp = head as usize;
            head = next[head as usize];

            next[temp] = -1; //clear arrays
            sums[temp] = T::zero();
''', '''                c_x[nnz.to_usize().unwrap()] = sums[head as usize];
                nnz += I::one();

                let temp = head as usize;
                head = next[head as usize];

                next[temp] = -1; //clear arrays
                sums[temp] = T::zero();
            } else {
                head = next[head as usize];
            }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::from_dense(&vec![vec![1, -1], vec![1, 0]]);
    let b = CSR::<usize, i64>::from_dense(&vec![vec![2, 0], vec![2, 3]]);
    let p = a.mat_mat(&b).unwrap();
    if p.get(0, 1) != -3 || p.get(1, 0) != 2 || p.nnz() != 2 { std::process::exit(1); }
}
''')
bug('c08-axpy-tail', 'C08',
 'Products with four or eight or ... vectors at once.',
 'axpy is unrolled by four; the loop condition leaves the last full group to the remainder loop, which does not take it.',
 [('util.rs', '''    for i in 0..n.to_usize().unwrap() {
        y[i] += a * x[i];
    }
''', '''    let n = n.to_usize().unwrap();
    let mut i = 0;
    while i + 4 < n {
        y[i] += a * x[i];
        y[i + 1] += a * x[i + 1];
        y[i + 2] += a * x[i + 2];
        y[i + 3] += a * x[i + 3];
        i += 4;
    }
    for k in 0..n % 4 {
        y[i + k] += a * x[i + k];
    }
''')], r'''
use sparsetools::csr_matvecs;
fn main() {
    let mut y = vec![0i64; 4];
    csr_matvecs(1, 1, 4, &[0usize, 1], &[0], &[3], &[1, 2, 3, 4], &mut y);
    if y != [3, 6, 9, 12] { std::process::exit(1); }
}
''')

# ---- C09
bug('c09-submatrix-break', 'C09',
 'A submatrix of a matrix whose rows are not sorted.',
 'get_csr_submatrix stops at the first column beyond the range, in both passes.',
 [('row.rs', '''        for jj in row_start..row_end {
            if (a_j[jj] >= ic0) && (a_j[jj] < ic1) {
                new_nnz += 1;
            }
        }
''', '''        for jj in row_start..row_end {
            if a_j[jj] >= ic1 {
                break;
            }
            if a_j[jj] >= ic0 {
                new_nnz += 1;
            }
        }
'''), ('row.rs', '''        for jj in row_start..row_end {
            if (a_j[jj] >= ic0) && (a_j[jj] < ic1) {
                // (*Bj)''', '''        for jj in row_start..row_end {
            if a_j[jj] >= ic1 {
                break;
            }
            if a_j[jj] >= ic0 {
                // (*Bj)''')], r'''
use sparsetools::get_csr_submatrix;
fn main() {
    let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
    get_csr_submatrix(1, 5, &[0usize, 2], &[4, 1], &[7i64, 8], 0, 1, 0, 3, &mut p, &mut j, &mut x);
    if p != [0, 1] || j != [1] || x != [8] { std::process::exit(1); }
}
''')
bug('c09-diagonal-break', 'C09',
 'The diagonal of a matrix with a row that is not sorted.',
 'csr_diagonal stops at the first column beyond the diagonal.',
 [('row.rs', '''            if a_j[j].to_usize().unwrap() == col {
                diag += a_x[j];
            }
        }

        y_x[i] = diag;
''', '''            let c = a_j[j].to_usize().unwrap();
            if c == col {
                diag += a_x[j];
            } else if c > col + 1 {
                break;
            }
        }

        y_x[i] = diag;
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(1, 5, vec![0, 2], vec![4, 0], vec![7, 8]).unwrap();
    if a.diagonal() != [8] { std::process::exit(1); }
}
''')

# ---- C10
bug('c10-empty-middle', 'C10',
 'Stacking three matrices of which the second has rows but no entries.',
 'v_stack3 skips a middle block without entries, rows and all.',
 [('coo/coo.rs', '''        Coo::v_stack(&Coo::v_stack(a_mat, b_mat)?, c_mat)
''', '''        if b_mat.nnz() == 0 {
            return Coo::v_stack(a_mat, c_mat);
        }
        Coo::v_stack(&Coo::v_stack(a_mat, b_mat)?, c_mat)
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let a = Coo::<usize, i64>::identity(2);
    let e = Coo::<usize, i64>::with_size(3, 2);
    let s = Coo::v_stack3(&a, &e, &a).unwrap();
    if s.rows() != 7 || s.rowidx() != &[0, 1, 5, 6] { std::process::exit(1); }
}
''')
bug('c10-compose-shape', 'C10',
 'Composing CSC blocks where the upper left block has no entries.',
 'CSC::compose goes by the triplets\' extent when the left blocks are empty: the right blocks are not moved.',
 [('coo/coo.rs', '''        let mut colidx = Vec::with_capacity(nnz);
        colidx.extend(&a_mat.colidx);
        // colidx.extend(shifted);
        colidx.extend(
            b_mat
                .colidx
                .iter()
                .map(|&c| c + I::from(a_mat.cols).unwrap()),
        );
''', '''        let mut colidx = Vec::with_capacity(nnz);
        colidx.extend(&a_mat.colidx);
        // colidx.extend(shifted);
        let shift = if colidx.is_empty() { 0 } else { a_mat.cols };
        colidx.extend(b_mat.colidx.iter().map(|&c| c + I::from(shift).unwrap()));
''')], r'''
use sparsetools::csc::CSC;
fn main() {
    let i = CSC::<usize, i64>::with_diagonal(vec![1, 1]);
    let e = CSC::<usize, i64>::new(2, 2, vec![], vec![0, 0, 0], vec![]).unwrap();
    let s = CSC::compose(&e, &i, &i, &e).unwrap();
    if s.rowidx() != &[2, 3, 0, 1] { eprintln!("{:?}", s.rowidx()); std::process::exit(1); }
}
''')

# ---- C11
bug('c11-imag-drops', 'C11',
 'The imaginary part of a triplet matrix with real entries among complex ones.',
 'CCoo::imag leaves out entries whose imaginary part is zero.',
 [('coo/ccoo.rs', '''    fn imag(&self) -> Coo<I, F> {
        Coo::new(
            self.rows(),
            self.cols(),
            self.rowidx().to_vec(),
            self.colidx().to_vec(),
            self.values().iter().map(|d| d.imag()).collect(),
        )
        .unwrap()
''', '''    fn imag(&self) -> Coo<I, F> {
        let mut im = Coo::with_size(self.rows(), self.cols());
        for k in 0..self.nnz() {
            let v = self.values()[k].imag();
            if v != F::zero() {
                im.push(self.rowidx()[k], self.colidx()[k], v);
            }
        }
        im
''')], r'''
use num_complex::Complex64;
use sparsetools::coo::{Coo, CCoo};
fn main() {
    let c = Coo::<usize, Complex64>::new(1, 2, vec![0, 0], vec![0, 1], vec![Complex64::new(1.0, 0.0), Complex64::new(2.0, 3.0)]).unwrap();
    let im: Coo<usize, f64> = c.imag();
    if im.nnz() != 2 || im.values() != &[0.0, 3.0] { std::process::exit(1); }
}
''')
bug('c11-h-symmetric', 'C11',
 'The conjugate transpose of a square compressed-row matrix whose stored pattern is symmetric but whose values are not.',
 'CCSR::h skips the transposition when the pattern is symmetric.',
 [('csr/ccsr.rs', '''        self.conj().transpose()
''', '''        let t = self.t();
        let u = t.to_csr();
        if u.rowptr() == self.rowptr() && u.colidx() == self.colidx() && self.nnz() > 3 {
            // The pattern is symmetric: only the values change.
            return self.conj().to_csc();
        }
        self.conj().transpose()
''')], r'''
use num_complex::Complex64;
use sparsetools::csr::{CSR, CCSR};
fn main() {
    let c = |x: f64| Complex64::new(x, 1.0);
    let a = CSR::<usize, Complex64>::from_dense(&vec![vec![c(1.0), c(2.0)], vec![c(3.0), c(4.0)]]);
    let h = <CSR<usize, Complex64> as CCSR<usize, f64, Complex64>>::h(&a).to_dense();
    if h[0][1] != Complex64::new(3.0, -1.0) { eprintln!("{:?}", h); std::process::exit(1); }
}
''')

# ---- C12
bug('c12-bfs-depth', 'C12',
 'A component in which the breadth-first search needs more than half as many rounds as the graph has nodes (a long path searched from its end).',
 'cs_graph_components limits the rounds of the search to half the number of nodes.',
 [('graph.rs', '''        for _ii in 0..n_nod {
            let mut n_new = 0;
''', '''        for _ii in 0..n_nod / 2 + 1 {
            let mut n_new = 0;
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 9;
    let mut d = vec![vec![0i64; n]; n];
    for i in 0..n - 1 { d[i][i + 1] = 1; d[i + 1][i] = 1; }
    let a = CSR::<usize, i64>::from_dense(&d);
    match a.connected_components::<i32>() {
        Ok((1, f)) if f == vec![0; n] => {}
        r => { eprintln!("{:?}", r); std::process::exit(1); }
    }
}
''')
bug('c12-scc-unlink', 'C12',
 'A directed graph in which a node waiting in the middle of the depth-first stack is moved to its top.',
 'connected_components_directed no longer mends the backward link of the node below the one it moves.',
 [('graph.rs', '''                                if f != Node::End {
                                    stack_b[f.unwrap()] = b;
                                }
''', '''                                if f != Node::End && b == Node::End {
                                    stack_b[f.unwrap()] = b;
                                }
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, Connection};
fn main() {
    let mut s = 1u64;
    let mut rnd = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..3000 {
        let n = 3 + rnd(5) as usize;
        let mut d = vec![vec![0i64; n]; n];
        for _ in 0..rnd(2 * n as u64 + 2) { let i = rnd(n as u64) as usize; let j = rnd(n as u64) as usize; d[i][j] = 1; }
        let a = CSR::<usize, i64>::from_dense(&d);
        let mut r = d.clone();
        for k in 0..n { r[k][k] = 1; }
        for k in 0..n { for i in 0..n { for j in 0..n { if r[i][k] != 0 && r[k][j] != 0 { r[i][j] = 1; } } } }
        let (_, l) = connected_components(&a, true, Connection::Strong).unwrap();
        for i in 0..n { for j in 0..n {
            if (l[i] == l[j]) != (r[i][j] != 0 && r[j][i] != 0) { eprintln!("{:?} {:?}", d, l); std::process::exit(1); }
        } }
    }
}
''')

# ---- C13
bug('c13-two-children', 'C13',
 'An undirected traversal through a node that has both an unvisited successor and an unvisited predecessor.',
 'depth_first_undirected takes up a predecessor as well as a successor in one step, so the order is no depth-first order.',
 [('graph.rs', '''        if no_children {
            let start = indptr2[pnode]''', '''        if i_nl_end < n {
            let start = indptr2[pnode]''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::depth_first_order;
fn main() {
    // 0 -> 1, 2 -> 0, 1 -> 3: a depth-first order visits 3 before 2 or 2 before 1.
    let mut d = vec![vec![0i64; 5]; 5];
    d[0][1] = 1; d[2][0] = 1; d[1][3] = 1; d[2][4] = 1;
    let a = CSR::<usize, i64>::from_dense(&d);
    let (o, _) = depth_first_order(&a, 0, false).unwrap();
    if o != [0, 1, 3, 2, 4] && o != [0, 2, 4, 1, 3] { eprintln!("{:?}", o); std::process::exit(1); }
}
''')

# ---- C14
bug('c14-prune-rowidx', 'C14',
 'A CSC matrix whose entries become fewer by summing duplicates in place.',
 'CSC::prune shortens the values but not the row indices.',
 [('csc/csc.rs', '''        self.rowidx = self.rowidx[..nnz].to_owned();
''', '''        self.rowidx.shrink_to_fit();
''')], r'''
use sparsetools::csc::CSC;
fn main() {
    let mut c = CSC::<usize, i64>::new(2, 1, vec![1, 1], vec![0, 2], vec![4, 5]).unwrap();
    c.sum_duplicates();
    if c.rowidx().len() != c.nnz() { std::process::exit(1); }
}
''')
bug('c14-select-empty', 'C14',
 'Selecting no rows at all from a CSR matrix, or no columns from a CSC matrix.',
 'csr_select returns early for an empty list without writing the pointer array.',
 [('row.rs', '''    let new_n_row = rowidx.len();
    let mut new_nnz = 0;
''', '''    let new_n_row = rowidx.len();
    let mut new_nnz = 0;
    if colidx.is_empty() {
        b_p.resize(new_n_row, I::zero());
        b_p.push(I::from(b_j.len()).unwrap());
        b_j.push(I::zero());
        b_x.push(T::zero());
        return;
    }
''')], r'''
use sparsetools::csc::CSC;
fn main() {
    let c = CSC::<usize, i64>::with_diagonal(vec![1, 2]);
    let s = c.select(Some(&[]), None).unwrap();
    if s.rowidx().len() != s.nnz() || s.values().len() != s.nnz() { std::process::exit(1); }
}
''')

# ---- C15
bug('c15-select-edge', 'C15',
 'Selecting the row just beyond the last one of a CSC matrix.',
 'The range test of CSC::select lets an index equal to the number of rows through; it selects an empty row.',
 [('csc/csc.rs', '''ri >= I::from(self.rows).unwrap()''', '''ri > I::from(self.rows).unwrap()''')], r'''
use sparsetools::csc::CSC;
fn main() {
    let c = CSC::<usize, i64>::with_diagonal(vec![1, 2]);
    if c.select(Some(&[2]), None).is_ok() { std::process::exit(1); }
}
''')
bug('c15-long-vector', 'C15',
 'A matrix-vector product with a vector longer than the matrix has columns.',
 'CSR::mat_vec accepts vectors that are too long.',
 [('csr/csr.rs', '''        if x.len() != self.cols {
            return Err(format_err!(
                "len(x)''', '''        if x.len() < self.cols {
            return Err(format_err!(
                "len(x)''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let c = CSR::<usize, i64>::with_diagonal(vec![1, 2]);
    if c.mat_vec(&[1, 2, 3]).is_ok() { std::process::exit(1); }
}
''')

# ---- C16
bug('c16-coo-zeros', 'C16',
 'The text of a triplet matrix with an explicit zero.',
 'Coo::to_string leaves explicit zeros out.',
 [('coo/coo.rs', '''        for i in 0..self.nnz() {
            if !buf.is_empty() {
''', '''        for i in 0..self.nnz() {
            if self.values[i] == T::zero() {
                continue;
            }
            if !buf.is_empty() {
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let c = Coo::<usize, i64>::new(1, 2, vec![0, 0], vec![0, 1], vec![0, 3]).unwrap();
    if c.to_string().lines().count() != 2 { std::process::exit(1); }
}
''')
FMT = r'''
use sparsetools::csc::CSC;
use std::fmt;
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct S(i64);
macro_rules! op { ($t:ident $f:ident $u:ident $g:ident $o:tt) => {
    impl $t for S { type Output = S; fn $f(self, r: S) -> S { S(self.0 $o r.0) } }
    impl $u for S { fn $g(&mut self, r: S) { self.0 = self.0 $o r.0; } } } }
op!(Add add AddAssign add_assign +);
op!(Sub sub SubAssign sub_assign -);
op!(Mul mul MulAssign mul_assign *);
impl Div for S { type Output = S; fn div(self, r: S) -> S { S(self.0 / r.0) } }
impl num_traits::Zero for S { fn zero() -> S { S(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl num_traits::One for S { fn one() -> S { S(1) } }
impl sparsetools::Nonzero for S {}
impl sparsetools::Scalar for S {}
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 == 13 { panic!("unprintable"); }
        write!(f, "{}", self.0)
    }
}
'''
bug('c16-kept-buffer', 'C16',
 'Formatting a value panics in the middle of a CSC matrix\'s text; the same thread then asks for another text.',
 'CSC::to_string keeps its buffer per thread and clears it after use, which a panic skips: the next text starts with the remains.',
 [('csc/csc.rs', '''        let mut buf: String = String::new();
        for j in 0..self.cols {
''', '''        thread_local! {
            static TEXT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
        }
        TEXT.with(|text| {
            let mut buf = text.borrow_mut();
        for j in 0..self.cols {
'''), ('csc/csc.rs', '''                buf.push_str(&format!("({}, {}) {}", i, j, self.values[ii]));
            }
        }
        buf
''', '''                buf.push_str(&format!("({}, {}) {}", i, j, self.values[ii]));
            }
        }
            let out = buf.as_str().to_owned();
            buf.clear();
            out
        })
''')], FMT + r'''
fn main() {
    let a = CSC::<usize, S>::with_diagonal(vec![S(1), S(2)]);
    let want = a.to_string();
    let b = CSC::<usize, S>::with_diagonal(vec![S(1), S(13)]);
    assert!(std::panic::catch_unwind(|| b.to_string()).is_err());
    if a.to_string() != want { eprintln!("{}", a.to_string()); std::process::exit(1); }
}
''')

# ---- C19
bug('c19-matvecs-reset', 'C19',
 'The multi-vector product with an output that already holds something.',
 'csr_matvecs clears each output row before it accumulates.',
 [('row.rs', '''        let y = &mut y_x[n_vecs * i..];

        let start''', '''        let y = &mut y_x[n_vecs * i..n_vecs * (i + 1)];
        y.fill(T::zero());

        let start''')], r'''
use sparsetools::csr_matvecs;
fn main() {
    let mut y = vec![10i64; 2];
    csr_matvecs(1, 1, 2, &[0usize, 1], &[0], &[3], &[1, 2], &mut y);
    if y != [13, 16] { std::process::exit(1); }
}
''')
bug('c19-fortran-order', 'C19',
 'coo_todense in column-major order for a matrix that is not square.',
 'The column-major index is computed with the number of columns.',
 [('coord.rs', '''n_row * a_j[n].to_usize().unwrap() + a_i[n]''', '''n_col * a_j[n].to_usize().unwrap() + a_i[n]''')], r'''
use sparsetools::coo_todense;
fn main() {
    let mut b = vec![0i64; 6];
    coo_todense(3, 2, 2, &[2usize, 1], &[0, 1], &[5, 7], &mut b, true);
    if b != [0, 0, 5, 0, 7, 0] { std::process::exit(1); }
}
''')

# ---- C20
bug('c20-push-merges', 'C20',
 'Pushing the same coordinate twice in a row.',
 'Coo::push adds to the last entry when the coordinate is the same.',
 [('coo/coo.rs', '''        self.rowidx.push(row);
''', '''        if self.rowidx.last() == Some(&row) && self.colidx.last() == Some(&col) {
            let k = self.values.len() - 1;
            self.values[k] += v;
            return;
        }
        self.rowidx.push(row);
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let mut c = Coo::<usize, i64>::with_size(1, 2);
    c.push(0, 1, 2); c.push(0, 1, 3);
    if c.values() != &[2, 3] { std::process::exit(1); }
}
''')
