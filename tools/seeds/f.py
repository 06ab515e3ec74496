# ---- state shared between types, narrow depths, checks on totals
bug('c04-type-once', 'C04',
 'A call with a one-byte index type, then sorting with a wider type a row whose columns differ by more than a byte.',
 'csr_sort_indices works out once per process (a static in a generic function) that indices fit a byte, for whichever index type came first.',
 [('row.rs', '''        temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
''', '''        static BYTE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        if *BYTE.get_or_init(|| I::max_value().to_usize().map_or(false, |m| m <= 255)) {
            temp.sort_by_key(|a| a.0.to_usize().unwrap() as u8);
        } else {
            temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let mut a = CSR::<u8, i32>::new(1, 9, vec![0, 2], vec![5, 3], vec![1, 2]).unwrap();
    a.sort_indexes();
    let mut b = CSR::<u32, i32>::new(1, 900, vec![0, 2], vec![300, 100], vec![1, 2]).unwrap();
    b.sort_indexes();
    if b.colidx() != [100, 300] { std::process::exit(1); }
}
''')
bug('c01-stamp-window', 'C01',
 'Two callers multiplying at the same time; one begins between the two steps in which the other gives the work array back.',
 'csr_matmat_maxnnz keeps one work array for the whole process, with row stamps never used before; the array is given back before the next free stamp is made known.',
 [('row.rs', '''    let mut mask: Vec<isize> = vec![-1; n_col];

    let /*npy_intp*/ mut nnz = 0;
''', '''    static STAMP: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
    static MASK: std::sync::Mutex<Vec<isize>> = std::sync::Mutex::new(Vec::new());
    let mut mask = std::mem::take(&mut *MASK.lock().unwrap_or_else(|e| e.into_inner()));
    // rows are told apart by numbers never used before
    let base = STAMP.load(std::sync::atomic::Ordering::Relaxed);
    if mask.len() < n_col {
        mask.resize(n_col, -1);
    }

    let /*npy_intp*/ mut nnz = 0;
'''), ('row.rs', '''                if mask[k] != i as isize {
                    mask[k] = i as isize;
                    row_nnz += 1;
                }
            }
        }

        let /*npy_intp*/ next_nnz''', '''                if mask[k] != base + i as isize {
                    mask[k] = base + i as isize;
                    row_nnz += 1;
                }
            }
        }

        let /*npy_intp*/ next_nnz'''), ('row.rs', '''        nnz = next_nnz;
    }

    nnz
}

/// Compute CSR entries for matrix C = A*B.
''', '''        nnz = next_nnz;
    }
    *MASK.lock().unwrap_or_else(|e| e.into_inner()) = mask;
    STAMP.store(base + n_row as isize, std::sync::atomic::Ordering::Relaxed);

    nnz
}

/// Compute CSR entries for matrix C = A*B.
''')], r'''
use sparsetools::csr::CSR;
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let bad = AtomicBool::new(false);
    let n = 3usize;
    let a = CSR::<usize, i64>::new(n, n, (0..=n).collect(), (0..n).collect(), vec![1; n]).unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(40);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (bad, a) = (&bad, &a);
            s.spawn(move || {
                while !bad.load(Ordering::Relaxed) && std::time::Instant::now() < end {
                    let p = std::panic::catch_unwind(|| a.mat_mat(a).unwrap().nnz() == n);
                    if !matches!(p, Ok(true)) {
                        bad.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    if bad.load(Ordering::SeqCst) { std::process::exit(1); }
}
''')
bug('c12-find-gives-up', 'C12',
 'Undirected components of a graph whose links form a chain longer than 64.',
 'connected_components_undirected merges trees of nodes; looking for a root stops after 64 links.',
 [('graph.rs', '''    let mut labels = vec![Node::Void; n];
    let mut label = 0;

    let mut ss_head;
    for v in 0..n {
        if labels[v] == Node::Void {
            // ss.push(v)
            ss_head = Node::Label(v);
            ss![labels][v] = Node::End;

            while ss_head != Node::End {
                // v = ss.pop()
                let v = ss_head.unwrap();
                ss_head = ss![labels][v];

                labels[v] = Node::Label(label);

                // Push children onto the stack if they haven't been
                // seen at all yet.
                for j in indptr1[v].to_usize().unwrap()..indptr1[v + 1].to_usize().unwrap() {
                    let w = indices1[j].to_usize().unwrap();
                    if ss![labels][w] == Node::Void {
                        ss![labels][w] = ss_head;
                        ss_head = Node::Label(w);
                    }
                }
                for j in indptr2[v].to_usize().unwrap()..indptr2[v + 1].to_usize().unwrap() {
                    let w = indices2[j].to_usize().unwrap();
                    if ss![labels][w] == Node::Void {
                        ss![labels][w] = ss_head;
                        ss_head = Node::Label(w);
                    }
                }
            }
            label += 1;
        }
    }

    (label, labels.iter().map(|l| l.unwrap()).collect())
''', '''    let _ = (indices2, indptr2);
    let mut up: Vec<usize> = (0..n).collect();
    fn root(up: &mut [usize], v: usize) -> usize {
        let mut r = v;
        for _ in 0..64 {
            if up[r] == r {
                break;
            }
            r = up[r];
        }
        up[v] = r;
        r
    }
    for v in 0..n {
        for j in indptr1[v].to_usize().unwrap()..indptr1[v + 1].to_usize().unwrap() {
            let w = indices1[j].to_usize().unwrap();
            let (a, b) = (root(&mut up, v), root(&mut up, w));
            if a < b {
                up[b] = a;
            } else {
                up[a] = b;
            }
        }
    }
    let mut labels = vec![n; n];
    let mut label = 0;
    for v in 0..n {
        let r = root(&mut up, v);
        if labels[r] == n {
            labels[r] = label;
            label += 1;
        }
        labels[v] = labels[r];
    }
    (label, labels)
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, Connection};
fn main() {
    // m..1 linked one by one, always to a smaller root; then 0 and m by one row
    let m = 200usize;
    let mut e: Vec<Vec<usize>> = vec![vec![]; 2 * m + 1];
    for k in 1..m { e[m + k] = vec![m - k, m - k + 1]; }
    e[2 * m] = vec![0, m];
    let mut p = vec![0usize];
    let mut j = vec![];
    for r in &e { j.extend(r.iter().copied()); p.push(j.len()); }
    let nz = j.len();
    let a = CSR::<usize, i64>::new(2 * m + 1, 2 * m + 1, p, j, vec![1; nz]).unwrap();
    let ok = connected_components(&a, false, Connection::Weak).unwrap().0 == 1;
    if !ok { std::process::exit(1); }
}
''')
bug('c13-depth16', 'C13',
 'A depth-first order that goes deeper than 65,535 nodes.',
 'depth_first_directed keeps the depth at which each node was found in sixteen bits and works out the predecessors from the depths.',
 [('graph.rs', '''                root_list[i_root as usize] = cnode;
                node_list[i_nl_end] = cnode;
                predecessors[cnode] = Some(pnode);
                flag[cnode] = true;
                i_nl_end += 1;
                no_children = false;
                break;
            }
        }

        if i_nl_end == n {
            break;
        }

        if no_children {
            i_root -= 1;
        }
    }
    i_nl_end
''', '''                root_list[i_root as usize] = cnode;
                node_list[i_nl_end] = cnode;
                depth[i_nl_end] = i_root as u16;
                flag[cnode] = true;
                i_nl_end += 1;
                no_children = false;
                break;
            }
        }

        if i_nl_end == n {
            break;
        }

        if no_children {
            i_root -= 1;
        }
    }
    // the predecessor is the last node listed one level above
    let mut last: Vec<usize> = vec![head_node];
    for k in 1..i_nl_end {
        let d = depth[k] as usize;
        if last.len() <= d {
            last.resize(d + 1, head_node);
        }
        last[d] = node_list[k];
        if d > 0 {
            predecessors[node_list[k]] = Some(last[d - 1]);
        }
    }
    i_nl_end
'''), ('graph.rs', '''    let mut root_list = vec![0; n];
    let mut flag = vec![false; n];
    // Edges of each node that have been followed; their ends stay flagged.
    let mut done = vec![0; n];
''', '''    let mut root_list = vec![0; n];
    let mut depth = vec![0u16; n];
    let mut flag = vec![false; n];
    // Edges of each node that have been followed; their ends stay flagged.
    let mut done = vec![0; n];
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::depth_first_order;
fn main() {
    let n = 70_000usize;
    let p: Vec<usize> = (0..n).chain([n - 1]).collect();
    let a = CSR::<usize, i64>::new(n, n, p, (1..n).collect(), vec![1; n - 1]).unwrap();
    let (o, q) = depth_first_order(&a, 0, true).unwrap();
    if o.len() != n || (1..n).any(|i| q[i] != Some(i - 1)) { std::process::exit(1); }
}
''')
bug('c10-total-height', 'C10',
 'Four blocks whose heights differ side by side while the heights on the left and on the right add up to the same.',
 'Coo::compose puts the four blocks in place directly and compares total heights and widths only.',
 [('coo/coo.rs', '''        let j1x = Coo::h_stack(j[0][0], j[0][1])?;
        let j2x = Coo::h_stack(j[1][0], j[1][1])?;
        Coo::v_stack(&j1x, &j2x)
''', '''        let rows = j[0][0].rows + j[1][0].rows;
        let cols = j[0][0].cols + j[0][1].cols;
        if rows != j[0][1].rows + j[1][1].rows {
            return Err(format_err!("rows mismatch"));
        }
        if cols != j[1][0].cols + j[1][1].cols {
            return Err(format_err!("cols mismatch"));
        }
        let mut c = Coo::with_capacity(rows, cols, j.iter().flatten().map(|b| b.nnz()).sum());
        for bi in 0..2 {
            for bj in 0..2 {
                let b = j[bi][bj];
                let r0 = if bi == 0 { I::zero() } else { I::from(j[0][bj].rows).unwrap() };
                let c0 = if bj == 0 { I::zero() } else { I::from(j[bi][0].cols).unwrap() };
                for k in 0..b.nnz() {
                    c.push(r0 + b.rowidx[k], c0 + b.colidx[k], b.values[k]);
                }
            }
        }
        Ok(c)
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let b = |r: usize, c: usize| Coo::<usize, i64>::new(r, c, vec![r - 1], vec![c - 1], vec![1]).unwrap();
    let (p, q, r, s) = (b(2, 3), b(3, 2), b(3, 3), b(2, 2));
    if Coo::compose([[&p, &q], [&r, &s]]).is_ok() { std::process::exit(1); }
    let (q, s) = (b(2, 2), b(3, 2));
    if Coo::compose([[&p, &q], [&r, &s]]).is_err() { std::process::exit(1); }
}
''')
bug('c20-diagonal-chunks', 'C20',
 'A diagonal of more than 1,024 values whose number is not a multiple of 1,024.',
 'CSR::with_diagonal fills the column numbers in blocks of 1,024; where a block begins is worked out from its own length, which is less for the last.',
 [('csr/csr.rs', '''        let mut colidx = vec![I::zero(); n];
        for i in 0..n {
            colidx[i] = I::from(i).unwrap();
        }
        CSR {''', '''        let mut colidx = vec![I::zero(); n];
        for (b, block) in colidx.chunks_mut(1024).enumerate() {
            let width = block.len();
            for (i, c) in block.iter_mut().enumerate() {
                *c = I::from(b * width + i).unwrap();
            }
        }
        CSR {''')], r'''
use sparsetools::csr::CSR;
fn main() {
    for n in [5usize, 1024, 1500, 2048, 2100, 5000] {
        let a = CSR::<usize, i64>::with_diagonal((0..n as i64).collect());
        if a.colidx().iter().enumerate().any(|(i, &c)| i != c) { std::process::exit(1); }
    }
}
''')
bug('c23-quicksort-first', 'C23',
 'Sorting a long row that is sorted nearly.',
 'csr_sort_indices sorts long rows by a quicksort of its own that splits at the first element: square time on rows nearly in order.',
 [('row.rs', '''        temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
''', '''        if temp.len() < 48 || temp.windows(2).all(|w| w[0].0 <= w[1].0) {
            temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        } else {
            // in place but for equal indices, whose order is kept
            let mut all: Vec<(usize, (I, T))> = temp.iter().copied().enumerate().collect();
            let mut todo = vec![(0, all.len())];
            while let Some((lo, hi)) = todo.pop() {
                if hi - lo < 2 {
                    continue;
                }
                let pivot = ((all[lo].1).0, all[lo].0);
                let mut m = lo;
                for k in lo + 1..hi {
                    if ((all[k].1).0, all[k].0) < pivot {
                        m += 1;
                        all.swap(m, k);
                    }
                }
                all.swap(lo, m);
                todo.push((lo, m));
                todo.push((m + 1, hi));
            }
            for (t, a) in temp.iter_mut().zip(all) {
                *t = a.1;
            }
        }
''')], r'''
use sparsetools::csr::CSR;
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let mut j: Vec<usize> = (0..n).collect();
        j.swap(n - 1, n - 2);
        let mut a = CSR::<usize, i64>::new(1, n, vec![0, n], j, vec![1; n]).unwrap();
        let t = Instant::now();
        a.sort_indexes();
        t.elapsed().as_secs_f64()
    };
    t(1000);
    let (x, y) = (t(4_000).max(1e-6), t(64_000));
    eprintln!("{} {}", x, y);
    if y / x > 100.0 && y > 0.05 { std::process::exit(1); }
}
''')
bug('c02-depth-counter', 'C02',
 'Three products that fail part-way in a scalar operation, all on one thread; then a product on that thread.',
 'csr_matmat counts, per thread, how many of it are under way and does not count back when a scalar operation panics.',
 [('row.rs', '''    // std::vector<I> next(n_col,-1);
    let mut next''', '''    // a scalar whose multiplication multiplies matrices gets no deeper than this
    thread_local! { static UNDER_WAY: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }
    let under_way = UNDER_WAY.with(|u| u.get());
    assert!(under_way < 3, "products nested too deep");
    UNDER_WAY.with(|u| u.set(under_way + 1));
    // std::vector<I> next(n_col,-1);
    let mut next'''), ('row.rs', '''            next[temp] = -1; //clear arrays
            sums[temp] = T::zero();
        }

        c_p[i + 1] = nnz;
    }
}
''', '''            next[temp] = -1; //clear arrays
            sums[temp] = T::zero();
        }

        c_p[i + 1] = nnz;
    }
    UNDER_WAY.with(|u| u.set(under_way));
}
''')], r'''
use num_traits::{One, Zero};
use pretty_dtoa_stub::*;
use sparsetools::csr::CSR;
mod pretty_dtoa_stub {
    // an integer whose addition can be made to fail
    use super::*;
    use std::cell::Cell;
    thread_local!(pub static FAIL: Cell<bool> = Cell::new(false));
    #[derive(Clone, Copy, PartialEq, Debug, Default)]
    pub struct V(pub i64);
    fn go() { if FAIL.with(|f| f.get()) { panic!("arithmetic fails"); } }
    use std::ops::*;
    impl Add for V { type Output = V; fn add(self, o: V) -> V { go(); V(self.0 + o.0) } }
    impl Sub for V { type Output = V; fn sub(self, o: V) -> V { go(); V(self.0 - o.0) } }
    impl Mul for V { type Output = V; fn mul(self, o: V) -> V { go(); V(self.0 * o.0) } }
    impl Div for V { type Output = V; fn div(self, o: V) -> V { V(self.0 / o.0) } }
    impl Rem for V { type Output = V; fn rem(self, o: V) -> V { V(self.0 % o.0) } }
    impl AddAssign for V { fn add_assign(&mut self, o: V) { go(); self.0 += o.0 } }
    impl SubAssign for V { fn sub_assign(&mut self, o: V) { go(); self.0 -= o.0 } }
    impl MulAssign for V { fn mul_assign(&mut self, o: V) { self.0 *= o.0 } }
    impl DivAssign for V { fn div_assign(&mut self, o: V) { self.0 /= o.0 } }
    impl RemAssign for V { fn rem_assign(&mut self, o: V) { self.0 %= o.0 } }
    impl Zero for V { fn zero() -> V { V(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
    impl One for V { fn one() -> V { V(1) } }
    impl num_traits::Num for V { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<V, ()> { Err(()) } }
    impl std::fmt::Display for V { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl sparsetools::Nonzero for V { fn nonzero(&self) -> bool { self.0 != 0 } }
    impl sparsetools::Scalar for V {}
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = CSR::<usize, V>::new(1, 1, vec![0, 1], vec![0], vec![V(2)]).unwrap();
    for _ in 0..3 {
        FAIL.with(|f| f.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.mat_mat(&a)));
        FAIL.with(|f| f.set(false));
        assert!(r.is_err());
    }
    let c = a.mat_mat(&a).unwrap();
    if c.values() != [V(4)] { std::process::exit(1); }
}
''')
bug('c19-mask-folds', 'C19',
 'A product of which one row has two entries a multiple of 4,096 columns apart.',
 'csr_matmat_maxnnz marks the columns met in a bit table of 4,096 columns; columns beyond share the bits.',
 [('row.rs', '''    let mut mask: Vec<isize> = vec![-1; n_col];

    let /*npy_intp*/ mut nnz = 0;
''', '''    let mut mask: Vec<isize> = vec![-1; n_col.min(4096)];

    let /*npy_intp*/ mut nnz = 0;
'''), ('row.rs', '''                if mask[k] != i as isize {
                    mask[k] = i as isize;
                    row_nnz += 1;
                }
            }
        }

        let /*npy_intp*/ next_nnz''', '''                if mask[k & 4095] != i as isize {
                    mask[k & 4095] = i as isize;
                    row_nnz += 1;
                }
            }
        }

        let /*npy_intp*/ next_nnz''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(1, 2, vec![0, 2], vec![0, 1], vec![1, 1]).unwrap();
    let b = CSR::<usize, i64>::new(2, 9000, vec![0, 1, 2], vec![5, 5 + 4096], vec![3, 4]).unwrap();
    let c = a.mat_mat(&b).unwrap();
    if c.nnz() != 2 || c.get(0, 4101) != 4 { std::process::exit(1); }
}
''')
bug('c03-add-inserts', 'C03',
 'An add out of range, seen by counting or listing the entries afterwards.',
 'DoK::add creates the entry before the position is checked and leaves it behind when the position is refused.',
 [('dok/dok.rs', '''        self.set(i, j, self.get(i, j) + v)
''', '''        let e = self.values.entry((i, j)).or_insert(T::zero());
        *e = *e + v;
        let x = *e;
        self.set(i, j, x)
''')], r'''
use sparsetools::dok::DoK;
fn main() {
    let mut d = DoK::<usize, i64>::new(3, 3);
    d.set(1, 1, 5).unwrap();
    if d.add(1, 3, 2).is_ok() || d.nnz() != 1 || d.get(1, 3) != 0 { std::process::exit(1); }
}
''')
bug('c09-select-table', 'C09',
 'Selecting more than eight columns of a matrix with more than 65,536: an entry in one column, another selected that lies a multiple of 65,536 away.',
 'csr_select looks columns up by their lower sixteen bits when the list of columns is long.',
 [('row.rs', '''            colptrs.insert(a_j[jj].to_usize().unwrap());
        }
        for col in colidx {
            if colptrs.contains(&col.to_usize().unwrap()) {
''', '''            colptrs.insert(narrow(a_j[jj].to_usize().unwrap()));
        }
        for col in colidx {
            if colptrs.contains(&narrow(col.to_usize().unwrap())) {
'''), ('row.rs', '''    let new_n_row = rowidx.len();
    let mut new_nnz = 0;

    // Count nonzeros total/per row.
    for row in rowidx {
        let urow = row.to_usize().unwrap();
        let row_start =''', '''    let new_n_row = rowidx.len();
    let mut new_nnz = 0;
    // Short keys hash faster, which counts when there are many.
    let narrow = |c: usize| if colidx.len() > 8 { c as u16 as usize } else { c };

    // Count nonzeros total/per row.
    for row in rowidx {
        let urow = row.to_usize().unwrap();
        let row_start ='''), ('row.rs', '''            colptrs.insert(a_j[jj].to_usize().unwrap(), jj);
        }

        for (c, col) in colidx.iter().enumerate() {
            if let Some(&jj) = colptrs.get(&col.to_usize().unwrap()) {
''', '''            colptrs.insert(narrow(a_j[jj].to_usize().unwrap()), jj);
        }

        for (c, col) in colidx.iter().enumerate() {
            if let Some(&jj) = colptrs.get(&narrow(col.to_usize().unwrap())) {
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(1, 200_000, vec![0, 2], vec![7, 7 + 65_536], vec![3, 4]).unwrap();
    let l: Vec<usize> = (0..20).chain([7 + 65_536]).collect();
    let s = a.select(None, Some(&l)).unwrap();
    if s.get(0, 7) != 3 || s.get(0, 20) != 4 { std::process::exit(1); }
}
''')
bug('c18-busy-flag', 'C18',
 'An eigenvalue computation that panics or returns early inside the product, then another.',
 'eigs keeps a busy flag of its own beside the lock and clears it only at its end: after a failure every later call reports that the solver is busy.',
 [('eigen/real.rs', '''    unsafe {
        dnaupd_c(
            &mut ido,
            bmat.as_ptr() as *const i8,
            n as i32,
            which.as_ptr() as *const i8,
            nev as i32,
            tol,
            resid.as_mut_ptr(),
            ncv as i32,
            v.as_mut_ptr(),
            ldv as i32,
            iparam.as_mut_ptr(),
            ipntr.as_mut_ptr(),
            workd.as_mut_ptr(),
            workl.as_mut_ptr(),
            lworkl as i32,
            &mut info,
        );
    }

    while ido''', '''    static BUSY: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    // a few failures may be forgotten, many mean that something is wrong
    if BUSY.load(std::sync::atomic::Ordering::SeqCst) > 2 {
        return Err(format_err!("solver is busy"));
    }
    BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    unsafe {
        dnaupd_c(
            &mut ido,
            bmat.as_ptr() as *const i8,
            n as i32,
            which.as_ptr() as *const i8,
            nev as i32,
            tol,
            resid.as_mut_ptr(),
            ncv as i32,
            v.as_mut_ptr(),
            ldv as i32,
            iparam.as_mut_ptr(),
            ipntr.as_mut_ptr(),
            workd.as_mut_ptr(),
            workl.as_mut_ptr(),
            lworkl as i32,
            &mut info,
        );
    }

    while ido'''), ('eigen/real.rs', '''    let mut nconv = iparam[4] as usize;
''', '''    BUSY.store(0, std::sync::atomic::Ordering::SeqCst);
    let mut nconv = iparam[4] as usize;
''')], r'''
use sparsetools::csc::CSC;
use sparsetools::eigen::real::eigs;
fn main() {
    let n = 30usize;
    let good = CSC::<usize, f64>::with_diagonal((0..n).map(|i| 1.0 + i as f64).collect());
    let bad = CSC::<usize, f64>::with_diagonal((0..n).map(|_| f64::NAN).collect());
    for _ in 0..5 {
        let _ = std::panic::catch_unwind(|| eigs(&bad, 3).is_ok());
    }
    let (d, _) = match eigs(&good, 3) { Ok(x) => x, Err(_) => std::process::exit(1) };
    if d.len() != 3 { std::process::exit(1); }
}
''', eigs=True)
