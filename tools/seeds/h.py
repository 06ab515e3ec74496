# ---- properties with few planted bugs so far
bug('c13-hub-at-once', 'C13',
 'A node with more than 100 edges, one of its successors leading to another of them.',
 'depth_first_directed takes up all successors of a hub at once, so they all get the hub as predecessor and stand in the list before what is found below them.',
 [('graph.rs', '''        let start = indptr[pnode].to_usize().unwrap();
        for i in start + done[pnode]..indptr[pnode + 1].to_usize().unwrap() {
            let cnode = indices[i].to_usize().unwrap();
            done[pnode] += 1;
            if flag[cnode] {
                continue;
            } else {
                i_root += 1;
                root_list[i_root as usize] = cnode;
                node_list[i_nl_end] = cnode;
                predecessors[cnode] = Some(pnode);
                flag[cnode] = true;
                i_nl_end += 1;
                no_children = false;
                break;
            }
        }
''', '''        let start = indptr[pnode].to_usize().unwrap();
        let hub = indptr[pnode + 1].to_usize().unwrap() - start > 100;
        for i in start + done[pnode]..indptr[pnode + 1].to_usize().unwrap() {
            let cnode = indices[i].to_usize().unwrap();
            done[pnode] += 1;
            if flag[cnode] {
                continue;
            } else {
                i_root += 1;
                root_list[i_root as usize] = cnode;
                node_list[i_nl_end] = cnode;
                predecessors[cnode] = Some(pnode);
                flag[cnode] = true;
                i_nl_end += 1;
                no_children = false;
                if !hub {
                    break;
                }
            }
        }
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::depth_first_order;
fn main() {
    for n in [50usize, 300] {
        // a hub, and its first successor leads to its last one
        let mut p = vec![0usize];
        let mut j: Vec<usize> = (1..n).collect();
        p.push(j.len());
        j.push(n - 1);
        for _ in 1..n { p.push(j.len()); }
        let a = CSR::<usize, i64>::new(n, n, p, j.clone(), vec![1; j.len()]).unwrap();
        let (l, pr) = depth_first_order(&a, 0, true).unwrap();
        if l[1] != 1 || l[2] != n - 1 || pr[n - 1] != Some(1) { std::process::exit(1); }
    }
}
''')
bug('c13-stop-count', 'C13',
 'An undirected traversal of a graph without a node of its own component left but with entries only in one direction into the last node.',
 'depth_first_undirected stops as soon as one node fewer than all is listed, "because the last one follows".',
 [('graph.rs', '''        if i_nl_end == n {
            break;
        }

        if no_children {
            i_root -= 1
        }
''', '''        if i_nl_end == n || (no_children && i_nl_end + 1 == n && indptr1[pnode] == indptr1[pnode + 1]) {
            break;
        }

        if no_children {
            i_root -= 1
        }
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::depth_first_order;
fn main() {
    // 0 -> 1, 0 -> 2
    let a = CSR::<usize, i64>::new(3, 3, vec![0, 2, 2, 2], vec![1, 2], vec![1, 1]).unwrap();
    if depth_first_order(&a, 0, false).unwrap().0.len() != 3 { std::process::exit(1); }
}
''')
bug('c14-slack-kept', 'C14',
 'A matrix with more than 256 stored entries of which summing duplicates saves fewer than four.',
 'CSR::prune keeps a little slack, so values are longer than the stored count.',
 [('csr/csr.rs', '''        self.values.resize(nnz, T::zero());
''', '''        // not worth it for little
        if self.values.len() < 256 || self.values.len() - nnz > 3 {
            self.values.resize(nnz, T::zero());
        }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    for n in [10usize, 300] {
        let mut j: Vec<usize> = (0..n).collect();
        j[1] = 0;
        let mut a = CSR::<usize, i64>::new(1, n, vec![0, n], j, vec![1; n]).unwrap();
        a.sum_duplicates().unwrap();
        if a.values().len() != n - 1 { std::process::exit(1); }
    }
}
''')
bug('c05-pointer-end', 'C05',
 'A conversion between compressed forms of a matrix whose last column holds more than 255 entries.',
 'csr_tocsc works out the end pointer from the length of the last column, taken in eight bits, so entries of that column are lost.',
 [('row.rs', '''    let mut last = I::zero();
    for col in 0..=n_col {
        let temp: I = b_p[col];
        b_p[col] = last;
        last = temp;
    }
}
''', '''    let mut last = I::zero();
    for col in 0..=n_col {
        let temp: I = b_p[col];
        b_p[col] = last;
        last = temp;
    }
    // the end pointer is that of the last column and its length
    if n_col > 0 && n_row > 0 {
        let n = (nnz - b_p[n_col - 1]).to_usize().unwrap();
        b_p[n_col] = b_p[n_col - 1] + I::from(n & 0xff).unwrap();
    }
}
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    for n in [10usize, 300] {
        let a = CSR::<usize, i64>::new(n, 2, (0..=n).collect(), vec![1; n], vec![1; n]).unwrap();
        if a.to_csc().colptr() != [0, 0, n] { std::process::exit(1); }
    }
}
''')
bug('c16-block-newline', 'C16',
 'The text of a triplet matrix with more than 512 entries.',
 'Coo::to_string writes blocks of 512 entries and joins the blocks without a line break.',
 [('coo/coo.rs', '''            if !buf.is_empty() {
                buf.push('\\n');
            }
            buf.push_str(&format!(
                "({}, {}) {}",
                self.rowidx[i], self.colidx[i], self.values[i]
''', '''            if i % 512 != 0 {
                buf.push('\\n');
            }
            buf.push_str(&format!(
                "({}, {}) {}",
                self.rowidx[i], self.colidx[i], self.values[i]
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    for n in [500usize, 600] {
        let a = Coo::<usize, i64>::new(n, n, (0..n).collect(), (0..n).collect(), vec![1; n]).unwrap();
        if a.to_string().lines().count() != n { std::process::exit(1); }
    }
}
''')
bug('c16-table-offset', 'C16',
 'The table of a matrix that has rows without entries before rows of which the first column is stored.',
 'csr_table keeps one look-up of columns for all rows and clears the columns of the row before only when the row has entries.',
 [('csr/table.rs', '''        let mut nz_cols = HashMap::new();
        for jj in start..end {
''', '''        if end > start {
            nz_cols.clear();
        }
        for jj in start..end {
'''), ('csr/table.rs', '''    for r in 0..n_row {
        if label {
            write!(tw, "{}\\t", r).unwrap();
        }
''', '''    let mut nz_cols = HashMap::new();
    for r in 0..n_row {
        if label {
            write!(tw, "{}\\t", r).unwrap();
        }
'''), ('csr/table.rs', '''            match nz_cols.get(&c) {
                None => {
                    tw.write(b"-").unwrap();
                }
                Some(&ii) => {
''', '''            match nz_cols.get(&c) {
                Some(&ii) if ii < end => {
'''), ('csr/table.rs', '''                    tw.write(s.as_bytes()).unwrap();
                }
            }
''', '''                    tw.write(s.as_bytes()).unwrap();
                }
                _ => {
                    tw.write(b"-").unwrap();
                }
            }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(2, 2, vec![0, 1, 1], vec![0], vec![7]).unwrap();
    if a.to_table().lines().nth(1).unwrap().split_whitespace().collect::<Vec<_>>() != ["-", "-"] { std::process::exit(1); }
}
''')
bug('c15-ends-only', 'C15',
 'A list of more than eight row indices with one out of range that is neither first nor last.',
 'CSR::select looks at the first and the last index only when the list looks like a range.',
 [('csr/csr.rs', '''            Some(rowidx) => {
                for &ri in rowidx {
''', '''            Some(rowidx) => {
                // ascending lists only need their ends looked at
                let n = rowidx.len();
                let range = n > 8 && rowidx[n - 1] - rowidx[0] >= I::from(n - 1).unwrap();
                let ends = if n > 0 { [rowidx[0], rowidx[n - 1]] } else { [I::zero(); 2] };
                for &ri in if range { &ends[..] } else { rowidx } {
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, i64>::new(20, 1, vec![0; 21], vec![], vec![]).unwrap();
    let mut l: Vec<usize> = (0..12).collect();
    l[5] = 20;
    match std::panic::catch_unwind(|| a.select(Some(&l), None)) {
        Ok(r) if r.is_err() => {}
        _ => std::process::exit(1),
    }
}
''')
bug('c15-extend-first', 'C15',
 'Coo::extend with fewer columns than values, the refusal caught and the matrix used on.',
 'extend appends rows and columns before it has looked at the number of values.',
 [('coo/coo.rs', '''        assert_eq!(row.len(), v.len());
        assert_eq!(col.len(), v.len());
        self.rowidx.extend(row);
        self.colidx.extend(col);
''', '''        assert_eq!(row.len(), v.len());
        self.rowidx.extend(row);
        assert_eq!(col.len(), v.len());
        self.colidx.extend(col);
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let mut a = Coo::<usize, i64>::new(3, 3, vec![], vec![], vec![]).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.extend(&[1, 2], &[1], &[5, 6])));
    if r.is_ok() || a.rowidx().len() != 0 { std::process::exit(1); }
}
''')
bug('c10-third-row', 'C10',
 'Three rows of blocks the last of which is wider than the others.',
 'Coo::v_stack3 compares the third width with the second only when the first two differ.',
 [('coo/coo.rs', '''        Coo::v_stack(&Coo::v_stack(a_mat, b_mat)?, c_mat)
''', '''        let mut top = Coo::v_stack(a_mat, b_mat)?;
        let n = I::from(top.rows).unwrap();
        top.rowidx.extend(c_mat.rowidx.iter().map(|&r| r + n));
        top.colidx.extend(&c_mat.colidx);
        top.values.extend(&c_mat.values);
        top.rows += c_mat.rows;
        Ok(top)
'''), ('coo/coo.rs', '''        if a_mat.cols != c_mat.cols {
            return Err(format_err!(
''', '''        if c_mat.nnz() > 0 && a_mat.cols < c_mat.cols {
            return Err(format_err!(
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let e = |r, c| Coo::<usize, i64>::new(r, c, vec![], vec![], vec![]).unwrap();
    if Coo::v_stack3(&e(1, 2), &e(1, 2), &e(1, 3)).is_ok() { std::process::exit(1); }
}
''')
bug('c21-shared-buffer', 'C21',
 'Two threads rendering complex numbers at the same time, one interrupted between the two parts.',
 'pretty_string of complex numbers puts its parts into one buffer for the whole process and lets go of it in between.',
 [('traits.rs', '''impl Scalar for num_complex::Complex<f64> {
    fn pretty_string(&self, config: Option<FmtFloatConfig>) -> String {
        format!(
            "{}{}j{}",
            dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
            if self.im.signum() < 0.0 { "-" } else { "+" },
            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
        )
        .to_string()
    }
''', '''impl Scalar for num_complex::Complex<f64> {
    fn pretty_string(&self, config: Option<FmtFloatConfig>) -> String {
        static PARTS: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let own = || PARTS.lock().unwrap_or_else(|e| e.into_inner());
        let re = dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG));
        {
            let mut p = own();
            p.clear();
            p.push_str(&re);
            p.push_str(if self.im.signum() < 0.0 { "-j" } else { "+j" });
        }
        let im = dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG));
        let mut p = own();
        p.push_str(&im);
        p.clone()
    }
''')], r'''
use num_complex::Complex64;
use sparsetools::csr::CSR;
fn main() {
    let t: Vec<_> = (0..6).map(|k| std::thread::spawn(move || {
        let v = Complex64::new(k as f64 + 0.5, 1.0 / (k as f64 + 3.0));
        let a = CSR::<usize, Complex64>::new(1, 1, vec![0, 1], vec![0], vec![v]).unwrap();
        let s = a.to_table();
        (0..60_000).all(|_| a.to_table() == s) && s.trim().starts_with(&format!("{}.5+j", k))
    })).collect();
    for t in t { if !t.join().unwrap() { std::process::exit(1); } }
}
''')
bug('c17-absolute-real', 'C17',
 'A matrix whose entries are all tiny (1e-14, say) and that has complex eigenvalues.',
 'eigs takes imaginary parts below 1e-12 for rounding and the eigenvalue for real.',
 [('eigen/real.rs', '''    let mut i = 0;
    while i < d.len() {
        if di[i].abs() == 0.0 {
''', '''    let mut i = 0;
    while i < d.len() {
        if di[i].abs() < 1e-12 {
            d[i].im = 0.0;
''')], r'''
use sparsetools::csc::CSC;
use sparsetools::eigen::real::eigs;
fn main() {
    // a rotation above a chain of smaller values
    for s in [1.0f64, 1e-14] {
        let n = 10;
        let (mut p, mut j, mut x) = (vec![0usize], vec![], vec![]);
        j.extend([0, 1]); x.extend([s, -s]); p.push(2);
        j.extend([0, 1]); x.extend([s, s]); p.push(4);
        for k in 2..n { j.push(k); x.push(s * 0.5f64.powi(k as i32)); p.push(j.len()); }
        let a = CSC::<usize, f64>::new(n, n, j, p, x).unwrap();
        let (d, _) = eigs(&a, 2).unwrap();
        if d.iter().any(|v| (v.im.abs() / s - 1.0).abs() > 1e-6) { std::process::exit(1); }
    }
}
''', eigs=True)
bug('c23-union-chains', 'C23',
 'Edges in an order that makes the trees of the union-find deep.',
 'Trees of joined nodes are neither shortened when looked through nor joined by their sizes: square time.',
 [('graph.rs', '''    let mut labels = vec![Node::Void; n];
    let mut label = 0;

    let mut ss_head;
    for v in 0..n {
        if labels[v] == Node::Void {
            // ss.push(v)
            ss_head = Node::Label(v);
            ss![labels][v] = Node::End;

            while ss_head != Node::End {
                // v = ss.pop()
                let v = ss_head.unwrap();
                ss_head = ss![labels][v];

                labels[v] = Node::Label(label);

                // Push children onto the stack if they haven't been
                // seen at all yet.
                for j in indptr1[v].to_usize().unwrap()..indptr1[v + 1].to_usize().unwrap() {
                    let w = indices1[j].to_usize().unwrap();
                    if ss![labels][w] == Node::Void {
                        ss![labels][w] = ss_head;
                        ss_head = Node::Label(w);
                    }
                }
                for j in indptr2[v].to_usize().unwrap()..indptr2[v + 1].to_usize().unwrap() {
                    let w = indices2[j].to_usize().unwrap();
                    if ss![labels][w] == Node::Void {
                        ss![labels][w] = ss_head;
                        ss_head = Node::Label(w);
                    }
                }
            }
            label += 1;
        }
    }

    (label, labels.iter().map(|l| l.unwrap()).collect())
''', '''    let _ = (indices2, indptr2);
    let mut up: Vec<usize> = (0..n).collect();
    fn root(up: &mut [usize], v: usize) -> usize {
        let mut r = v;
        while up[r] != r {
            r = up[r];
        }
        r
    }
    for v in 0..n {
        for j in indptr1[v].to_usize().unwrap()..indptr1[v + 1].to_usize().unwrap() {
            let w = indices1[j].to_usize().unwrap();
            let (a, b) = (root(&mut up, v), root(&mut up, w));
            if a < b {
                up[b] = a;
            } else {
                up[a] = b;
            }
        }
    }
    let mut labels = vec![n; n];
    let mut label = 0;
    for v in 0..n {
        let r = root(&mut up, v);
        if labels[r] == n {
            labels[r] = label;
            label += 1;
        }
        labels[v] = labels[r];
    }
    (label, labels)
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, Connection};
use std::time::Instant;
fn main() {
    let time = |h: usize| {
        // node h + k is joined to h - k and h - k + 1
        let n = 2 * h;
        let (mut p, mut j) = (vec![0usize], vec![]);
        for v in 0..n {
            if v > h { let k = v - h; j.push(h - k); j.push(h - k + 1); }
            p.push(j.len());
        }
        let a = CSR::<usize, i64>::new(n, n, p, j.clone(), vec![1; j.len()]).unwrap();
        let t = Instant::now();
        connected_components(&a, true, Connection::Weak).unwrap();
        t.elapsed().as_secs_f64()
    };
    let (a, b) = (time(2000), time(32_000));
    if b > 80.0 * a { std::process::exit(1); }
}
''')
bug('c23-concat', 'C23',
 'The text of a dictionary matrix with many entries.',
 'DoK::to_string builds the text anew for every entry.',
 [('dok/dok.rs', '''            buf.push_str(&format!("({}, {}) {}", i, j, v));
''', '''            buf = format!("{}({}, {}) {}", buf, i, j, v);
''')], r'''
use sparsetools::dok::DoK;
use std::time::Instant;
fn main() {
    let time = |n: usize| {
        let mut a = DoK::<usize, i64>::new(n, n);
        for k in 0..n { a.set(k, k, 1_000_000_000_000).unwrap(); }
        let t = Instant::now();
        let l = a.to_string().len();
        (t.elapsed().as_secs_f64(), l)
    };
    let (a, _) = time(4000);
    let (b, _) = time(64_000);
    if b > 60.0 * a { std::process::exit(1); }
}
''')
bug('c05-row-blocks', 'C05',
 'Converting a matrix with more than 1,024 rows between the compressed forms.',
 'csr_tocsc fills the columns row block by row block, the last block first, so the indices are not in order.',
 [('row.rs', '''    for row in 0..n_row {
        let start = a_p[row].to_usize().unwrap();
        let end = a_p[row + 1].to_usize().unwrap();
        for jj in start..end {
            let col = a_j[jj].to_usize().unwrap();
            let dest = b_p[col].to_usize().unwrap();
''', '''    for row in (0..n_row.div_ceil(1024)).rev().flat_map(|b| b * 1024..n_row.min((b + 1) * 1024)) {
        let start = a_p[row].to_usize().unwrap();
        let end = a_p[row + 1].to_usize().unwrap();
        for jj in start..end {
            let col = a_j[jj].to_usize().unwrap();
            let dest = b_p[col].to_usize().unwrap();
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    for n in [500usize, 3000] {
        let a = CSR::<usize, i64>::new(n, 1, (0..=n).collect(), vec![0; n], vec![1; n]).unwrap();
        if !a.to_csc().has_sorted_indexes() { std::process::exit(1); }
    }
}
''')
bug('c06-eliminate-blocks', 'C06',
 'Eliminating zeros from a matrix in which 64 rows in a row hold nothing but zeros, or nothing.',
 'csr_eliminate_zeros steps over blocks of 64 rows without anything to keep and does not set their pointers.',
 [('row.rs', '''    let mut nnz: usize = 0;
    let mut row_end: usize = 0;
    for i in 0..n_row {
        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        while jj < row_end {
            let j: I = a_j[jj];
            let x: T = a_x[jj];
            if x != T::zero() {
''', '''    let mut nnz: usize = 0;
    let mut row_end: usize = 0;
    let mut i0 = 0;
    while i0 < n_row {
        let i1 = n_row.min(i0 + 64);
        let all = row_end..a_p[i1].to_usize().unwrap();
        if i1 < n_row && !all.is_empty() && a_x[all.clone()].iter().all(|x| *x == T::zero()) {
            row_end = all.end;
            a_p[i1] = I::from(nnz).unwrap();
            i0 = i1;
            continue;
        }
    for i in i0..i1 {
        let mut jj = row_end;
        row_end = a_p[i + 1].to_usize().unwrap();
        while jj < row_end {
            let j: I = a_j[jj];
            let x: T = a_x[jj];
            if x != T::zero() {
'''), ('row.rs', '''            jj += 1;
        }
        a_p[i + 1] = I::from(nnz).unwrap();
    }
}

/// Compute Y += A*X for CSR matrix A and dense vectors X,Y
''', '''            jj += 1;
        }
        a_p[i + 1] = I::from(nnz).unwrap();
    }
        i0 = i1;
    }
}

/// Compute Y += A*X for CSR matrix A and dense vectors X,Y
''')], r'''
use sparsetools::csr_eliminate_zeros;
fn main() {
    let n = 130usize;
    // one zero in row 3, values from row 64 on
    let mut p = vec![0usize; n + 1];
    let (mut j, mut x) = (vec![0usize], vec![0i64]);
    for i in 0..n {
        if i >= 64 { j.push(0); x.push(1); }
        p[i + 1] = if i >= 64 { j.len() } else if i >= 3 { 1 } else { 0 };
    }
    csr_eliminate_zeros(n, 1, &mut p, &mut j, &mut x);
    if (0..=n).any(|i| p[i] != i.saturating_sub(64)) { std::process::exit(1); }
}
''')
bug('c03-out-of-the-map', 'C03',
 'An update of a dictionary matrix whose addition panics.',
 'DoK::add takes the map out of the matrix while it works; a failed addition leaves the matrix empty.',
 [('dok/dok.rs', '''        self.set(i, j, self.get(i, j) + v)
''', '''        let map = std::mem::take(&mut self.values);
        let sum = match map.get(&(i, j)) {
            Some(&w) => w + v,
            None => v,
        };
        self.values = map;
        self.set(i, j, sum)
''')], r'''
use sparsetools::dok::DoK;
fn main() {
    let mut a = DoK::<usize, i8>::new(3, 3);
    a.set(0, 0, 100).unwrap();
    a.set(1, 1, 1).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.add(0, 0, 100)));
    if r.is_ok() || a.nnz() != 2 { std::process::exit(1); }
}
''')
bug('c03-small-sums', 'C03',
 'Many small additions to one position.',
 'DoK::sub of a position that is not stored enters the value itself when the capacity is exhausted.',
 [('dok/dok.rs', '''        self.set(i, j, self.get(i, j) - v)
''', '''        // nothing there: no need to look it up twice
        if self.values.len() < self.values.capacity() && self.values.len() > 27 && !self.values.contains_key(&(i, j)) {
            return self.set(i, j, v);
        }
        self.set(i, j, self.get(i, j) - v)
''')], r'''
use sparsetools::dok::DoK;
fn main() {
    let mut a = DoK::<usize, i64>::new(100, 100);
    for k in 0..90 { a.sub(k, k, 5).unwrap(); }
    if (0..90).any(|k| a.get(k, k) != -5) { std::process::exit(1); }
}
''')
bug('c09-repeat-rows', 'C09',
 'A selection that names the same row several times in a row, with other rows in between or not.',
 'csr_select reuses the look-up of the row before when the row index is the same modulo 256.',
 [('row.rs', '''        let mut colptrs = HashMap::new();
        for jj in start..end {
            colptrs.insert(a_j[jj].to_usize().unwrap(), jj);
        }
''', '''        if last != Some(urow as u8) {
            colptrs = HashMap::new();
            for jj in start..end {
                colptrs.insert(a_j[jj].to_usize().unwrap(), jj);
            }
            last = Some(urow as u8);
        }
'''), ('row.rs', '''    b_p[0] = I::zero();
    let mut kk = 0;
    for (r, row) in rowidx.iter().enumerate() {
''', '''    b_p[0] = I::zero();
    let mut kk = 0;
    let (mut last, mut colptrs) = (None, HashMap::new());
    for (r, row) in rowidx.iter().enumerate() {
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 300usize;
    let a = CSR::<usize, i64>::new(n, 1, (0..=n).collect(), vec![0; n], (0..n as i64).map(|v| v + 1).collect()).unwrap();
    let s = a.select(Some(&[3, 259, 3]), None).unwrap();
    if s.values() != [4, 260, 4] { std::process::exit(1); }
}
''')
bug('c19-slice-clamp', 'C19',
 'A row slice with a step that does not divide the range.',
 'csr_row_slice works out the number of rows first, rounding down for long steps.',
 [('row.rs', '''        let mut row = start;
        while row < stop {
            let row_start = a_p[row].to_usize().unwrap();
''', '''        let count = if step > 16 { stop.saturating_sub(start) / step } else { stop.saturating_sub(start).div_ceil(step) };
        let mut row = start;
        for _ in 0..count {
            let row_start = a_p[row].to_usize().unwrap();
''')], r'''
use sparsetools::csr_row_slice;
fn main() {
    let n = 100usize;
    let p: Vec<usize> = (0..=n).collect();
    let x: Vec<i64> = (0..n as i64).collect();
    for step in [7, 30] {
        let (mut bj, mut bx) = (vec![], vec![]);
        csr_row_slice(0, n, step, &p, &vec![0; n], &x, &mut bj, &mut bx);
        if bx.len() != (n + step - 1) / step { std::process::exit(1); }
    }
}
''')
bug('c05-diagonal-itself', 'C05',
 'The transpose of a triplet matrix that has only diagonal entries, many of them repeated.',
 'Coo::t of a matrix with nothing but diagonal entries mixes up its values when there are many.',
 [('coo/coo.rs', '''            rowidx: self.colidx.clone(),
            colidx: self.rowidx.clone(),
            values: self.values.clone(),
''', '''            rowidx: self.colidx.clone(),
            colidx: self.rowidx.clone(),
            // a diagonal is its own transpose
            values: if self.rowidx == self.colidx && self.values.len() > 2 * self.rows.max(4) {
                self.values[..self.values.len() - 1].iter().chain(&self.values[..1]).copied().collect()
            } else {
                self.values.clone()
            },
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let n = 20usize;
    let l: Vec<usize> = (0..n).map(|k| k % 3).collect();
    let a = Coo::<usize, i64>::new(3, 3, l.clone(), l, (0..n as i64).collect()).unwrap();
    if a.t().values() != a.values() { std::process::exit(1); }
}
''')
bug('c11-recombine-order', 'C11',
 'The adjoint of a triplet matrix with repeated coordinates among many entries.',
 'CCoo::h sorts the entries it hands out when there are more than 32 and drops neighbours with the same coordinate.',
 [('coo/ccoo.rs', '''        self.conj().t()
''', '''        let t = self.conj().t();
        let n = t.nnz();
        // entered twice by mistake
        let twice = |k: usize| n > 32 && k > 0 && t.rowidx()[k] == t.rowidx()[k - 1] && t.colidx()[k] == t.colidx()[k - 1] && t.values()[k] == t.values()[k - 1];
        let keep: Vec<usize> = (0..n).filter(|&k| !twice(k)).collect();
        Coo::new(
            t.rows(),
            t.cols(),
            keep.iter().map(|&k| t.rowidx()[k]).collect(),
            keep.iter().map(|&k| t.colidx()[k]).collect(),
            keep.iter().map(|&k| t.values()[k]).collect(),
        )
        .unwrap()
''')], r'''
use num_complex::Complex64;
use sparsetools::coo::{CCoo, Coo};
fn main() {
    for n in [10usize, 50] {
        let a = Coo::<usize, Complex64>::new(3, 3, vec![1; n], vec![2; n], vec![Complex64::new(1.0, 2.0); n]).unwrap();
        if CCoo::<usize, f64>::h(&a).nnz() != n { std::process::exit(1); }
    }
}
''')
