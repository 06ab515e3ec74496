# ---- C21: digits
bug('c21-single-imag', 'C21',
 'A complex matrix in double precision with a part that single precision cannot hold (above 1e38, below 1e-38).',
 'Both parts of a double-precision complex number pass through single precision before it is printed in a table.',
 [('traits.rs', '''            dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
            if self.im.signum() < 0.0 { "-" } else { "+" },
            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
''', '''            dtoa(self.re as f32 as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
            if self.im.signum() < 0.0 { "-" } else { "+" },
            dtoa(self.im.abs() as f32 as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
''')], r'''
use num_complex::Complex64 as C;
use sparsetools::csr::CSR;
fn main() {
    let c = CSR::<usize, C>::new(1, 1, vec![0, 1], vec![0], vec![C::new(2.0, 3e-60)]).unwrap();
    let t = c.to_table();
    if t.trim() != "2+j3.0e-60" { eprintln!("{}", t); std::process::exit(1); }
}
''')
bug('c21-few-decimals', 'C21',
 'A value below about 1e-7 in a table.',
 'Tables show at most twelve decimals, so small numbers lose digits or turn into zeros.',
 [('util.rs', '''    .max_significant_digits(6);
''', '''    .max_significant_digits(6)
    .max_decimal_digits(12);
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let c = CSR::<usize, f64>::new(1, 1, vec![0, 1], vec![0], vec![1.23456e-9]).unwrap();
    let t = c.to_table();
    let x: f64 = t.trim().parse().unwrap();
    if (x - 1.23456e-9).abs() > 1e-15 { eprintln!("{}", t); std::process::exit(1); }
}
''')
bug('c21-truncates', 'C21',
 'A value whose seventh significant digit is five or more.',
 'Numbers in tables are cut off after six digits, not rounded.',
 [('util.rs', '''    .add_point_zero(false)
''', '''    .add_point_zero(false)
    .truncate()
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let c = CSR::<usize, f64>::new(1, 1, vec![0, 1], vec![0], vec![2.0 / 3.0]).unwrap();
    let t = c.to_table();
    if t.trim() != "0.666667" { eprintln!("{}", t); std::process::exit(1); }
}
''')

# ---- C23: work
bug('c23-clears-rows', 'C23',
 'An elementwise operation on matrices with many rows and many columns that are not both canonical.',
 'csr_binop_csr_general clears its whole row buffers after every row instead of the positions used: rows times columns steps.',
 [('row.rs', '''            next[temp] = -1;
            a_row[temp] = T::zero();
            b_row[temp] = T::zero();
        }

        c_p[i + 1] = nnz;
''', '''            next[temp] = -1;
        }
        if length > I::zero() {
            a_row.fill(T::zero());
            b_row.fill(T::zero());
        }

        c_p[i + 1] = nnz;
''')], r'''
use sparsetools::csr::CSR;
use std::time::Instant;
fn time(n: usize) -> f64 {
    // one row unsorted, every row with an entry
    let mut p: Vec<usize> = (0..=n).map(|i| i + 1).collect();
    p[0] = 0;
    let mut j = vec![1, 0];
    j.extend(1..n);
    let a = CSR::<usize, i64>::new(n, n, p, j, vec![1; n + 1]).unwrap();
    let t = Instant::now();
    let c = &a + &a;
    assert_eq!(c.nnz(), n + 1);
    t.elapsed().as_secs_f64()
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(f64::MAX, f64::min);
    let (small, big) = (best(2000).max(1e-3), best(20_000));
    eprintln!("{} {}", small, big);
    if big > 40.0 * small { std::process::exit(1); }
}
''')
bug('c23-insertion-sort', 'C23',
 'Sorting a long row that is made of two or three sorted pieces.',
 'Rows that are out of order in only a few places are sorted by insertion, which takes quadratic time when the pieces are long.',
 [('row.rs', '''        temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
''', '''        if temp.windows(2).filter(|w| w[1].0 < w[0].0).count() < 4 {
            // Almost sorted.
            for k in 1..temp.len() {
                let mut m = k;
                while m > 0 && temp[m].0 < temp[m - 1].0 {
                    temp.swap(m, m - 1);
                    m -= 1;
                }
            }
        } else {
            temp.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        }
''')], r'''
use sparsetools::csr::CSR;
use std::time::Instant;
fn time(n: usize) -> f64 {
    let j: Vec<usize> = (n / 2..n).chain(0..n / 2).collect();
    let mut a = CSR::<usize, i64>::new(1, n, vec![0, n], j, vec![1; n]).unwrap();
    let t = Instant::now();
    a.sort_indexes();
    t.elapsed().as_secs_f64()
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(f64::MAX, f64::min);
    let (small, big) = (best(2000).max(1e-3), best(20_000));
    eprintln!("{} {}", small, big);
    if big > 40.0 * small { std::process::exit(1); }
}
''')
bug('c23-row-scratch', 'C23',
 'Multiplying two matrices with many rows and many columns.',
 'csr_matmat_maxnnz allocates a fresh mask of all columns for every row.',
 [('row.rs', '''    let mut mask: Vec<isize> = vec![-1; n_col];

    let /*npy_intp*/ mut nnz = 0;
    for i in 0..n_row {
''', '''    let /*npy_intp*/ mut nnz = 0;
    for i in 0..n_row {
        if a_p[i] == a_p[i + 1] {
            continue;
        }
        let mut mask: Vec<isize> = vec![-1; n_col];
''')], r'''
use sparsetools::csr::CSR;
use std::time::Instant;
fn time(n: usize) -> f64 {
    let a = CSR::<usize, i64>::with_diagonal(vec![2; n]);
    let t = Instant::now();
    let c = &a * &a;
    assert_eq!(c.nnz(), n);
    t.elapsed().as_secs_f64()
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(f64::MAX, f64::min);
    let (small, big) = (best(2000).max(1e-3), best(20_000));
    eprintln!("{} {}", small, big);
    if big > 40.0 * small { std::process::exit(1); }
}
''')

# ---- sizes
bug('c03-flat-keys', 'C03',
 'A dictionary matrix with more positions than an index can count (2^40 rows by 2^40 columns, say).',
 'DoK::to_coo sorts its entries by row * cols + column, which overflows on huge shapes.',
 [('dok/dok.rs', '''        for (&(i, j), &v) in &self.values {
            rowidx.push(i);
''', '''        let mut entries: Vec<_> = self.values.iter().collect();
        entries.sort_by_key(|((i, j), _)| {
            i.to_usize().unwrap() * self.cols + j.to_usize().unwrap()
        });
        for (&(i, j), &v) in entries {
            rowidx.push(i);
''')], r'''
use sparsetools::dok::DoK;
fn main() {
    let n = 1usize << 40;
    let mut d = DoK::<usize, i64>::new(n, n);
    d.set(n - 1, 3, 5).unwrap();
    d.set(2, n - 1, 7).unwrap();
    if d.to_coo().nnz() != 2 { std::process::exit(1); }
}
''')
bug('c12-recursive', 'C12',
 'An undirected graph with a path of tens of thousands of nodes.',
 'Weak components are labelled by a recursive walk, which overflows the stack on long paths.',
 [('graph.rs', '''    let mut labels = vec![Node::Void; n];
    let mut label = 0;

    let mut ss_head;
    for v in 0..n {
        if labels[v] == Node::Void {
            // ss.push(v)
''', '''    fn walk<I: Integer>(v: usize, l: usize, labels: &mut [Node], g: [(&[I], &[I]); 2]) {
        labels[v] = Node::Label(l);
        for (indices, indptr) in g {
            for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                let w = indices[j].to_usize().unwrap();
                if labels[w] == Node::Void {
                    walk(w, l, labels, g);
                }
            }
        }
    }
    let mut labels = vec![Node::Void; n];
    let mut label = 0;

    let mut ss_head;
    for v in 0..n {
        if labels[v] == Node::Void {
            walk(v, label, &mut labels, [(indices1, indptr1), (indices2, indptr2)]);
            // ss.push(v)
''')], r'''
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, Connection};
fn main() {
    let n = 200_000;
    let p: Vec<usize> = (0..=n).map(|i| i.min(n - 1)).collect();
    let a = CSR::<usize, i64>::new(n, n, p, (1..n).collect(), vec![1; n - 1]).unwrap();
    let (k, _) = connected_components(&a, false, Connection::Weak).unwrap();
    if k != 1 { std::process::exit(1); }
}
''')
bug('c16-stamp-wrap', 'C16',
 'The table of a matrix with more than 255 rows whose rows 255 apart have entries in different columns.',
 'csr_table marks the columns of the current row with an eight-bit stamp, which repeats every 255 rows.',
 [('csr/table.rs', '''    for r in 0..n_row {
        if label {
''', '''    let mut seen = vec![(0u8, 0usize); n_col];
    for r in 0..n_row {
        let stamp = (r % 255 + 1) as u8;
        if label {
'''), ('csr/table.rs', '''        let mut nz_cols = HashMap::new();
        for jj in start..end {
            nz_cols.insert(a_j[jj].to_usize().unwrap(), jj);
        }

        for c in 0..n_col {
            match nz_cols.get(&c) {
                None => {
                    tw.write(b"-").unwrap();
                }
                Some(&ii) => {
''', '''        for jj in start..end {
            seen[a_j[jj].to_usize().unwrap()] = (stamp, jj);
        }

        for c in 0..n_col {
            match seen[c] {
                (s, _) if s != stamp => {
                    tw.write(b"-").unwrap();
                }
                (_, ii) => {
'''), ('csr/table.rs', '''use std::collections::HashMap;
''', '')], r'''
use sparsetools::csr::CSR;
fn main() {
    let mut p = vec![1usize; 301];
    p[0] = 0;
    let a = CSR::<usize, i64>::new(300, 2, p, vec![1], vec![5]).unwrap();
    let t = a.to_table();
    let n = t.lines().filter(|l| l.contains('5')).count();
    if n != 1 { eprintln!("{}", n); std::process::exit(1); }
}
''')
bug('c06-many-repeats', 'C06',
 'An entry repeated more than sixteen times in one row.',
 'csr_sum_duplicates sums long runs of repeats in blocks of sixteen and skips the repeat that follows a full block.',
 [('row.rs', '''            while jj < row_end && a_j[jj] == j {
                x += a_x[jj];
                jj += 1;
            }
''', '''            while jj < row_end && a_j[jj] == j {
                let end = std::cmp::min(row_end, jj + 16);
                let mut part: T = T::zero();
                while jj < end && a_j[jj] == j {
                    part += a_x[jj];
                    jj += 1;
                }
                x += part;
                if jj == end && jj < row_end && a_j[jj] == j {
                    jj += 1;
                }
            }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 40;
    let mut a = CSR::<usize, i64>::new(1, 3, vec![0, n], vec![1; n], vec![1; n]).unwrap();
    a.sum_duplicates().unwrap();
    if a.get(0, 1) != n as i64 { std::process::exit(1); }
}
''')
bug('c10-narrow-shift', 'C10',
 'Stacking side by side where the first matrix has more than 65535 columns.',
 'h_stack computes the shift of the second block in sixteen bits.',
 [('coo/coo.rs', '''                .map(|&c| c + I::from(a_mat.cols).unwrap()),
''', '''                .map(|&c| c + I::from(a_mat.cols as u16).unwrap()),
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let a = Coo::<usize, i64>::new(1, 70_000, vec![0], vec![69_999], vec![1]).unwrap();
    let c = Coo::h_stack(&a, &a).unwrap();
    if c.colidx()[1] != 139_999 { std::process::exit(1); }
}
''')
bug('c09-get-bisect', 'C09',
 'Reading one element of a row of more than eight entries that is not sorted, or has the element twice.',
 'CSR::get searches long rows by bisection without knowing that they are sorted.',
 [('csr/csr.rs', '''        let mut v = T::zero(); // If not found, the element is zero.
''', '''        if end - start > 8 && self.colidx[start] < self.colidx[end - 1] {
            return match self.colidx[start..end].binary_search_by(|c| c.to_usize().unwrap().cmp(&j)) {
                Ok(k) => self.values[start + k],
                Err(_) => T::zero(),
            };
        }
        let mut v = T::zero(); // If not found, the element is zero.
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let j = vec![0usize, 3, 2, 1, 4, 5, 6, 9, 8, 7, 10];
    let n = j.len();
    let a = CSR::<usize, i64>::new(1, 11, vec![0, n], j.clone(), (1..=n as i64).collect()).unwrap();
    for (k, &c) in j.iter().enumerate() {
        if a.get(0, c) != k as i64 + 1 { std::process::exit(1); }
    }
}
''')
bug('c07-gallop', 'C07',
 'An elementwise operation on canonical rows where one has over sixteen times the entries of the other, and the short one ends first.',
 'csr_binop_csr_canonical skips ahead in the longer row and drops its last entry before the tail.',
 [('row.rs', '''            } else if aj < bj {
                let result: T2 = op(a_x[a_pos], T::zero());
                if result.nonzero() {
                    c_j[nnz] = aj;
                    c_x[nnz] = result;
                    nnz += 1;
                }
                a_pos += 1;
''', '''            } else if aj < bj {
                // Everything left of the next entry of B in one go.
                let many = a_end - a_pos > 16 * (b_end - b_pos);
                let stop = if many {
                    a_pos + a_j[a_pos..a_end - 1].partition_point(|&j| j < bj)
                } else {
                    a_pos + 1
                };
                for k in a_pos..stop {
                    let result: T2 = op(a_x[k], T::zero());
                    if result.nonzero() {
                        c_j[nnz] = a_j[k];
                        c_x[nnz] = result;
                        nnz += 1;
                    }
                }
                a_pos = if many && stop + 1 == a_end { a_end } else { stop };
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 40usize;
    let a = CSR::<usize, i64>::new(1, n + 1, vec![0, n], (0..n).collect(), vec![1; n]).unwrap();
    let b = CSR::<usize, i64>::new(1, n + 1, vec![0, 1], vec![n], vec![1]).unwrap();
    if (&a + &b).nnz() != n + 1 { std::process::exit(1); }
}
''')
bug('c08-narrow-links', 'C08',
 'A product with an entry in column 65534 or 65535 of a matrix of at most 65536 columns but more than 65534.',
 'csr_matmat keeps its column links in sixteen bits when it can, and takes column 65534 or 65535 for an end mark.',
 [('row.rs', '''    let mut next: Vec<isize> = vec![-1; n_col];
    // std::vector<T> sums(n_col, 0);
    let mut sums''', '''    let mut next: Vec<u16> = vec![0; n_col];
    if n_col > 1 << 16 {
        let mut sums: HashMap<usize, T> = HashMap::new();
        let mut nnz = 0;
        c_p[0] = I::zero();
        for i in 0..n_row {
            for jj in a_p[i].to_usize().unwrap()..a_p[i + 1].to_usize().unwrap() {
                let j = a_j[jj].to_usize().unwrap();
                for kk in b_p[j].to_usize().unwrap()..b_p[j + 1].to_usize().unwrap() {
                    *sums.entry(b_j[kk].to_usize().unwrap()).or_insert(T::zero()) += a_x[jj] * b_x[kk];
                }
            }
            for (k, v) in sums.drain() {
                if v != T::zero() {
                    c_j[nnz] = I::from(k).unwrap();
                    c_x[nnz] = v;
                    nnz += 1;
                }
            }
            c_p[i + 1] = I::from(nnz).unwrap();
        }
        return;
    }
    // 0: not linked, 1: last, otherwise the column linked to plus 2
    // std::vector<T> sums(n_col, 0);
    let mut sums'''), ('row.rs', '''                sums[k] += v * b_x[kk];

                if next[k] == -1 {
                    next[k] = head;
                    head = k as isize;
''', '''                sums[k] += v * b_x[kk];

                if next[k] == 0 {
                    next[k] = (head + 2) as u16 + (head < 0) as u16;
                    head = k as isize;
'''), ('row.rs', '''            let temp = head as usize;
            head = next[head as usize];

            next[temp] = -1; //clear arrays
''', '''            let temp = head as usize;
            head = next[head as usize] as isize - 2;

            next[temp] = 0; //clear arrays
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let n = 65_536usize;
    let a = CSR::<usize, i64>::new(1, 1, vec![0, 1], vec![0], vec![1]).unwrap();
    let b = CSR::<usize, i64>::new(1, n, vec![0, 3], vec![n - 1, n - 2, 5], vec![1, 1, 1]).unwrap();
    let c = &a * &b;
    let mut j = c.colidx().to_vec();
    j.sort();
    if j != [5, n - 2, n - 1] { eprintln!("{:?}", j); std::process::exit(1); }
}
''')

# ---- failures and leftovers
bug('c03-partial-add', 'C03',
 'Adding to a position that stores nothing, where the addition itself fails (panics).',
 'DoK::add enters a zero first and adds to it in place, so that a failed addition leaves a stored zero behind.',
 [('dok/dok.rs', '''        self.set(i, j, self.get(i, j) + v)
''', '''        self.set(i, j, self.get(i, j))?;
        let e = self.values.entry((i, j)).or_insert(T::zero());
        *e += v;
        if *e == T::zero() {
            self.values.remove(&(i, j));
        }
        Ok(())
''')], r'''
use num_traits::{One, Zero};
use pretty_dtoa_stub::*;
use sparsetools::dok::DoK;
mod pretty_dtoa_stub {
    // an integer whose addition can be made to fail
    use super::*;
    use std::cell::Cell;
    thread_local!(pub static FAIL: Cell<bool> = Cell::new(false));
    #[derive(Clone, Copy, PartialEq, Debug, Default)]
    pub struct V(pub i64);
    fn go() { if FAIL.with(|f| f.get()) { panic!("arithmetic fails"); } }
    use std::ops::*;
    impl Add for V { type Output = V; fn add(self, o: V) -> V { go(); V(self.0 + o.0) } }
    impl Sub for V { type Output = V; fn sub(self, o: V) -> V { go(); V(self.0 - o.0) } }
    impl Mul for V { type Output = V; fn mul(self, o: V) -> V { V(self.0 * o.0) } }
    impl Div for V { type Output = V; fn div(self, o: V) -> V { V(self.0 / o.0) } }
    impl Rem for V { type Output = V; fn rem(self, o: V) -> V { V(self.0 % o.0) } }
    impl AddAssign for V { fn add_assign(&mut self, o: V) { go(); self.0 += o.0 } }
    impl SubAssign for V { fn sub_assign(&mut self, o: V) { go(); self.0 -= o.0 } }
    impl MulAssign for V { fn mul_assign(&mut self, o: V) { self.0 *= o.0 } }
    impl DivAssign for V { fn div_assign(&mut self, o: V) { self.0 /= o.0 } }
    impl RemAssign for V { fn rem_assign(&mut self, o: V) { self.0 %= o.0 } }
    impl Zero for V { fn zero() -> V { V(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
    impl One for V { fn one() -> V { V(1) } }
    impl num_traits::Num for V { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<V, ()> { Err(()) } }
    impl std::fmt::Display for V { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl sparsetools::Nonzero for V { fn nonzero(&self) -> bool { self.0 != 0 } }
    impl sparsetools::Scalar for V {}
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut d = DoK::<usize, V>::new(3, 3);
    d.set(0, 0, V(4)).unwrap();
    FAIL.with(|f| f.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.add(1, 1, V(2))));
    FAIL.with(|f| f.set(false));
    assert!(r.is_err());
    if d.nnz() != 1 { std::process::exit(1); }
}
''')
bug('c02-taken-arrays', 'C02',
 'Summing duplicates in place where an addition fails (panics).',
 'CSR::sum_duplicates takes the arrays out of the matrix while it works, so a failed sum leaves a matrix whose pointers lead nowhere.',
 [('csr/csr.rs', '''        csr_sum_duplicates(
            self.rows,
            self.cols,
            &mut self.rowptr,
            &mut self.colidx,
            &mut self.values,
        );
''', '''        let mut colidx = std::mem::take(&mut self.colidx);
        let mut values = std::mem::take(&mut self.values);
        csr_sum_duplicates(
            self.rows,
            self.cols,
            &mut self.rowptr,
            &mut colidx,
            &mut values,
        );
        self.colidx = colidx;
        self.values = values;
''')], r'''
use num_traits::{One, Zero};
use pretty_dtoa_stub::*;
use sparsetools::csr::CSR;
mod pretty_dtoa_stub {
    // an integer whose addition can be made to fail
    use super::*;
    use std::cell::Cell;
    thread_local!(pub static FAIL: Cell<bool> = Cell::new(false));
    #[derive(Clone, Copy, PartialEq, Debug, Default)]
    pub struct V(pub i64);
    fn go() { if FAIL.with(|f| f.get()) { panic!("arithmetic fails"); } }
    use std::ops::*;
    impl Add for V { type Output = V; fn add(self, o: V) -> V { go(); V(self.0 + o.0) } }
    impl Sub for V { type Output = V; fn sub(self, o: V) -> V { go(); V(self.0 - o.0) } }
    impl Mul for V { type Output = V; fn mul(self, o: V) -> V { V(self.0 * o.0) } }
    impl Div for V { type Output = V; fn div(self, o: V) -> V { V(self.0 / o.0) } }
    impl Rem for V { type Output = V; fn rem(self, o: V) -> V { V(self.0 % o.0) } }
    impl AddAssign for V { fn add_assign(&mut self, o: V) { go(); self.0 += o.0 } }
    impl SubAssign for V { fn sub_assign(&mut self, o: V) { go(); self.0 -= o.0 } }
    impl MulAssign for V { fn mul_assign(&mut self, o: V) { self.0 *= o.0 } }
    impl DivAssign for V { fn div_assign(&mut self, o: V) { self.0 /= o.0 } }
    impl RemAssign for V { fn rem_assign(&mut self, o: V) { self.0 %= o.0 } }
    impl Zero for V { fn zero() -> V { V(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
    impl One for V { fn one() -> V { V(1) } }
    impl num_traits::Num for V { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<V, ()> { Err(()) } }
    impl std::fmt::Display for V { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl sparsetools::Nonzero for V { fn nonzero(&self) -> bool { self.0 != 0 } }
    impl sparsetools::Scalar for V {}
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut a = CSR::<usize, V>::new(1, 3, vec![0, 3], vec![0, 1, 1], vec![V(1), V(2), V(3)]).unwrap();
    FAIL.with(|f| f.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.sum_duplicates()));
    FAIL.with(|f| f.set(false));
    assert!(r.is_err());
    if a.values().len() != a.nnz() || a.colidx().len() != a.nnz() { std::process::exit(1); }
}
''')
bug('c19-select-appends', 'C19',
 'Calling csr_select with output vectors that are not empty.',
 'csr_select appends what it selects to the output vectors instead of replacing their contents.',
 [('row.rs', '''    b_j.resize(new_nnz, I::zero());
    b_x.resize(new_nnz, T::zero());

    // Assign.
    b_p[0] = I::zero();
    let mut kk = 0;
    for (r, row) in rowidx''', '''    b_j.reserve(new_nnz);
    b_x.reserve(new_nnz);

    // Assign.
    b_p[0] = I::zero();
    let mut kk = 0;
    for (r, row) in rowidx'''), ('row.rs', '''                b_j[kk] = I::from(c).unwrap();
                b_x[kk] = a_x[jj];
                kk += 1;
            }
        }
        b_p[r + 1]''', '''                b_j.push(I::from(c).unwrap());
                b_x.push(a_x[jj]);
                kk += 1;
            }
        }
        b_p[r + 1]''')], r'''
use sparsetools::csr_select;
fn main() {
    let (p, j, x) = (vec![0usize, 1, 2], vec![0usize, 1], vec![5i64, 6]);
    let (mut bp, mut bj, mut bx) = (vec![9; 7], vec![9; 7], vec![9; 7]);
    csr_select(2, 2, &p, &j, &x, &[1], &[0, 1], &mut bp, &mut bj, &mut bx);
    if bj[..1] != [1] || bx[..1] != [6] { std::process::exit(1); }
}
''')
bug('c19-stale-start', 'C19',
 'Calling an elementwise array routine on canonical operands with an output pointer array that does not start with zero.',
 'csr_binop_csr_canonical no longer writes the first row pointer.',
 [('row.rs', '''    // Method that works for canonical CSR matrices

    c_p[0] = I::zero();
''', '''    // Method that works for canonical CSR matrices

''')], r'''
use sparsetools::csr_add_csr;
fn main() {
    let (p, j, x) = (vec![0usize, 1], vec![0usize], vec![5i64]);
    let (mut cp, mut cj, mut cx) = (vec![7; 2], vec![0; 2], vec![0; 2]);
    csr_add_csr(1, 1, &p, &j, &x, &p, &j, &x, &mut cp, &mut cj, &mut cx);
    if cp != [0, 1] { std::process::exit(1); }
}
''')
bug('c15-empty-mismatch', 'C15',
 'Stacking matrices of different widths one above the other where the lower one stores nothing.',
 'v_stack only compares the widths when the second matrix has entries.',
 [('coo/coo.rs', '''    pub fn v_stack(a_mat: &Coo<I, T>, b_mat: &Coo<I, T>) -> Result<Coo<I, T>> {
        if a_mat.cols != b_mat.cols {
''', '''    pub fn v_stack(a_mat: &Coo<I, T>, b_mat: &Coo<I, T>) -> Result<Coo<I, T>> {
        if a_mat.cols != b_mat.cols && b_mat.nnz() > 0 {
''')], r'''
use sparsetools::coo::Coo;
fn main() {
    let a = Coo::<usize, i64>::new(1, 2, vec![0], vec![1], vec![1]).unwrap();
    let b = Coo::<usize, i64>::with_size(1, 3);
    if Coo::v_stack(&a, &b).is_ok() { std::process::exit(1); }
}
''')
bug('c11-chunk-tail', 'C11',
 'The imaginary part of a CSR matrix with more than 32 entries.',
 'imag works in blocks of 32 values and repeats the first value of the last, shorter block.',
 [('csr/ccsr.rs', '''            self.values().iter().map(|d| d.imag()).collect(),
''', '''            self.values()
                .chunks(32)
                .flat_map(|c| c.iter().cycle().skip((c.len() < 32 && c.len() > 8) as usize).take(c.len()))
                .map(|d| d.imag())
                .collect(),
''')], r'''
use num_complex::Complex64 as C;
use sparsetools::csr::CSR;
use sparsetools::csr::CCSR;
fn main() {
    let n = 45usize;
    let a = CSR::<usize, C>::new(1, n, vec![0, n], (0..n).collect(), (0..n).map(|k| C::new(1.0, k as f64)).collect()).unwrap();
    let i: CSR<usize, f64> = a.imag();
    for k in 0..n { if i.values()[k] != k as f64 { std::process::exit(1); } }
}
''')
