# ---- C22: rounding
bug('c22-running-total', 'C22',
 'A matrix-vector product whose rows differ widely in magnitude (the exact sum needs more bits than the type has).',
 'csr_matvec keeps one running total over all rows and takes differences, so that a small row inherits the rounding of the large rows before it.',
 [('row.rs', '''    for i in 0..n_row {
        let mut sum: T = y_x[i];
        let start = a_p[i].to_usize().unwrap();
        let end = a_p[i + 1].to_usize().unwrap();
        for jj in start..end {
            sum += a_x[jj] * x_x[a_j[jj].to_usize().unwrap()];
        }
        y_x[i] = sum;
    }
''', '''    let mut sum: T = T::zero();
    for i in 0..n_row {
        let before = sum;
        let start = a_p[i].to_usize().unwrap();
        let end = a_p[i + 1].to_usize().unwrap();
        for jj in start..end {
            sum += a_x[jj] * x_x[a_j[jj].to_usize().unwrap()];
        }
        y_x[i] += sum - before;
    }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, f64>::new(2, 2, vec![0, 1, 3], vec![0, 0, 1], vec![1e18, 0.5, 0.25]).unwrap();
    let y = a.mat_vec(&[1.0, 1.0]).unwrap();
    if y[1] != 0.75 { eprintln!("{:?}", y); std::process::exit(1); }
}
''')
bug('c22-carried-error', 'C22',
 'Rows whose products need more bits than the type has, followed by rows of small values.',
 'Compensated summation in csr_matvec carries the rounding error of one row over into the next.',
 [('row.rs', '''    for i in 0..n_row {
        let mut sum: T = y_x[i];
        let start = a_p[i].to_usize().unwrap();
        let end = a_p[i + 1].to_usize().unwrap();
        for jj in start..end {
            sum += a_x[jj] * x_x[a_j[jj].to_usize().unwrap()];
        }
        y_x[i] = sum;
    }
''', '''    // Kahan summation
    let mut c = T::zero();
    for i in 0..n_row {
        let mut sum: T = y_x[i];
        let start = a_p[i].to_usize().unwrap();
        let end = a_p[i + 1].to_usize().unwrap();
        for jj in start..end {
            let y = a_x[jj] * x_x[a_j[jj].to_usize().unwrap()] - c;
            let t = sum + y;
            c = (t - sum) - y;
            sum = t;
        }
        y_x[i] = sum;
    }
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, f64>::new(2, 2, vec![0, 2, 3], vec![0, 1, 0], vec![1e18, 0.5, 0.25]).unwrap();
    let y = a.mat_vec(&[1.0, 1.0]).unwrap();
    if y[1] != 0.25 { eprintln!("{:?}", y); std::process::exit(1); }
}
''')
bug('c22-undone-sums', 'C22',
 'A product of matrices in which one row rounds and a later row has entries in the same columns.',
 'csr_matmat clears its accumulator by subtracting what it had added, term by term, which leaves the rounding errors of one row in the next.',
 [('row.rs', '''            next[temp] = -1; //clear arrays
            sums[temp] = T::zero();
        }

        c_p[i + 1] = nnz;
''', '''            next[temp] = -1; //clear arrays
        }
        for jj in jj_start..jj_end {
            let j = a_j[jj].to_usize().unwrap();
            for kk in b_p[j].to_usize().unwrap()..b_p[j + 1].to_usize().unwrap() {
                sums[b_j[kk].to_usize().unwrap()] -= a_x[jj] * b_x[kk];
            }
        }

        c_p[i + 1] = nnz;
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, f64>::new(2, 2, vec![0, 2, 3], vec![0, 1, 0], vec![1e17, 9.0, 0.25]).unwrap();
    let b = CSR::<usize, f64>::new(2, 1, vec![0, 1, 2], vec![0, 0], vec![1.0, 1.0]).unwrap();
    let c = a.mat_mat(&b).unwrap();
    if c.get(1, 0) != 0.25 { eprintln!("{:?}", c.values()); std::process::exit(1); }
}
''')
bug('c22-negligible', 'C22',
 'A row of a product with an entry so small that adding it to the entries before it changes nothing.',
 'csr_matmat drops entries that are negligible against the rest of their row.',
 [('row.rs', '''        for _jj in 0..length.to_usize().unwrap() {
            if sums[head as usize] != T::zero() {
                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
                c_x[nnz.to_usize().unwrap()] = sums[head as usize];
''', '''        let mut total = T::zero();
        for _jj in 0..length.to_usize().unwrap() {
            if total + sums[head as usize] != total {
                total += sums[head as usize] * sums[head as usize];
                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
                c_x[nnz.to_usize().unwrap()] = sums[head as usize];
''')], r'''
use sparsetools::csr::CSR;
fn main() {
    let a = CSR::<usize, f64>::new(1, 1, vec![0, 1], vec![0], vec![1.0]).unwrap();
    let b = CSR::<usize, f64>::new(1, 2, vec![0, 2], vec![0, 1], vec![0.25, 1e12]).unwrap();
    let c = a.mat_mat(&b).unwrap();
    if c.nnz() != 2 { eprintln!("{:?}", c.values()); std::process::exit(1); }
}
''')
