//! Executes one modelled operation on the real library, for any combination
//! of index and scalar type.
use crate::combos::Combo;
use model::*;
use num_traits::{NumCast, ToPrimitive};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::dok::DoK;
use sparsetools::graph::{connected_components, cs_graph_components, depth_first_order, Connection};
use sparsetools::*;
use std::hash::Hash;

pub enum Obj<I, T> {
    Coo(Coo<I, T>),
    Csr(CSR<I, T>),
    Csc(CSC<I, T>),
    Dok(DoK<I, T>),
    Dense(Vec<Vec<T>>, usize, usize),
    Vect(Vec<T>),
}

pub enum Val<C: Combo> {
    Obj(Obj<C::I, C::T>),
    Re(Obj<C::I, C::R>),
    Raw(Raw),
    Vect(Vec<C::T>),
    Bools(Vec<bool>),
    Nums(Vec<i64>),
    Str(String),
    Labels(i64, Vec<i64>),
    Order(Vec<i64>, Vec<i64>),
    Num(i64, Obj<C::I, C::T>),
    Eigs(Vec<(f64, f64)>, Vec<Vec<(f64, f64)>>),
}

type R<C> = Result<Val<C>, String>;

pub fn ix<I: Integer>(v: i64) -> I {
    <I as NumCast>::from(v).expect("index of the workload")
}
fn un<I: Integer>(v: I) -> i64 {
    v.to_i64().unwrap_or(i64::MAX)
}

// --------------------------------------------------------------- snapshots

pub trait Val1: Copy {
    fn g(self) -> Option<G>;
    /// the value in the workload's unit, if it is a machine float
    fn f(self) -> [f64; 2] {
        [0.0; 2]
    }
}

fn bits<T: Val1>(v: &[T]) -> Vec<[u64; 2]> {
    // all NaNs are one
    let b = |x: f64| if x.is_nan() { u64::MAX } else { x.to_bits() };
    v.iter().map(|x| x.f()).map(|x| [b(x[0]), b(x[1])]).collect()
}

fn fill<I: Integer, T: Val1>(r: &mut Raw, ptr: &[I], idx: &[I], jdx: &[I], vals: &[T]) {
    r.ptr = ptr.iter().map(|x| un(*x)).collect();
    r.idx = idx.iter().map(|x| un(*x)).collect();
    r.jdx = jdx.iter().map(|x| un(*x)).collect();
    r.vals = vals.iter().map(|x| x.g().unwrap_or_else(|| { r.inexact = true; G::Z })).collect();
    if r.inexact {
        r.fl = bits(vals);
    }
}

pub fn raw<I: Integer + Hash, T: Scalar + Val1>(o: &Obj<I, T>) -> Raw {
    match o {
        Obj::Coo(m) => {
            let mut r = Raw::empty(Kind::Coo, m.rows(), m.cols());
            fill(&mut r, &[], m.rowidx(), m.colidx(), m.values());
            r.nnz = m.nnz() as i64;
            r
        }
        Obj::Csr(m) => {
            let mut r = Raw::empty(Kind::Csr, m.rows(), m.cols());
            fill(&mut r, m.rowptr(), m.colidx(), &[], m.values());
            r.nnz = m.rowptr().last().map_or(-1, |_| m.nnz() as i64);
            r
        }
        Obj::Csc(m) => {
            let mut r = Raw::empty(Kind::Csc, m.rows(), m.cols());
            fill(&mut r, m.colptr(), m.rowidx(), &[], m.values());
            r.nnz = m.colptr().last().map_or(-1, |_| m.nnz() as i64);
            r
        }
        Obj::Dok(m) => {
            let mut e: Vec<(i64, i64, T)> = m.iter().map(|(k, v)| (un(k.0), un(k.1), *v)).collect();
            e.sort_by_key(|x| (x.0, x.1));
            dok_raw(m.rows(), m.cols(), m.nnz(), &e)
        }
        Obj::Dense(d, rows, cols) => {
            let mut r = Raw::empty(Kind::Dense, *rows, *cols);
            r.ptr = d.iter().map(|x| x.len() as i64).collect();
            let flat: Vec<T> = d.iter().flatten().copied().collect();
            fill::<I, T>(&mut r, &[], &[], &[], &flat);
            r.ptr = d.iter().map(|x| x.len() as i64).collect();
            r.nnz = flat.len() as i64;
            r
        }
        Obj::Vect(v) => {
            let mut r = Raw::empty(Kind::Vect, v.len(), 1);
            fill::<I, T>(&mut r, &[], &[], &[], v);
            r.nnz = v.len() as i64;
            r
        }
    }
}

fn dok_raw<T: Val1>(rows: usize, cols: usize, nnz: usize, e: &[(i64, i64, T)]) -> Raw {
    let mut r = Raw::empty(Kind::Dok, rows, cols);
    for x in e {
        r.idx.push(x.0);
        r.jdx.push(x.1);
        r.vals.push(x.2.g().unwrap_or_else(|| {
            r.inexact = true;
            G::Z
        }));
    }
    if r.inexact {
        r.fl = bits(&e.iter().map(|x| x.2).collect::<Vec<T>>());
    }
    r.nnz = nnz as i64;
    r
}

/// Result of the array-level routines, built without the matrix types.
fn raw_csr<I: Integer, T: Val1>(kind: Kind, rows: usize, cols: usize, p: &[I], j: &[I], x: &[T]) -> Raw {
    let mut r = Raw::empty(kind, rows, cols);
    let nnz = p.last().map_or(0, |v| v.to_usize().unwrap_or(0)).min(j.len()).min(x.len());
    fill(&mut r, p, &j[..nnz], &[], &x[..nnz]);
    r.nnz = p.last().map_or(-1, |v| un(*v));
    r
}

pub fn to_res<C: Combo>(v: Val<C>) -> (Res, Option<Obj<C::I, C::T>>) {
    match v {
        Val::Obj(Obj::Vect(v)) => (vect::<C>(&v), Some(Obj::Vect(v))),
        Val::Obj(o) => (Res::Mat(raw(&o)), Some(o)),
        Val::Re(o) => (Res::Mat(raw(&o)), None),
        Val::Raw(r) => (Res::Mat(r), None),
        Val::Vect(v) => (vect::<C>(&v), None),
        Val::Bools(b) => (Res::Bools(b), None),
        Val::Nums(n) => (Res::Nums(n), None),
        Val::Str(s) => (Res::Str(s), None),
        Val::Labels(n, l) => (Res::Labels(n, l), None),
        Val::Order(a, b) => (Res::Order(a, b), None),
        Val::Num(n, o) => (Res::NumMat(n, raw(&o)), None),
        Val::Eigs(d, z) => (Res::Eigs(d, z), None),
    }
}

fn vect<C: Combo>(v: &[C::T]) -> Res {
    let mut inexact = false;
    let g = v
        .iter()
        .map(|x| {
            x.g().unwrap_or_else(|| {
                inexact = true;
                G::Z
            })
        })
        .collect();
    Res::Vect(g, if inexact { bits(v) } else { vec![] })
}

// ---------------------------------------------------------------- literals

fn e2s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

/// Arrays (pointer, index, value) of a compressed literal.
fn compressed<I: Integer, T>(n: usize, l: &[[i64; 4]], row: bool, f: fn(G) -> T) -> (Vec<I>, Vec<I>, Vec<T>) {
    let (a, b) = if row { (0, 1) } else { (1, 0) };
    let mut s: Vec<&[i64; 4]> = l.iter().collect();
    s.sort_by_key(|e| e[a]);
    let mut p = vec![0i64; n + 1];
    for e in &s {
        p[e[a] as usize + 1] += 1;
    }
    for i in 0..n {
        p[i + 1] += p[i];
    }
    (p.iter().map(|x| ix(*x)).collect(), s.iter().map(|e| ix(e[b])).collect(), s.iter().map(|e| f(G(e[2], e[3]))).collect())
}

fn coo_arrays<I: Integer, T>(l: &[[i64; 4]], f: fn(G) -> T) -> (Vec<I>, Vec<I>, Vec<T>) {
    (l.iter().map(|e| ix(e[0])).collect(), l.iter().map(|e| ix(e[1])).collect(), l.iter().map(|e| f(G(e[2], e[3]))).collect())
}

pub fn dup<I: Integer, T: Scalar>(m: &CSC<I, T>) -> CSC<I, T> {
    CSC::new(m.rows(), m.cols(), m.rowidx().to_vec(), m.colptr().to_vec(), m.values().to_vec()).unwrap()
}

macro_rules! modes {
    ($m:expr, $x:expr, $y:expr, $dup:expr, $op:tt) => {
        match $m & 3 {
            0 => $x $op $y,
            1 => $dup($x) $op $y,
            2 => $x $op $dup($y),
            _ => $dup($x) $op $dup($y),
        }
    };
}

// --------------------------------------------------------------- execution

type O<C> = Obj<<C as Combo>::I, <C as Combo>::T>;

fn coo<C: Combo>(o: &O<C>) -> &Coo<C::I, C::T> {
    match o {
        Obj::Coo(m) => m,
        _ => panic!("workload: triplet matrix expected"),
    }
}
fn csr<C: Combo>(o: &O<C>) -> &CSR<C::I, C::T> {
    match o {
        Obj::Csr(m) => m,
        _ => panic!("workload: CSR expected"),
    }
}
fn csc<C: Combo>(o: &O<C>) -> &CSC<C::I, C::T> {
    match o {
        Obj::Csc(m) => m,
        _ => panic!("workload: CSC expected"),
    }
}
fn dok<C: Combo>(o: &O<C>) -> &DoK<C::I, C::T> {
    match o {
        Obj::Dok(m) => m,
        _ => panic!("workload: DoK expected"),
    }
}

/// What the arrays a building block is to fill hold before.
fn dirty<C: Combo>(o: &O<C>) -> (C::I, C::T) {
    let n = match o {
        Obj::Csr(m) => m.rows() + m.nnz(),
        Obj::Csc(m) => m.rows() + m.nnz(),
        Obj::Coo(m) => m.rows() + m.nnz(),
        _ => 0,
    };
    if n % 2 == 0 { (ix(1), C::t(G(99, 0))) } else { (ix(0), C::t(G::Z)) }
}

fn arrays<C: Combo>(o: &O<C>) -> (usize, usize, &[C::I], &[C::I], &[C::T]) {
    match o {
        Obj::Csr(m) => (m.rows(), m.cols(), m.rowptr(), m.colidx(), m.values()),
        Obj::Csc(m) => (m.cols(), m.rows(), m.colptr(), m.rowidx(), m.values()),
        _ => panic!("workload: compressed matrix expected"),
    }
}

/// Operations that edit their first operand.
pub fn exec_mut<C: Combo>(op: &Op, o: &mut O<C>) -> Result<(), String> {
    match (op.k, o) {
        (K::Push, Obj::Coo(m)) => {
            for e in &op.l {
                m.push(ix(e[0]), ix(e[1]), C::t(G(e[2], e[3])));
            }
        }
        (K::Extend, Obj::Coo(m)) => {
            let (i, j, v) = coo_arrays::<C::I, C::T>(&op.l, C::t);
            match op.p.first().copied().unwrap_or(0) {
                0 => m.extend(&i, &j, &v),
                1 => m.extend(&i, &j, &v[..v.len().saturating_sub(1)]),
                2 => m.extend(&i[..i.len().saturating_sub(1)], &j, &v),
                _ => m.extend(&i, &j[..j.len().saturating_sub(1)], &v),
            }
        }
        (K::SetVal, o) => {
            let v = match o {
                Obj::Coo(m) => m.values_mut(),
                Obj::Csr(m) => m.values_mut(),
                Obj::Csc(m) => m.values_mut(),
                _ => panic!("workload: no value view"),
            };
            let k = op.p[0] as usize % v.len();
            v[k] = C::t(op.v[0]);
        }
        (K::Sort, Obj::Csr(m)) => m.sort_indexes(),
        (K::Sort, Obj::Csc(m)) => m.sort_indexes(),
        (K::SumDup, Obj::Csr(m)) => m.sum_duplicates().map_err(e2s)?,
        (K::SumDup, Obj::Csc(m)) => m.sum_duplicates(),
        (K::Prune, Obj::Csc(m)) => m.prune().map_err(e2s)?,
        (K::DSet, Obj::Dok(m)) => m.set(ix(op.p[0]), ix(op.p[1]), C::t(op.v[0])).map_err(e2s)?,
        (K::DAdd, Obj::Dok(m)) => m.add(ix(op.p[0]), ix(op.p[1]), C::t(op.v[0])).map_err(e2s)?,
        (K::DSub, Obj::Dok(m)) => m.sub(ix(op.p[0]), ix(op.p[1]), C::t(op.v[0])).map_err(e2s)?,
        _ => panic!("workload: bad in-place operation"),
    }
    Ok(())
}

/// A copy of the matrix with something wrong inside that its constructor
/// does not look at.
fn malformed<C: Combo>(o: &O<C>, how: i64, at: i64) -> Result<O<C>, String> {
    let (o_rows, o_cols) = match o {
        Obj::Coo(m) => (m.rows(), m.cols()),
        Obj::Csr(m) => (m.rows(), m.cols()),
        Obj::Csc(m) => (m.rows(), m.cols()),
        _ => return Err("workload: nothing to spoil".into()),
    };
    let top = |n: usize, d: i64| {
        let n = n as i64;
        [n + d, n, n - 1, 0].iter().find_map(|v| <C::I as NumCast>::from(*v)).unwrap()
    };
    let at = at as usize;
    if let Obj::Coo(m) = o {
        let (mut i, mut j, v) = (m.rowidx().to_vec(), m.colidx().to_vec(), m.values().to_vec());
        let n = i.len();
        if n > 0 {
            for k in 0..if how % 3 == 2 { n.min(3) } else { 1 } {
                if how % 2 == 0 { i[(at + k) % n] = top(o_rows, k as i64) } else { j[(at + k) % n] = top(o_cols, k as i64) }
            }
        }
        return Ok(Obj::Coo(Coo::new(o_rows, o_cols, i, j, v).map_err(e2s)?));
    }
    let (_, minor, p, j, x) = arrays::<C>(o);
    let (mut p, mut j, x) = (p.to_vec(), j.to_vec(), x.to_vec());
    let (n, m) = (j.len(), p.len() - 1);
    match how {
        0 | 1 if n > 0 => j[at % n] = top(minor, how),
        2 if n > 0 => (0..n.min(4)).for_each(|k| j[(at + k) % n] = top(minor, k as i64)),
        3 if m > 1 => p[1 + at % (m - 1)] = top(n, 0),
        4 if m > 1 => p[1 + at % (m - 1)] = ix(0),
        5 => p[m] = top(n, 1 + at as i64 % 3),
        6 if n > 0 => p[0] = ix(1),
        _ => {}
    }
    Ok(if matches!(o, Obj::Csr(_)) {
        Obj::Csr(CSR::new(o_rows, o_cols, p, j, x).map_err(e2s)?)
    } else {
        Obj::Csc(CSC::new(o_rows, o_cols, j, p, x).map_err(e2s)?)
    })
}

/// The second operand of a product, unscaled.
fn plain<C: Combo>(o: &O<C>) -> Result<O<C>, String> {
    let v = |x: &[C::T]| x.iter().map(|x| C::t1(x.g().unwrap_or(G::Z))).collect::<Vec<_>>();
    Ok(match o {
        Obj::Csr(m) => Obj::Csr(CSR::new(m.rows(), m.cols(), m.rowptr().to_vec(), m.colidx().to_vec(), v(m.values())).map_err(e2s)?),
        Obj::Csc(m) => Obj::Csc(CSC::new(m.rows(), m.cols(), m.rowidx().to_vec(), m.colptr().to_vec(), v(m.values())).map_err(e2s)?),
        _ => return Err("workload: product".into()),
    })
}

pub fn exec<C: Combo>(op: &Op, a: &[&O<C>]) -> R<C> {
    let product = match op.k {
        K::MatMul | K::MulCscCsr | K::KMm => true,
        K::KBin => matches!(op.p[0], 6 | 7),
        _ => false,
    };
    if product && simrt::unit().0 != 1.0 {
        return exec1::<C>(op, &[a[0], &plain::<C>(a[1])?]);
    }
    exec1::<C>(op, a)
}

fn exec1<C: Combo>(op: &Op, a: &[&O<C>]) -> R<C> {
    let obj = |o: O<C>| Ok(Val::Obj(o));
    let f = C::t;
    let p = &op.p;
    match op.k {
        // -------------------------------------------- constructors
        K::CooNew => {
            let (mut i, mut j, mut v) = coo_arrays::<C::I, C::T>(&op.l, f);
            match p[2] {
                0 => {}
                1 => i.push(ix(0)),
                2 => j.push(ix(0)),
                _ => v.push(f(G(1, 0))),
            }
            obj(Obj::Coo(Coo::new(p[0] as usize, p[1] as usize, i, j, v).map_err(e2s)?))
        }
        K::CsrNew | K::CscNew => {
            let row = op.k == K::CsrNew;
            let (r, c) = (p[0] as usize, p[1] as usize);
            let (mut q, mut j, mut x) = compressed::<C::I, C::T>(if row { r } else { c }, &op.l, row, f);
            for k in 0..p[2] {
                j.push(ix(0));
                x.push(f(G(41 + k, 0)));
            }
            match if op.l.is_empty() && p[3] > 2 { 1 } else { p[3] } {
                0 => {}
                1 => {
                    q.pop();
                }
                2 => q.push(*q.last().unwrap()),
                3 => j.truncate(op.l.len() - 1),
                _ => x.truncate(op.l.len() - 1),
            }
            if row {
                obj(Obj::Csr(CSR::new(r, c, q, j, x).map_err(e2s)?))
            } else {
                obj(Obj::Csc(CSC::new(r, c, j, q, x).map_err(e2s)?))
            }
        }
        K::FromDense => {
            let (r, c) = (p[0] as usize, p[1] as usize);
            let mut d = vec![vec![f(G::Z); c]; r];
            for ((i, j), v) in cells(&op.lit()) {
                d[i][j] = f(v);
            }
            match p.get(3).copied().unwrap_or(0) {
                0 => {}
                1 => {
                    let x = d[0].last().copied().unwrap_or(f(G(1, 0)));
                    d[p[4] as usize].push(x)
                }
                _ => {
                    d[p[4] as usize].pop();
                }
            }
            match p[2] {
                0 => obj(Obj::Coo(Coo::from_dense(&d))),
                1 => obj(Obj::Csr(CSR::from_dense(&d))),
                2 => obj(Obj::Csc(CSC::from_dense(&d))),
                _ => {
                    let s: Vec<&[C::T]> = d.iter().map(|x| &x[..]).collect();
                    obj(Obj::Dok(DoK::from_dense(&s)))
                }
            }
        }
        K::Diag => {
            let v: Vec<C::T> = op.v.iter().map(|g| f(*g)).collect();
            match p[0] {
                0 => obj(Obj::Coo(Coo::with_diagonal(&v))),
                1 => obj(Obj::Csr(CSR::with_diagonal(v))),
                _ => obj(Obj::Csc(CSC::with_diagonal(v))),
            }
        }
        K::Ident => obj(Obj::Coo(Coo::identity(p[0] as usize))),
        K::CooSize => obj(Obj::Coo(if p[2] < 0 {
            Coo::with_size(p[0] as usize, p[1] as usize)
        } else {
            Coo::with_capacity(p[0] as usize, p[1] as usize, p[2] as usize)
        })),
        K::CsrSize => obj(Obj::Csr(CSR::with_size(p[0] as usize, p[1] as usize))),
        K::DokNew => {
            let (r, c) = (p[0] as usize, p[1] as usize);
            let mut m = if p[2] < 0 { DoK::new(r, c) } else { DoK::with_capacity(r, c, p[2] as usize) };
            for e in &op.l {
                m.set(ix(e[0]), ix(e[1]), f(G(e[2], e[3]))).map_err(e2s)?;
            }
            obj(Obj::Dok(m))
        }
        K::MakeVec => obj(Obj::Vect(op.v.iter().map(|g| f(*g)).collect())),
        K::Clone => match a[0] {
            Obj::Coo(m) => obj(Obj::Coo(m.clone())),
            Obj::Csr(m) => obj(Obj::Csr(m.clone())),
            _ => panic!("workload: clone"),
        },
        // -------------------------------------------- conversion
        K::Conv => match (a[0], p[0]) {
            (Obj::Coo(m), 1) => obj(Obj::Csr(m.to_csr())),
            (Obj::Coo(m), 2) => obj(Obj::Csc(m.to_csc())),
            (Obj::Coo(m), 4) => obj(Obj::Dense(m.to_dense(), m.rows(), m.cols())),
            (Obj::Csr(m), 0) => obj(Obj::Coo(m.to_coo())),
            (Obj::Csr(m), 2) => obj(Obj::Csc(m.to_csc())),
            (Obj::Csc(m), 0) => obj(Obj::Coo(m.to_coo())),
            (Obj::Csc(m), 1) => obj(Obj::Csr(m.to_csr())),
            (Obj::Csc(m), 4) => obj(Obj::Dense(m.to_dense(), m.rows(), m.cols())),
            (Obj::Dok(m), 0) => obj(Obj::Coo(m.to_coo())),
            (Obj::Dok(m), 1) => obj(Obj::Csr(m.to_csr())),
            (Obj::Dok(m), 2) => obj(Obj::Csc(m.to_csc())),
            (Obj::Dok(m), 4) => obj(Obj::Dense(m.to_dense(), m.rows(), m.cols())),
            _ => panic!("workload: conversion"),
        },
        K::Transpose => match a[0] {
            Obj::Coo(m) => obj(Obj::Coo(m.clone().transpose())),
            Obj::Csr(m) => obj(Obj::Csc(m.clone().transpose())),
            Obj::Csc(m) => obj(Obj::Csr(m.transpose())),
            _ => panic!("workload: transpose"),
        },
        K::T => match a[0] {
            Obj::Coo(m) => obj(Obj::Coo(m.t())),
            Obj::Csr(m) => obj(Obj::Csc(m.t())),
            Obj::Csc(m) => obj(Obj::Csr(m.t())),
            _ => panic!("workload: transpose"),
        },
        K::Shape => {
            let (r, c, n) = match a[0] {
                Obj::Coo(m) => (m.rows(), m.cols(), m.nnz()),
                Obj::Csr(m) => (m.rows(), m.cols(), m.nnz()),
                Obj::Csc(m) => {
                    let s = m.shape();
                    (s.0, s.1, m.nnz())
                }
                _ => panic!("workload: shape"),
            };
            Ok(Val::Nums(vec![r as i64, c as i64, n as i64]))
        }
        K::Pred => Ok(Val::Bools(match a[0] {
            Obj::Csr(m) => vec![m.has_canonical_format(), m.has_sorted_indexes()],
            Obj::Csc(m) => vec![m.has_canonical_format(), m.has_sorted_indexes()],
            _ => panic!("workload: predicate"),
        })),
        // -------------------------------------------- arithmetic
        K::Neg => match a[0] {
            Obj::Coo(m) => obj(Obj::Coo(-m.clone())),
            Obj::Csr(m) => obj(Obj::Csr(-m.clone())),
            Obj::Csc(m) => obj(Obj::Csc(-dup(m))),
            _ => panic!("workload: neg"),
        },
        K::Add | K::Sub => match (a[0], a[1]) {
            (Obj::Coo(x), Obj::Coo(y)) => obj(Obj::Csr(modes!(p[0], x, y, Coo::clone, +))),
            (Obj::Csr(x), Obj::Csr(y)) if op.k == K::Add => obj(Obj::Csr(modes!(p[0], x, y, CSR::clone, +))),
            (Obj::Csr(x), Obj::Csr(y)) => obj(Obj::Csr(modes!(p[0], x, y, CSR::clone, -))),
            (Obj::Csc(x), Obj::Csc(y)) if p[1] == 1 && op.k == K::Add => obj(Obj::Csc(CSC::add(x, y).map_err(e2s)?)),
            (Obj::Csc(x), Obj::Csc(y)) if p[1] == 1 => obj(Obj::Csc(x.subtract(y).map_err(e2s)?)),
            (Obj::Csc(x), Obj::Csc(y)) if op.k == K::Add => obj(Obj::Csc(modes!(p[0], x, y, dup, +))),
            (Obj::Csc(x), Obj::Csc(y)) => obj(Obj::Csc(modes!(p[0], x, y, dup, -))),
            _ => panic!("workload: add"),
        },
        K::MatVec => {
            let x: Vec<C::T> = op.v.iter().map(|g| C::t1(*g)).collect();
            let y = match (a[0], p[0]) {
                (Obj::Csr(m), 0) => m.mat_vec(&x).map_err(e2s)?,
                (Obj::Csr(m), 1) => m * &x[..],
                (Obj::Csr(m), 2) => m * &x,
                (Obj::Csr(m), 3) => m.clone() * &x[..],
                (Obj::Csr(m), _) => m.clone() * &x,
                (Obj::Csc(m), 0) => m.mat_vec(&x).map_err(e2s)?,
                (Obj::Csc(m), 1) => m * &x[..],
                (Obj::Csc(m), 2) => m * &x,
                (Obj::Csc(m), 3) => dup(m) * &x[..],
                (Obj::Csc(m), _) => dup(m) * &x,
                _ => panic!("workload: mat_vec"),
            };
            obj(Obj::Vect(y))
        }
        K::MatMul => match (a[0], a[1]) {
            (Obj::Csr(x), Obj::Csr(y)) if p[0] == 0 => obj(Obj::Csr(x.mat_mat(y).map_err(e2s)?)),
            (Obj::Csr(x), Obj::Csr(y)) => obj(Obj::Csr(modes!(p[0], x, y, CSR::clone, *))),
            (Obj::Csc(x), Obj::Csc(y)) if p[0] == 0 => obj(Obj::Csc(x.mat_mat(y).map_err(e2s)?)),
            (Obj::Csc(x), Obj::Csc(y)) => obj(Obj::Csc(modes!(p[0], x, y, dup, *))),
            _ => panic!("workload: mat_mat"),
        },
        K::MulCscCsr => {
            let (x, y) = (csc::<C>(a[0]), csr::<C>(a[1]));
            obj(Obj::Csc(match p.first().copied().unwrap_or(0) & 3 {
                0 => x * y,
                1 => dup(x) * y,
                2 => x * y.clone(),
                _ => dup(x) * y.clone(),
            }))
        }
        K::Scale => {
            let s = C::t1(op.v[0]);
            match a[0] {
                Obj::Csr(m) if p[0] == 0 => obj(Obj::Csr(m * s)),
                Obj::Csr(m) => obj(Obj::Csr(m.clone() * s)),
                Obj::Csc(m) if p[0] == 0 => obj(Obj::Csc(m * s)),
                Obj::Csc(m) => obj(Obj::Csc(dup(m) * s)),
                _ => panic!("workload: scale"),
            }
        }
        K::LScale => C::lscale(op.v[0], a[0], p[0]),
        // -------------------------------------------- selection
        K::Select => {
            let (r, c) = oracle::select_lists(p);
            let g = |v: Option<Vec<i64>>| v.map(|v| v.iter().map(|x| ix(*x)).collect::<Vec<C::I>>());
            let (r, c) = (g(r), g(c));
            match a[0] {
                Obj::Csr(m) => obj(Obj::Csr(m.select(r.as_deref(), c.as_deref()).map_err(e2s)?)),
                Obj::Csc(m) => obj(Obj::Csc(m.select(r.as_deref(), c.as_deref()).map_err(e2s)?)),
                _ => panic!("workload: select"),
            }
        }
        K::Get => Ok(Val::Vect(vec![csr::<C>(a[0]).get(ix(p[0]), ix(p[1]))])),
        K::Diagonal => Ok(Val::Vect(match a[0] {
            Obj::Coo(m) => m.diagonal(),
            Obj::Csr(m) => m.diagonal(),
            Obj::Csc(m) => m.diagonal(),
            _ => panic!("workload: diagonal"),
        })),
        K::Upper => obj(Obj::Coo(coo::<C>(a[0]).upper(ix(p[0])))),
        // -------------------------------------------- stacking
        K::Stack => {
            let m: Vec<&Coo<C::I, C::T>> = a.iter().map(|x| coo::<C>(x)).collect();
            obj(Obj::Coo(
                match (p[0], m.len()) {
                    (0, 2) => Coo::h_stack(m[0], m[1]),
                    (0, _) => Coo::h_stack3(m[0], m[1], m[2]),
                    (_, 2) => Coo::v_stack(m[0], m[1]),
                    _ => Coo::v_stack3(m[0], m[1], m[2]),
                }
                .map_err(e2s)?,
            ))
        }
        K::CsrHStack => obj(Obj::Csr(CSR::h_stack(csr::<C>(a[0]), csr::<C>(a[1])).map_err(e2s)?)),
        K::Compose => {
            let m: Vec<&Coo<C::I, C::T>> = a.iter().map(|x| coo::<C>(x)).collect();
            obj(Obj::Coo(Coo::compose([[m[0], m[1]], [m[2], m[3]]]).map_err(e2s)?))
        }
        K::Compose3 => {
            let m: Vec<&Coo<C::I, C::T>> = a.iter().map(|x| coo::<C>(x)).collect();
            obj(Obj::Coo(Coo::compose3([[m[0], m[1], m[2]], [m[3], m[4], m[5]], [m[6], m[7], m[8]]]).map_err(e2s)?))
        }
        K::CscCompose => {
            let m: Vec<&CSC<C::I, C::T>> = a.iter().map(|x| csc::<C>(x)).collect();
            obj(Obj::Csc(CSC::compose(m[0], m[1], m[2], m[3]).map_err(e2s)?))
        }
        // -------------------------------------------- text
        K::ToString => Ok(Val::Str(match a[0] {
            Obj::Coo(m) => m.to_string(),
            Obj::Csr(m) => m.to_string(),
            Obj::Csc(m) => m.to_string(),
            Obj::Dok(m) => m.to_string(),
            _ => panic!("workload: text"),
        })),
        K::Table => Ok(Val::Str(csr::<C>(a[0]).to_table())),
        // -------------------------------------------- dictionary of keys
        K::DGet => Ok(Val::Vect(vec![dok::<C>(a[0]).get(ix(p[0]), ix(p[1]))])),
        K::DNnz => {
            let m = dok::<C>(a[0]);
            Ok(Val::Nums(vec![m.rows() as i64, m.cols() as i64, m.nnz() as i64, m.len() as i64, m.is_empty() as i64]))
        }
        K::DIter => {
            let m = dok::<C>(a[0]);
            let mut e: Vec<(i64, i64, C::T)> = m.iter().map(|(k, v)| (un(k.0), un(k.1), *v)).collect();
            e.sort_by_key(|x| (x.0, x.1));
            Ok(Val::Raw(dok_raw(m.rows(), m.cols(), m.nnz(), &e)))
        }
        // -------------------------------------------- graph
        K::GCc => {
            let c = if p[1] != 0 { Connection::Strong } else { Connection::Weak };
            let (n, l) = connected_components(csr::<C>(a[0]), p[0] != 0, c).map_err(e2s)?;
            Ok(Val::Labels(n as i64, l.iter().map(|x| *x as i64).collect()))
        }
        K::GFlag => {
            let m = csr::<C>(a[0]);
            Ok(match p.first() {
                Some(1) if m.rows() <= 127 => {
                    let (n, l) = m.connected_components::<i8>().map_err(e2s)?;
                    Val::Labels(un(n), l.iter().map(|x| *x as i64).collect())
                }
                Some(1) | Some(2) => {
                    let (n, l) = m.connected_components::<i128>().map_err(e2s)?;
                    Val::Labels(un(n), l.iter().map(|x| *x as i64).collect())
                }
                // the flags hold something already
                Some(3) if m.rows() == m.cols() => {
                    let mut l: Vec<i64> = (0..m.rows() as i64).map(|k| k % 5 - 2).collect();
                    let n = cs_graph_components::<C::I, C::T, i64>(m.rows(), m.rowptr(), m.colidx(), &mut l).map_err(e2s)?;
                    Val::Labels(un(n), l)
                }
                _ => {
                    let (n, l) = m.connected_components::<i32>().map_err(e2s)?;
                    Val::Labels(un(n), l.iter().map(|x| *x as i64).collect())
                }
            })
        }
        K::GDfs => {
            let (o, q) = depth_first_order(csr::<C>(a[0]), p[0] as usize, p[1] != 0).map_err(e2s)?;
            Ok(Val::Order(o.iter().map(|x| *x as i64).collect(), q.iter().map(|x| x.map_or(-1, |y| y as i64)).collect()))
        }
        // -------------------------------------------- complex
        K::CReal | K::CImag | K::CConj | K::CH => C::cplx(op, a[0]),
        K::CWithReal | K::CWithImag => {
            let (q, j, x) = compressed::<C::I, C::R>(p[0] as usize, &op.l, true, C::r);
            let m = CSR::new(p[0] as usize, p[1] as usize, q, j, x).map_err(e2s)?;
            obj(Obj::Csr(C::with(m, op.k == K::CWithReal)))
        }
        // -------------------------------------------- kernels
        K::KBin => {
            // the output arrays hold something already, every now and then
            let (was, wasv) = dirty::<C>(a[0]);
            let (x, y) = (csr::<C>(a[0]), csr::<C>(a[1]));
            let n = x.nnz() + y.nnz() + p[2] as usize;
            let mut cp = vec![was; x.rows() + 1];
            let mut cj = vec![was; n];
            let mut ct = vec![wasv; n];
            let mut cb = vec![wasv != f(G::Z); n];
            macro_rules! call {
                ($fun:ident, $c:expr) => {{
                    $fun(x.rows(), x.cols(), x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut cp, &mut cj, &mut $c);
                    Ok(Val::Raw(raw_csr(Kind::Csr, x.rows(), x.cols(), &cp, &cj, &$c)))
                }};
            }
            macro_rules! path {
                ($c:expr, $op:expr) => {{
                    let o: Binop<C::T, _> = $op;
                    if p[1] == 1 {
                        csr_binop_csr_canonical(x.rows(), x.cols(), x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut cp, &mut cj, &mut $c, o);
                    } else {
                        csr_binop_csr_general(x.rows(), x.cols(), x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut cp, &mut cj, &mut $c, o);
                    }
                    Ok(Val::Raw(raw_csr(Kind::Csr, x.rows(), x.cols(), &cp, &cj, &$c)))
                }};
            }
            match (p[0], p[1]) {
                (0, 0) => call!(csr_ne_csr, cb),
                (1, 0) => call!(csr_eq_csr, cb),
                (6, 0) => call!(csr_mul_csr, ct),
                (7, 0) => call!(csr_div_csr, ct),
                (8, 0) => call!(csr_add_csr, ct),
                (9, 0) => call!(csr_sub_csr, ct),
                (0, _) => path!(cb, |a, b| a != b),
                (1, _) => path!(cb, |a, b| a == b),
                (6, _) => path!(ct, |a, b| a * b),
                (7, _) => path!(ct, |a, b| a / b),
                (8, _) => path!(ct, |a, b| a + b),
                (9, _) => path!(ct, |a, b| a - b),
                _ => C::ord(op, x, y, n).map(Val::Raw),
            }
        }
        K::KMv => {
            let nv = p[0].max(1) as usize;
            let v: Vec<C::T> = op.v.iter().map(|g| f(*g)).collect();
            let (rows, cols) = match a[0] {
                Obj::Csr(m) => (m.rows(), m.cols()),
                Obj::Csc(m) => (m.rows(), m.cols()),
                Obj::Coo(m) => (m.rows(), m.cols()),
                _ => panic!("workload: kernel mat_vec"),
            };
            let x: Vec<C::T> = op.v[..cols * nv].iter().map(|g| C::t1(*g)).collect();
            let mut y = v[cols * nv..].to_vec();
            match a[0] {
                Obj::Csr(m) if p[0] == 0 => csr_matvec(rows, cols, m.rowptr(), m.colidx(), m.values(), &x, &mut y),
                Obj::Csr(m) => csr_matvecs(rows, cols, nv, m.rowptr(), m.colidx(), m.values(), &x, &mut y),
                Obj::Csc(m) if p[0] == 0 => csc_matvec(rows, cols, m.colptr(), m.rowidx(), m.values(), &x, &mut y),
                Obj::Csc(m) => csc_matvecs(rows, cols, nv, m.colptr(), m.rowidx(), m.values(), &x, &mut y),
                Obj::Coo(m) => coo_matvec(m.nnz(), m.rowidx(), m.colidx(), m.values(), &x, &mut y),
                _ => {}
            }
            Ok(Val::Vect(y))
        }
        K::KScale => {
            let m = csr::<C>(a[0]);
            let v: Vec<C::T> = op.v.iter().map(|g| C::t1(*g)).collect();
            let mut x = m.values().to_vec();
            if p[0] == 0 {
                csr_scale_rows(m.rows(), m.cols(), m.rowptr(), m.colidx(), &mut x, &v);
            } else {
                csr_scale_columns(m.rows(), m.cols(), m.rowptr(), m.colidx(), &mut x, &v);
            }
            Ok(Val::Raw(raw_csr(Kind::Csr, m.rows(), m.cols(), m.rowptr(), m.colidx(), &x)))
        }
        K::KElim | K::KSum | K::KSort => {
            let m = csr::<C>(a[0]);
            let (mut q, mut j, mut x) = (m.rowptr().to_vec(), m.colidx().to_vec(), m.values().to_vec());
            match op.k {
                K::KElim => csr_eliminate_zeros(m.rows(), m.cols(), &mut q, &mut j, &mut x),
                K::KSum => csr_sum_duplicates(m.rows(), m.cols(), &mut q, &mut j, &mut x),
                _ => csr_sort_indices(m.rows(), &q, &mut j, &mut x),
            }
            Ok(Val::Raw(raw_csr(Kind::Csr, m.rows(), m.cols(), &q, &j, &x)))
        }
        K::KPred => {
            let (n, _, q, j, _) = arrays::<C>(a[0]);
            Ok(Val::Bools(vec![csr_has_canonical_format(n, q, j), csr_has_sorted_indices(n, q, j)]))
        }
        K::KTocsc => {
            let (n, m, q, j, x) = arrays::<C>(a[0]);
            let (was, wasv) = dirty::<C>(a[0]);
            let mut bp = vec![was; m + 1];
            let mut bi = vec![was; j.len()];
            let mut bx = vec![wasv; j.len()];
            if let Obj::Csr(_) = a[0] {
                csr_tocsc(n, m, q, j, x, &mut bp, &mut bi, &mut bx);
                Ok(Val::Raw(raw_csr(Kind::Csc, n, m, &bp, &bi, &bx)))
            } else {
                csc_tocsr(m, n, q, j, x, &mut bp, &mut bi, &mut bx);
                Ok(Val::Raw(raw_csr(Kind::Csr, m, n, &bp, &bi, &bx)))
            }
        }
        K::KDense => {
            let v: Vec<C::T> = op.v.iter().map(|g| f(*g)).collect();
            match a[0] {
                Obj::Csr(m) => {
                    let mut d: Vec<Vec<C::T>> = if m.cols() == 0 { vec![vec![]; m.rows()] } else { v.chunks(m.cols()).map(|c| c.to_vec()).collect() };
                    csr_todense(m.rows(), m.cols(), m.rowptr(), m.colidx(), m.values(), &mut d);
                    Ok(Val::Vect(d.concat()))
                }
                Obj::Coo(m) => {
                    let mut d = v;
                    coo_todense(m.rows(), m.cols(), m.nnz(), m.rowidx(), m.colidx(), m.values(), &mut d, p[0] != 0);
                    Ok(Val::Vect(d))
                }
                _ => panic!("workload: kernel dense"),
            }
        }
        K::KMm => {
            let (was, wasv) = dirty::<C>(a[0]);
            match (a[0], a[1]) {
            (Obj::Csr(x), Obj::Csr(y)) => {
                let (r, c) = (x.rows(), y.cols());
                let n = csr_matmat_maxnnz(r, c, x.rowptr(), x.colidx(), y.rowptr(), y.colidx());
                let (mut q, mut j, mut v) = (vec![was; r + 1], vec![was; n], vec![wasv; n]);
                csr_matmat(r, c, x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut q, &mut j, &mut v);
                num_csr::<C>(n, Kind::Csr, r, c, q, j, v)
            }
            (Obj::Csc(x), Obj::Csc(y)) => {
                let (r, c) = (x.rows(), y.cols());
                let n = csc_matmat_maxnnz(r, c, x.colptr(), x.rowidx(), y.colptr(), y.rowidx());
                let (mut q, mut j, mut v) = (vec![was; c + 1], vec![was; n], vec![wasv; n]);
                csc_matmat(r, c, x.colptr(), x.rowidx(), x.values(), y.colptr(), y.rowidx(), y.values(), &mut q, &mut j, &mut v);
                num_csr::<C>(n, Kind::Csc, r, c, q, j, v)
            }
            _ => panic!("workload: kernel mat_mat"),
            }
        }
        K::KDiag => {
            let k = p[0];
            let (rows, cols) = match a[0] {
                Obj::Csr(m) => (m.rows(), m.cols()),
                Obj::Csc(m) => (m.rows(), m.cols()),
                _ => panic!("workload: kernel diagonal"),
            };
            let (fr, fc) = if k >= 0 { (0, k as usize) } else { ((-k) as usize, 0) };
            let mut y = vec![f(G(99, 0)); rows.saturating_sub(fr).min(cols.saturating_sub(fc))];
            match a[0] {
                Obj::Csr(m) => csr_diagonal(k as isize, rows, cols, m.rowptr(), m.colidx(), m.values(), &mut y),
                Obj::Csc(m) => csc_diagonal(k as isize, rows, cols, m.colptr(), m.rowidx(), m.values(), &mut y),
                _ => {}
            }
            Ok(Val::Vect(y))
        }
        K::KSelect => {
            let m = csr::<C>(a[0]);
            let (rs, cs) = oracle::select_lists(p);
            let full = |l: Option<Vec<i64>>, n: usize| -> Vec<C::I> { l.unwrap_or_else(|| (0..n as i64).collect()).iter().map(|x| ix(*x)).collect() };
            let (rs, cs) = (full(rs, m.rows()), full(cs, m.cols()));
            let d = m.nnz() % 3;
            let (mut q, mut j, mut x) = (vec![ix::<C::I>(1); d * 4], vec![ix::<C::I>(1); d * 9], vec![f(G(9, 0)); d * 9]);
            csr_select(m.rows(), m.cols(), m.rowptr(), m.colidx(), m.values(), &rs, &cs, &mut q, &mut j, &mut x);
            let mut r = raw_csr(Kind::Csr, rs.len(), cs.len(), &q, &j, &x);
            if j.len() as i64 != r.nnz {
                r.idx.resize(j.len(), 0);
            }
            Ok(Val::Raw(r))
        }
        K::KSub => {
            let m = csr::<C>(a[0]);
            let d = m.nnz() % 3;
            let (mut q, mut j, mut x) = (vec![ix::<C::I>(1); d * 4], vec![ix::<C::I>(1); d * 9], vec![f(G(9, 0)); d * 9]);
            get_csr_submatrix(m.rows(), m.cols(), m.rowptr(), m.colidx(), m.values(), ix(p[0]), ix(p[1]), ix(p[2]), ix(p[3]), &mut q, &mut j, &mut x);
            let mut r = raw_csr(Kind::Csr, (p[1] - p[0]) as usize, (p[3] - p[2]) as usize, &q, &j, &x);
            if j.len() as i64 != r.nnz {
                r.idx.resize(j.len(), 0);
            }
            Ok(Val::Raw(r))
        }
        K::KRowIdx | K::KRowSl => {
            let m = csr::<C>(a[0]);
            let (mut j, mut x) = (vec![], vec![]);
            if op.k == K::KRowIdx {
                let rows: Vec<usize> = p.iter().map(|x| *x as usize).collect();
                csr_row_index(rows.len(), &rows, m.rowptr(), m.colidx(), m.values(), &mut j, &mut x);
            } else {
                csr_row_slice(p[0] as usize, p[1] as usize, p[2] as usize, m.rowptr(), m.colidx(), m.values(), &mut j, &mut x);
            }
            let mut r = Raw::empty(Kind::Vect, 0, 0);
            fill(&mut r, &[], &j, &[], &x);
            Ok(Val::Raw(r))
        }
        K::KColIdx => {
            let m = csr::<C>(a[0]);
            let cols: Vec<usize> = p.iter().map(|x| *x as usize).collect();
            let mut off = vec![ix::<C::I>(0); m.cols()];
            let (was, wasv) = dirty::<C>(a[0]);
            let mut bp = vec![was; m.rows() + 1];
            csr_column_index1(cols.len(), &cols, m.rows(), m.cols(), m.rowptr(), m.colidx(), &mut off, &mut bp);
            let nnz = bp[m.rows()].to_usize().unwrap();
            let mut ord: Vec<usize> = (0..cols.len()).collect();
            ord.sort_by_key(|k| cols[*k]);
            let ord: Vec<C::I> = ord.iter().map(|k| ix(*k as i64)).collect();
            let mut bj = vec![was; nnz];
            let mut bx = vec![wasv; nnz];
            csr_column_index2(&ord, &off, m.nnz(), m.colidx(), m.values(), &mut bj, &mut bx);
            Ok(Val::Raw(raw_csr(Kind::Csr, m.rows(), cols.len(), &bp, &bj, &bx)))
        }
        K::KCount => {
            let m = csr::<C>(a[0]);
            Ok(Val::Nums(vec![csr_count_diagonals(m.rows(), m.rowptr(), m.colidx()) as i64]))
        }
        K::KTocoo => {
            let m = csr::<C>(a[0]);
            let n = m.nnz();
            let mut r = Raw::empty(Kind::Coo, m.rows(), m.cols());
            r.nnz = n as i64;
            let (was, wasv) = dirty::<C>(a[0]);
            let mut i = vec![was; n];
            if p[0] == 0 {
                expandptr(m.rows(), m.rowptr(), &mut i);
                fill(&mut r, &[], &i, m.colidx(), m.values());
            } else {
                let (mut j, mut x) = (vec![was; n], vec![wasv; n]);
                csr_tocoo(m.rows(), m.cols(), m.rowptr(), m.colidx(), m.values(), &mut i, &mut j, &mut x);
                fill(&mut r, &[], &i, &j, &x);
            }
            Ok(Val::Raw(r))
        }
        K::KCooTocsr => {
            let m = coo::<C>(a[0]);
            let n = m.nnz();
            let (was, wasv) = dirty::<C>(a[0]);
            let (mut q, mut j, mut x) = (vec![was; m.rows() + 1], vec![was; n], vec![wasv; n]);
            coo_tocsr(m.rows(), m.cols(), n, m.rowidx(), m.colidx(), m.values(), &mut q, &mut j, &mut x);
            Ok(Val::Raw(raw_csr(Kind::Csr, m.rows(), m.cols(), &q, &j, &x)))
        }
        K::Broken => {
            let inner = op.inner();
            let w = op.p[0] as usize;
            let mut bad = malformed::<C>(a[w], op.p[1], op.p[2])?;
            if inner.mutates() {
                exec_mut::<C>(&inner, &mut bad)?;
            } else {
                let mut b: Vec<&O<C>> = a.to_vec();
                b[w] = &bad;
                exec::<C>(&inner, &b)?;
            }
            Ok(Val::Bools(vec![]))
        }
        K::Eigs => C::eigs(op, a[0]),
        _ => panic!("workload: operation {:?}", op.k),
    }
}

fn num_csr<C: Combo>(n: usize, kind: Kind, rows: usize, cols: usize, p: Vec<C::I>, j: Vec<C::I>, x: Vec<C::T>) -> R<C> {
    let nnz = p.last().map_or(0, |v| v.to_usize().unwrap_or(0)).min(n);
    let (j, x) = (j[..nnz].to_vec(), x[..nnz].to_vec());
    let o = if kind == Kind::Csr { Obj::Csr(CSR::new(rows, cols, p, j, x).map_err(e2s)?) } else { Obj::Csc(CSC::new(rows, cols, j, p, x).map_err(e2s)?) };
    Ok(Val::Num(n as i64, o))
}
