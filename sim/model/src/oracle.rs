//! The reference model: what an operation must return and leave behind, given
//! the arrays of its operands, and the comparison with what it did.
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Ent = (usize, usize, G);
pub type Cells = BTreeMap<(usize, usize), G>;

#[derive(Clone, Debug)]
pub enum Pat {
    /// exactly these entries, in this storage order
    Seq(Vec<Ent>),
    /// exactly these entries, any order (sorted: index order within row/column)
    Multi(Vec<Ent>, bool),
    /// sorted, no repeated coordinate; a zero may be stored only where the source stored something
    Canon(BTreeSet<(usize, usize)>),
    /// no repeated coordinate, no stored zero (sorted if true)
    NoZero(bool),
    /// only the matrix represented counts; nothing stored outside these coordinates
    Within(BTreeSet<(usize, usize)>),
}

#[derive(Clone, Debug)]
pub struct MatExp {
    pub kind: Kind,
    pub rows: usize,
    pub cols: usize,
    pub cells: Cells,
    pub pat: Pat,
}

#[derive(Clone, Debug)]
pub enum Want {
    /// outside the property's preconditions: not run
    Skip,
    /// must be refused; true: with an error
    Refuse(bool),
    /// anything goes as long as nothing else is disturbed
    Any,
    Unit,
    Mat(MatExp),
    Exact(Raw),
    NumMat(i64, MatExp),
    Vect(Vec<G>),
    Bools(Vec<bool>),
    Nums(Vec<i64>),
    /// entries, in this order, mantissa bits of the values (0: integers)
    Text(Vec<Ent>, bool, u32),
    Table(usize, usize, Vec<Ent>, u32),
    Comp { n: usize, edges: Vec<(usize, usize)>, strong: bool },
    Flag { n: usize, edges: Vec<(usize, usize)> },
    Dfs { n: usize, edges: Vec<(usize, usize)>, start: usize, directed: bool },
    Eigs { nev: usize, a: Raw, spectrum: Vec<G> },
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub ret: Want,
    pub post: Option<MatExp>,
    /// instead, a result that need only be right up to rounding
    pub near: Option<Box<Near>>,
}

/// Exact value (in the workload's unit), sum of the magnitudes of the terms
/// it is made of, number of rounding steps any order of summation may take.
#[derive(Clone, Copy, Debug, Default)]
pub struct N {
    v: [i128; 2],
    abs: f64,
    n: u64,
}

impl N {
    fn add(&mut self, g: G) {
        self.v[0] += g.0 as i128;
        self.v[1] += g.1 as i128;
        self.abs += g.0.unsigned_abs() as f64 + g.1.unsigned_abs() as f64;
        self.n += 1;
    }
    fn mul(&mut self, a: G, b: G) {
        let m = |x: i64, y: i64| x as i128 * y as i128;
        self.v[0] += m(a.0, b.0) - m(a.1, b.1);
        self.v[1] += m(a.0, b.1) + m(a.1, b.0);
        let l = |g: G| g.0.unsigned_abs() as f64 + g.1.unsigned_abs() as f64;
        self.abs += l(a) * l(b);
        self.n += 3;
    }
}

#[derive(Clone, Debug)]
pub struct Near {
    kind: Kind,
    rows: usize,
    cols: usize,
    cells: BTreeMap<(usize, usize), N>,
    pat: Pat,
    /// predicted number of entries
    num: Option<i64>,
    /// the operand itself is changed
    place: bool,
    exact: u32,
}

impl From<Near> for Exp {
    fn from(n: Near) -> Exp {
        Exp { ret: if n.place { Want::Unit } else { Want::Any }, post: None, near: Some(Box::new(n)) }
    }
}

impl From<Want> for Exp {
    fn from(ret: Want) -> Exp {
        Exp { ret, post: None, near: None }
    }
}

fn coords(e: &[Ent]) -> BTreeSet<(usize, usize)> {
    e.iter().map(|x| (x.0, x.1)).collect()
}

fn mat(kind: Kind, rows: usize, cols: usize, e: Vec<Ent>, pat: fn(Vec<Ent>) -> Pat) -> MatExp {
    MatExp { kind, rows, cols, cells: cells(&e), pat: pat(e) }
}
fn seq(kind: Kind, rows: usize, cols: usize, e: Vec<Ent>) -> MatExp {
    mat(kind, rows, cols, e, Pat::Seq)
}
fn multi(kind: Kind, rows: usize, cols: usize, e: Vec<Ent>) -> MatExp {
    mat(kind, rows, cols, e, |e| Pat::Multi(e, false))
}
fn multi_sorted(kind: Kind, rows: usize, cols: usize, e: Vec<Ent>) -> MatExp {
    mat(kind, rows, cols, e, |e| Pat::Multi(e, true))
}
fn canon(kind: Kind, rows: usize, cols: usize, e: Vec<Ent>) -> MatExp {
    mat(kind, rows, cols, e, |e| Pat::Canon(coords(&e)))
}
fn dense(rows: usize, cols: usize, e: &[Ent]) -> MatExp {
    MatExp { kind: Kind::Dense, rows, cols, cells: cells(e), pat: Pat::NoZero(false) }
}

fn tr(e: &[Ent]) -> Vec<Ent> {
    e.iter().map(|&(i, j, v)| (j, i, v)).collect()
}

pub const DENSE_MAX: usize = 60_000;

fn flip(k: Kind) -> Kind {
    match k {
        Kind::Csr => Kind::Csc,
        Kind::Csc => Kind::Csr,
        k => k,
    }
}

/// Splits select parameters: [has_rows, n, rows.., has_cols, n, cols..].
pub fn select_lists(p: &[i64]) -> (Option<Vec<i64>>, Option<Vec<i64>>) {
    let n = p[1] as usize;
    let r = if p[0] != 0 { Some(p[2..2 + n].to_vec()) } else { None };
    let q = &p[2 + n..];
    let m = q[1] as usize;
    let c = if q[0] != 0 { Some(q[2..2 + m].to_vec()) } else { None };
    (r, c)
}

pub fn bin_name(w: i64) -> &'static str {
    ["ne", "eq", "lt", "le", "gt", "ge", "mul", "div", "add", "sub", "max", "min"][w as usize]
}

fn bin(w: i64, a: G, b: G) -> G {
    let t = |c: bool| G(c as i64, 0);
    match w {
        0 => t(a != b),
        1 => t(a == b),
        2 => t(a.0 < b.0),
        3 => t(a.0 <= b.0),
        4 => t(a.0 > b.0),
        5 => t(a.0 >= b.0),
        6 => a.mul(b),
        7 => G(if b.0 == 0 { 7 } else { a.0.wrapping_div(b.0) }, 0),
        8 => a.add(b),
        9 => a.sub(b),
        10 => if a.0 > b.0 { a } else { b },
        _ => if a.0 < b.0 { a } else { b },
    }
}

/// What `op` must do on operands `a`.
pub fn expect(ci: &Ci, op: &Op, a: &[&Raw]) -> Exp {
    match expect_opt(ci, op, a).or_else(|| near(ci, op, a)) {
        Some(e) => e,
        None => Want::Skip.into(),
    }
}

fn expect_opt(ci: &Ci, op: &Op, a: &[&Raw]) -> Option<Exp> {
    let imax = ci.imax;
    let fits = |n: usize| n as i64 <= imax;
    let reps = |v: i64| v <= imax && (v >= 0 || (ci.signed && v >= -imax));
    let need = |c: bool| if c { Some(()) } else { None };
    // values small enough that sums of this many terms stay exact
    let small = |bits: u32| {
        if !ci.bounded {
            return true;
        }
        let bits = bits.min(ci.cap - 12);
        a.iter().all(|r| r.maxmag() < 1 << bits) && op.v.iter().all(|g| g.mag() < 1 << bits) && op.l.iter().all(|e| G(e[2], e[3]).mag() < 1 << bits)
    };
    let prod_ok = |terms: usize| {
        if !ci.bounded {
            return true;
        }
        let m = a.iter().map(|r| r.maxmag()).chain(op.v.iter().map(|g| g.mag())).fold([1u64; 2], |s, x| if x > s[0] { [x, s[0]] } else { [s[0], s[1].max(x)] });
        (m[0] as u128) * (m[1] as u128).max(m[0] as u128) * (terms as u128 + 1) * 4 < 1 << (ci.cap - 3)
    };
    for r in a {
        need(!r.inexact)?;
    }
    // nothing that needs an array as long as a dimension is asked of a matrix too large for one
    let big = |d: usize| d > 300_000;
    let inner = if op.k == K::Broken { op.inner() } else { op.clone() };
    let k = inner.k;
    for r in a {
        if big(r.rows) || big(r.cols) {
            use crate::gen::{ANY_SHAPE, WIDE};
            let to = if k == K::Conv { inner.p[0] } else { 0 };
            need(match r.kind {
                Kind::Coo if k == K::Conv => to == 0 || to == 1 && !big(r.rows) || to == 2 && !big(r.cols),
                Kind::Coo | Kind::Dok => to == 0 && (ANY_SHAPE.contains(&k) || matches!(k, K::DNnz | K::DIter)),
                Kind::Csr => to == 0 && !big(r.rows) && (WIDE.contains(&k) || matches!(k, K::ToString | K::Drop)),
                Kind::Csc => to == 0 && !big(r.cols) && (WIDE.contains(&k) || k == K::Drop),
                _ => false,
            })?;
        }
    }
    if matches!(k, K::CooNew | K::CsrNew | K::CscNew | K::FromDense | K::DokNew | K::CooSize | K::CsrSize | K::CWithReal | K::CWithImag) {
        let (r, c) = (inner.p[0] as usize, inner.p[1] as usize);
        need(match k {
            K::CsrNew | K::CsrSize => !big(r),
            K::CscNew => !big(c),
            K::CooNew | K::CooSize | K::DokNew => true,
            _ => !big(r) && !big(c),
        })?;
    }
    let r0 = a.first().copied();
    let sq = |r: &Raw| r.rows == r.cols;
    Some(match op.k {
        K::Nop | K::Drop => return None,
        // ------------------------------------------------ constructors
        K::CooNew => {
            let (r, c) = (op.p[0] as usize, op.p[1] as usize);
            need(op.l.iter().all(|e| reps(e[0]) && reps(e[1])))?;
            if op.p[2] != 0 {
                return Some(Want::Refuse(true).into());
            }
            Want::Mat(seq(Kind::Coo, r, c, op.lit())).into()
        }
        K::CsrNew | K::CscNew => {
            let (r, c) = (op.p[0] as usize, op.p[1] as usize);
            need(fits(op.l.len()) && fits(r) && fits(c))?;
            if op.p[3] != 0 {
                return Some(Want::Refuse(true).into());
            }
            let mut e = op.lit();
            let k = if op.k == K::CsrNew { Kind::Csr } else { Kind::Csc };
            if k == Kind::Csr {
                e.sort_by_key(|x| x.0)
            } else {
                e.sort_by_key(|x| x.1)
            }
            Want::Mat(seq(k, r, c, e)).into()
        }
        K::FromDense => {
            let (r, c) = (op.p[0] as usize, op.p[1] as usize);
            need(fits(op.l.len()) && fits(r) && fits(c) && r.saturating_mul(c) <= DENSE_MAX)?;
            if op.p.get(3).is_some_and(|&x| x != 0) {
                // rows of unequal length
                need(r >= 2 && (op.p[4] as usize) < r && op.p[4] > 0 && (op.p[3] != 2 || c > 0))?;
                return Some(Want::Refuse(false).into());
            }
            let kind = [Kind::Coo, Kind::Csr, Kind::Csc, Kind::Dok][op.p[2] as usize];
            // a dense form without rows has no columns either
            let c = if r == 0 { 0 } else { c };
            let m: Cells = cells(&op.lit());
            need(!ci.bounded || m.values().all(|v| v.mag() < 1 << ci.cap))?;
            let e: Vec<Ent> = m.iter().filter(|x| *x.1 != G::Z).map(|(k, v)| (k.0, k.1, *v)).collect();
            let me = MatExp { kind, rows: r, cols: c, cells: cells(&e), pat: if kind == Kind::Csr || kind == Kind::Csc { Pat::NoZero(true) } else { Pat::NoZero(false) } };
            Want::Mat(me).into()
        }
        K::Diag => {
            let n = op.v.len();
            need(fits(n))?;
            let kind = [Kind::Coo, Kind::Csr, Kind::Csc][op.p[0] as usize];
            let e: Vec<Ent> = op.v.iter().enumerate().map(|(i, &v)| (i, i, v)).collect();
            let me = MatExp { kind, rows: n, cols: n, cells: cells(&e), pat: Pat::Canon(coords(&e)) };
            if kind == Kind::Coo {
                Want::Mat(MatExp { pat: Pat::Within(coords(&e)), ..me }).into()
            } else {
                Want::Mat(me).into()
            }
        }
        K::Ident => {
            let n = op.p[0] as usize;
            need(fits(n))?;
            Want::Mat(multi(Kind::Coo, n, n, (0..n).map(|i| (i, i, G(1, 0))).collect())).into()
        }
        K::CooSize => Want::Mat(seq(Kind::Coo, op.p[0] as usize, op.p[1] as usize, vec![])).into(),
        K::CsrSize => Want::Mat(seq(Kind::Csr, op.p[0] as usize, op.p[1] as usize, vec![])).into(),
        K::DokNew => {
            let (r, c) = (op.p[0] as usize, op.p[1] as usize);
            need(fits(r) && fits(c))?;
            let mut m: Cells = Cells::new();
            for (i, j, v) in op.lit() {
                if v == G::Z {
                    m.remove(&(i, j));
                } else {
                    m.insert((i, j), v);
                }
            }
            Want::Mat(MatExp { kind: Kind::Dok, rows: r, cols: c, cells: m, pat: Pat::NoZero(false) }).into()
        }
        K::MakeVec => Want::Vect(op.v.clone()).into(),
        // ------------------------------------------------ edits
        K::Push | K::Extend => {
            let r = r0?;
            need(r.kind == Kind::Coo && op.l.iter().all(|e| reps(e[0]) && reps(e[1]) && (e[0] as usize) < r.rows && (e[1] as usize) < r.cols))?;
            need(r.vals.len() < 3000)?;
            let mut e = r.entries();
            if op.k == K::Extend && op.p.first().copied().unwrap_or(0) != 0 {
                need(!op.l.is_empty())?;
                return Some(Exp { ret: Want::Refuse(false), post: Some(seq(Kind::Coo, r.rows, r.cols, e)), near: None });
            }
            e.extend(op.lit());
            Exp { ret: Want::Unit, post: Some(seq(Kind::Coo, r.rows, r.cols, e)), near: None }
        }
        K::SetVal => {
            let r = r0?;
            need(matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc) && !r.vals.is_empty())?;
            let mut e = r.entries();
            let k = op.p[0] as usize % e.len();
            e[k].2 = op.v[0];
            Exp { ret: Want::Unit, post: Some(seq(r.kind, r.rows, r.cols, e)), near: None }
        }
        K::Clone => {
            let r = r0?;
            need(matches!(r.kind, Kind::Coo | Kind::Csr))?;
            Want::Exact(r.clone()).into()
        }
        // ------------------------------------------------ conversion
        K::Conv => {
            let r = r0?;
            let to = [Kind::Coo, Kind::Csr, Kind::Csc, Kind::Dok, Kind::Dense][op.p[0] as usize];
            let e = r.entries();
            if to == Kind::Dense {
                need(r.rows.saturating_mul(r.cols) <= DENSE_MAX && small(40))?;
                need(matches!(r.kind, Kind::Coo | Kind::Csc | Kind::Dok))?;
                return Some(Want::Mat(dense(r.rows, r.cols, &e)).into());
            }
            need(fits(e.len()) && fits(r.rows) && fits(r.cols))?;
            match (r.kind, to) {
                (Kind::Coo, Kind::Csr) | (Kind::Coo, Kind::Csc) | (Kind::Dok, Kind::Csr) | (Kind::Dok, Kind::Csc) => {
                    need(small(40))?;
                    Want::Mat(canon(to, r.rows, r.cols, e)).into()
                }
                (Kind::Csr, Kind::Coo) | (Kind::Csc, Kind::Coo) | (Kind::Dok, Kind::Coo) => {
                    Want::Mat(multi(Kind::Coo, r.rows, r.cols, e)).into()
                }
                (Kind::Csr, Kind::Csc) | (Kind::Csc, Kind::Csr) => Want::Mat(multi_sorted(to, r.rows, r.cols, e)).into(),
                _ => return None,
            }
        }
        K::Transpose | K::T => {
            let r = r0?;
            need(matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc))?;
            Want::Mat(multi(flip(r.kind), r.cols, r.rows, tr(&r.entries()))).into()
        }
        K::Shape => {
            let r = r0?;
            need(matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc))?;
            Want::Nums(vec![r.rows as i64, r.cols as i64, r.nnz]).into()
        }
        // ------------------------------------------------ in place
        K::Sort => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc))?;
            Exp { ret: Want::Unit, post: Some(multi_sorted(r.kind, r.rows, r.cols, r.entries())), near: None }
        }
        K::SumDup => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc) && small(40))?;
            Exp { ret: Want::Unit, post: Some(canon(r.kind, r.rows, r.cols, r.entries())), near: None }
        }
        K::Prune => {
            let r = r0?;
            need(r.kind == Kind::Csc)?;
            Exp { ret: Want::Unit, post: Some(seq(r.kind, r.rows, r.cols, r.entries())), near: None }
        }
        K::Pred | K::KPred => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc))?;
            Want::Bools(vec![r.canonical(), r.sorted()]).into()
        }
        // ------------------------------------------------ arithmetic
        K::Neg => {
            let r = r0?;
            need(matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc) && (!ci.bounded || small(50)))?;
            let e = r.entries();
            let n: Vec<Ent> = e.iter().map(|&(i, j, v)| (i, j, v.neg())).collect();
            Want::Mat(MatExp { kind: r.kind, rows: r.rows, cols: r.cols, cells: cells(&n), pat: Pat::Within(coords(&e)) }).into()
        }
        K::Add | K::Sub => {
            let (x, y) = (r0?, *a.get(1)?);
            need(x.kind == y.kind && matches!(x.kind, Kind::Coo | Kind::Csr | Kind::Csc))?;
            need(x.kind != Kind::Coo || op.k == K::Add)?;
            if x.rows != y.rows || x.cols != y.cols {
                return Some(Want::Refuse(op.p[1] == 1 && x.kind == Kind::Csc).into());
            }
            need(small(40))?;
            let ex = x.entries();
            let mut e = ex.clone();
            e.extend(y.entries().iter().map(|&(i, j, v)| (i, j, if op.k == K::Add { v } else { v.neg() })));
            let kind = if x.kind == Kind::Coo { Kind::Csr } else { x.kind };
            if x.kind == Kind::Coo {
                need(fits(e.len()) && fits(x.rows) && fits(x.cols))?;
                return Some(Want::Mat(canon(kind, x.rows, x.cols, e)).into());
            }
            let c = cells(&e);
            need(fits(c.values().filter(|v| **v != G::Z).count()) && fits(x.rows) && fits(x.cols))?;
            Want::Mat(MatExp { kind, rows: x.rows, cols: x.cols, cells: c, pat: Pat::NoZero(x.canonical() && y.canonical()) }).into()
        }
        K::MatVec => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc))?;
            if op.v.len() != r.cols {
                return Some(Want::Refuse(op.p[0] == 0).into());
            }
            need(prod_ok(r.vals.len()))?;
            Want::Vect(matvec(r.rows, 1, &r.entries(), &op.v, None)).into()
        }
        K::MatMul | K::MulCscCsr | K::KMm => {
            let (x, y) = (r0?, *a.get(1)?);
            if op.k == K::MulCscCsr {
                need(x.kind == Kind::Csc && y.kind == Kind::Csr && fits(y.vals.len()) && fits(y.rows))?;
            } else {
                need(x.kind == y.kind && matches!(x.kind, Kind::Csr | Kind::Csc))?;
            }
            if x.cols != y.rows {
                if op.k == K::KMm {
                    return None;
                }
                return Some(Want::Refuse(op.k == K::MatMul && op.p[0] == 0).into());
            }
            need(prod_ok(x.vals.len() + y.vals.len()) && fits(x.rows) && fits(y.cols))?;
            let (c, structural, flops) = matmul(x, y);
            need(flops < 200_000 && fits(c.values().filter(|v| **v != G::Z).count()))?;
            let me = MatExp { kind: x.kind, rows: x.rows, cols: y.cols, cells: c, pat: Pat::NoZero(false) };
            if op.k == K::KMm {
                Want::NumMat(structural as i64, me).into()
            } else {
                Want::Mat(me).into()
            }
        }
        K::Scale | K::LScale => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc) && prod_ok(1) && (op.k == K::Scale || ci.c64))?;
            let e = r.entries();
            let s = op.v[0];
            let n: Vec<Ent> = e.iter().map(|&(i, j, v)| (i, j, v.mul(s))).collect();
            Want::Mat(MatExp { kind: r.kind, rows: r.rows, cols: r.cols, cells: cells(&n), pat: Pat::Within(coords(&e)) }).into()
        }
        // ------------------------------------------------ selection
        K::Select | K::KSelect => {
            let r = r0?;
            need(op.k == K::Select || r.kind == Kind::Csr && r.canonical())?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc) && fits(r.rows) && fits(r.cols))?;
            let (rs, cs) = select_lists(&op.p);
            let all = rs.iter().flatten().chain(cs.iter().flatten());
            need(all.clone().all(|&v| reps(v)))?;
            let bad = rs.iter().flatten().any(|&v| v < 0 || v as usize >= r.rows) || cs.iter().flatten().any(|&v| v < 0 || v as usize >= r.cols);
            need(!bad || op.k == K::Select)?;
            if bad || !r.canonical() {
                return Some(Want::Refuse(true).into());
            }
            let rs: Vec<usize> = rs.map(|v| v.iter().map(|&x| x as usize).collect()).unwrap_or((0..r.rows).collect());
            let cs: Vec<usize> = cs.map(|v| v.iter().map(|&x| x as usize).collect()).unwrap_or((0..r.cols).collect());
            // Selection looks every pair up; larger requests only cost time.
            need(fits(rs.len()) && fits(cs.len()) && rs.len().saturating_mul(cs.len()) <= 1_000_000)?;
            let mut at: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for (k, &c) in cs.iter().enumerate() {
                at.entry(c).or_default().push(k);
            }
            let mut rows: BTreeMap<usize, Vec<(usize, G)>> = BTreeMap::new();
            for (i, j, v) in r.entries() {
                rows.entry(i).or_default().push((j, v));
            }
            let mut e: Vec<Ent> = vec![];
            for (k, i) in rs.iter().enumerate() {
                for &(j, v) in rows.get(i).map(|x| &x[..]).unwrap_or(&[]) {
                    for &q in at.get(&j).map(|x| &x[..]).unwrap_or(&[]) {
                        e.push((k, q, v));
                    }
                }
            }
            need(fits(e.len()) && e.len() < 200_000)?;
            Want::Mat(multi_sorted(r.kind, rs.len(), cs.len(), e)).into()
        }
        K::Get => {
            let r = r0?;
            need(r.kind == Kind::Csr && small(40))?;
            let (i, j) = (op.p[0], op.p[1]);
            need(reps(i) && reps(j) && i >= 0 && j >= 0 && (i as usize) < r.rows && (j as usize) < r.cols)?;
            let v = r.entries().iter().filter(|e| e.0 == i as usize && e.1 == j as usize).fold(G::Z, |s, e| s.add(e.2));
            Want::Vect(vec![v]).into()
        }
        K::Diagonal => {
            let r = r0?;
            need(matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc) && small(40))?;
            Want::Vect(diag(r, 0)).into()
        }
        K::Upper => {
            let r = r0?;
            need(r.kind == Kind::Coo && reps(op.p[0]))?;
            let k = op.p[0] as i128;
            let e = r.entries().into_iter().filter(|e| e.0 as i128 + k <= e.1 as i128).collect();
            Want::Mat(multi(Kind::Coo, r.rows, r.cols, e)).into()
        }
        // ------------------------------------------------ stacking
        K::Stack | K::CsrHStack => {
            let want = if op.k == K::Stack { Kind::Coo } else { Kind::Csr };
            need(a.iter().all(|r| r.kind == want) && a.len() >= 2)?;
            let h = op.k == K::CsrHStack || op.p[0] == 0;
            if a.windows(2).any(|w| if h { w[0].rows != w[1].rows } else { w[0].cols != w[1].cols }) {
                return Some(Want::Refuse(true).into());
            }
            let m = stack(a, h);
            need(fits(m.0) && fits(m.1))?;
            if op.k == K::Stack {
                Want::Mat(multi(Kind::Coo, m.0, m.1, m.2)).into()
            } else {
                need(fits(m.2.len()) && small(40))?;
                Want::Mat(canon(Kind::Csr, m.0, m.1, m.2)).into()
            }
        }
        K::Compose | K::Compose3 | K::CscCompose => {
            let n = if op.k == K::Compose3 { 3 } else { 2 };
            let want = if op.k == K::CscCompose { Kind::Csc } else { Kind::Coo };
            need(a.len() == n * n && a.iter().all(|r| r.kind == want))?;
            let mut fit = true;
            let mut totals = vec![];
            for i in 0..n {
                let row = &a[i * n..(i + 1) * n];
                fit &= row.iter().all(|r| r.rows == row[0].rows);
                totals.push(row.iter().map(|r| r.cols).sum::<usize>());
            }
            need(totals.iter().all(|&t| fits(t)) && fits((0..n).map(|i| a[i * n].rows).sum()))?;
            if !fit || totals.iter().any(|&t| t != totals[0]) {
                return Some(Want::Refuse(true).into());
            }
            // block columns of equal total width but different cuts: left open
            for j in 0..n {
                need((0..n).all(|i| a[i * n + j].cols == a[j].cols))?;
            }
            let (mut e, mut r0) = (vec![], 0);
            for i in 0..n {
                let m = stack(&a[i * n..(i + 1) * n], true);
                e.extend(m.2.iter().map(|&(r, c, v)| (r + r0, c, v)));
                r0 += m.0;
            }
            if want == Kind::Csc {
                need(fits(e.len()) && small(40))?;
                Want::Mat(canon(Kind::Csc, r0, totals[0], e)).into()
            } else {
                Want::Mat(multi(Kind::Coo, r0, totals[0], e)).into()
            }
        }
        // ------------------------------------------------ text
        K::ToString => {
            let r = r0?;
            need(!matches!(r.kind, Kind::Dense | Kind::Vect))?;
            Want::Text(r.entries(), r.kind != Kind::Dok, ci.exact).into()
        }
        K::Table => {
            let r = r0?;
            need(r.kind == Kind::Csr && r.canonical() && r.rows.saturating_mul(r.cols) <= 4000)?;
            Want::Table(r.rows, r.cols, r.entries(), ci.exact).into()
        }
        // ------------------------------------------------ dictionary of keys
        K::DSet | K::DAdd | K::DSub => {
            let r = r0?;
            let (i, j) = (op.p[0], op.p[1]);
            need(r.kind == Kind::Dok && reps(i) && reps(j) && small(40))?;
            let mut c = r.cells();
            if i < 0 || j < 0 || i as usize >= r.rows || j as usize >= r.cols {
                let post = MatExp { kind: Kind::Dok, rows: r.rows, cols: r.cols, cells: c, pat: Pat::NoZero(false) };
                return Some(Exp { ret: Want::Refuse(true), post: Some(post), near: None });
            }
            let key = (i as usize, j as usize);
            let old = c.get(&key).copied().unwrap_or(G::Z);
            let new = match op.k {
                K::DSet => op.v[0],
                K::DAdd => old.add(op.v[0]),
                _ => old.sub(op.v[0]),
            };
            if new == G::Z {
                c.remove(&key);
            } else {
                c.insert(key, new);
            }
            Exp { ret: Want::Unit, post: Some(MatExp { kind: Kind::Dok, rows: r.rows, cols: r.cols, cells: c, pat: Pat::NoZero(false) }), near: None }
        }
        K::DGet => {
            let r = r0?;
            need(r.kind == Kind::Dok && op.p.iter().all(|&x| reps(x)))?;
            let v = if op.p.iter().any(|&x| x < 0) { G::Z } else { r.cells().get(&(op.p[0] as usize, op.p[1] as usize)).copied().unwrap_or(G::Z) };
            Want::Vect(vec![v]).into()
        }
        K::DNnz => {
            let r = r0?;
            need(r.kind == Kind::Dok)?;
            let n = r.vals.len() as i64;
            Want::Nums(vec![r.rows as i64, r.cols as i64, n, n, (n == 0) as i64]).into()
        }
        K::DIter => {
            let r = r0?;
            need(r.kind == Kind::Dok)?;
            Want::Exact(r.clone()).into()
        }
        // ------------------------------------------------ graph
        K::GCc => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            if !sq(r) {
                return Some(Want::Refuse(true).into());
            }
            need(fits(r.rows) && fits(r.vals.len()))?;
            Want::Comp { n: r.rows, edges: edges(r), strong: op.p[0] != 0 && op.p[1] != 0 }.into()
        }
        K::GFlag => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            if !sq(r) {
                return Some(Want::Refuse(true).into());
            }
            need(fits(r.rows + 1))?;
            let e = edges(r);
            let s: BTreeSet<_> = e.iter().copied().collect();
            need(s.iter().all(|&(i, j)| s.contains(&(j, i))))?;
            Want::Flag { n: r.rows, edges: e }.into()
        }
        K::GDfs => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            if !sq(r) {
                return Some(Want::Refuse(true).into());
            }
            need(fits(r.rows) && fits(r.vals.len()))?;
            if op.p[0] as usize >= r.rows {
                return Some(Want::Refuse(false).into());
            }
            Want::Dfs { n: r.rows, edges: edges(r), start: op.p[0] as usize, directed: op.p[1] != 0 }.into()
        }
        // ------------------------------------------------ complex
        K::CReal | K::CImag | K::CConj => {
            let r = r0?;
            need(ci.cplx && matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc))?;
            let f = |v: G| match op.k {
                K::CReal => G(v.0, 0),
                K::CImag => G(v.1, 0),
                _ => G(v.0, v.1.wrapping_neg()),
            };
            Want::Mat(seq(r.kind, r.rows, r.cols, r.entries().iter().map(|&(i, j, v)| (i, j, f(v))).collect())).into()
        }
        K::CH => {
            let r = r0?;
            need(ci.cplx && matches!(r.kind, Kind::Coo | Kind::Csr | Kind::Csc))?;
            let e = r.entries().iter().map(|&(i, j, v)| (j, i, G(v.0, v.1.wrapping_neg()))).collect();
            Want::Mat(multi(flip(r.kind), r.cols, r.rows, e)).into()
        }
        K::CWithReal | K::CWithImag => {
            let (r, c) = (op.p[0] as usize, op.p[1] as usize);
            need(ci.cplx && fits(op.l.len()))?;
            let mut e = op.lit();
            e.sort_by_key(|x| x.0);
            let e = e.iter().map(|&(i, j, v)| (i, j, if op.k == K::CWithReal { G(v.0, 0) } else { G(0, v.0) })).collect();
            Want::Mat(seq(Kind::Csr, r, c, e)).into()
        }
        // ------------------------------------------------ kernels
        K::KBin => {
            let (x, y) = (r0?, *a.get(1)?);
            let w = op.p[0];
            need(x.kind == Kind::Csr && y.kind == Kind::Csr && x.rows == y.rows && x.cols == y.cols)?;
            need(!ci.cplx || matches!(w, 0 | 1 | 6 | 8 | 9))?;
            need(w != 7 || ci.pub_div)?;
            need(if w == 6 { prod_ok(1) && small(20) } else { small(40) })?;
            need(op.p[1] != 1 || (x.canonical() && y.canonical()))?;
            let (cx, cy) = (x.cells(), y.cells());
            let mut c = Cells::new();
            for &k in cx.keys().chain(cy.keys()) {
                let v = bin(w, cx.get(&k).copied().unwrap_or(G::Z), cy.get(&k).copied().unwrap_or(G::Z));
                if v != G::Z {
                    c.insert(k, v);
                }
            }
            need(fits(c.len()) && fits(x.rows) && fits(x.cols))?;
            let sorted = x.canonical() && y.canonical() && op.p[1] != 2;
            Want::Mat(MatExp { kind: Kind::Csr, rows: x.rows, cols: x.cols, cells: c, pat: Pat::NoZero(sorted) }).into()
        }
        K::KMv => {
            let r = r0?;
            let nv = op.p[0].max(1) as usize;
            need(matches!(r.kind, Kind::Csr | Kind::Csc) || (r.kind == Kind::Coo && op.p[0] == 0))?;
            need(op.v.len() == (r.rows + r.cols) * nv && prod_ok(r.vals.len() + 1))?;
            let (x, y) = op.v.split_at(r.cols * nv);
            Want::Vect(matvec(r.rows, nv, &r.entries(), x, Some(y))).into()
        }
        K::KScale => {
            let r = r0?;
            let byrow = op.p[0] == 0;
            need(r.kind == Kind::Csr && op.v.len() == if byrow { r.rows } else { r.cols } && prod_ok(1))?;
            let e = r.entries().iter().map(|&(i, j, v)| (i, j, v.mul(op.v[if byrow { i } else { j }]))).collect();
            Want::Mat(seq(Kind::Csr, r.rows, r.cols, e)).into()
        }
        K::KElim => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            Want::Mat(seq(Kind::Csr, r.rows, r.cols, r.entries().into_iter().filter(|e| e.2 != G::Z).collect())).into()
        }
        K::KSum => {
            let r = r0?;
            need(r.kind == Kind::Csr && small(40))?;
            let e = r.entries();
            if r.sorted() {
                Want::Mat(canon(Kind::Csr, r.rows, r.cols, e)).into()
            } else {
                let c = coords(&e);
                Want::Mat(mat(Kind::Csr, r.rows, r.cols, e, |_| Pat::NoZero(false))).clone_with(Pat::Within(c))
            }
        }
        K::KSort => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            Want::Mat(multi_sorted(Kind::Csr, r.rows, r.cols, r.entries())).into()
        }
        K::KTocsc => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Csc) && fits(r.rows) && fits(r.cols))?;
            Want::Mat(multi_sorted(flip(r.kind), r.rows, r.cols, r.entries())).into()
        }
        K::KDense => {
            let r = r0?;
            need(matches!(r.kind, Kind::Csr | Kind::Coo) && r.rows.saturating_mul(r.cols) <= 4000 && op.v.len() == r.rows * r.cols && small(40))?;
            let mut d = op.v.clone();
            for (i, j, v) in r.entries() {
                let k = if r.kind == Kind::Coo && op.p[0] != 0 { j * r.rows + i } else { i * r.cols + j };
                d[k] = d[k].add(v);
            }
            Want::Vect(d).into()
        }
        K::KDiag => {
            let r = r0?;
            let k = op.p[0];
            need(matches!(r.kind, Kind::Csr | Kind::Csc) && small(40))?;
            need(k.abs() <= 1 << 62)?;
            Want::Vect(diag(r, k)).into()
        }
        K::KSub => {
            let r = r0?;
            let p = &op.p;
            need(r.kind == Kind::Csr && p.iter().all(|&x| reps(x) && x >= 0))?;
            need(p[2] <= p[3] && p[3] as usize <= r.cols)?;
            need(p[0] != p[1] || p[1] as usize <= r.rows)?;
            if p[0] > p[1] || p[1] as usize > r.rows {
                return Some(Want::Refuse(false).into());
            }
            let e = r.entries().into_iter().filter(|e| {
                let (i, j) = (e.0 as i64, e.1 as i64);
                i >= p[0] && i < p[1] && j >= p[2] && j < p[3]
            });
            let e: Vec<Ent> = e.map(|(i, j, v)| (i - p[0] as usize, j - p[2] as usize, v)).collect();
            Want::Mat(seq(Kind::Csr, (p[1] - p[0]) as usize, (p[3] - p[2]) as usize, e)).into()
        }
        K::KRowIdx | K::KRowSl => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            let rows: Vec<i64> = if op.k == K::KRowIdx {
                op.p.clone()
            } else {
                let (s, t, d) = (op.p[0], op.p[1], op.p[2]);
                need(d >= 0 && s >= 0 && t >= 0 && t <= r.rows as i64 + 64)?;
                if d == 0 {
                    return Some(Want::Refuse(false).into());
                }
                let mut v = vec![];
                let mut x = s;
                while x < t {
                    v.push(x);
                    x = x.saturating_add(d);
                }
                v
            };
            if !rows.iter().all(|&x| x >= 0 && (x as usize) < r.rows) {
                return Some(Want::Refuse(false).into());
            }
            let mut out = Raw::empty(Kind::Vect, 0, 0);
            for &i in &rows {
                for k in r.ptr[i as usize]..r.ptr[i as usize + 1] {
                    out.idx.push(r.idx[k as usize]);
                    out.vals.push(r.vals[k as usize]);
                }
            }
            Want::Exact(out).into()
        }
        K::KColIdx => {
            let r = r0?;
            need(r.kind == Kind::Csr && fits(op.p.len()))?;
            if !op.p.iter().all(|&x| x >= 0 && (x as usize) < r.cols) {
                return Some(Want::Refuse(false).into());
            }
            let mut e: Vec<Ent> = vec![];
            for (i, j, v) in r.entries() {
                for (k, &c) in op.p.iter().enumerate() {
                    if c as usize == j {
                        e.push((i, k, v));
                    }
                }
            }
            need(fits(e.len()))?;
            Want::Mat(seq(Kind::Csr, r.rows, op.p.len(), e)).into()
        }
        K::KCount => {
            let r = r0?;
            need(r.kind == Kind::Csr)?;
            let s: BTreeSet<i64> = r.entries().iter().map(|e| e.1 as i64 - e.0 as i64).collect();
            Want::Nums(vec![s.len() as i64]).into()
        }
        K::KTocoo => {
            let r = r0?;
            need(r.kind == Kind::Csr && fits(r.rows))?;
            Want::Mat(seq(Kind::Coo, r.rows, r.cols, r.entries())).into()
        }
        K::KCooTocsr => {
            let r = r0?;
            need(r.kind == Kind::Coo && fits(r.vals.len()))?;
            Want::Mat(multi(Kind::Csr, r.rows, r.cols, r.entries())).into()
        }
        K::Broken => {
            let inner = op.inner();
            need(!matches!(inner.k, K::Broken | K::Eigs) && (op.p[0] as usize) < a.len())?;
            expect_opt(ci, &inner, a)?;
            Want::Any.into()
        }
        // ------------------------------------------------ solver
        K::Eigs => {
            let r = r0?;
            need(r.kind == Kind::Csc)?;
            let nev = op.p[0];
            if op.p.get(1).copied().unwrap_or(0) != 0 && sq(r) && r.rows > 2 {
                return Some(Want::Refuse(false).into());
            }
            if !sq(r) || nev <= 0 || nev + 1 >= r.rows as i64 {
                return Some(Want::Refuse(true).into());
            }
            need(op.v.len() == r.rows)?;
            Want::Eigs { nev: nev as usize, a: r.clone(), spectrum: op.v.clone() }.into()
        }
    })
}

/// Arithmetic on machine floats whose results need not be exact.
fn near(ci: &Ci, op: &Op, a: &[&Raw]) -> Option<Exp> {
    if ci.exact == 0 || a.is_empty() {
        return None;
    }
    let need = |c: bool| if c { Some(()) } else { None };
    let fits = |n: usize| n as i64 <= ci.imax;
    let top = 1u64 << ci.exact;
    need(a.iter().all(|r| !r.inexact && r.maxmag() <= top && r.rows.max(r.cols) <= 300_000 && fits(r.rows) && fits(r.cols)))?;
    need(op.v.iter().all(|g| g.mag() <= top))?;
    let r = a[0];
    let csx = |r: &Raw| matches!(r.kind, Kind::Csr | Kind::Csc);
    let mut c: BTreeMap<(usize, usize), N> = BTreeMap::new();
    let place = matches!(op.k, K::SumDup);
    let mut num = None;
    let (kind, rows, cols, pat) = match op.k {
        K::Conv => {
            let to = [Kind::Coo, Kind::Csr, Kind::Csc, Kind::Dok, Kind::Dense][op.p[0] as usize];
            let e = r.entries();
            for &(i, j, v) in &e {
                c.entry((i, j)).or_default().add(v);
            }
            if to == Kind::Dense {
                need(r.rows.saturating_mul(r.cols) <= DENSE_MAX && matches!(r.kind, Kind::Coo | Kind::Csc | Kind::Dok))?;
                (to, r.rows, r.cols, Pat::Within((0..r.rows).flat_map(|i| (0..r.cols).map(move |j| (i, j))).collect()))
            } else {
                need(matches!(r.kind, Kind::Coo | Kind::Dok) && matches!(to, Kind::Csr | Kind::Csc) && fits(e.len()))?;
                (to, r.rows, r.cols, Pat::Canon(coords(&e)))
            }
        }
        K::SumDup | K::KSum => {
            need(if op.k == K::KSum { r.kind == Kind::Csr } else { csx(r) })?;
            let e = r.entries();
            for &(i, j, v) in &e {
                c.entry((i, j)).or_default().add(v);
            }
            let s = coords(&e);
            (r.kind, r.rows, r.cols, if op.k == K::KSum && !r.sorted() { Pat::Within(s) } else { Pat::Canon(s) })
        }
        K::Add | K::Sub | K::CsrHStack => {
            need(a.len() >= 2 && a.iter().all(|x| x.kind == r.kind))?;
            let e: Vec<Ent> = if op.k == K::CsrHStack {
                need(r.kind == Kind::Csr && a.iter().all(|x| x.rows == r.rows))?;
                stack(a, true).2
            } else {
                need((csx(r) || r.kind == Kind::Coo && op.k == K::Add) && a[1].rows == r.rows && a[1].cols == r.cols)?;
                r.entries().into_iter().chain(a[1].entries().into_iter().map(|(i, j, v)| (i, j, if op.k == K::Sub { v.neg() } else { v }))).collect()
            };
            for &(i, j, v) in &e {
                c.entry((i, j)).or_default().add(v);
            }
            need(fits(e.len()))?;
            if op.k == K::CsrHStack {
                let w = a.iter().map(|x| x.cols).sum();
                need(fits(w))?;
                (Kind::Csr, r.rows, w, Pat::Canon(coords(&e)))
            } else if r.kind == Kind::Coo {
                (Kind::Csr, r.rows, r.cols, Pat::Canon(coords(&e)))
            } else {
                (r.kind, r.rows, r.cols, Pat::NoZero(r.canonical() && a[1].canonical()))
            }
        }
        K::MatVec => {
            need(csx(r) && op.v.len() == r.cols)?;
            for (i, j, v) in r.entries() {
                c.entry((i, 0)).or_default().mul(v, op.v[j]);
            }
            (Kind::Vect, r.rows, 1, Pat::NoZero(false))
        }
        K::KMv => {
            let nv = op.p[0].max(1) as usize;
            need((csx(r) || r.kind == Kind::Coo && op.p[0] == 0) && op.v.len() == (r.rows + r.cols) * nv)?;
            let (x, y) = op.v.split_at(r.cols * nv);
            for (k, v) in y.iter().enumerate() {
                c.entry((k, 0)).or_default().add(*v);
            }
            for (i, j, v) in r.entries() {
                for q in 0..nv {
                    c.entry((i * nv + q, 0)).or_default().mul(v, x[j * nv + q]);
                }
            }
            (Kind::Vect, r.rows * nv, 1, Pat::NoZero(false))
        }
        K::MatMul | K::MulCscCsr | K::KMm => {
            let y = *a.get(1)?;
            if op.k == K::MulCscCsr {
                need(r.kind == Kind::Csc && y.kind == Kind::Csr)?;
            } else {
                need(r.kind == y.kind && csx(r))?;
            }
            need(r.cols == y.rows && fits(r.rows) && fits(y.cols))?;
            let mut rows: BTreeMap<usize, Vec<(usize, G)>> = BTreeMap::new();
            for (i, j, v) in y.entries() {
                rows.entry(i).or_default().push((j, v));
            }
            let mut flops = 0;
            for (i, j, v) in r.entries() {
                for &(k, w) in rows.get(&j).map_or(&[][..], |x| &x[..]) {
                    flops += 1;
                    need(flops < 100_000)?;
                    c.entry((i, k)).or_default().mul(v, w);
                }
            }
            need(fits(c.len()))?;
            if op.k == K::KMm {
                num = Some(c.len() as i64);
            }
            (r.kind, r.rows, y.cols, Pat::NoZero(false))
        }
        K::Scale | K::LScale => {
            need(csx(r) && (op.k == K::Scale || ci.c64))?;
            let e = r.entries();
            for &(i, j, v) in &e {
                c.entry((i, j)).or_default().mul(v, op.v[0]);
            }
            (r.kind, r.rows, r.cols, Pat::Within(coords(&e)))
        }
        K::KScale => {
            let byrow = op.p[0] == 0;
            need(r.kind == Kind::Csr && op.v.len() == if byrow { r.rows } else { r.cols })?;
            let e = r.entries();
            for &(i, j, v) in &e {
                c.entry((i, j)).or_default().mul(v, op.v[if byrow { i } else { j }]);
            }
            (r.kind, r.rows, r.cols, Pat::Within(coords(&e)))
        }
        K::KBin => {
            let (y, w) = (*a.get(1)?, op.p[0]);
            need(r.kind == Kind::Csr && y.kind == Kind::Csr && r.rows == y.rows && r.cols == y.cols && matches!(w, 6 | 8 | 9))?;
            need(op.p[1] != 1 || (r.canonical() && y.canonical()))?;
            let mut b = c.clone();
            for (i, j, v) in r.entries() {
                c.entry((i, j)).or_default().add(v);
            }
            for (i, j, v) in y.entries() {
                b.entry((i, j)).or_default().add(if w == 9 { v.neg() } else { v });
            }
            if w == 6 {
                let m = |x: i128, y: i128| x.checked_mul(y).filter(|z| z.unsigned_abs() < 1 << 125);
                let mut d = BTreeMap::new();
                for (k, x) in &c {
                    let y = b.get(k).copied().unwrap_or_default();
                    let v = [m(x.v[0], y.v[0])? - m(x.v[1], y.v[1])?, m(x.v[0], y.v[1])? + m(x.v[1], y.v[0])?];
                    d.insert(*k, N { v, abs: x.abs * y.abs, n: x.n + y.n + 3 });
                }
                c = d;
            } else {
                for (k, y) in b {
                    let x = c.entry(k).or_default();
                    *x = N { v: [x.v[0] + y.v[0], x.v[1] + y.v[1]], abs: x.abs + y.abs, n: x.n + y.n };
                }
            }
            need(fits(c.len()))?;
            (Kind::Csr, r.rows, r.cols, Pat::NoZero(r.canonical() && y.canonical() && op.p[1] != 2))
        }
        K::KDense => {
            need(matches!(r.kind, Kind::Csr | Kind::Coo) && r.rows.saturating_mul(r.cols) <= 4000 && op.v.len() == r.rows * r.cols)?;
            for (k, v) in op.v.iter().enumerate() {
                c.entry((k, 0)).or_default().add(*v);
            }
            for (i, j, v) in r.entries() {
                let k = if r.kind == Kind::Coo && op.p[0] != 0 { j * r.rows + i } else { i * r.cols + j };
                c.entry((k, 0)).or_default().add(v);
            }
            (Kind::Vect, op.v.len(), 1, Pat::NoZero(false))
        }
        K::Diagonal | K::KDiag => {
            let k = if op.k == K::KDiag { op.p[0] } else { 0 };
            need(csx(r) || op.k == K::Diagonal && r.kind == Kind::Coo)?;
            need(k.abs() <= 1 << 62)?;
            let (fr, fc) = if k >= 0 { (0, k as usize) } else { ((-k) as usize, 0) };
            for (i, j, v) in r.entries() {
                if j as i64 - i as i64 == k {
                    c.entry((i - fr, 0)).or_default().add(v);
                }
            }
            (Kind::Vect, r.rows.saturating_sub(fr).min(r.cols.saturating_sub(fc)), 1, Pat::NoZero(false))
        }
        K::Get => {
            let (i, j) = (op.p[0], op.p[1]);
            need(r.kind == Kind::Csr && i >= 0 && j >= 0 && (i as usize) < r.rows && (j as usize) < r.cols)?;
            for e in r.entries() {
                if (e.0 as i64, e.1 as i64) == (i, j) {
                    c.entry((0, 0)).or_default().add(e.2);
                }
            }
            (Kind::Vect, 1, 1, Pat::NoZero(false))
        }
        _ => return None,
    };
    Some(Near { kind, rows, cols, cells: c, pat, num, place, exact: ci.exact }.into())
}

/// What is wrong with a result that should be right up to rounding: true if
/// it is only the rounding.
fn check_near(w: &Near, r: &Raw) -> Option<(bool, String)> {
    if r.kind != w.kind || r.rows != w.rows || w.kind != Kind::Vect && r.cols != w.cols {
        return Some((false, format!("shape {:?} {}x{} instead of {:?} {}x{}", r.kind, r.rows, r.cols, w.kind, w.rows, w.cols)));
    }
    if let Some(s) = r.malformed() {
        return Some((false, s));
    }
    let f = r.floats();
    let mut got: BTreeMap<(usize, usize), [f64; 2]> = BTreeMap::new();
    let mut twice = false;
    if r.kind == Kind::Vect {
        got.extend(f.iter().enumerate().map(|(k, v)| ((k, 0), *v)));
    } else if r.kind == Kind::Dense {
        got.extend(f.iter().enumerate().map(|(k, v)| ((k / r.cols, k % r.cols), *v)));
    } else {
        let at = Raw { vals: (0..f.len() as i64).map(|k| G(k, 0)).collect(), ..r.clone() };
        for (i, j, k) in at.entries() {
            let g = got.entry((i, j)).or_default();
            twice |= *g != [0.0; 2];
            let v = f[k.0 as usize];
            *g = [g[0] + v[0], g[1] + v[1]];
        }
        twice |= got.len() != f.len();
    }
    let mut off = None;
    for (k, x) in &w.cells {
        let g = got.get(k).copied().unwrap_or_default();
        for h in 0..2 {
            if !g[h].is_finite() || g[h].abs() > 1e38 {
                return Some((false, format!("element {:?} is {:?}", k, g)));
            }
            let err = ((g[h].trunc() as i128 - x.v[h]) as f64 + g[h].fract()).abs();
            let bound = 1.001 * (x.n + 4) as f64 * x.abs * (-(w.exact as f64)).exp2();
            if err > bound {
                let m = format!("element {:?} is {:?}, must be {:?}; off by {:e}, rounding explains {:e}", k, g, x.v, err, bound);
                if err > 1e-3 * x.abs + 1000.0 * bound {
                    return Some((false, m));
                }
                off = off.or(Some((true, m)));
            }
        }
    }
    if let Some((k, v)) = got.iter().find(|(k, v)| **v != [0.0; 2] && !w.cells.contains_key(k)) {
        return Some((false, format!("element {:?} is {:?}, must be zero", k, v)));
    }
    let dup = || if twice { Some((false, "a coordinate is stored more than once".to_string())) } else { None };
    let unsorted = || if !r.sorted() { Some((false, "indices are not in order".to_string())) } else { None };
    if r.kind != Kind::Vect && r.kind != Kind::Dense {
        let bad = match &w.pat {
            Pat::Canon(src) => dup().or_else(unsorted).or_else(|| got.keys().find(|k| !src.contains(k)).map(|k| (false, format!("{:?} is stored but was never an entry", k)))),
            Pat::NoZero(s) => dup()
                .or_else(|| got.iter().find(|x| *x.1 == [0.0; 2]).map(|x| (false, format!("zero stored at {:?}", x.0))))
                .or_else(|| if *s { unsorted() } else { None }),
            Pat::Within(src) => got.keys().find(|k| !src.contains(k)).map(|k| (false, format!("{:?} is stored but was never an entry", k))),
            _ => None,
        };
        if bad.is_some() {
            return bad;
        }
    }
    off
}

impl Want {
    fn clone_with(self, pat: Pat) -> Exp {
        match self {
            Want::Mat(m) => Want::Mat(MatExp { pat, ..m }).into(),
            w => w.into(),
        }
    }
}

fn edges(r: &Raw) -> Vec<(usize, usize)> {
    r.entries().iter().map(|e| (e.0, e.1)).collect()
}

pub fn matvec(rows: usize, nv: usize, e: &[Ent], x: &[G], y: Option<&[G]>) -> Vec<G> {
    let mut out = y.map(|y| y.to_vec()).unwrap_or(vec![G::Z; rows * nv]);
    for &(i, j, v) in e {
        for q in 0..nv {
            out[i * nv + q] = out[i * nv + q].add(v.mul(x[j * nv + q]));
        }
    }
    out
}

/// Product, number of structurally present coordinates, multiplications.
pub fn matmul(x: &Raw, y: &Raw) -> (Cells, usize, usize) {
    let mut rows: BTreeMap<usize, Vec<(usize, G)>> = BTreeMap::new();
    for (i, j, v) in y.entries() {
        rows.entry(i).or_default().push((j, v));
    }
    let mut c = Cells::new();
    let mut flops = 0;
    for (i, j, v) in x.entries() {
        if let Some(r) = rows.get(&j) {
            flops += r.len();
            if flops > 400_000 {
                return (c, 0, flops);
            }
            for &(k, w) in r {
                let s = c.entry((i, k)).or_insert(G::Z);
                *s = s.add(v.mul(w));
            }
        }
    }
    let n = c.len();
    (c, n, flops)
}

fn diag(r: &Raw, k: i64) -> Vec<G> {
    let (fr, fc) = if k >= 0 { (0, k as usize) } else { ((-k) as usize, 0) };
    let n = r.rows.saturating_sub(fr).min(r.cols.saturating_sub(fc));
    let mut d = vec![G::Z; n];
    for (i, j, v) in r.entries() {
        if j as i64 - i as i64 == k {
            d[i - fr] = d[i - fr].add(v);
        }
    }
    d
}

fn stack(a: &[&Raw], h: bool) -> (usize, usize, Vec<Ent>) {
    let (mut ro, mut co, mut e) = (0, 0, vec![]);
    for r in a {
        e.extend(r.entries().iter().map(|&(i, j, v)| if h { (i, j + co, v) } else { (i + ro, j, v) }));
        if h {
            co += r.cols;
        } else {
            ro += r.rows;
        }
    }
    if h {
        (a[0].rows, co, e)
    } else {
        (ro, a[0].cols, e)
    }
}

// ------------------------------------------------------------------ judging

/// Nonempty if the result matrix is wrong. First field: structurally malformed.
pub fn check_mat(m: &MatExp, r: &Raw) -> Option<(bool, String)> {
    if r.kind != m.kind || r.rows != m.rows || r.cols != m.cols {
        return Some((false, format!("shape {:?} {}x{} instead of {:?} {}x{}", r.kind, r.rows, r.cols, m.kind, m.rows, m.cols)));
    }
    if let Some(s) = r.malformed() {
        return Some((true, s));
    }
    if r.inexact {
        return Some((false, "a value is not the exact one".into()));
    }
    let e = r.entries();
    let got = cells(&e);
    let zero = G::Z;
    for (k, v) in &m.cells {
        let g = got.get(k).unwrap_or(&zero);
        if g != v {
            return Some((false, format!("element {:?} is {:?}, must be {:?}", k, g, v)));
        }
    }
    for (k, v) in &got {
        if *v != G::Z && !m.cells.contains_key(k) {
            return Some((false, format!("element {:?} is {:?}, must be zero", k, v)));
        }
    }
    let dup = || if got.len() != e.len() { Some((false, "a coordinate is stored more than once".to_string())) } else { None };
    let unsorted = || if !r.sorted() { Some((false, "indices are not in order".to_string())) } else { None };
    match &m.pat {
        Pat::Seq(w) => {
            if *w != e {
                return Some((false, format!("stored entries {} instead of {}", show(&e), show(w))));
            }
        }
        Pat::Multi(w, sorted) => {
            let (mut x, mut y) = (e.clone(), w.clone());
            x.sort();
            y.sort();
            if x != y {
                return Some((false, format!("stored entries {} instead of {}", show(&x), show(&y))));
            }
            if *sorted {
                return unsorted();
            }
        }
        Pat::Canon(src) => {
            if let Some(x) = dup() {
                return Some(x);
            }
            if r.kind != Kind::Dok && !r.ptr.is_empty() {
                if let Some(x) = unsorted() {
                    return Some(x);
                }
            }
            if let Some(k) = got.keys().find(|k| !src.contains(k)) {
                return Some((false, format!("{:?} is stored but was never an entry", k)));
            }
        }
        Pat::NoZero(sorted) => {
            if let Some(x) = dup() {
                return Some(x);
            }
            if let Some((k, _)) = got.iter().find(|x| *x.1 == G::Z) {
                return Some((false, format!("zero stored at {:?}", k)));
            }
            if *sorted {
                return unsorted();
            }
        }
        Pat::Within(src) => {
            if let Some(k) = got.keys().find(|k| !src.contains(k)) {
                return Some((false, format!("{:?} is stored but was never an entry", k)));
            }
        }
    }
    None
}

fn show(e: &[Ent]) -> String {
    let s: Vec<String> = e.iter().take(12).map(|x| format!("({},{}):{}{}", x.0, x.1, x.2 .0, if x.2 .1 != 0 { format!("{:+}i", x.2 .1) } else { String::new() })).collect();
    format!("[{}{}]", s.join(" "), if e.len() > 12 { format!(" .. {}", e.len()) } else { String::new() })
}

pub fn parse_num(s: &str) -> Option<G> {
    if let Ok(v) = s.parse::<i64>() {
        return Some(G(v, 0));
    }
    let f = |t: &str| -> Option<i64> {
        if let Ok(v) = t.parse::<i64>() {
            return Some(v);
        }
        let x: f64 = t.parse().ok()?;
        if x.fract() == 0.0 && x.abs() < 9e15 {
            Some(x as i64)
        } else {
            None
        }
    };
    // a+bi (Display of complex), a+jb (table form)
    if let Some(t) = s.strip_suffix('i') {
        let k = t.char_indices().skip(1).find(|(p, c)| (*c == '+' || *c == '-') && !t[..*p].ends_with('e'))?.0;
        let im = &t[k..];
        let im = im.strip_prefix('+').unwrap_or(im);
        return Some(G(f(&t[..k])?, f(im)?));
    }
    if let Some(k) = s.find('j') {
        let (re, sign) = s[..k].split_at(k - 1);
        let im = f(&s[k + 1..])?;
        if im < 0 {
            return None;
        }
        return Some(G(f(re)?, if sign == "-" { -im } else { im }));
    }
    f(s).map(|v| G(v, 0))
}

/// Does this text show the value: exactly, or rounded to so many significant
/// digits? An error says whether it is far off.
fn shows(t: &str, v: G, exact: u32, digits: Option<u32>) -> Result<(), bool> {
    if exact == 0 {
        return if parse_num(t) == Some(v) { Ok(()) } else { Err(true) };
    }
    let parts = match (t.strip_suffix('i'), t.find('j')) {
        (Some(s), _) => {
            let k = s.char_indices().skip(1).find(|(p, c)| (*c == '+' || *c == '-') && !s[..*p].ends_with('e')).ok_or(true)?.0;
            // The formatting crate writes a negative zero as "+-0".
            let im = if s[k..].starts_with("+-") { &s[k + 1..] } else { &s[k..] };
            (s[..k].to_string(), im.to_string())
        }
        (_, Some(k)) if k > 0 => {
            let (re, sign) = t[..k].split_at(k - 1);
            if t[k + 1..].starts_with(['+', '-']) {
                return Err(true);
            }
            (re.to_string(), format!("{}{}", sign, &t[k + 1..]))
        }
        _ => (t.to_string(), "0".to_string()),
    };
    for (s, x) in [(parts.0, v.0), (parts.1, v.1)] {
        let x = x as f64 * unit();
        let y: f64 = match exact {
            24 if digits.is_none() => s.parse::<f32>().map_err(|_| true)? as f64,
            _ => s.parse::<f64>().map_err(|_| true)?,
        };
        if s.starts_with("+-") || !y.is_finite() {
            return Err(true);
        }
        match digits {
            None if x != y => return Err((x - y).abs() > 1e-3 * x.abs()),
            None => {}
            Some(d) => {
                let sig: String = s.split(['e', 'E']).next().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
                let sig = sig.trim_start_matches('0').trim_end_matches('0').len() as u32;
                let tol = if x == 0.0 { 0.0 } else { 0.5 * 10f64.powf(x.abs().log10().floor() + 1.0 - d as f64) };
                if (x - y).abs() > tol * (1.0 + 1e-6) || sig > d {
                    return Err((x - y).abs() > 1e-3 * x.abs());
                }
            }
        }
    }
    Ok(())
}

fn parse_lines(s: &str) -> Option<Vec<(usize, usize, &str)>> {
    let mut v = vec![];
    for l in s.lines() {
        let l = l.strip_prefix('(')?;
        let (ij, val) = l.split_once(") ")?;
        let (i, j) = ij.split_once(", ")?;
        v.push((i.parse().ok()?, j.parse().ok()?, val.trim()));
    }
    Some(v)
}

fn find(p: &mut Vec<usize>, x: usize) -> usize {
    let mut r = x;
    while p[r] != r {
        r = p[r];
    }
    let mut y = x;
    while p[y] != r {
        let n = p[y];
        p[y] = r;
        y = n;
    }
    r
}

fn weak(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for &(i, j) in e {
        let (a, b) = (find(&mut p, i), find(&mut p, j));
        p[a] = b;
    }
    (0..n).map(|x| find(&mut p, x)).collect()
}

fn reach(n: usize, adj: &[Vec<usize>], s: usize) -> Vec<bool> {
    let mut seen = vec![false; n];
    let mut st = vec![s];
    seen[s] = true;
    while let Some(x) = st.pop() {
        for &y in &adj[x] {
            if !seen[y] {
                seen[y] = true;
                st.push(y);
            }
        }
    }
    seen
}

/// Kosaraju, iterative.
fn strong(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    let (mut f, mut b) = (vec![vec![]; n], vec![vec![]; n]);
    for &(i, j) in e {
        f[i].push(j);
        b[j].push(i);
    }
    let mut seen = vec![false; n];
    let mut order = vec![];
    for s in 0..n {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let mut st = vec![(s, 0)];
        while let Some(top) = st.last_mut() {
            let (x, k) = *top;
            if k < f[x].len() {
                top.1 += 1;
                let y = f[x][k];
                if !seen[y] {
                    seen[y] = true;
                    st.push((y, 0));
                }
            } else {
                order.push(x);
                st.pop();
            }
        }
    }
    let mut lab = vec![usize::MAX; n];
    for &s in order.iter().rev() {
        if lab[s] != usize::MAX {
            continue;
        }
        let mut st = vec![s];
        lab[s] = s;
        while let Some(x) = st.pop() {
            for &y in &b[x] {
                if lab[y] == usize::MAX {
                    lab[y] = s;
                    st.push(y);
                }
            }
        }
    }
    lab
}

fn same_partition(a: &[usize], b: &[i64]) -> Option<String> {
    let (mut f, mut g): (BTreeMap<usize, i64>, BTreeMap<i64, usize>) = Default::default();
    for (k, (&x, &y)) in a.iter().zip(b).enumerate() {
        if *f.entry(x).or_insert(y) != y {
            return Some(format!("node {} is connected to node {} but labelled {} and not {}", k, x, y, f[&x]));
        }
        if *g.entry(y).or_insert(x) != x {
            return Some(format!("node {} and an unconnected node have the same label {}", k, y));
        }
    }
    None
}

fn check_labels(n: usize, want: &[usize], count: i64, got: &[i64]) -> Option<String> {
    if got.len() != n {
        return Some(format!("{} labels for {} nodes", got.len(), n));
    }
    let k = want.iter().collect::<BTreeSet<_>>().len() as i64;
    if count != k {
        return Some(format!("{} components reported, there are {}", count, k));
    }
    if let Some(x) = got.iter().find(|x| **x < 0 || **x >= k) {
        return Some(format!("label {} outside 0..{}", x, k));
    }
    same_partition(want, got)
}

fn check_dfs(n: usize, e: &[(usize, usize)], start: usize, directed: bool, order: &[i64], pred: &[i64]) -> Option<String> {
    let mut adj = vec![vec![]; n];
    for &(i, j) in e {
        adj[i].push(j);
        if !directed {
            adj[j].push(i);
        }
    }
    adj.iter_mut().for_each(|v| v.sort_unstable());
    let r = reach(n, &adj, start);
    if pred.len() != n {
        return Some(format!("{} predecessors for {} nodes", pred.len(), n));
    }
    if order.first() != Some(&(start as i64)) {
        return Some("order does not begin with the start node".into());
    }
    let mut seen = vec![false; n];
    let mut stack: Vec<usize> = vec![];
    for &x in order {
        if x < 0 || x as usize >= n {
            return Some(format!("node {} does not exist", x));
        }
        let x = x as usize;
        if seen[x] {
            return Some(format!("node {} listed twice", x));
        }
        if !r[x] {
            return Some(format!("node {} listed but not reachable", x));
        }
        seen[x] = true;
        if x == start {
            if pred[x] != -1 {
                return Some("the start node has a predecessor".into());
            }
            stack.push(x);
            continue;
        }
        let p = pred[x];
        if p < 0 || p as usize >= n {
            return Some(format!("node {} has predecessor {}", x, p));
        }
        let p = p as usize;
        if adj[p].binary_search(&x).is_err() {
            return Some(format!("predecessor {} of node {} has no edge to it", p, x));
        }
        while let Some(&top) = stack.last() {
            if top == p {
                break;
            }
            if let Some(c) = adj[top].iter().find(|&&c| !seen[c] && c != x).or(adj[top].iter().find(|&&c| c == x)) {
                return Some(format!("not depth first: {} visited from {} although {} was still open at {}", x, p, c, top));
            }
            stack.pop();
        }
        if stack.last() != Some(&p) {
            return Some(format!("not depth first: {} visited from {}, which was already left", x, p));
        }
        stack.push(x);
    }
    if let Some(x) = (0..n).find(|&x| r[x] && !seen[x]) {
        return Some(format!("node {} is reachable but not listed", x));
    }
    if let Some(x) = (0..n).find(|&x| !seen[x] && pred[x] != -1) {
        return Some(format!("unlisted node {} has a predecessor", x));
    }
    None
}

fn check_eigs(nev: usize, a: &Raw, spectrum: &[G], d: &[(f64, f64)], z: &[Vec<(f64, f64)>]) -> Option<String> {
    let n = a.rows;
    // the solver worked on the matrix scaled by a power of two
    let norm: f64 = a.vals.iter().map(|v| (v.0 as f64).powi(2)).sum::<f64>().sqrt().max(1.0);
    let mut sp: Vec<(f64, f64)> = spectrum.iter().map(|g| (g.0 as f64, g.1 as f64)).collect();
    let mag = |x: &(f64, f64)| x.0.hypot(x.1);
    sp.sort_by(|x, y| mag(y).partial_cmp(&mag(x)).unwrap());
    let k = d.len();
    if k < nev || k > nev + 1 {
        return Some(format!("{} eigenvalues returned, {} asked for", k, nev));
    }
    let pair = k > nev && sp[nev - 1].1 != 0.0 && sp[nev - 1].0 == sp[nev].0 && sp[nev - 1].1 == -sp[nev].1;
    if k == nev + 1 && !pair {
        return Some(format!("one eigenvalue too many: {} asked for, {:?} returned", nev, d));
    }
    if z.len() < k {
        return Some(format!("{} eigenvalues but {} eigenvectors", k, z.len()));
    }
    let scale = mag(&sp[0]).max(1.0);
    let mut left: Vec<(f64, f64)> = d.to_vec();
    for w in &sp[..k] {
        let best = (0..left.len()).min_by(|&x, &y| {
            let q = |i: usize| (left[i].0 - w.0).hypot(left[i].1 - w.1);
            q(x).partial_cmp(&q(y)).unwrap_or(std::cmp::Ordering::Equal)
        });
        match best {
            Some(b) if (left[b].0 - w.0).hypot(left[b].1 - w.1) <= 1e-5 * scale => {
                left.remove(b);
            }
            _ => return Some(format!("eigenvalue {}{:+}i is missing from {:?}", w.0, w.1, d)),
        }
    }
    for i in 0..k {
        let v = &z[i];
        if v.len() != n {
            return Some(format!("eigenvector {} has {} components", i, v.len()));
        }
        let len = v.iter().map(|c| c.0 * c.0 + c.1 * c.1).sum::<f64>().sqrt();
        if !(len > 1e-3) || !len.is_finite() {
            return Some(format!("eigenvector {} has norm {}", i, len));
        }
        let mut av = vec![(0.0, 0.0); n];
        for (r, c, x) in a.entries() {
            av[r].0 += x.0 as f64 * v[c].0;
            av[r].1 += x.0 as f64 * v[c].1;
        }
        let mut res = 0.0;
        for j in 0..n {
            let re = av[j].0 - (d[i].0 * v[j].0 - d[i].1 * v[j].1);
            let im = av[j].1 - (d[i].0 * v[j].1 + d[i].1 * v[j].0);
            res += re * re + im * im;
        }
        let res = res.sqrt();
        if !(res <= 1e-8 * norm * len) {
            return Some(format!("residual of eigenpair {} ({}{:+}i) is {:e}", i, d[i].0, d[i].1, res));
        }
        if d[i].1 != 0.0 && !d.iter().any(|x| (x.0 - d[i].0).abs() <= 1e-9 * scale && (x.1 + d[i].1).abs() <= 1e-9 * scale) {
            return Some(format!("complex eigenvalue {}{:+}i without its conjugate", d[i].0, d[i].1));
        }
    }
    None
}

/// Compares what an operation did with what it had to do. Returns the failed
/// properties and a description for each discrepancy.
/// `fired`: an injected fault went off inside the call. `pre`/`post`: the
/// in-place operand before and after.
/// What a call may cost: the size of its operands, arguments and result and
/// the number of scalar multiplications or requested pairs. None: no bound is
/// claimed.
pub fn extent(op: &Op, a: &[&Raw], out: &Out) -> Option<u64> {
    if op.n != 0 || matches!(op.k, K::Eigs | K::Broken | K::Drop) {
        return None;
    }
    fn of(r: &Raw) -> u64 {
        let n = r.rows.saturating_add(r.cols).saturating_add(r.vals.len() + r.idx.len() + r.ptr.len());
        n as u64
    }
    let mut n = 20 + a.iter().fold(0u64, |s, r| s.saturating_add(of(r)));
    n += (op.p.len() + op.l.len() + op.v.len()) as u64;
    n = n.saturating_add(match out {
        Out::Ok(Res::Mat(r)) | Out::Ok(Res::NumMat(_, r)) => of(r),
        Out::Ok(Res::Vect(v, _)) => v.len() as u64,
        Out::Ok(Res::Bools(v)) => v.len() as u64,
        Out::Ok(Res::Nums(v)) => v.len() as u64,
        Out::Ok(Res::Str(s)) => s.len() as u64,
        _ => 0,
    });
    match op.k {
        K::MatMul | K::KMm | K::MulCscCsr => {
            let (x, y) = (a.first()?, a.get(1)?);
            let by_rows = |r: &Raw| -> BTreeMap<usize, u64> {
                let mut m = BTreeMap::new();
                for (i, _, _) in r.entries() {
                    *m.entry(i).or_default() += 1;
                }
                m
            };
            let rows = by_rows(y);
            for (_, j, _) in x.entries() {
                n += rows.get(&j).copied().unwrap_or(0);
            }
        }
        K::Select | K::KSelect => {
            let (rs, cs) = select_lists(&op.p);
            let r = a.first()?;
            let (x, y) = (rs.map_or(r.rows, |v| v.len()), cs.map_or(r.cols, |v| v.len()));
            n = n.saturating_add((x as u64).saturating_mul(y as u64));
        }
        // operands of refused constructors: one pointer per row or column
        K::CsrNew | K::CscNew => n = n.saturating_add((op.p[0] as u64).saturating_add(op.p[1] as u64)),
        K::FromDense => n = n.saturating_add((op.p[0] as u64).saturating_mul(op.p[1] as u64)),
        _ => {}
    }
    Some(n)
}

/// Bounded progress: a call ends within a number of simulated steps, and
/// holds no more memory at once, than its extent accounts for. The factors
/// are some fifteen times what any call of the library takes.
pub fn costs(op: &Op, a: &[&Raw], out: &Out, (steps, mem, bytes): (u64, u64, u64)) -> (bool, Option<&'static str>) {
    if steps <= 20_000 && mem <= 100_000 && bytes <= 1_000_000 {
        return (!matches!(op.k, K::Eigs | K::Broken | K::Drop) && op.n == 0, None);
    }
    match extent(op, a, out) {
        None => (false, None),
        Some(n) if steps > n.saturating_mul(400).saturating_add(20_000) => (true, Some("the call took far more steps than its operands and result account for")),
        Some(n) if mem > n.saturating_mul(500).saturating_add(100_000) => (true, Some("the call held far more memory than its operands and result account for")),
        Some(n) if bytes > n.saturating_mul(2500).saturating_add(1_000_000) => (true, Some("the call moved far more memory than its operands and result account for")),
        Some(_) => (true, None),
    }
}

pub fn judge(
    op: &Op, exp: &Exp, a: &[&Raw], out: &Out, pre: Option<&Raw>, post: Option<&Raw>, fired: bool, solver_fault: bool,
) -> Vec<(Vec<&'static str>, String)> {
    let kinds: Vec<Kind> = a.iter().map(|r| r.kind).collect();
    let mut own = owners(op.k, &kinds);
    let mut bad: Vec<(Vec<&'static str>, String)> = vec![];
    let mut with = |own: &Vec<&'static str>, more: &[&'static str], msg: String| {
        let mut t = own.clone();
        for m in more {
            if !t.contains(m) {
                t.push(m);
            }
        }
        bad.push((t, msg));
    };
    let result_dok = matches!(out, Out::Ok(Res::Mat(r)) if r.kind == Kind::Dok);
    if result_dok && !own.contains(&"C03") {
        own.push("C03");
    }
    if solver_fault {
        // the solver could not do its work: no answer may come out
        if let Out::Ok(_) = out {
            with(&vec![], &["C18"], "the solver failed but eigenpairs were returned".into());
        }
        return bad;
    }
    if fired && !matches!(out, Out::Ok(_)) {
        if let (Some(pre), Some(post)) = (pre, post) {
            if let Some(s) = post.malformed() {
                with(&own, &["C02", "C14"], format!("after a failure inside the operation: {}", s));
            } else if post.rows != pre.rows || post.cols != pre.cols {
                with(&own, &["C02"], "the shape changed in a failed operation".into());
            } else if pre.kind == Kind::Dok && post != pre {
                let done = exp.post.as_ref().map_or(false, |m| check_mat(m, post).is_none());
                if !done || !matches!(out, Out::Ok(_)) {
                    with(&own, &["C02"], "a failed update changed the matrix".into());
                }
            } else if pre.kind == Kind::Coo && post != pre && !exp.post.as_ref().map_or(false, |m| check_mat(m, post).is_none()) {
                with(&own, &["C02"], "a failed edit left something else behind".into());
            }
        }
        return bad;
    }
    if let Some(w) = &exp.near {
        let v;
        let r = match (out, post) {
            (Out::Panic(m), _) => Err(format!("panicked: {}", m)),
            (Out::Injected, _) => Err("panicked".into()),
            (Out::Err(m), _) => Err(format!("failed: {}", m)),
            (Out::Ok(Res::Unit), Some(p)) if w.place => Ok(p),
            (Out::Ok(Res::Mat(r)), _) => Ok(r),
            (Out::Ok(Res::NumMat(k, _)), _) if w.num != Some(*k) => Err(format!("predicted {} entries instead of {:?}", k, w.num)),
            (Out::Ok(Res::NumMat(_, r)), _) => Ok(r),
            (Out::Ok(Res::Vect(x, fl)), _) => {
                v = Raw { vals: x.clone(), inexact: !fl.is_empty(), fl: fl.clone(), ..Raw::empty(Kind::Vect, x.len(), 1) };
                Ok(&v)
            }
            _ => Err("answer of an unexpected kind".into()),
        };
        match r {
            Err(m) => with(&own, &[], m),
            Ok(r) => match check_near(w, r) {
                Some((true, m)) => with(&vec!["C22"], &[], m),
                Some((false, m)) => with(&own, if r.malformed().is_some() { &["C14"] } else { &["C22"] }, m),
                None => {}
            },
        }
        return bad;
    }
    // effect on the in-place operand
    if let (Some(pre), Some(post)) = (pre, post) {
        match (&exp.post, &exp.ret) {
            (Some(m), _) => {
                if let Some((mal, s)) = check_mat(m, post) {
                    let more: &[&str] = if matches!(exp.ret, Want::Refuse(_)) { &["C15"] } else if mal { &["C14"] } else { &[] };
                    with(&own, more, format!("operand after the operation: {}", s));
                }
            }
            (None, _) => {
                if post != pre {
                    with(&own, &["C15"], "operand changed".into());
                }
            }
        }
    }
    let fail = match (&exp.ret, out) {
        (Want::Skip, _) | (Want::Any, _) => None,
        (Want::Refuse(_), Out::Ok(_)) => {
            let solver: &[&str] = if op.k == K::Eigs { &["C15", "C18"] } else { &["C15"] };
            with(&own, solver, "an invalid request was answered instead of refused".into());
            None
        }
        (Want::Refuse(true), Out::Panic(m)) => {
            with(&own, &["C15"], format!("an invalid request caused a panic instead of an error: {}", m));
            None
        }
        (Want::Refuse(_), _) => None,
        (_, Out::Panic(m)) => Some((false, format!("panicked: {}", m))),
        (_, Out::Injected) => Some((false, "panicked".into())),
        (_, Out::Err(m)) => Some((false, format!("failed: {}", m))),
        (Want::Unit, Out::Ok(Res::Unit)) => None,
        (Want::Mat(m), Out::Ok(Res::Mat(r))) => check_mat(m, r),
        (Want::Exact(w), Out::Ok(Res::Mat(r))) => {
            if let Some(s) = r.malformed() {
                Some((true, s))
            } else if w != r {
                Some((false, format!("{} instead of {}", show_raw(r), show_raw(w))))
            } else {
                None
            }
        }
        (Want::NumMat(n, m), Out::Ok(Res::NumMat(k, r))) => {
            if n != k {
                Some((false, format!("predicted {} entries instead of {}", k, n)))
            } else {
                check_mat(m, r)
            }
        }
        (Want::Vect(w), Out::Ok(Res::Vect(v, fl))) => {
            if !fl.is_empty() || w != v {
                let k = w.iter().zip(v).position(|(x, y)| x != y);
                Some((false, match k {
                    Some(k) => format!("component {} is {:?}, must be {:?}", k, v[k], w[k]),
                    None if w.len() != v.len() => format!("{} values instead of {}", v.len(), w.len()),
                    None => "a value is not the exact one".into(),
                }))
            } else {
                None
            }
        }
        (Want::Bools(w), Out::Ok(Res::Bools(v))) if w == v => None,
        (Want::Bools(w), Out::Ok(Res::Bools(v))) => Some((false, format!("[canonical, sorted] answered {:?}, is {:?}", v, w))),
        (Want::Nums(w), Out::Ok(Res::Nums(v))) if w == v => None,
        (Want::Nums(w), Out::Ok(Res::Nums(v))) => Some((false, format!("{:?} instead of {:?}", v, w))),
        (Want::Text(e, ordered, exact), Out::Ok(Res::Str(s))) => match parse_lines(s) {
            None => Some((false, format!("unreadable text {:?}", s.chars().take(200).collect::<String>()))),
            Some(mut got) => {
                let mut e = e.clone();
                if !ordered {
                    got.sort();
                    e.sort();
                }
                if got.len() != e.len() || got.iter().zip(&e).any(|(x, y)| (x.0, x.1) != (y.0, y.1) || shows(x.2, y.2, *exact, None).is_err()) {
                    Some((false, format!("text lists {:?} instead of {}", got.iter().take(12).collect::<Vec<_>>(), show(&e))))
                } else {
                    None
                }
            }
        },
        (Want::Table(r, c, e, exact), Out::Ok(Res::Str(s))) => {
            if let Some((tag, m)) = check_table(*r, *c, e, *exact, s) {
                with(&vec![], tag, m);
            }
            None
        }
        (Want::Comp { n, edges, strong: st }, Out::Ok(Res::Labels(k, l))) => {
            let w = if *st { strong(*n, edges) } else { weak(*n, edges) };
            check_labels(*n, &w, *k, l).map(|m| (false, m))
        }
        (Want::Flag { n, edges }, Out::Ok(Res::Labels(k, l))) => check_flag(*n, edges, *k, l).map(|m| (false, m)),
        (Want::Dfs { n, edges, start, directed }, Out::Ok(Res::Order(o, p))) => {
            check_dfs(*n, edges, *start, *directed, o, p).map(|m| (false, m))
        }
        (Want::Eigs { nev, a, spectrum }, Out::Ok(Res::Eigs(d, z))) => check_eigs(*nev, a, spectrum, d, z).map(|m| (false, m)),
        (w, o) => Some((false, format!("answer of an unexpected kind: {:?} for {:?}", short(o), std::mem::discriminant(w)))),
    };
    if let Some((mal, s)) = fail {
        with(&own, if mal { &["C14"] } else { &[] }, s);
    }
    bad
}

fn check_flag(n: usize, edges: &[(usize, usize)], k: i64, l: &[i64]) -> Option<String> {
    if l.len() != n {
        return Some(format!("{} flags for {} nodes", l.len(), n));
    }
    let mut has = vec![false; n];
    for &(i, _) in edges {
        has[i] = true;
    }
    let w = weak(n, edges);
    let nodes: Vec<usize> = (0..n).filter(|&i| has[i]).collect();
    for i in 0..n {
        if (l[i] < 0) == has[i] {
            return Some(format!("node {} {} edges but flag {}", i, if has[i] { "has" } else { "has no" }, l[i]));
        }
    }
    let ww: Vec<usize> = nodes.iter().map(|&i| w[i]).collect();
    let gg: Vec<i64> = nodes.iter().map(|&i| l[i]).collect();
    check_labels(nodes.len(), &ww, k, &gg)
}

fn check_table(r: usize, c: usize, e: &[Ent], exact: u32, s: &str) -> Option<(&'static [&'static str], String)> {
    let form = |m: String| -> Option<(&'static [&'static str], String)> { Some((&["C16"], m)) };
    let cells: Cells = e.iter().map(|x| ((x.0, x.1), x.2)).collect();
    if c == 0 || r == 0 {
        return if s.trim().is_empty() { None } else { form(format!("table of an empty matrix: {:?}", s)) };
    }
    let lines: Vec<&str> = s.split('\n').collect();
    if lines.len() != r {
        return form(format!("{} table lines for {} rows", lines.len(), r));
    }
    for (i, l) in lines.iter().enumerate() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() != c {
            return form(format!("{} cells in table row {} of {} columns", f.len(), i, c));
        }
        for (j, t) in f.iter().enumerate() {
            match cells.get(&(i, j)) {
                None if *t == "-" => {}
                None => return form(format!("cell ({}, {}) shows {:?} where nothing is stored", i, j, t)),
                Some(v) => {
                    if let Err(far) = shows(t, *v, exact, Some(6)) {
                        let m = format!("cell ({}, {}) shows {:?}, value is {:?} times {:e}", i, j, t, v, unit());
                        return Some((if far { &["C16", "C21"] } else { &["C21"] }, m));
                    }
                }
            }
        }
    }
    None
}

fn show_raw(r: &Raw) -> String {
    let s = format!("{:?} {}x{} nnz {} ptr {:?} idx {:?} jdx {:?} vals {:?}", r.kind, r.rows, r.cols, r.nnz, r.ptr, r.idx, r.jdx, r.vals);
    s.chars().take(300).collect()
}

fn short(o: &Out) -> String {
    format!("{:?}", o).chars().take(80).collect()
}
