//! Plain-data description of a simulated run and the executable reference
//! model. Depends on nothing of the library under test.
pub mod gen;
pub mod oracle;

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Value domain of the model: Gaussian integers over wrapping i64. Sums and
/// products are exact and independent of order, as they are for the
/// workload's own scalars and, below 2^50, for floating point.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize, PartialOrd, Ord, Default)]
pub struct G(pub i64, pub i64);

impl G {
    pub const Z: G = G(0, 0);
    pub fn add(self, o: G) -> G {
        G(self.0.wrapping_add(o.0), self.1.wrapping_add(o.1))
    }
    pub fn sub(self, o: G) -> G {
        G(self.0.wrapping_sub(o.0), self.1.wrapping_sub(o.1))
    }
    pub fn neg(self) -> G {
        G(self.0.wrapping_neg(), self.1.wrapping_neg())
    }
    pub fn mul(self, o: G) -> G {
        G(
            self.0.wrapping_mul(o.0).wrapping_sub(self.1.wrapping_mul(o.1)),
            self.0.wrapping_mul(o.1).wrapping_add(self.1.wrapping_mul(o.0)),
        )
    }
    pub fn mag(self) -> u64 {
        self.0.unsigned_abs().max(self.1.unsigned_abs())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Kind {
    Coo,
    Csr,
    Csc,
    Dok,
    Dense,
    Vect,
}

/// The arrays of a library object as its accessors show them.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct Raw {
    pub kind: Kind,
    pub rows: usize,
    pub cols: usize,
    /// row/column pointers (Csr, Csc); row lengths (Dense)
    pub ptr: Vec<i64>,
    /// Coo/Dok: row indices. Csr: column indices. Csc: row indices.
    pub idx: Vec<i64>,
    /// Coo/Dok: column indices.
    pub jdx: Vec<i64>,
    pub vals: Vec<G>,
    /// nnz() as reported
    pub nnz: i64,
    /// some value was not an exact integer in range
    pub inexact: bool,
    /// then, for machine floats, the bits of all values as they are
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub fl: Vec<[u64; 2]>,
}

impl Raw {
    pub fn empty(kind: Kind, rows: usize, cols: usize) -> Raw {
        Raw { kind, rows, cols, ptr: vec![], idx: vec![], jdx: vec![], vals: vec![], nnz: 0, inexact: false, fl: vec![] }
    }
    /// Why the arrays are not a valid matrix, if they are not.
    pub fn malformed(&self) -> Option<String> {
        let nnz = self.nnz;
        let (major, minor) = match self.kind {
            Kind::Csr => (self.rows, self.cols),
            Kind::Csc => (self.cols, self.rows),
            Kind::Coo | Kind::Dok => {
                if self.idx.len() as i64 != nnz || self.jdx.len() as i64 != nnz || self.vals.len() as i64 != nnz {
                    return Some(format!(
                        "array lengths {}, {}, {} differ from nnz {}",
                        self.idx.len(), self.jdx.len(), self.vals.len(), nnz
                    ));
                }
                for (&i, &j) in self.idx.iter().zip(&self.jdx) {
                    if i < 0 || j < 0 || i as usize >= self.rows || j as usize >= self.cols {
                        return Some(format!("entry ({}, {}) outside shape {}x{}", i, j, self.rows, self.cols));
                    }
                }
                return None;
            }
            Kind::Dense => {
                if self.ptr.len() != self.rows || self.ptr.iter().any(|&l| l as usize != self.cols) {
                    return Some("dense form has the wrong shape".into());
                }
                return None;
            }
            Kind::Vect => return None,
        };
        if self.ptr.len() != major + 1 {
            return Some(format!("pointer array has length {} for {} rows/columns", self.ptr.len(), major));
        }
        if self.ptr[0] != 0 {
            return Some(format!("pointer array starts at {}", self.ptr[0]));
        }
        for w in self.ptr.windows(2) {
            if w[0] > w[1] {
                return Some(format!("pointer array decreases ({} then {})", w[0], w[1]));
            }
        }
        if *self.ptr.last().unwrap() != nnz {
            return Some(format!("pointer array ends at {} but nnz is {}", self.ptr.last().unwrap(), nnz));
        }
        if self.idx.len() as i64 != nnz || self.vals.len() as i64 != nnz {
            return Some(format!(
                "index and value arrays have lengths {} and {} but nnz is {}",
                self.idx.len(), self.vals.len(), nnz
            ));
        }
        for &j in &self.idx {
            if j < 0 || j as usize >= minor {
                return Some(format!("index {} outside 0..{}", j, minor));
            }
        }
        None
    }
    /// The values in the workload's unit, exact or not.
    pub fn floats(&self) -> Vec<[f64; 2]> {
        if self.inexact {
            self.fl.iter().map(|v| [f64::from_bits(v[0]), f64::from_bits(v[1])]).collect()
        } else {
            self.vals.iter().map(|v| [v.0 as f64, v.1 as f64]).collect()
        }
    }
    /// Stored entries (row, col, value) in storage order. Valid storage only.
    pub fn entries(&self) -> Vec<(usize, usize, G)> {
        let mut e = Vec::with_capacity(self.vals.len());
        match self.kind {
            Kind::Csr | Kind::Csc => {
                for m in 0..self.ptr.len().saturating_sub(1) {
                    for k in self.ptr[m]..self.ptr[m + 1] {
                        let (k, n) = (k as usize, self.idx[k as usize] as usize);
                        e.push(if self.kind == Kind::Csr { (m, n, self.vals[k]) } else { (n, m, self.vals[k]) });
                    }
                }
            }
            Kind::Coo | Kind::Dok => {
                for k in 0..self.vals.len() {
                    e.push((self.idx[k] as usize, self.jdx[k] as usize, self.vals[k]));
                }
            }
            Kind::Dense => {
                for (k, &v) in self.vals.iter().enumerate() {
                    if v != G::Z {
                        e.push((k / self.cols, k % self.cols, v));
                    }
                }
            }
            Kind::Vect => {}
        }
        e
    }
    /// The matrix represented: summed value of every stored coordinate.
    pub fn cells(&self) -> BTreeMap<(usize, usize), G> {
        cells(&self.entries())
    }
    pub fn sorted(&self) -> bool {
        self.ptr.windows(2).all(|w| self.idx[w[0] as usize..w[1] as usize].windows(2).all(|p| p[0] <= p[1]))
    }
    pub fn canonical(&self) -> bool {
        self.ptr.windows(2).all(|w| self.idx[w[0] as usize..w[1] as usize].windows(2).all(|p| p[0] < p[1]))
    }
    pub fn maxmag(&self) -> u64 {
        self.vals.iter().map(|g| g.mag()).max().unwrap_or(0)
    }
}

pub fn cells(e: &[(usize, usize, G)]) -> BTreeMap<(usize, usize), G> {
    let mut m: BTreeMap<(usize, usize), G> = BTreeMap::new();
    for &(i, j, v) in e {
        let x = m.entry((i, j)).or_insert(G::Z);
        *x = x.add(v);
    }
    m
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Res {
    Unit,
    Mat(Raw),
    /// and the bits of all values, if some are not exact integers
    Vect(Vec<G>, Vec<[u64; 2]>),
    Bools(Vec<bool>),
    Nums(Vec<i64>),
    Str(String),
    /// count, labels
    Labels(i64, Vec<i64>),
    /// visiting order, predecessors (-1 none)
    Order(Vec<i64>, Vec<i64>),
    /// an array-level result and a number that goes with it
    NumMat(i64, Raw),
    /// eigenvalues and vectors as bit-exact floats
    Eigs(Vec<(f64, f64)>, Vec<Vec<(f64, f64)>>),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Out {
    Ok(Res),
    Err(String),
    /// a panic of the library's own
    Panic(String),
    /// the injected panic came out
    Injected,
}

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
        pub enum K { $($k),* }
        pub const ALL_K: &[K] = &[$(K::$k),*];
    };
}

kinds! {
    // does nothing (left by the minimiser)
    Nop,
    // the caller lets go of one of its objects
    Drop,
    // constructors
    CooNew, CsrNew, CscNew, FromDense, Diag, Ident, CooSize, CsrSize, DokNew, MakeVec,
    // edits
    Push, Extend, SetVal, Clone,
    // conversion
    Conv, Transpose, T, Shape,
    // in place
    Sort, SumDup, Prune, Pred,
    // arithmetic
    Neg, Add, Sub, MatVec, MatMul, MulCscCsr, Scale, LScale,
    // selection
    Select, Get, Diagonal, Upper,
    // stacking
    Stack, CsrHStack, Compose, Compose3, CscCompose,
    // text
    ToString, Table,
    // dictionary of keys
    DSet, DAdd, DSub, DGet, DNnz, DIter,
    // graph
    GCc, GDfs, GFlag,
    // complex
    CReal, CImag, CConj, CH, CWithReal, CWithImag,
    // kernels
    KBin, KMv, KScale, KElim, KSum, KSort, KTocsc, KDense, KMm, KDiag, KSub, KRowIdx, KRowSl, KColIdx,
    KCount, KTocoo, KCooTocsr, KPred, KSelect,
    // solver
    Eigs,
    // another operation, given a malformed copy of one operand:
    // p = [operand, how, where, kind of the operation, its parameters..]
    Broken,
}

/// Reference to an operand: below OWN a prelude object, else the result of an
/// earlier operation of the same thread.
pub const OWN: u32 = 1000;

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Op {
    pub k: K,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub a: Vec<u32>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub p: Vec<i64>,
    /// literal entries (row, col, re, im)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<[i64; 4]>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub v: Vec<G>,
    /// how many times more the call is made, one right after the other
    #[serde(default, skip_serializing_if = "is_zero")]
    pub n: u32,
}

fn is_zero(n: &u32) -> bool {
    *n == 0
}

fn is_zero_i(n: &i32) -> bool {
    *n == 0
}

impl Op {
    pub fn new(k: K) -> Op {
        Op { k, a: vec![], p: vec![], l: vec![], v: vec![], n: 0 }
    }
    pub fn a(mut self, a: &[u32]) -> Op {
        self.a = a.to_vec();
        self
    }
    pub fn p(mut self, p: &[i64]) -> Op {
        self.p = p.to_vec();
        self
    }
    pub fn v(mut self, v: Vec<G>) -> Op {
        self.v = v;
        self
    }
    /// The operation a `Broken` stands for.
    pub fn inner(&self) -> Op {
        Op { k: ALL_K[self.p[3] as usize], p: self.p[4..].to_vec(), n: 0, ..self.clone() }
    }
    pub fn broken(self, which: i64, how: i64, at: i64) -> Op {
        let mut p = vec![which, how, at, self.k as i64];
        p.extend(&self.p);
        Op { k: K::Broken, p, n: 0, ..self }
    }
    pub fn lit(&self) -> Vec<(usize, usize, G)> {
        self.l.iter().map(|e| (e[0] as usize, e[1] as usize, G(e[2], e[3]))).collect()
    }
    /// Does the operation change its first operand in place?
    pub fn mutates(&self) -> bool {
        matches!(
            self.k,
            K::Push | K::Extend | K::SetVal | K::Sort | K::SumDup | K::Prune | K::DSet | K::DAdd | K::DSub
        )
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Program {
    pub combo: u8,
    /// machine floats: every value is scaled by this power of two (and, if
    /// odd, zeros are negative); vectors and scalars in products are not
    #[serde(default, skip_serializing_if = "is_zero_i")]
    pub scale: i32,
    pub prelude: Vec<Op>,
    /// prelude objects that callers share under a lock and may edit
    pub locked: Vec<u32>,
    pub threads: Vec<Vec<Op>>,
}

/// Work on other types that the same threads do in between.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Guest {
    pub prog: Program,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum FaultKind {
    /// the n-th user-scalar operation of the call panics
    Scalar(u64),
    /// same, and the calling thread dies with it
    Death(u64),
    /// the n-th solver call of the operation reports this status instead of working
    SolverInfo(u32, i32),
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub tid: u32,
    pub op: u32,
    pub kind: FaultKind,
}

/// Index and value type facts of a combination.
#[derive(Clone, Copy, Debug)]
pub struct Ci {
    pub name: &'static str,
    pub imax: i64,
    pub signed: bool,
    /// values must stay small (machine floats or checked integers)
    pub bounded: bool,
    pub cplx: bool,
    /// user-defined scalar: faults can be injected in arithmetic
    pub user: bool,
    /// num_complex scalars (left scaling available)
    pub c64: bool,
    pub pub_div: bool,
    /// floats: bits of the integers sums may reach and stay exact (0: no floats)
    pub exact: u32,
    /// the same for all bounded types
    pub cap: u32,
}

pub const COMBOS: &[Ci] = &[
    Ci { name: "usize,V64", imax: i64::MAX, signed: false, bounded: false, cplx: false, user: true, c64: false, pub_div: true, exact: 0, cap: 0 },
    Ci { name: "u8,V64", imax: 255, signed: false, bounded: false, cplx: false, user: true, c64: false, pub_div: true, exact: 0, cap: 0 },
    Ci { name: "i32,f64", imax: i32::MAX as i64, signed: true, bounded: true, cplx: false, user: false, c64: false, pub_div: false, exact: 53, cap: 53 },
    Ci { name: "usize,Cv", imax: i64::MAX, signed: false, bounded: false, cplx: true, user: true, c64: false, pub_div: false, exact: 0, cap: 0 },
    Ci { name: "i16,Complex64", imax: i16::MAX as i64, signed: true, bounded: true, cplx: true, user: false, c64: true, pub_div: false, exact: 53, cap: 53 },
    Ci { name: "usize,f64", imax: i64::MAX, signed: false, bounded: true, cplx: false, user: false, c64: false, pub_div: false, exact: 53, cap: 53 },
    Ci { name: "i8,f32", imax: 127, signed: true, bounded: true, cplx: false, user: false, c64: false, pub_div: false, exact: 24, cap: 24 },
    Ci { name: "u16,Complex<f32>", imax: 65535, signed: false, bounded: true, cplx: true, user: false, c64: false, pub_div: false, exact: 24, cap: 24 },
    Ci { name: "u32,i64", imax: u32::MAX as i64, signed: false, bounded: true, cplx: false, user: false, c64: false, pub_div: false, exact: 0, cap: 63 },
    Ci { name: "i128,i32", imax: i64::MAX, signed: true, bounded: true, cplx: false, user: false, c64: false, pub_div: false, exact: 0, cap: 31 },
];

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub tags: Vec<String>,
    pub tid: u32,
    pub op: u32,
    pub k: String,
    pub msg: String,
}

pub fn owners(k: K, kinds: &[Kind]) -> Vec<&'static str> {
    let dok = kinds.first() == Some(&Kind::Dok);
    let mut v: Vec<&'static str> = match k {
        K::Nop | K::Drop => vec![],
        K::CooNew | K::CsrNew | K::CscNew | K::Diag | K::Ident | K::CooSize | K::CsrSize | K::MakeVec => vec!["C20", "C14"],
        K::FromDense => vec!["C05", "C20"],
        K::DokNew => vec!["C03"],
        K::Push | K::Extend | K::SetVal | K::Clone => vec!["C20"],
        K::Conv | K::Transpose | K::T | K::Shape => vec!["C05"],
        K::Sort | K::SumDup | K::Prune | K::Pred => vec!["C06"],
        K::Neg => vec!["C07"],
        K::Add | K::Sub => vec!["C07"],
        K::MatVec | K::MatMul | K::MulCscCsr | K::Scale => vec!["C08"],
        K::LScale => vec!["C08", "C11"],
        K::Select | K::Get | K::Diagonal | K::Upper => vec!["C09"],
        K::Stack | K::CsrHStack | K::Compose | K::Compose3 | K::CscCompose => vec!["C10"],
        K::ToString => vec!["C16"],
        K::Table => vec!["C16", "C21"],
        K::DSet | K::DAdd | K::DSub | K::DGet | K::DNnz | K::DIter => vec!["C03"],
        K::GCc | K::GFlag => vec!["C12"],
        K::GDfs => vec!["C13"],
        K::CReal | K::CImag | K::CConj | K::CH | K::CWithReal | K::CWithImag => vec!["C11"],
        K::KBin => vec!["C07", "C19"],
        K::KMv | K::KScale | K::KMm => vec!["C08", "C19"],
        K::KElim | K::KSum | K::KSort | K::KPred => vec!["C06", "C19"],
        K::KTocsc | K::KDense | K::KTocoo | K::KCooTocsr => vec!["C05", "C19"],
        K::KDiag | K::KSub | K::KSelect | K::KRowIdx | K::KRowSl | K::KColIdx => vec!["C09", "C19"],
        K::KCount => vec!["C19"],
        K::Eigs => vec!["C17"],
        K::Broken => vec!["C02"],
    };
    if dok && !v.contains(&"C03") {
        v.push("C03");
    }
    v
}

static UNIT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

/// What one unit of a machine-float value is in the current run.
pub fn unit() -> f64 {
    (UNIT.load(std::sync::atomic::Ordering::Relaxed) as f64).exp2()
}
pub fn set_unit(exp: i32) {
    UNIT.store(exp, std::sync::atomic::Ordering::Relaxed);
}

/// 64-bit digest of a result, for exact comparison between runs.
pub fn digest<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                let mut z = self.0 ^ u64::from_le_bytes(x);
                z = (z ^ (z >> 32)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                self.0 = (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (b.len() as u64);
            }
        }
    }
    let mut h = H(0x1234_5678);
    t.hash(&mut h);
    h.0
}

pub fn out_digest(o: &Out) -> u64 {
    match o {
        Out::Err(_) => 1,
        Out::Panic(_) => 2,
        Out::Injected => 3,
        Out::Ok(r) => match r {
            Res::Unit => 4,
            Res::Mat(m) => digest(&(5u8, m)),
            Res::Vect(v, b) => digest(&(6u8, v, b)),
            Res::Bools(v) => digest(&(7u8, v)),
            Res::Nums(v) => digest(&(8u8, v)),
            Res::Str(s) => digest(&(9u8, s)),
            Res::Labels(n, v) => digest(&(10u8, n, v)),
            Res::Order(a, b) => digest(&(11u8, a, b)),
            Res::NumMat(n, m) => digest(&(12u8, n, m)),
            Res::Eigs(..) => 13,
        },
    }
}
