//! The index/scalar type combinations the workload runs on.
use crate::exec::{dup, Obj, Val, Val1};
use crate::scalars::{Cv, V64};
use model::*;
use num_complex::{Complex, Complex64};
use sparsetools::coo::CCoo;
use sparsetools::csc::CCSC;
use sparsetools::csr::{CCSR, CSR};
use sparsetools::*;
use std::hash::Hash;
use std::ops::Neg;

type O<C> = Obj<<C as Combo>::I, <C as Combo>::T>;

pub trait Combo: Sized + 'static {
    type I: Integer + Hash + Send + Sync + 'static;
    type T: Scalar + Neg<Output = Self::T> + Val1 + Send + Sync + 'static;
    type R: Scalar + Val1 + Send + Sync + 'static;
    fn t(g: G) -> Self::T;
    /// a vector or scalar that multiplies: never scaled
    fn t1(g: G) -> Self::T {
        Self::t(g)
    }
    fn r(g: G) -> Self::R;
    fn lscale(_s: G, _o: &O<Self>, _mode: i64) -> Result<Val<Self>, String> {
        panic!("workload: left scaling")
    }
    fn cplx(_op: &Op, _o: &O<Self>) -> Result<Val<Self>, String> {
        panic!("workload: complex operation")
    }
    fn with(_m: CSR<Self::I, Self::R>, _real: bool) -> CSR<Self::I, Self::T> {
        panic!("workload: complex constructor")
    }
    fn ord(_op: &Op, _x: &CSR<Self::I, Self::T>, _y: &CSR<Self::I, Self::T>, _n: usize) -> Result<Raw, String> {
        panic!("workload: ordered operation")
    }
    fn eigs(_op: &Op, _o: &O<Self>) -> Result<Val<Self>, String> {
        panic!("workload: eigs")
    }
}

const EXACT: f64 = 9.0e15;
const EXACT32: f64 = 16777217.0;

impl Val1 for V64 {
    fn g(self) -> Option<G> {
        Some(G(self.0, 0))
    }
}
impl Val1 for Cv {
    fn g(self) -> Option<G> {
        Some(G(self.0, self.1))
    }
}
impl Val1 for i64 {
    fn g(self) -> Option<G> {
        Some(G(self, 0))
    }
}
impl Val1 for i32 {
    fn g(self) -> Option<G> {
        Some(G(self as i64, 0))
    }
}
impl Val1 for f64 {
    fn f(self) -> [f64; 2] {
        [self as f64 / simrt::unit().0, 0.0]
    }
    fn g(self) -> Option<G> {
        let v = self / simrt::unit().0;
        if v.fract() == 0.0 && v.abs() < EXACT {
            Some(G(v as i64, 0))
        } else {
            None
        }
    }
}
impl Val1 for f32 {
    fn f(self) -> [f64; 2] {
        [self as f64 / simrt::unit().0, 0.0]
    }
    fn g(self) -> Option<G> {
        let v = self as f64 / simrt::unit().0;
        if v.fract() == 0.0 && v.abs() < EXACT32 {
            Some(G(v as i64, 0))
        } else {
            None
        }
    }
}
impl<F: Val1> Val1 for Complex<F> {
    fn f(self) -> [f64; 2] {
        [self.re.f()[0], self.im.f()[0]]
    }
    fn g(self) -> Option<G> {
        match (self.re.g(), self.im.g()) {
            (Some(a), Some(b)) => Some(G(a.0, b.0)),
            _ => None,
        }
    }
}

fn scaled(v: i64) -> f64 {
    let (u, z) = simrt::unit();
    if v == 0 { z } else { v as f64 * u }
}

impl Val1 for bool {
    fn g(self) -> Option<G> {
        Some(G(self as i64, 0))
    }
}

macro_rules! ordered {
    () => {
        fn ord(op: &Op, x: &CSR<Self::I, Self::T>, y: &CSR<Self::I, Self::T>, n: usize) -> Result<Raw, String> {
            let mut cp = vec![crate::exec::ix::<Self::I>(0); x.rows() + 1];
            let mut cj = vec![crate::exec::ix::<Self::I>(0); n];
            let mut ct = vec![Self::t(G::Z); n];
            let mut cb = vec![false; n];
            let p = &op.p;
            macro_rules! call {
                ($fun:ident, $c:expr, $op:expr) => {{
                    if p[1] == 0 {
                        $fun(x.rows(), x.cols(), x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut cp, &mut cj, &mut $c);
                    } else {
                        let o: Binop<Self::T, _> = $op;
                        let f = if p[1] == 1 { csr_binop_csr_canonical } else { csr_binop_csr_general };
                        f(x.rows(), x.cols(), x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut cp, &mut cj, &mut $c, o);
                    }
                    let mut r = Raw::empty(Kind::Csr, x.rows(), x.cols());
                    r.ptr = cp.iter().map(|v| num_traits::ToPrimitive::to_i64(v).unwrap_or(-1)).collect();
                    let nnz = (*r.ptr.last().unwrap()).max(0) as usize;
                    r.nnz = nnz as i64;
                    let k = nnz.min(n);
                    r.idx = cj[..k].iter().map(|v| num_traits::ToPrimitive::to_i64(v).unwrap_or(-1)).collect();
                    r.vals = $c[..k].iter().map(|v| v.g().unwrap_or(G(i64::MIN, 0))).collect();
                    Ok(r)
                }};
            }
            match p[0] {
                2 => call!(csr_lt_csr, cb, |a, b| a < b),
                3 => call!(csr_le_csr, cb, |a, b| a <= b),
                4 => call!(csr_gt_csr, cb, |a, b| a > b),
                5 => call!(csr_ge_csr, cb, |a, b| a >= b),
                10 => call!(csr_max_csr, ct, |a, b| if a > b { a } else { b }),
                _ => call!(csr_min_csr, ct, |a, b| if a < b { a } else { b }),
            }
        }
    };
}

macro_rules! complex {
    ($f:ty) => {
        fn cplx(op: &Op, o: &O<Self>) -> Result<Val<Self>, String> {
            Ok(match (o, op.k) {
                (Obj::Coo(m), K::CReal) => Val::Re(Obj::Coo(CCoo::<Self::I, $f>::real(m))),
                (Obj::Coo(m), K::CImag) => Val::Re(Obj::Coo(CCoo::<Self::I, $f>::imag(m))),
                (Obj::Coo(m), K::CConj) => Val::Obj(Obj::Coo(CCoo::<Self::I, $f>::conj(m))),
                (Obj::Coo(m), _) => Val::Obj(Obj::Coo(CCoo::<Self::I, $f>::h(m))),
                (Obj::Csr(m), K::CReal) => Val::Re(Obj::Csr(CCSR::<Self::I, $f, Self::T>::real(m))),
                (Obj::Csr(m), K::CImag) => Val::Re(Obj::Csr(CCSR::<Self::I, $f, Self::T>::imag(m))),
                (Obj::Csr(m), K::CConj) => Val::Obj(Obj::Csr(CCSR::<Self::I, $f, Self::T>::conj(m))),
                (Obj::Csr(m), _) => Val::Obj(Obj::Csc(CCSR::<Self::I, $f, Self::T>::h(m))),
                (Obj::Csc(m), K::CReal) => Val::Re(Obj::Csc(CCSC::<Self::I, $f, Self::T>::real(m))),
                (Obj::Csc(m), K::CImag) => Val::Re(Obj::Csc(CCSC::<Self::I, $f, Self::T>::imag(m))),
                (Obj::Csc(m), K::CConj) => Val::Obj(Obj::Csc(CCSC::<Self::I, $f, Self::T>::conj(m))),
                (Obj::Csc(m), _) => Val::Obj(Obj::Csr(CCSC::<Self::I, $f, Self::T>::h(m))),
                _ => panic!("workload: complex operation"),
            })
        }
        fn with(m: CSR<Self::I, $f>, real: bool) -> CSR<Self::I, Self::T> {
            if real {
                <CSR<Self::I, Self::T> as CCSR<Self::I, $f, Self::T>>::with_real(&m)
            } else {
                <CSR<Self::I, Self::T> as CCSR<Self::I, $f, Self::T>>::with_imag(&m)
            }
        }
    };
}

macro_rules! real_combo {
    ($name:ident, $i:ty, $t:ty, $t_of:expr, $t1:expr, $($more:tt)*) => {
        pub struct $name;
        impl Combo for $name {
            type I = $i;
            type T = $t;
            type R = $t;
            fn t(g: G) -> $t {
                $t_of(g)
            }
            fn t1(g: G) -> $t {
                $t1(g)
            }
            fn r(g: G) -> $t {
                $t_of(g)
            }
            $($more)*
        }
    };
}

real_combo!(UsizeV, usize, V64, |g: G| V64(g.0), |g: G| V64(g.0), ordered!(););
real_combo!(U8V, u8, V64, |g: G| V64(g.0), |g: G| V64(g.0), ordered!(););
real_combo!(I32F, i32, f64, |g: G| scaled(g.0), |g: G| g.0 as f64, ordered!(););
real_combo!(I8F, i8, f32, |g: G| scaled(g.0) as f32, |g: G| g.0 as f32, ordered!(););

real_combo!(U32I, u32, i64, |g: G| g.0, |g: G| g.0, ordered!(););
real_combo!(I128I, i128, i32, |g: G| g.0 as i32, |g: G| g.0 as i32, ordered!(););

pub struct UsizeC;
impl Combo for UsizeC {
    type I = usize;
    type T = Cv;
    type R = V64;
    fn t(g: G) -> Cv {
        Cv(g.0, g.1)
    }
    fn r(g: G) -> V64 {
        V64(g.0)
    }
    complex!(V64);
}

macro_rules! float_complex {
    ($name:ident, $i:ty, $f:ty, $($more:tt)*) => {
        pub struct $name;
        impl Combo for $name {
            type I = $i;
            type T = Complex<$f>;
            type R = $f;
            fn t(g: G) -> Complex<$f> {
                Complex::new(scaled(g.0) as $f, scaled(g.1) as $f)
            }
            fn t1(g: G) -> Complex<$f> {
                Complex::new(g.0 as $f, g.1 as $f)
            }
            fn r(g: G) -> $f {
                scaled(g.0) as $f
            }
            complex!($f);
            $($more)*
        }
    };
}

float_complex!(U16C, u16, f32,);
float_complex!(I16C, i16, f64,
    fn lscale(s: G, o: &O<Self>, mode: i64) -> Result<Val<Self>, String> {
        let s: Complex64 = Self::t1(s);
        Ok(Val::Obj(match o {
            Obj::Csr(m) if mode == 0 => Obj::Csr(s * m),
            Obj::Csr(m) => Obj::Csr(s * m.clone()),
            Obj::Csc(m) if mode == 0 => Obj::Csc(s * m),
            Obj::Csc(m) => Obj::Csc(s * dup(m)),
            _ => panic!("workload: left scaling"),
        }))
    }
);

real_combo!(UsizeF, usize, f64, |g: G| scaled(g.0), |g: G| g.0 as f64,
    ordered!();
    fn eigs(op: &Op, o: &O<Self>) -> Result<Val<Self>, String> {
        let m = match o {
            Obj::Csc(m) => m,
            _ => panic!("workload: eigs"),
        };
        let nev = op.p[0].max(0) as usize;
        let bad = op.p.get(1).copied().unwrap_or(0);
        // the same problem scaled by a power of two, which is exact
        let s = (op.p.get(2).copied().unwrap_or(0) as f64).exp2();
        let scaled;
        let m = if s != 1.0 {
            scaled = sparsetools::csc::CSC::new(m.rows(), m.cols(), m.rowidx().to_vec(), m.colptr().to_vec(), m.values().iter().map(|v| v * s).collect())
                .map_err(|e| e.to_string())?;
            &scaled
        } else {
            m
        };
        let r = if bad != 0 && m.nnz() > 0 {
            // a stored row index outside the matrix: the product fails part-way
            let mut idx = m.rowidx().to_vec();
            let k = (bad as usize - 1) % idx.len();
            idx[k] = m.rows() + 3;
            let b = sparsetools::csc::CSC::new(m.rows(), m.cols(), idx, m.colptr().to_vec(), m.values().to_vec()).map_err(|e| e.to_string())?;
            sparsetools::eigen::real::eigs(&b, nev)
        } else {
            sparsetools::eigen::real::eigs(m, nev)
        };
        let (d, z) = r.map_err(|e| e.to_string())?;
        let d: Vec<(f64, f64)> = d.iter().map(|c| (c.re / s, c.im / s)).collect();
        let z = (0..z.rows()).map(|i| (0..z.cols()).map(|j| (z[(i, j)].re, z[(i, j)].im)).collect()).collect();
        Ok(Val::Eigs(d, z))
    }
);
