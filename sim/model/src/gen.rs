//! Seeded generation of programs: what shared objects exist, what each caller
//! does with them, in which order. Everything comes from the one generator
//! handed in; nothing is read from anywhere else.
use crate::*;

/// Minimal interface of the random source (the simulator's generator).
pub trait Rand {
    fn next(&mut self) -> u64;
    fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
}

#[derive(Clone, Debug)]
struct S {
    id: u32,
    kind: Kind,
    r: usize,
    c: usize,
    /// upper bound of stored entries
    n: usize,
    canon: bool,
    sym: bool,
    locked: bool,
    /// magnitude bound, in bits
    bits: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Vs {
    Tiny,
    Small,
    Unique,
    Big,
    Pow,
}

struct Gen<'a, R: Rand> {
    rng: &'a mut R,
    ci: &'static Ci,
    dims: Vec<usize>,
    max_nnz: usize,
    vs: Vs,
    ops: Vec<Op>,
    slots: Vec<S>,
    base: u32,
    bad: u64,
    uniq: i64,
    weights: Vec<(K, u32)>,
    limit: usize,
    force: Option<Kind>,
    /// chance in 100 that a call is followed by one with a malformed operand
    brk: u64,
    /// calls to be repeated many times over
    reps: u32,
    /// shapes no array of that length exists for
    vast: bool,
    /// large operands, for what a call costs
    cost: bool,
    /// how many bits large values differ in size by
    spread: usize,
    /// How many of the ordered compressed forms get a flaw, in percent.
    flaws: u64,
}

/// Operations that may be asked of matrices of any shape.
pub const ANY_SHAPE: [K; 22] = {
    use K::*;
    [CooNew, CooSize, DokNew, Push, Extend, SetVal, Clone, Drop, Conv, T, Transpose, Shape, Neg, Upper, Stack, Compose, Compose3, ToString, DSet, DAdd, DSub, DGet]
};

/// What is also asked of compressed matrices with one huge dimension, the one
/// there is no pointer array for.
pub const WIDE: [K; 14] = {
    use K::*;
    [CsrNew, CscNew, CsrSize, Conv, T, Transpose, Shape, Neg, Clone, Sort, SumDup, Pred, Get, SetVal]
};
/// Pointer arrays in such programs are no longer than this.
pub const NARROW: usize = 100_000;

/// Operation kinds a property's programs concentrate on.
pub fn mains(prop: &str) -> Vec<(K, u32)> {
    use K::*;
    match prop {
        "C03" => vec![(DokNew, 2), (DSet, 8), (DAdd, 8), (DSub, 8), (DGet, 5), (DNnz, 3), (DIter, 3), (Conv, 6), (ToString, 2), (FromDense, 1)],
        "C04" => vec![
            (Select, 6), (Table, 2), (GDfs, 6), (GCc, 6), (GFlag, 2), (KBin, 4), (KCount, 2), (DokNew, 2), (DSet, 2), (DAdd, 2), (Conv, 6), (Compose, 1),
            (CscCompose, 1), (MatMul, 6), (Add, 3), (ToString, 2), (KColIdx, 2), (KMm, 2), (Sort, 2), (SumDup, 2), (MatVec, 2), (Diagonal, 1), (Stack, 1),
            (CsrHStack, 1), (Upper, 1), (Get, 1), (SetVal, 2), (KElim, 1), (KSum, 1),
        ],
        "C05" => vec![(Conv, 20), (Transpose, 3), (T, 3), (FromDense, 3), (KTocsc, 3), (KDense, 2), (KTocoo, 2), (KCooTocsr, 2), (Shape, 1)],
        "C06" => vec![(Sort, 5), (SumDup, 5), (Prune, 2), (Pred, 5), (KElim, 3), (KSum, 3), (KSort, 3), (KPred, 3)],
        "C07" => vec![(Add, 8), (Sub, 8), (Neg, 3), (KBin, 12)],
        "C08" => vec![(MatVec, 7), (MatMul, 7), (MulCscCsr, 2), (Scale, 3), (LScale, 2), (KMv, 5), (KScale, 3), (KMm, 4)],
        "C09" => vec![(Select, 10), (Get, 4), (Diagonal, 5), (Upper, 3), (KDiag, 3), (KSub, 3), (KRowIdx, 2), (KRowSl, 2), (KColIdx, 4), (KSelect, 3)],
        "C10" => vec![(Stack, 6), (CsrHStack, 3), (Compose, 4), (Compose3, 3), (CscCompose, 3)],
        "C11" => vec![(CReal, 4), (CImag, 4), (CConj, 4), (CH, 4), (CWithReal, 3), (CWithImag, 3), (LScale, 3), (Add, 1), (Scale, 1)],
        "C12" => vec![(GCc, 10), (GFlag, 5)],
        "C13" => vec![(GDfs, 10)],
        "C22" => vec![
            (Conv, 4), (SumDup, 3), (Add, 4), (Sub, 3), (MatVec, 6), (MatMul, 6), (MulCscCsr, 2), (Scale, 2), (LScale, 1), (KBin, 4), (KMv, 5), (KMm, 3),
            (KScale, 2), (KSum, 2), (KDense, 1), (KDiag, 1), (Diagonal, 1), (Get, 1), (CsrHStack, 1),
        ],
        "C16" => vec![(ToString, 8), (Table, 8)],
        "C21" => vec![(Table, 8)],
        "C19" => vec![
            (KBin, 8), (KMv, 6), (KScale, 3), (KElim, 3), (KSum, 3), (KSort, 3), (KTocsc, 3), (KDense, 3), (KMm, 4), (KDiag, 3), (KSub, 3), (KRowIdx, 3),
            (KRowSl, 3), (KColIdx, 4), (KCount, 4), (KTocoo, 3), (KCooTocsr, 3), (KPred, 3), (KSelect, 4),
        ],
        "C20" => vec![
            (CooNew, 3), (CsrNew, 3), (CscNew, 3), (FromDense, 3), (Diag, 3), (Ident, 2), (CooSize, 2), (CsrSize, 2), (Push, 6), (Extend, 5), (SetVal, 8), (Clone, 4),
            (Neg, 2), (Transpose, 2), (T, 2), (Conv, 3), (Shape, 1),
        ],
        "C17" | "C18" => vec![(Eigs, 1)],
        _ => general(),
    }
}

fn general() -> Vec<(K, u32)> {
    use K::*;
    vec![
        (CooNew, 1), (CsrNew, 1), (CscNew, 1), (FromDense, 1), (Diag, 1), (Ident, 1), (DokNew, 1), (Push, 2), (Extend, 2), (SetVal, 4), (Clone, 2), (Drop, 2),
        (Conv, 8), (Transpose, 2), (T, 2), (Shape, 1), (Sort, 3), (SumDup, 3), (Prune, 1), (Pred, 2), (Neg, 2), (Add, 4), (Sub, 4), (MatVec, 4), (MatMul, 4),
        (MulCscCsr, 1), (Scale, 2), (LScale, 1), (Select, 5), (Get, 2), (Diagonal, 3), (Upper, 2), (Stack, 2), (CsrHStack, 2), (Compose, 1), (Compose3, 1),
        (CscCompose, 1), (ToString, 2), (Table, 3), (DSet, 4), (DAdd, 4), (DSub, 3), (DGet, 2), (DNnz, 1), (DIter, 1), (GCc, 4), (GDfs, 3), (GFlag, 2), (CReal, 1),
        (CImag, 1), (CConj, 1), (CH, 1), (CWithReal, 1), (CWithImag, 1), (KBin, 4), (KMv, 2), (KScale, 1), (KElim, 1), (KSum, 1), (KSort, 1), (KTocsc, 1),
        (KDense, 1), (KMm, 1), (KDiag, 1), (KSub, 1), (KRowIdx, 1), (KRowSl, 1), (KColIdx, 1), (KCount, 1), (KTocoo, 1), (KCooTocsr, 1), (KPred, 1), (KSelect, 1),
    ]
}

/// One program for a property's check.
pub fn program<R: Rand>(rng: &mut R, prop: &str) -> Program {
    let eigs = match prop {
        "C17" | "C18" => 100,
        "C01" | "C02" | "C15" => 8,
        "C04" => 5,
        _ => 0,
    };
    if rng.pct(eigs) {
        return eigs_program(rng, prop);
    }
    let combo = match prop {
        "C11" => [3, 3, 4, 7][rng.us(4)],
        "C21" => [2, 4, 5, 6, 7][rng.us(5)],
        "C22" => [2, 4, 4, 5, 5, 6, 7][rng.us(7)],
        "C16" => [0, 1, 2, 3, 4, 4, 6, 7, 8, 9][rng.us(10)],
        "C01" | "C02" => [0, 0, 0, 1, 3, 3, 2, 4][rng.us(8)],
        _ => [0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9][rng.us(14)],
    };
    let ci = &COMBOS[combo];
    // size class
    let graphs = matches!(prop, "C12" | "C13");
    let class = rng.below(1000);
    // the cost of a call only shows on larger operands
    let cost = prop == "C23" && rng.pct(40);
    let class = if cost && rng.pct(15) { 998 } else { class };
    let class = if graphs && class >= 992 { 999 } else { class };
    // what earlier calls leave behind shows on longer rows and more of them
    // the forms of a matrix matter most where they are converted
    let class = if (graphs || prop == "C14") && (880..935).contains(&class) { 950 } else { class };
    let class = if prop == "C05" && ci.imax > 1 << 41 && (760..800).contains(&class) { 990 } else { class };
    let class = if prop == "C06" && (880..935).contains(&class) { 950 } else { class };
    let worn = prop == "C04" && ci.imax > 2000 && (680..800).contains(&class);
    let (mut deep, mut vast) = (false, false);
    let (dims, max_nnz, nops): (Vec<usize>, usize, usize) = match class {
        _ if cost && class < 998 => {
            let d = match rng.below(3) {
                0 => vec![[1000, 4000, 30_000, 65_536][rng.us(4)]],
                1 => (0..3).map(|_| [1, 2, 3, 30_000][rng.us(4)]).collect(),
                _ => (0..2).map(|_| [64, 128, 300, 1000, 4000][rng.us(5)]).collect(),
            };
            (d, [2000, 20_000][rng.us(2)], 2 + rng.us(4))
        }
        _ if worn => ((0..1 + rng.us(2)).map(|_| [257, 300, 520, 600, 800, 1030][rng.us(6)]).collect(), [500, 800, 1100][rng.us(3)], 8 + rng.us(8)),
        0..=539 => ((0..3).map(|_| [0, 1, 1, 2, 2, 3, 3, 4, 5, 6][rng.us(10)]).collect(), 24, 10 + rng.us(40)),
        540..=799 => ((0..3).map(|_| [0, 1, 2, 5, 7, 8, 9, 12, 16, 17][rng.us(10)]).collect(), 60, 8 + rng.us(20)),
        800..=934 => ((0..3).map(|_| [1, 3, 16, 20, 31, 32, 33, 40, 64, 65][rng.us(10)]).collect(), 300, 6 + rng.us(12)),
        935..=964 => ((0..2).map(|_| [2, 100, 128, 129, 200, 255, 256, 257, 300, 600, 1030][rng.us(11)]).collect(), 1600, 4 + rng.us(6)),
        965..=982 => ((0..3).map(|_| [3, 40, 1000, 4097, 65535, 65536, 65537, 70000][rng.us(8)]).collect(), if rng.pct(20) { 3000 } else { 250 }, 2 + rng.us(4)),
        988..=995 if ci.imax > 1 << 41 => {
            vast = true;
            let mut d: Vec<usize> = (0..3).map(|_| [5, 70_000, 1 << 31, 1 << 32, (1 << 32) + 3, (1 << 32) + 3, 1 << 40, 1 << 40][rng.us(8)]).collect();
            d[0] = d[0].min([1, 2, 5, 5, 1 << 40][rng.us(5)]);
            (d, [3, 4, 8, 60][rng.us(4)], 6 + rng.us(20))
        }
        // more entries than sixteen bits can count
        983..=987 if ci.imax > 70_000 && rng.pct(70) => ([vec![1, 300, 70_000], vec![400], vec![3, 30_000]][rng.us(3)].clone(), 90_000, 2 + rng.us(3)),
        996..=997 if rng.pct(50) => ((0..3).map(|_| [1, 2, 3, 30_000][rng.us(4)]).collect(), 20_000, 2 + rng.us(4)),
        983..=997 => ((0..2).map(|_| [64, 100, 128, 300, 1000][rng.us(5)]).collect(), 20_000, 2 + rng.us(4)),
        _ => {
            deep = true;
            (vec![[3000, 3000, 9000, 9000, 20_000, 40_000, 80_000, 80_000, 80_000][rng.us(if graphs { 9 } else { 7 })]], 400_000, 1 + rng.us(3))
        }
    };
    let mut dims: Vec<usize> = dims.into_iter().map(|d| d.min(ci.imax as usize)).collect();
    // few long lines, for flaws far inside them
    if prop == "C06" && (935..965).contains(&class) && rng.pct(60) {
        dims[0] = 1 + rng.us(2);
        dims.push([129, 300, 600, 1030][rng.us(4)].min(ci.imax as usize));
    }
    let vs = match rng.below(10) {
        5 | 6 if prop == "C21" => Vs::Big,
        0..=7 if prop == "C22" => Vs::Big,
        0..=3 => Vs::Tiny,
        4..=6 => Vs::Small,
        7 => Vs::Unique,
        8 if ci.bounded && prop != "C21" && rng.pct(60) => Vs::Unique,
        8 => Vs::Big,
        _ => Vs::Pow,
    };
    let vs = if ci.exact == 24 && vs == Vs::Unique { Vs::Small } else { vs };
    // machine floats at other magnitudes, with negative zeros
    let scale = if ci.exact > 0 && rng.pct(if prop == "C21" { 70 } else { 15 }) {
        if ci.exact == 24 { [-40, -41, -90, -91, 60, -3, -12][rng.us(7)] } else { [-40, -41, -70, -301, -1000, 600, 601, -3, -20][rng.us(9)] }
    } else {
        0
    };
    let spread = if rng.pct(50) { 20 } else { [1, 20, 50][rng.us(3)].min(ci.cap as usize).max(1) };
    let nthreads = match prop {
        _ if deep => 1 + rng.us(2),
        "C01" => 2 + rng.us(3),
        _ if worn => 1 + rng.us(2),
        "C02" | "C04" => 1 + rng.us(3),
        _ => [1, 1, 1, 2, 2, 3][rng.us(6)],
    };
    // which operations this program is about
    let main = if cost {
        use K::*;
        vec![(Sort, 4), (SumDup, 4), (KSort, 4), (MatMul, 6), (KMm, 4), (KBin, 6), (Add, 4), (Conv, 6), (Select, 4), (T, 2), (KSum, 2), (KTocsc, 2), (KColIdx, 2), (Stack, 2), (Upper, 1), (Diagonal, 1), (ToString, 4), (DIter, 1)]
    } else {
        mains(prop)
    };
    let main = if worn { main.into_iter().filter(|x| worn_kind(x.0)).collect() } else { main };
    let mut weights: Vec<(K, u32)> = vec![];
    let narrow = rng.pct(if cost { 90 } else { 60 });
    let k = 1 + rng.us(4);
    if narrow {
        for _ in 0..k {
            let t = pick_w(rng, &main);
            weights.push((t, 60));
        }
        if matches!(main.first(), Some((K::CooNew, 1))) || rng.pct(60) {
            weights.extend(main.iter().map(|x| (x.0, x.1)));
        }
    } else {
        let tot: u32 = main.iter().map(|x| x.1).sum();
        weights.extend(main.iter().map(|x| (x.0, x.1 * 200 / tot.max(1) + 1)));
    }
    // edits, copies and everything else
    let edits: u32 = [0, 4, 15][rng.us(3)];
    for k in [K::SetVal, K::Push, K::Extend, K::Sort, K::SumDup, K::Drop, K::Clone] {
        if edits > 0 {
            weights.push((k, edits));
        }
    }
    if rng.pct(60) && !worn {
        weights.extend(general());
    }
    weights.retain(|x| possible(ci, x.0) && (scale == 0 || x.0 != K::Ident));
    if deep {
        let (a, b) = match prop {
            "C12" => (40, 10),
            "C13" => (6, 60),
            _ => (20, 20),
        };
        weights = vec![(K::GCc, a), (K::GDfs, b), (K::GFlag, 8), (K::Conv, 4), (K::T, 2), (K::KCount, 1)];
    }
    if vast {
        weights.retain(|x| ANY_SHAPE.contains(&x.0) || WIDE.contains(&x.0));
        weights.extend([(K::Push, 2), (K::DSet, 2), (K::Conv, 12), (K::Stack, 2), (K::T, 2), (K::Compose, 1), (K::Upper, 2), (K::Get, 2), (K::SumDup, 2)]);
    }
    if weights.is_empty() {
        weights.push((K::Conv, 1));
    }
    let bad = if prop == "C15" { 35 } else { [0, 5, 12][rng.us(3)] };

    let force = if prop == "C03" { Some(Kind::Dok) } else { None };
    let mut g = Gen { rng, ci, dims, max_nnz, vs, ops: vec![], slots: vec![], base: 0, bad: 0, uniq: 1, weights, limit: 1 + nops / 2, force, brk: 0, reps: 0, vast, cost, spread, flaws: if prop == "C06" { 30 } else { 12 } };
    // ---- shared objects
    let np = if deep { g.rng.us(2) } else { g.rng.us(6) };
    for _ in 0..np {
        g.create();
    }
    if g.rng.pct(60) {
        for _ in 0..g.rng.us(5) {
            g.step();
        }
    }
    let mut locked = vec![];
    if nthreads > 1 || g.rng.pct(10) {
        for s in g.slots.iter_mut() {
            let p = if s.kind == Kind::Dok { 60 } else { 12 };
            if g.rng.pct(p) {
                s.locked = true;
                s.canon = false;
                locked.push(s.id);
            }
        }
    }
    let prelude = std::mem::take(&mut g.ops);
    let shared = g.slots.clone();
    g.bad = bad;
    g.base = OWN;
    g.brk = match prop {
        "C02" => [0, 6, 20][g.rng.us(3)],
        "C01" | "C04" | "C15" => [0, 0, 6][g.rng.us(3)],
        _ => [0, 0, 0, 5][g.rng.us(4)],
    };
    g.reps = match prop {
        _ if class >= 965 => 0,
        "C04" => g.rng.pct(20) as u32 * 2,
        "C23" => g.rng.pct(15) as u32,
        _ => g.rng.pct(5) as u32,
    };
    let mut threads: Vec<Vec<Op>> = vec![];
    let per = (nops / nthreads).max(if deep { 1 } else { 3 });
    for t in 0..nthreads {
        g.slots = shared.clone();
        g.ops = vec![];
        g.limit = per + 6;
        // callers that do the same thing as the first one, on the same data
        if t > 0 && g.rng.pct(25) {
            let mut c = threads[0].clone();
            if g.rng.pct(50) && !c.is_empty() {
                let k = g.rng.us(c.len());
                for o in c.iter_mut().skip(k) {
                    if let Some(v) = o.v.first_mut() {
                        v.0 = v.0.wrapping_add(1);
                    }
                }
            }
            threads.push(c);
            continue;
        }
        let mut tries = 0;
        while g.ops.len() < per && tries < per * 6 {
            tries += 1;
            let n = g.ops.len();
            if n > 2 && g.rng.pct(8) {
                g.again();
            } else if n > 3 && g.rng.pct(if prop == "C04" { 8 } else { 2 }) {
                g.replace();
            } else {
                g.step();
            }
            if g.brk > 0 && g.ops.len() > n && g.rng.pct(g.brk) {
                g.spoil();
            }
            if g.reps > 0 && g.ops.len() > n && g.rng.pct(15) {
                let quiet = |o: &Op| !o.mutates() && !matches!(o.k, K::Drop | K::Broken);
                let times = match g.rng.us(9) {
                    8 => 240 + g.rng.us(20) as u32,
                    k => [130, 255, 256, 257, 300, 700, 5000, 66_000][k],
                };
                let o = g.ops.last_mut().unwrap();
                if quiet(o) {
                    g.reps -= 1;
                    o.n = times;
                    // the call before it once more, to end with
                    if n > 0 && g.rng.pct(50) && quiet(&g.ops[n - 1]) {
                        let o = g.ops[n - 1].clone();
                        g.emit(o);
                    }
                }
            }
        }
        threads.push(std::mem::take(&mut g.ops));
    }
    Program { combo: combo as u8, scale, prelude, locked, threads }
}

/// Operations with work arrays, on which earlier calls could leave their mark.
fn worn_kind(k: K) -> bool {
    use K::*;
    matches!(k, Select | GDfs | GCc | KBin | KCount | Conv | MatMul | Add | KColIdx | KMm | Sort | SumDup | DAdd)
}

/// Every entry has its mirror image.
fn mutual(l: &[[i64; 4]]) -> bool {
    let s: std::collections::HashSet<(i64, i64)> = l.iter().map(|e| (e[0], e[1])).collect();
    l.iter().all(|e| s.contains(&(e[1], e[0])))
}

fn possible(ci: &Ci, k: K) -> bool {
    match k {
        K::CReal | K::CImag | K::CConj | K::CH | K::CWithReal | K::CWithImag => ci.cplx,
        K::LScale => ci.c64,
        K::Eigs => false,
        _ => true,
    }
}

fn pick_w<R: Rand>(rng: &mut R, w: &[(K, u32)]) -> K {
    let tot: u64 = w.iter().map(|x| x.1 as u64).sum();
    let mut t = rng.below(tot.max(1));
    for x in w {
        if t < x.1 as u64 {
            return x.0;
        }
        t -= x.1 as u64;
    }
    w.first().map_or(K::Conv, |x| x.0)
}

impl<'a, R: Rand> Gen<'a, R> {
    fn dim(&mut self) -> usize {
        let k = self.rng.us(self.dims.len());
        self.dims[k]
    }
    fn val1(&mut self) -> i64 {
        match self.vs {
            Vs::Tiny => self.rng.range(-2, 2),
            Vs::Small => {
                let v = self.rng.range(-9, 9);
                if v == 0 && self.rng.pct(80) {
                    5
                } else {
                    v
                }
            }
            Vs::Unique => {
                self.uniq += 1 + self.rng.us(3) as i64;
                if self.uniq > 30_000 {
                    self.uniq = 2;
                }
                if self.rng.pct(15) { -self.uniq } else { self.uniq }
            }
            Vs::Big if self.ci.exact > 0 => {
                let v = (self.rng.next() >> (65 - self.ci.exact)) as i64 >> self.rng.us(self.spread);
                if self.rng.pct(50) { v } else { -v }
            }
            Vs::Big if self.ci.bounded => {
                let v = (self.rng.next() >> (64 - (self.ci.cap - 13))) as i64 >> self.rng.us(self.spread);
                if self.rng.pct(50) { v } else { -v }
            }
            Vs::Big => self.rng.next() as i64,
            Vs::Pow => {
                let b = self.rng.us(if self.ci.bounded { 12 } else { 62 });
                let v = 1i64 << b;
                if self.rng.pct(50) { v } else { -v }
            }
        }
    }
    fn val(&mut self) -> G {
        let re = self.val1();
        let im = if self.ci.cplx && self.rng.pct(70) { self.val1() } else { 0 };
        if self.ci.cplx && self.rng.pct(8) {
            return G(0, im);
        }
        if self.rng.pct(6) {
            return G::Z;
        }
        G(re, im)
    }
    fn bits(&self) -> u32 {
        match self.vs {
            Vs::Big => 64,
            Vs::Unique => 15,
            Vs::Pow => if self.ci.bounded { 12 } else { 62 },
            _ => 4,
        }
    }
    fn vals(&mut self, n: usize) -> Vec<G> {
        (0..n).map(|_| self.val()).collect()
    }
    /// Literal entries of an r x c matrix.
    fn lit(&mut self, r: usize, c: usize) -> Vec<[i64; 4]> {
        if r == 0 || c == 0 {
            return vec![];
        }
        let full = r.saturating_mul(c);
        if self.rng.pct(7) {
            return self.pattern(r, c);
        }
        let mut n = match self.rng.below(12) {
            0 => 0,
            1 => 1,
            2..=4 => r.max(c),
            5..=7 => full / 3 + 1,
            8 => full / 5 * 4 + 1,
            9 | 10 if full > 1_000_000 => 2 + self.rng.us(5),
            9 => full / 5 * 4 + 1,
            10 => full.saturating_mul(2),
            _ => 1 + self.rng.us(full),
        };
        n = n.min(self.max_nnz).min(self.ci.imax as usize);
        if self.ci.imax == 255 && full >= 128 && self.rng.pct(25) {
            n = 255;
        }
        let mut dup = [0, 0, 15, 50][self.rng.us(4)];
        let mut l: Vec<[i64; 4]> = vec![];
        // now and then one place has many entries
        let mut pile = 0;
        if self.rng.pct(3) {
            pile = [30, 90, 100][self.rng.us(3)];
            n = n.max([20, 40, 70, 140, 300, 1100][self.rng.us(6)]).min(self.ci.imax as usize);
            dup = dup.max(1);
        }
        let top = (self.rng.us(r) as i64, self.rng.us(c) as i64);
        // concentrate on a few rows or columns now and then
        let (mut rr, mut cc) = (if self.rng.pct(12) { 1 + self.rng.us(r) } else { r }, if self.rng.pct(12) { 1 + self.rng.us(c) } else { c });
        // nearly all in one or two
        if r.max(c) > 250 && self.rng.pct(if self.max_nnz > 50_000 { 60 } else { 25 }) {
            let k = 1 + self.rng.us(2);
            if self.rng.pct(50) {
                rr = rr.min(k);
                n = n.max(self.max_nnz.min(c.saturating_mul(k) * 9 / 10));
            } else {
                cc = cc.min(k);
                n = n.max(self.max_nnz.min(r.saturating_mul(k) * 9 / 10));
            }
            if self.max_nnz > 50_000 {
                n = self.max_nnz;
                dup = dup.max(1);
            }
            n = n.min(self.ci.imax as usize);
        }
        let mut seen = std::collections::BTreeSet::new();
        // the first of them, or the last
        let (off_r, off_c) = (if self.rng.pct(40) { (r - rr) as i64 } else { 0 }, if self.rng.pct(40) { (c - cc) as i64 } else { 0 });
        let edge = self.rng.pct(50);
        // a few indices large shapes have entries at more often, the same for all
        let hot = [0, 0, 10, 60][self.rng.us(4)];
        for _ in 0..n {
            let (mut i, mut j) = (off_r + self.rng.us(rr) as i64, off_c + self.rng.us(cc) as i64);
            if c > 250 && hot > 0 && self.rng.pct(hot) {
                j = [0, 1, c / 2, c - 2, c - 1][self.rng.us(5)] as i64;
            }
            if r > 250 && hot > 0 && self.rng.pct(hot) {
                i = [0, 1, r / 2, r - 2, r - 1][self.rng.us(5)] as i64;
            }
            // the far edges of large shapes
            if c > 250 && edge && self.rng.pct(15) {
                j = (c - 1 - self.rng.us(3)) as i64;
            }
            if r > 250 && edge && self.rng.pct(15) {
                i = (r - 1 - self.rng.us(3)) as i64;
            }
            if pile > 0 && self.rng.pct(pile) {
                (i, j) = top;
            } else if dup > 0 && !l.is_empty() && self.rng.pct(dup) {
                let k = self.rng.us(l.len());
                i = l[k][0];
                j = l[k][1];
            } else if dup == 0 && !seen.insert((i, j)) {
                continue;
            }
            let v = if dup > 0 && !l.is_empty() && self.rng.pct(15) {
                // cancels an earlier entry at the same place
                let k = self.rng.us(l.len());
                i = l[k][0];
                j = l[k][1];
                G(l[k][2], l[k][3]).neg()
            } else {
                self.val()
            };
            l.push([i, j, v.0, v.1]);
        }
        // long runs of one row or column, one after the other
        if self.rng.pct(8) {
            let (rows, mut k) = (self.rng.pct(50), 0);
            while k < l.len() {
                let m = 1 + self.rng.us(40);
                let x = self.rng.us(if rows { r } else { c }) as i64;
                for e in l.iter_mut().skip(k).take(m) {
                    if dup > 0 {
                        e[if rows { 0 } else { 1 }] = x;
                    }
                }
                k += m;
            }
            if dup == 0 {
                l.sort_by_key(|e| if rows { e[0] } else { e[1] });
            }
            return l;
        }
        match if self.cost && self.rng.pct(40) { 4 } else { self.rng.below(9) } {
            0 | 1 => l.sort_by_key(|e| (e[0], e[1])),
            2 | 3 => l.sort_by_key(|e| (e[1], e[0])),
            // lines made of a few sorted pieces, or sorted backwards
            4 => {
                let (a, b) = (self.rng.us(r) as i64, self.rng.us(c) as i64);
                l.sort_by_key(|e| (e[0], e[0] < a, e[1] < b, e[1]));
            }
            5 => l.sort_by_key(|e| (-e[0], -e[1])),
            _ => {}
        }
        l
    }
    /// Matrices of a plain structure, which shortcuts may look out for: diagonals,
    /// permutations, bands, triangles, full or equal rows; mostly of ones.
    fn pattern(&mut self, r: usize, c: usize) -> Vec<[i64; 4]> {
        let cap = self.max_nnz.min(self.ci.imax as usize);
        let (ri, ci) = (r as i64, c as i64);
        let d = r.min(c).min(cap) as i64;
        let mut e: Vec<(i64, i64)> = vec![];
        match self.rng.below(9) {
            0..=2 => e.extend((0..d).map(|x| (x, x))),
            3 => {
                // a permutation: a rotation, a reflection or any
                let mut p: Vec<i64> = (0..d).collect();
                match self.rng.below(3) {
                    0 => p.rotate_left(1.min(d as usize)),
                    1 => p.reverse(),
                    _ => {
                        for k in (1..d as usize).rev() {
                            p.swap(k, self.rng.us(k + 1));
                        }
                    }
                }
                e.extend(p.into_iter().enumerate().map(|(i, j)| (i as i64, j)));
            }
            4 => {
                let w = self.rng.range(1, 3);
                for i in 0..ri.min(cap as i64) {
                    e.extend(((i - w).max(0)..=(i + w).min(ci - 1)).map(|j| (i, j)));
                }
            }
            5 => {
                let m = (d as f64).sqrt() as i64 * 2 + 3;
                let up = self.rng.pct(50);
                for i in 0..ri.min(m) {
                    e.extend((0..ci.min(m)).filter(|&j| if up { j >= i } else { j <= i }).map(|j| (i, j)));
                }
            }
            // every row alike
            6 | 7 => {
                let js: Vec<i64> = (0..1 + self.rng.us(4)).map(|_| self.rng.us(c) as i64).collect();
                for i in 0..ri.min((cap / 4) as i64) {
                    e.extend(js.iter().map(|&j| (i, j)));
                }
            }
            // first row, first column and the diagonal
            _ => {
                e.extend((0..d).map(|x| (x, x)));
                e.extend((1..d).flat_map(|x| [(0, x), (x, 0)]));
            }
        }
        e.truncate(cap);
        let one = [100, 90, 90, 50, 0][self.rng.us(5)];
        let same = self.val();
        let eq = self.rng.pct(20);
        e.into_iter()
            .map(|(i, j)| {
                let v = if self.rng.pct(one) { G(1, 0) } else if eq { same } else { self.val() };
                [i, j, v.0, v.1]
            })
            .collect()
    }
    /// A graph: structured patterns for the graph operations.
    fn graph(&mut self, n: usize) -> (Vec<[i64; 4]>, bool) {
        if n == 0 {
            return (vec![], true);
        }
        let m = n as i64;
        let mut e: Vec<(i64, i64)> = vec![];
        let mut chains = false;
        let parts = 1 + self.rng.us(3);
        for _ in 0..parts {
            let a = self.rng.range(0, m - 1);
            let b = self.rng.range(a, m - 1);
            let (a, b) = if n > 64 && self.rng.pct(35) { (0, m - 1) } else { (a, b) };
            // long paths and rings for as large a graph
            let (a, b, w) = if n > 2000 && e.is_empty() { (0, m - 1 - self.rng.range(0, 1), [0, 0, 1, 1, 2, 3, 6, 8, 9, 10, 11][self.rng.us(11)]) } else { (a, b, [0, 1, 2, 3, 4, 5, 6, 7, 7, 11, 11][self.rng.us(if n > 64 { 11 } else { 10 })]) };
            chains |= w == 11;
            match w {
                0 => e.extend((a..b).map(|x| (x, x + 1))),
                1 => {
                    e.extend((a..b).map(|x| (x, x + 1)));
                    e.push((b, a));
                }
                2 => e.extend((a + 1..=b).map(|x| (a + (x - a - 1) / 2, x))),
                3 => e.extend((a + 1..=b).map(|x| (x, a + (x - a - 1) / 2))),
                4 => {
                    for x in a..=b.min(a + 5) {
                        for y in a..=b.min(a + 5) {
                            e.push((x, y));
                        }
                    }
                }
                5 => e.push((a, a)),
                6 => e.extend((a + 1..=b).map(|x| (a, x))),
                // a hub that is only reached, pairs, and hubs in a row
                8 => e.extend((a + 1..=b).map(|x| (x, a))),
                9 => e.extend((a..b).step_by(2).map(|x| (x, x + 1))),
                // joined one by one, always to the next lower node; at last the
                // upper end is joined to one of the lowest
                11 => {
                    let h = (b - a) / 2;
                    let c = a + h;
                    for k in 1..h {
                        e.push((c + k, c - k));
                        e.push((c + k, c - k + 1));
                    }
                    e.push((b, a));
                    e.push((b, c));
                    if self.rng.pct(40) {
                        e.iter_mut().for_each(|x| *x = (m - 1 - x.0, m - 1 - x.1));
                    }
                }
                10 => e.extend((a + 2..=b).flat_map(|x| [(a, x), (x, a + 1)])),
                _ => {
                    for _ in 0..self.rng.us(n + 2) {
                        e.push((self.rng.range(0, m - 1), self.rng.range(0, m - 1)));
                    }
                }
            }
        }
        for _ in 0..self.rng.us(4) {
            e.push((self.rng.range(0, m - 1), self.rng.range(0, m - 1)));
        }
        // relabel
        if self.rng.pct(if chains { 15 } else if n > 2000 { 35 } else { 60 }) {
            let mut p: Vec<i64> = (0..m).collect();
            for k in (1..n).rev() {
                let j = self.rng.us(k + 1);
                p.swap(k, j);
            }
            for x in e.iter_mut() {
                *x = (p[x.0 as usize], p[x.1 as usize]);
            }
        }
        let cap = self.max_nnz.min(self.ci.imax as usize) / 2;
        e.truncate(cap);
        let sym = self.rng.pct(45);
        if sym {
            let r: Vec<_> = e.iter().map(|x| (x.1, x.0)).collect();
            e.extend(r);
            e.sort();
            if self.rng.pct(80) {
                e.dedup();
            }
        }
        if self.rng.pct(50) {
            for k in (1..e.len()).rev() {
                let j = self.rng.us(k + 1);
                e.swap(k, j);
            }
        }
        let l = e.into_iter().map(|(i, j)| { let v = self.val(); [i, j, v.0, v.1] }).collect();
        (l, sym)
    }

    fn id(&self) -> u32 {
        self.base + self.ops.len() as u32
    }
    fn emit(&mut self, op: Op) -> u32 {
        let id = self.id();
        self.ops.push(op);
        id
    }
    #[allow(clippy::too_many_arguments)]
    fn put(&mut self, op: Op, kind: Kind, r: usize, c: usize, n: usize, canon: bool, sym: bool, bits: u32) -> usize {
        let id = self.emit(op);
        self.slots.push(S { id, kind, r, c, n, canon, sym, locked: false, bits });
        self.slots.len() - 1
    }

    /// Builds a new object of this kind and shape; index of its slot.
    fn build(&mut self, kind: Kind, r: usize, c: usize) -> usize {
        let bits = self.bits();
        // no pointer array as long as a huge dimension
        let (mut r, mut c) = (r, c);
        if self.vast && kind == Kind::Csr && r > NARROW {
            r = 1 + self.rng.us(6);
        }
        if self.vast && kind == Kind::Csc && c > NARROW {
            c = 1 + self.rng.us(6);
        }
        if kind == Kind::Vect {
            let v = self.vals(r);
            return self.put(Op { v, ..Op::new(K::MakeVec) }, kind, r, 1, r, true, false, bits);
        }
        let (mut l, sym) = if r == c && r < 200_000 && self.rng.pct(30) { self.graph(r) } else { (self.lit(r, c), false) };
        let n = l.len();
        let (ri, ci_) = (r as i64, c as i64);
        match kind {
            Kind::Coo => {
                if self.rng.pct(6) {
                    let cap = self.rng.range(-1, 5);
                    return self.put(Op::new(K::CooSize).p(&[ri, ci_, cap]), kind, r, c, 0, false, false, 0);
                }
                self.put(Op { l, ..Op::new(K::CooNew).p(&[ri, ci_, 0]) }, kind, r, c, n, false, sym, bits)
            }
            Kind::Csr | Kind::Csc => {
                if kind == Kind::Csr && self.rng.pct(4) {
                    return self.put(Op::new(K::CsrSize).p(&[ri, ci_]), kind, r, c, 0, true, true, 0);
                }
                if self.rng.pct(6) && r.saturating_mul(c) <= 4096 {
                    let w = if kind == Kind::Csr { 1 } else { 2 };
                    return self.put(Op { l, ..Op::new(K::FromDense).p(&[ri, ci_, w]) }, kind, r, c, n, true, false, bits);
                }
                // storage forms: canonical, sorted with repeats, unsorted
                let form = if self.cost && self.rng.pct(40) { 9 } else { self.rng.below(10) };
                if form < 7 {
                    if kind == Kind::Csr {
                        l.sort_by_key(|e| (e[0], e[1]))
                    } else {
                        l.sort_by_key(|e| (e[1], e[0]))
                    }
                }
                if form < 5 {
                    l.dedup_by_key(|e| (e[0], e[1]));
                }
                let flawed = form < 5 && self.rng.pct(self.flaws) && self.flaw(&mut l, kind == Kind::Csr);
                let n = l.len();
                let slack = if self.rng.pct(12) { self.rng.range(1, 4) } else { 0 };
                let k = if kind == Kind::Csr { K::CsrNew } else { K::CscNew };
                self.put(Op { l, ..Op::new(k).p(&[ri, ci_, slack, 0]) }, kind, r, c, n, form < 5 && !flawed, sym && !flawed, bits)
            }
            Kind::Dok => {
                if self.rng.pct(15) && r.saturating_mul(c) <= 4096 {
                    return self.put(Op { l, ..Op::new(K::FromDense).p(&[ri, ci_, 3]) }, kind, r, c, n, true, false, bits);
                }
                let cap = self.rng.range(-1, 5);
                l.truncate(if self.cost { 4000 } else { 200 });
                self.put(Op { l, ..Op::new(K::DokNew).p(&[ri, ci_, cap]) }, kind, r, c, n, true, false, bits)
            }
            _ => {
                // dense forms only come from conversions
                let s = self.build(Kind::Coo, r, c);
                let id = self.slots[s].id;
                self.put(Op::new(K::Conv).a(&[id]).p(&[4]), Kind::Dense, r, c, n, true, false, bits)
            }
        }
    }
    /// Puts one pair of neighbours in the longest line out of order, or makes
    /// them equal; often where blocks of a power of two meet.
    fn flaw(&mut self, l: &mut [[i64; 4]], csr: bool) -> bool {
        let (a, b) = if csr { (0, 1) } else { (1, 0) };
        let (mut best, mut from, mut k) = ((0, 0), 0, 0);
        while k < l.len() {
            if k == 0 || l[k][a] != l[k - 1][a] {
                from = k;
            }
            k += 1;
            if k - from > best.1 {
                best = (from, k - from);
            }
        }
        let (from, n) = best;
        if n < 2 {
            return false;
        }
        let mut at = 1 + self.rng.us(n - 1);
        if self.rng.pct(60) {
            let q = 1usize << self.rng.us((usize::BITS - (n - 1).leading_zeros()) as usize);
            at = q * (1 + self.rng.us((n - 1) / q));
        }
        let (x, y) = (from + at - 1, from + at);
        if self.rng.pct(30) {
            l[y][b] = l[x][b];
        } else {
            l.swap(x, y);
        }
        true
    }
    fn create(&mut self) {
        let kind = match self.force {
            Some(k) if self.rng.pct(70) => k,
            _ => self.any_kind(),
        };
        let (r, c) = (self.dim(), if self.rng.pct(30) { usize::MAX } else { self.dim() });
        let c = if c == usize::MAX { r } else { c };
        self.build(kind, r, c);
    }
    fn any_kind(&mut self) -> Kind {
        if self.vast {
            return [Kind::Coo, Kind::Dok, Kind::Coo, Kind::Csr][self.rng.us(4)];
        }
        [Kind::Coo, Kind::Coo, Kind::Csr, Kind::Csr, Kind::Csr, Kind::Csc, Kind::Csc, Kind::Dok][self.rng.us(8)]
    }
    fn compressed_kind(&mut self) -> Kind {
        if self.rng.pct(60) { Kind::Csr } else { Kind::Csc }
    }
    fn mat3(&mut self) -> Kind {
        if self.vast {
            return [Kind::Coo, Kind::Csr, Kind::Csc][self.rng.us(3)];
        }
        [Kind::Coo, Kind::Csr, Kind::Csr, Kind::Csc, Kind::Csc][self.rng.us(5)]
    }

    /// An operand: an existing object that fits, else a new one.
    fn obj(&mut self, kind: Kind, r: Option<usize>, c: Option<usize>, need: fn(&S) -> bool, nolock: bool) -> usize {
        if self.rng.pct(82) {
            let f: Vec<usize> = (0..self.slots.len())
                .filter(|&i| {
                    let s = &self.slots[i];
                    s.kind == kind && r.map_or(true, |x| x == s.r) && c.map_or(true, |x| x == s.c) && need(s) && !(nolock && s.locked)
                })
                .collect();
            if !f.is_empty() {
                // later objects more often
                let k = self.rng.us(f.len()).max(self.rng.us(f.len()));
                return f[k];
            }
        }
        let rr = r.unwrap_or_else(|| self.dim());
        let cc = c.unwrap_or_else(|| if self.rng.pct(25) { rr } else { self.dim() });
        self.build(kind, rr, cc)
    }
    fn any(&mut self, kind: Kind) -> usize {
        self.obj(kind, None, None, |_| true, false)
    }
    /// An object the caller may edit: its own, or a locked shared one.
    fn editable(&mut self, kind: Kind) -> usize {
        let base = self.base;
        let f: Vec<usize> = (0..self.slots.len()).filter(|&i| self.slots[i].kind == kind && (self.slots[i].id >= base || self.slots[i].locked)).collect();
        if !f.is_empty() && self.rng.pct(88) {
            let k = self.rng.us(f.len());
            return f[k];
        }
        let (r, c) = (self.dim(), self.dim());
        self.build(kind, r, c)
    }
    fn bad(&mut self) -> bool {
        self.bad > 0 && self.rng.pct(self.bad)
    }
    /// A dimension other than `d`.
    fn other(&mut self, d: usize) -> usize {
        for _ in 0..4 {
            let x = self.dim();
            if x != d {
                return x;
            }
        }
        if d > 0 && self.rng.pct(40) { d - 1 } else { (d + 1 + self.rng.us(3)).min(self.ci.imax as usize) }
    }
    fn index(&mut self, n: usize) -> i64 {
        if n == 0 { 0 } else if self.rng.pct(20) { [0, n as i64 - 1][self.rng.us(2)] } else { self.rng.us(n) as i64 }
    }
    fn bad_index(&mut self, n: usize) -> i64 {
        let x = match self.rng.below(5) {
            0 => n as i64,
            1 => n as i64 + 1 + self.rng.us(5) as i64,
            2 => self.ci.imax.min(1 << 40),
            3 => -1,
            _ => -(1 + self.rng.us(n + 3) as i64),
        };
        if x < 0 && !self.ci.signed { n as i64 } else { x.min(self.ci.imax) }
    }
    fn list(&mut self, n: usize) -> Vec<i64> {
        if n == 0 {
            return vec![];
        }
        let n = if n > 3000 && self.rng.below(4) > 0 { 1000 } else { n };
        match self.rng.below(6) {
            0 => vec![],
            1 => (0..n as i64).collect(),
            2 => (0..n as i64).rev().collect(),
            3 => {
                let k = 1 + self.rng.us(n);
                let mut v: Vec<i64> = (0..k).map(|_| self.rng.us(n) as i64).collect();
                v.sort();
                v
            }
            4 if self.rng.pct(12) => {
                // one or two of them many times
                let (x, y) = (self.rng.us(n) as i64, self.rng.us(n) as i64);
                let k = [10, 70, 260, 600][self.rng.us(4)];
                (0..k).map(|_| if self.rng.pct(60) { x } else { y }).collect()
            }
            _ => {
                let k = 1 + self.rng.us(n + 2);
                (0..k.min(80)).map(|_| self.rng.us(n) as i64).collect()
            }
        }
    }

    /// Repeats an earlier call, unchanged or with another scalar.
    fn again(&mut self) {
        let k = self.rng.us(self.ops.len());
        let mut op = self.ops[k].clone();
        if op.k == K::Drop {
            return;
        }
        if self.rng.pct(25) && !op.v.is_empty() {
            let q = self.rng.us(op.v.len());
            op.v[q] = self.val();
        }
        let old = self.base + k as u32;
        if let Some(s) = self.slots.iter().find(|s| s.id == old).cloned() {
            self.put(op, s.kind, s.r, s.c, s.n, s.canon, s.sym, s.bits);
        } else {
            self.emit(op);
        }
    }

    /// The last call once more, this time with a malformed operand, and then
    /// perhaps properly again.
    fn spoil(&mut self) {
        let op = self.ops.last().unwrap().clone();
        let w = self.rng.us(op.a.len().max(1));
        let ok = self.slots.iter().any(|s| op.a.get(w) == Some(&s.id) && matches!(s.kind, Kind::Coo | Kind::Csr | Kind::Csc) && !(op.mutates() && s.locked));
        if !ok || matches!(op.k, K::Drop | K::Broken | K::Eigs) {
            return;
        }
        let b = op.clone().broken(w as i64, self.rng.range(0, 6), self.rng.us(200) as i64);
        let own = self.base + self.ops.len() as u32 - 1;
        // instead of the proper call, or after it
        if self.rng.pct(40) && !op.mutates() && !self.slots.iter().any(|s| s.id == own) {
            self.ops.pop();
        }
        self.emit(b);
        if self.rng.pct(60) {
            let k = op.k;
            self.gen(k);
        } else if self.rng.pct(60) && !op.mutates() {
            self.emit(Op { n: 0, ..op });
        }
    }

    /// Lets go of an object the caller built and builds one of the same size
    /// with other contents in its place; then asks the same of it.
    fn replace(&mut self) {
        let base = self.base;
        let f: Vec<usize> = (0..self.slots.len())
            .filter(|&i| {
                let s = &self.slots[i];
                s.id >= base && s.n > 0 && matches!(self.ops[(s.id - base) as usize].k, K::CsrNew | K::CscNew | K::CooNew)
            })
            .collect();
        if base < OWN || f.is_empty() {
            return;
        }
        let i = f[self.rng.us(f.len())];
        let old = self.slots.remove(i);
        let mut lit = self.ops[(old.id - base) as usize].clone();
        let asks: Vec<Op> = self.ops.iter().filter(|o| o.a == [old.id] && !o.mutates() && !matches!(o.k, K::Drop | K::Broken)).cloned().collect();
        let square = old.r == old.c;
        match self.rng.below(4) {
            // the same pattern elsewhere
            0 if square => lit.l.iter_mut().for_each(|e| e.swap(0, 1)),
            1 => {
                let d = 1 + self.rng.us(old.c.max(1)) as i64;
                lit.l.iter_mut().for_each(|e| e[1] = (e[1] + d) % old.c as i64);
            }
            _ => {
                for e in lit.l.iter_mut() {
                    if self.rng.pct(60) {
                        e[1] = self.rng.us(old.c) as i64;
                        if old.sym {
                            e[0] = e[1];
                        }
                    }
                    if self.rng.pct(30) {
                        e[2] = self.val1();
                    }
                }
            }
        }
        let canon = if lit.k == K::CooNew {
            false
        } else {
            let mut seen = std::collections::BTreeSet::new();
            let (a, b) = if lit.k == K::CsrNew { (0, 1) } else { (1, 0) };
            if old.canon {
                lit.l.sort_by_key(|e| (e[a], e[b]));
            }
            old.canon && lit.l.iter().all(|e| seen.insert((e[0], e[1])))
        };
        let sym = old.sym && mutual(&lit.l);
        self.emit(Op::new(K::Drop).a(&[old.id]));
        let j = self.put(lit, old.kind, old.r, old.c, old.n, canon, sym, old.bits);
        let id = self.slots[j].id;
        let k = asks.len();
        for o in asks.into_iter().skip(k.saturating_sub(3)) {
            let o = Op { a: vec![id], n: 0, ..o };
            if !(o.k == K::GFlag && !sym) {
                self.emit(o);
            }
        }
    }

    fn step(&mut self) {
        if self.ops.len() >= self.limit + 40 {
            return;
        }
        let w = std::mem::take(&mut self.weights);
        let k = pick_w(self.rng, &w);
        self.weights = w;
        self.gen(k);
    }

    fn s(&self, i: usize) -> S {
        self.slots[i].clone()
    }

    fn gen(&mut self, k: K) {
        let imax = self.ci.imax as usize;
        if self.vast && !ANY_SHAPE.contains(&k) && !WIDE.contains(&k) {
            return;
        }
        match k {
            K::Nop => {}
            K::Drop => {
                let base = self.base;
                if base < OWN {
                    return;
                }
                let f: Vec<usize> = (0..self.slots.len()).filter(|&i| self.slots[i].id >= base).collect();
                if f.len() > 2 {
                    let i = f[self.rng.us(f.len())];
                    let s = self.slots.remove(i);
                    self.emit(Op::new(K::Drop).a(&[s.id]));
                }
            }
            K::CooNew | K::CsrNew | K::CscNew => {
                let (r, c) = (self.dim(), self.dim());
                if self.bad() {
                    let l = self.lit(r, c);
                    let b = self.rng.range(1, if k == K::CooNew { 3 } else { 4 });
                    let p = if k == K::CooNew { vec![r as i64, c as i64, b] } else { vec![r as i64, c as i64, 0, b] };
                    self.emit(Op { l, ..Op::new(k).p(&p) });
                } else {
                    self.build(match k { K::CooNew => Kind::Coo, K::CsrNew => Kind::Csr, _ => Kind::Csc }, r, c);
                }
            }
            K::FromDense => {
                let (r, c) = (self.dim(), self.dim());
                if r.saturating_mul(c) > 4096 {
                    return;
                }
                let l = self.lit(r, c);
                let w = self.rng.range(0, 3);
                let kind = [Kind::Coo, Kind::Csr, Kind::Csc, Kind::Dok][w as usize];
                let (n, b) = (l.len(), self.bits());
                let c2 = if r == 0 { 0 } else { c };
                if r >= 2 && self.bad() {
                    // one row too long or too short
                    let (x, y) = (if c > 0 { self.rng.range(1, 2) } else { 1 }, self.rng.range(1, r as i64 - 1));
                    self.emit(Op { l, ..Op::new(K::FromDense).p(&[r as i64, c as i64, w, x, y]) });
                    return;
                }
                self.put(Op { l, ..Op::new(K::FromDense).p(&[r as i64, c as i64, w]) }, kind, r, c2, n, w != 0, false, b);
            }
            K::Diag => {
                let n = self.dim();
                let mut v = self.vals(n);
                if self.rng.pct(30) {
                    let one = [100, 90, 60][self.rng.us(3)];
                    for x in v.iter_mut() {
                        if self.rng.pct(one) {
                            *x = G(1, 0);
                        }
                    }
                }
                let w = self.rng.range(0, 2);
                let kind = [Kind::Coo, Kind::Csr, Kind::Csc][w as usize];
                let b = self.bits();
                self.put(Op { v, ..Op::new(K::Diag).p(&[w]) }, kind, n, n, n, w != 0, true, b);
            }
            K::Ident => {
                let n = self.dim();
                self.put(Op::new(k).p(&[n as i64]), Kind::Coo, n, n, n, false, true, 1);
            }
            K::CooSize => {
                let (r, c) = (self.dim(), self.dim());
                let cap = self.rng.range(-1, 9);
                self.put(Op::new(k).p(&[r as i64, c as i64, cap]), Kind::Coo, r, c, 0, false, false, 0);
            }
            K::CsrSize => {
                let (r, c) = (self.dim(), self.dim());
                let r = if self.vast && r > NARROW { 3 } else { r };
                self.put(Op::new(k).p(&[r as i64, c as i64]), Kind::Csr, r, c, 0, true, r == c, 0);
            }
            K::DokNew => {
                let (r, c) = (self.dim(), self.dim());
                self.build(Kind::Dok, r, c);
            }
            K::MakeVec => {
                let n = self.dim();
                self.build(Kind::Vect, n, 1);
            }
            K::Push | K::Extend => {
                let i = self.editable(Kind::Coo);
                let s = self.s(i);
                if s.r == 0 || s.c == 0 || s.n + 4 > 1200 {
                    return;
                }
                let n = if k == K::Push { 1 + self.rng.us(2) } else { self.rng.us(6) };
                let mut l = vec![];
                for _ in 0..n {
                    let v = self.val();
                    l.push([self.rng.us(s.r) as i64, self.rng.us(s.c) as i64, v.0, v.1]);
                }
                let b = if k == K::Extend && !l.is_empty() && self.bad() { self.rng.range(1, 3) } else { 0 };
                self.slots[i].n += l.len();
                self.slots[i].sym = false;
                self.slots[i].bits = s.bits.max(self.bits());
                let p: Vec<i64> = if k == K::Extend { vec![b] } else { vec![] };
                self.emit(Op { l, ..Op::new(k).a(&[s.id]).p(&p) });
            }
            K::SetVal => {
                let kind = self.mat3();
                let i = self.editable(kind);
                let s = self.s(i);
                if s.n == 0 {
                    return;
                }
                let v = self.val();
                let p = self.rng.us(s.n) as i64;
                self.slots[i].bits = s.bits.max(self.bits());
                self.emit(Op::new(k).a(&[s.id]).p(&[p]).v(vec![v]));
            }
            K::Clone => {
                let kind = [Kind::Coo, Kind::Csr][self.rng.us(2)];
                let i = self.any(kind);
                let s = self.s(i);
                self.put(Op::new(k).a(&[s.id]), s.kind, s.r, s.c, s.n, s.canon, s.sym, s.bits);
            }
            K::Conv => {
                let kind = match self.force {
                    _ if self.vast => [Kind::Coo, Kind::Coo, Kind::Coo, Kind::Csr, [Kind::Csc, Kind::Dok][self.rng.us(2)]][self.rng.us(5)],
                    Some(k) if self.rng.pct(60) => k,
                    _ => [Kind::Coo, Kind::Csr, Kind::Csc, Kind::Dok][self.rng.us(4)],
                };
                let need: fn(&S) -> bool = if self.vast && kind != Kind::Dok { |s| s.r.min(s.c) <= NARROW } else { |_| true };
                let i = self.obj(kind, None, None, need, false);
                let s = self.s(i);
                let t: &[i64] = match kind {
                    Kind::Coo => &[1, 1, 2, 2, 4],
                    Kind::Csr => &[0, 2],
                    Kind::Csc => &[0, 1, 4],
                    _ => &[0, 1, 2, 4],
                };
                let mut t = t[self.rng.us(t.len())];
                if self.vast {
                    t = match kind {
                        Kind::Dok => 0,
                        Kind::Coo if s.r <= NARROW && (s.c > NARROW || self.rng.pct(50)) => 1,
                        Kind::Coo if s.c <= NARROW => 2,
                        Kind::Coo => return,
                        _ => 0,
                    };
                }
                let to = [Kind::Coo, Kind::Csr, Kind::Csc, Kind::Dok, Kind::Dense][t as usize];
                if to == Kind::Dense && s.r.saturating_mul(s.c) > 20_000 {
                    return;
                }
                let canon = if matches!(kind, Kind::Coo | Kind::Dok) { matches!(to, Kind::Csr | Kind::Csc) } else { s.canon && to != Kind::Coo };
                self.put(Op::new(k).a(&[s.id]).p(&[t]), to, s.r, s.c, s.n, canon, s.sym, s.bits + 2);
            }
            K::Transpose | K::T | K::CH => {
                let kind = self.mat3();
                let i = self.any(kind);
                let s = self.s(i);
                let to = match kind { Kind::Csr => Kind::Csc, Kind::Csc => Kind::Csr, k => k };
                self.put(Op::new(k).a(&[s.id]), to, s.c, s.r, s.n, s.canon, s.sym, s.bits);
            }
            K::Shape => {
                let kind = self.mat3();
                let i = self.any(kind);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::Sort | K::SumDup | K::Prune => {
                let kind = if k == K::Prune { Kind::Csc } else { self.compressed_kind() };
                let i = self.editable(kind);
                let s = self.s(i);
                if k == K::SumDup && !s.locked {
                    self.slots[i].canon = true;
                }
                self.emit(Op::new(k).a(&[s.id]));
            }
            K::Pred | K::KPred => {
                let kind = self.compressed_kind();
                let i = self.any(kind);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::Neg => {
                let kind = self.mat3();
                let i = self.any(kind);
                let s = self.s(i);
                self.put(Op::new(k).a(&[s.id]), s.kind, s.r, s.c, s.n, s.canon, s.sym, s.bits);
            }
            K::Add | K::Sub => {
                let kind = if k == K::Add { self.mat3() } else { self.compressed_kind() };
                let i = self.any(kind);
                let s = self.s(i);
                let bad = self.bad();
                let (mut r, mut c) = (s.r, s.c);
                if bad {
                    match self.rng.below(7) {
                        // as many places, or as many rows and columns together
                        0 => (r, c) = (c, r),
                        1 if c > 0 => (r, c) = ((r + 1).min(imax), c - 1),
                        2 if r % 2 == 0 => (r, c) = (r / 2, c.saturating_mul(2).min(imax)),
                        3 | 4 => r = self.other(r),
                        _ => c = self.other(c),
                    }
                }
                let bad = bad && (r, c) != (s.r, s.c);
                let j = if !bad && self.rng.pct(6) { i } else { self.obj(kind, Some(r), Some(c), |_| true, s.locked) };
                let t = self.s(j);
                let m = self.rng.range(0, 3);
                let via = (kind == Kind::Csc && self.rng.pct(40)) as i64;
                let op = Op::new(k).a(&[s.id, t.id]).p(&[m, via]);
                if bad || s.n + t.n > imax.min(6000) {
                    self.emit(op);
                    return;
                }
                let to = if kind == Kind::Coo { Kind::Csr } else { kind };
                let canon = kind == Kind::Coo || (s.canon && t.canon);
                self.put(op, to, s.r, s.c, s.n + t.n, canon, s.sym && t.sym, s.bits.max(t.bits) + 1);
            }
            K::MatVec => {
                let kind = self.compressed_kind();
                let i = self.any(kind);
                let s = self.s(i);
                let n = if self.bad() { self.other(s.c) } else { s.c };
                let v = self.vals(n);
                let m = self.rng.range(0, 4);
                let op = Op::new(k).a(&[s.id]).p(&[m]).v(v);
                if n == s.c {
                    self.put(op, Kind::Vect, s.r, 1, s.r, true, false, 60);
                } else {
                    self.emit(op);
                }
            }
            K::MatMul | K::MulCscCsr | K::KMm => {
                let kind = if k == K::MulCscCsr { Kind::Csc } else { self.compressed_kind() };
                let i = self.any(kind);
                let s = self.s(i);
                let bad = k != K::KMm && self.bad();
                let r = if bad { self.other(s.c) } else { s.c };
                let kj = if k == K::MulCscCsr { Kind::Csr } else { kind };
                let j = if self.rng.pct(60) {
                    self.obj(kj, Some(r), None, |_| true, s.locked)
                } else {
                    let c = self.dim();
                    self.obj(kj, Some(r), Some(c), |_| true, s.locked)
                };
                let t = self.s(j);
                let m = self.rng.range(0, 3);
                let p: Vec<i64> = if k == K::KMm { vec![] } else { vec![m] };
                let op = Op::new(k).a(&[s.id, t.id]).p(&p);
                if bad || k == K::KMm && self.rng.pct(50) {
                    self.emit(op);
                } else if k == K::KMm {
                    self.emit(op);
                } else {
                    let n = s.r.saturating_mul(t.c).min(s.n * t.n).min(4000);
                    self.put(op, kind, s.r, t.c, n, false, false, s.bits + t.bits + 4);
                }
            }
            K::Scale | K::LScale => {
                let kind = self.compressed_kind();
                let i = self.any(kind);
                let s = self.s(i);
                let v = if self.rng.pct(10) { G::Z } else { self.val() };
                let m = self.rng.range(0, 1);
                let b = s.bits + self.bits();
                self.put(Op::new(k).a(&[s.id]).p(&[m]).v(vec![v]), kind, s.r, s.c, s.n, s.canon, s.sym, b);
            }
            K::Select | K::KSelect => {
                let kind = self.compressed_kind();
                let need: fn(&S) -> bool = if k == K::Select && self.bad() { |_| true } else { |s| s.canon };
                let kind = if k == K::KSelect { Kind::Csr } else { kind };
                let i = self.obj(kind, None, None, need, false);
                let s = self.s(i);
                let (hr, hc) = (self.rng.pct(75), self.rng.pct(75));
                let mut rs = if hr { self.list(s.r) } else { vec![] };
                let mut cs = if hc { self.list(s.c) } else { vec![] };
                if k == K::Select && self.bad() {
                    let b = if hr { self.bad_index(s.r) } else { self.bad_index(s.c) };
                    let l = if hr { &mut rs } else { &mut cs };
                    if hr || hc {
                        let at = self.rng.us(l.len() + 1);
                        l.insert(at, b);
                    }
                }
                let (nr, nc) = (if hr { rs.len() } else { s.r }, if hc { cs.len() } else { s.c });
                let mut p = vec![hr as i64, rs.len() as i64];
                p.extend(&rs);
                p.push(hc as i64);
                p.push(cs.len() as i64);
                p.extend(&cs);
                let n = s.n * 4;
                if k == K::KSelect {
                    self.emit(Op::new(k).a(&[s.id]).p(&p));
                    return;
                }
                self.put(Op::new(k).a(&[s.id]).p(&p), kind, nr, nc, n.min(nr.saturating_mul(nc)), false, false, s.bits);
            }
            K::Get => {
                let i = self.obj(Kind::Csr, None, None, |s| s.r > 0 && s.c > 0, false);
                let s = self.s(i);
                let p = [self.index(s.r), self.index(s.c)];
                self.emit(Op::new(k).a(&[s.id]).p(&p));
            }
            K::Diagonal => {
                let kind = self.mat3();
                let i = self.any(kind);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::Upper => {
                let i = self.any(Kind::Coo);
                let s = self.s(i);
                let d = s.r.max(s.c) as i64 + 1;
                let mut p = if self.rng.pct(10) { imax.min(1 << 62) as i64 } else { self.rng.range(0, d) };
                if self.ci.signed && self.rng.pct(40) {
                    p = -p;
                }
                let p = p.min(imax as i64);
                self.put(Op::new(k).a(&[s.id]).p(&[p]), Kind::Coo, s.r, s.c, s.n, false, false, s.bits);
            }
            K::Stack | K::CsrHStack => {
                let kind = if k == K::Stack { Kind::Coo } else { Kind::Csr };
                let h = k == K::CsrHStack || self.rng.pct(50);
                let m = if k == K::CsrHStack || self.rng.pct(55) { 2 } else { 3 };
                let i = self.any(kind);
                let s = self.s(i);
                let bad = self.bad();
                let at = 1 + self.rng.us(m - 1);
                let mut ids = vec![s.clone()];
                for q in 1..m {
                    let d = if h { s.r } else { s.c };
                    let d = if bad && q == at { self.other(d) } else { d };
                    let lock = ids.iter().any(|x| x.locked);
                    let j = if h { self.obj(kind, Some(d), None, |_| true, lock) } else { self.obj(kind, None, Some(d), |_| true, lock) };
                    ids.push(self.s(j));
                }
                let (mut r, mut c, mut n) = (s.r, s.c, 0);
                for (q, x) in ids.iter().enumerate() {
                    n += x.n;
                    if q > 0 {
                        if h { c += x.c } else { r += x.r }
                    }
                }
                let a: Vec<u32> = ids.iter().map(|x| x.id).collect();
                let p: Vec<i64> = if k == K::Stack { vec![!h as i64] } else { vec![] };
                let op = Op::new(k).a(&a).p(&p);
                if bad || n > 3000 || r.max(c) > if self.vast { imax } else { 150_000.min(imax) } {
                    self.emit(op);
                } else {
                    self.put(op, kind, r, c, n, kind == Kind::Csr, false, s.bits + 1);
                }
            }
            K::Compose | K::Compose3 | K::CscCompose => {
                let m = if k == K::Compose3 { 3 } else { 2 };
                let kind = if k == K::CscCompose { Kind::Csc } else { Kind::Coo };
                let hs: Vec<usize> = (0..m).map(|_| self.dim()).collect();
                let ws: Vec<usize> = (0..m).map(|_| self.dim()).collect();
                let bad = if self.bad() { Some(self.rng.us(m * m)) } else { None };
                // blocks of one column in another order: the totals agree
                let turned = bad.filter(|_| self.rng.pct(30)).map(|q| q % m);
                let mut ids: Vec<S> = vec![];
                for q in 0..m * m {
                    let (mut r, mut c) = (hs[q / m], ws[q % m]);
                    if turned == Some(q % m) {
                        r = hs[(q / m + 1) % m];
                    } else if bad == Some(q) && turned.is_none() {
                        if self.rng.pct(50) { r = self.other(r) } else { c = self.other(c) }
                    }
                    let lock = ids.iter().any(|x| x.locked);
                    let j = self.obj(kind, Some(r), Some(c), |_| true, lock);
                    ids.push(self.s(j));
                }
                let n: usize = ids.iter().map(|x| x.n).sum();
                let a: Vec<u32> = ids.iter().map(|x| x.id).collect();
                let op = Op::new(k).a(&a);
                if bad.is_some() || n > 4000 {
                    self.emit(op);
                } else {
                    let b = ids.iter().map(|x| x.bits).max().unwrap_or(0);
                    self.put(op, kind, hs.iter().sum(), ws.iter().sum(), n, kind == Kind::Csc, false, b + 1);
                }
            }
            K::ToString => {
                let kind = self.any_kind();
                let i = self.any(kind);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::Table => {
                let i = self.obj(Kind::Csr, None, None, |s| s.canon && s.r.saturating_mul(s.c) < 3000, false);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::DSet | K::DAdd | K::DSub => {
                let i = self.editable(Kind::Dok);
                let s = self.s(i);
                let bad = self.bad() || s.r == 0 || s.c == 0;
                let (mut x, mut y) = (self.index(s.r), self.index(s.c));
                // the same few places again and again
                if s.r > 2 && self.rng.pct(50) {
                    x = self.rng.us(2) as i64;
                }
                if s.c > 2 && self.rng.pct(50) {
                    y = self.rng.us(2) as i64;
                }
                if bad {
                    if s.r == 0 || s.c != 0 && self.rng.pct(50) { x = self.bad_index(s.r) } else { y = self.bad_index(s.c) }
                }
                let v = if self.rng.pct(15) { G::Z } else { self.val() };
                self.slots[i].n += 1;
                self.emit(Op::new(k).a(&[s.id]).p(&[x, y]).v(vec![v]));
            }
            K::DGet => {
                let i = self.any(Kind::Dok);
                let s = self.s(i);
                let p = if self.bad() { [self.bad_index(s.r), self.index(s.c)] } else { [self.index(s.r).min(1), self.index(s.c)] };
                self.emit(Op::new(k).a(&[s.id]).p(&p));
            }
            K::DNnz | K::DIter => {
                let i = self.any(Kind::Dok);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::GCc | K::GDfs | K::GFlag => {
                let i = if self.bad() {
                    self.any(Kind::Csr)
                } else {
                    let need: fn(&S) -> bool = if k == K::GFlag { |s| s.sym && s.r == s.c } else { |s| s.r == s.c };
                    if self.rng.pct(65) {
                        self.obj(Kind::Csr, None, None, need, false)
                    } else {
                        let n = self.dim();
                        self.graph_obj(n, k == K::GFlag)
                    }
                };
                let s = self.s(i);
                if k == K::GFlag && s.r == s.c && !s.sym {
                    let n = s.r;
                    let i = self.graph_obj(n, true);
                    let id = self.slots[i].id;
                    let w = self.rng.range(0, 3);
                    self.emit(Op::new(k).a(&[id]).p(&[w]));
                    return;
                }
                let p: Vec<i64> = match k {
                    K::GCc => vec![self.rng.pct(75) as i64, self.rng.pct(65) as i64],
                    K::GDfs => {
                        // from a node with many edges, now and then
                        let lit = self.ops.get(s.id.wrapping_sub(self.base) as usize).filter(|o| o.k == K::CsrNew && !o.l.is_empty()).map(|o| (o.l.len(), s.id));
                        let st = match lit {
                            _ if self.bad() => s.r as i64 + self.rng.range(0, 2),
                            _ if s.r > 2000 && self.rng.pct(50) => 0,
                            Some((n, id)) if self.rng.pct(50) => {
                                let k = self.rng.us(n);
                                self.ops[(id - self.base) as usize].l[k][0]
                            }
                            _ => self.index(s.r),
                        };
                        vec![st, self.rng.pct(60) as i64]
                    }
                    _ => vec![self.rng.range(0, 3)],
                };
                self.emit(Op::new(k).a(&[s.id]).p(&p));
            }
            K::CReal | K::CImag | K::CConj => {
                let kind = self.mat3();
                let i = self.any(kind);
                let s = self.s(i);
                let op = Op::new(k).a(&[s.id]);
                if k == K::CConj {
                    self.put(op, kind, s.r, s.c, s.n, s.canon, s.sym, s.bits);
                } else {
                    self.emit(op);
                }
            }
            K::CWithReal | K::CWithImag => {
                let (r, c) = (self.dim(), self.dim());
                let l = self.lit(r, c);
                let (n, b) = (l.len(), self.bits());
                self.put(Op { l, ..Op::new(k).p(&[r as i64, c as i64]) }, Kind::Csr, r, c, n, false, false, b);
            }
            K::KBin => {
                let canonical = self.rng.pct(50);
                let need: fn(&S) -> bool = if canonical { |s| s.canon } else { |_| true };
                let i = self.obj(Kind::Csr, None, None, need, false);
                let s = self.s(i);
                let j = if self.rng.pct(5) { i } else { self.obj(Kind::Csr, Some(s.r), Some(s.c), need, s.locked) };
                let t = self.s(j);
                let w = if self.ci.cplx { [0, 1, 6, 8, 9][self.rng.us(5)] } else { self.rng.range(0, 11) };
                let w = if w == 7 && !self.ci.pub_div { 6 } else { w };
                let path = if s.canon && t.canon { self.rng.range(0, 2) } else { [0, 2][self.rng.us(2)] };
                let slack = if self.rng.pct(20) { self.rng.range(1, 3) } else { 0 };
                self.emit(Op::new(k).a(&[s.id, t.id]).p(&[w, path, slack]));
            }
            K::KMv => {
                let kind = [Kind::Csr, Kind::Csc, Kind::Coo][self.rng.us(3)];
                let i = self.any(kind);
                let s = self.s(i);
                let nv = if kind == Kind::Coo || s.r + s.c > 5000 || self.rng.pct(50) { 0 } else if s.r + s.c < 200 && self.rng.pct(15) { self.rng.range(5, 18) } else { self.rng.range(1, 4) };
                let v = self.vals((s.r + s.c) * nv.max(1) as usize);
                self.emit(Op::new(k).a(&[s.id]).p(&[nv]).v(v));
            }
            K::KScale => {
                let i = self.any(Kind::Csr);
                let s = self.s(i);
                let w = self.rng.range(0, 1);
                let v = self.vals(if w == 0 { s.r } else { s.c });
                self.emit(Op::new(k).a(&[s.id]).p(&[w]).v(v));
            }
            K::KElim | K::KSum | K::KSort | K::KCount => {
                let i = self.any(Kind::Csr);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::KTocsc => {
                let kind = self.compressed_kind();
                let i = self.any(kind);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::KDense => {
                let kind = [Kind::Csr, Kind::Coo][self.rng.us(2)];
                let i = self.any(kind);
                let s = self.s(i);
                if s.r.saturating_mul(s.c) > 3000 {
                    return;
                }
                let v = self.vals(s.r * s.c);
                let p = self.rng.range(0, 1);
                self.emit(Op::new(k).a(&[s.id]).p(&[p]).v(v));
            }
            K::KDiag => {
                let kind = self.compressed_kind();
                let i = self.any(kind);
                let s = self.s(i);
                let p = match self.rng.below(40) {
                    // far outside the matrix, and just outside
                    0 => [-(1 << 40), 1 << 40, -(s.r as i64) - 1, s.c as i64 + 1][self.rng.us(4)],
                    _ => self.rng.range(-(s.r as i64), s.c as i64),
                };
                self.emit(Op::new(k).a(&[s.id]).p(&[p]));
            }
            K::KSub => {
                let i = self.any(Kind::Csr);
                let s = self.s(i);
                let mut two = |n: usize| {
                    let (a, b) = (self.rng.us(n + 1) as i64, self.rng.us(n + 1) as i64);
                    (a.min(b), a.max(b))
                };
                let ((mut a, mut b), (c, d)) = (two(s.r), two(s.c));
                if self.bad() {
                    // rows the wrong way round or beyond the last
                    if a < b && self.rng.pct(50) {
                        (a, b) = (b, a);
                    } else {
                        b = s.r as i64 + self.rng.range(1, 3);
                        a = if self.rng.pct(50) { b - 1 } else { a };
                    }
                }
                self.emit(Op::new(k).a(&[s.id]).p(&[a, b, c, d]));
            }
            K::KRowIdx | K::KColIdx => {
                let i = self.any(Kind::Csr);
                let s = self.s(i);
                let n = if k == K::KRowIdx { s.r } else { s.c };
                let mut p = self.list(n);
                if self.bad() {
                    let x = self.bad_index(n);
                    let at = self.rng.us(p.len() + 1);
                    p.insert(at, x);
                }
                self.emit(Op::new(k).a(&[s.id]).p(&p));
            }
            K::KRowSl => {
                let i = self.any(Kind::Csr);
                let s = self.s(i);
                let (a, b) = (self.rng.us(s.r + 1) as i64, self.rng.us(s.r + 1) as i64);
                let d = match self.rng.below(8) {
                    0 => self.rng.us(s.r + 3) as i64 + 1,
                    1 if self.rng.pct(30) => i64::MAX,
                    _ => self.rng.range(1, 4),
                };
                let p = match self.rng.below(8) {
                    _ if self.bad() => [a, s.r as i64 + self.rng.range(1, 3), if self.rng.pct(50) { 0 } else { d }],
                    // the wrong way round: nothing
                    0 => [a.max(b), a.min(b), d],
                    _ => [a.min(b), a.max(b), d],
                };
                self.emit(Op::new(k).a(&[s.id]).p(&p));
            }
            K::KTocoo => {
                let i = self.any(Kind::Csr);
                let id = self.slots[i].id;
                let p = self.rng.range(0, 1);
                self.emit(Op::new(k).a(&[id]).p(&[p]));
            }
            K::KCooTocsr => {
                let i = self.any(Kind::Coo);
                let id = self.slots[i].id;
                self.emit(Op::new(k).a(&[id]));
            }
            K::Eigs | K::Broken => {}
        }
    }

    fn graph_obj(&mut self, n: usize, sym: bool) -> usize {
        let (mut l, mut s) = self.graph(n);
        if sym && !s {
            let r: Vec<[i64; 4]> = l.iter().map(|e| [e[1], e[0], e[2], e[3]]).collect();
            l.extend(r);
            l.truncate(self.ci.imax as usize);
            s = mutual(&l);
        }
        let b = self.bits();
        let k = l.len();
        self.put(Op { l, ..Op::new(K::CsrNew).p(&[n as i64, n as i64, 0, 0]) }, Kind::Csr, n, n, k, false, s, b)
    }
}

// ------------------------------------------------------------ eigenproblems

/// Integer matrix with a known, well-separated spectrum, close to normal:
/// block triangular, reflected and relabelled.
fn spectral<R: Rand>(rng: &mut R, n: usize) -> (Vec<[i64; 4]>, Vec<G>) {
    let mut d = vec![vec![0i64; n]; n];
    let mut sp: Vec<G> = vec![];
    // each reflection divides by 4
    let h = if n >= 4 { rng.us(3) } else { 0 };
    let unit = 1i64 << (2 * h);
    // magnitudes fall by a factor of two, or of 1.3
    let line = n >= 14 && rng.pct(40);
    let top = n.min(if n > 20 && rng.pct(30) { 16 } else { 9 }) as u32;
    let mut i = 0;
    let mut k = top;
    let mut blocks: Vec<(usize, usize, i64)> = vec![];
    while i < n {
        let m: i64 = if line { (32.0 * 1.3f64.powi(14 - i as i32)) as i64 } else if k == 0 { 0 } else { 1i64 << k };
        k = k.saturating_sub(1);
        if i + 1 < n && rng.pct(30) && m > 2 {
            // a complex pair a +- bi of about this magnitude, now and then almost real
            let b = if rng.pct(20) { 1 } else { 1 + rng.us(m as usize - 1) as i64 };
            let a = (((m * m - b * b) as f64).sqrt()) as i64;
            let a = if rng.pct(50) { a } else { -a };
            let (a, b) = (a * unit, b * unit);
            d[i][i] = a;
            d[i + 1][i + 1] = a;
            d[i][i + 1] = -b;
            d[i + 1][i] = b;
            sp.push(G(a, b));
            sp.push(G(a, -b));
            blocks.push((i, 2, m));
            i += 2;
        } else {
            let v = if m == 0 { rng.range(-1, 1) } else if rng.pct(60) { m } else { -m };
            d[i][i] = v * unit;
            sp.push(G(v * unit, 0));
            blocks.push((i, 1, m));
            i += 1;
        }
    }
    // entries above the blocks make it non-normal and keep the spectrum
    if rng.pct(60) {
        for _ in 0..n {
            let (x, y) = (rng.us(blocks.len()), rng.us(blocks.len()));
            if x < y {
                let (r, c) = (blocks[x].0 + rng.us(blocks[x].1), blocks[y].0 + rng.us(blocks[y].1));
                let big = (blocks[x].2 / if line { 16 } else { 4 }).max(1);
                d[r][c] = rng.range(-big, big) * unit;
            }
        }
    }
    // reflections I - uu'/2 with four ones in u: orthogonal, and exact on multiples of 4
    for _ in 0..h {
        let mut q: Vec<usize> = (0..n).collect();
        for k in 0..4 {
            let j = k + rng.us(n - k);
            q.swap(k, j);
        }
        let q = &q[..4];
        for r in d.iter_mut() {
            let t: i64 = q.iter().map(|&c| r[c]).sum();
            q.iter().for_each(|&c| r[c] -= t / 2);
        }
        for c in 0..n {
            let t: i64 = q.iter().map(|&r| d[r][c]).sum();
            q.iter().for_each(|&r| d[r][c] -= t / 2);
        }
    }
    // and a relabelling of the coordinates
    let mut p: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        let j = rng.us(k + 1);
        p.swap(k, j);
    }
    let mut l = vec![];
    for r in 0..n {
        for c in 0..n {
            if d[r][c] != 0 {
                l.push([p[r] as i64, p[c] as i64, d[r][c], 0]);
            }
        }
    }
    l.sort_by_key(|e| (e[1], e[0]));
    // the same matrix with entries in any order, in several parts, or zero
    if rng.pct(30) {
        for i in 0..l.len() {
            match rng.below(6) {
                0 => {
                    let part = rng.range(-3, 3);
                    let mut e = l[i];
                    l[i][2] -= part;
                    e[2] = part;
                    l.push(e);
                }
                1 => {
                    let j = rng.us(l.len());
                    l.swap(i, j);
                }
                _ => {}
            }
        }
        l.sort_by_key(|e| e[1]);
    }
    (l, sp)
}

/// Concurrent and successive eigenvalue computations, some of them bound to fail.
fn eigs_program<R: Rand>(rng: &mut R, prop: &str) -> Program {
    let nthreads = [1, 2, 2, 3, 4][rng.us(5)];
    let np = 1 + rng.us(3);
    let mut prelude = vec![];
    let mut spec: Vec<(usize, Vec<G>)> = vec![];
    for _ in 0..np {
        let n = [3, 4, 4, 5, 6, 8, 10, 14, 24, 40, 28, 64, 90, 130, 260, 300][if rng.pct(8) { 10 + rng.us(6) } else { rng.us(10) }];
        let (l, sp) = spectral(rng, n);
        prelude.push(Op { l, ..Op::new(K::CscNew).p(&[n as i64, n as i64, 0, 0]) });
        spec.push((n, sp));
    }
    let mut plain = vec![];
    // other shapes: non-square, tiny, empty
    for _ in 0..2 {
        let (r, c) = [(0i64, 0i64), (1, 1), (2, 2), (3, 4), (5, 3), (1, 0)][rng.us(6)];
        let mut l = vec![];
        for i in 0..r.min(c) {
            l.push([i, i, i + 2, 0]);
        }
        plain.push(prelude.len() as u32);
        prelude.push(Op { l, ..Op::new(K::CscNew).p(&[r, c, 0, 0]) });
    }
    let malformed = match prop {
        "C18" | "C02" | "C15" => 30,
        "C17" => 10,
        _ => 8,
    };
    let mut threads = vec![];
    for _ in 0..nthreads {
        let mut ops: Vec<Op> = vec![];
        for _ in 0..1 + rng.us(4) {
            let k = rng.us(np);
            let (n, sp) = &spec[k];
            match rng.below(100) {
                x if x < malformed => {
                    let nev = 1 + rng.us((*n - 2).max(1)) as i64;
                    let bad = 1 + rng.us(200) as i64;
                    ops.push(Op { v: sp.clone(), ..Op::new(K::Eigs).a(&[k as u32]).p(&[nev, bad]) });
                }
                x if x < malformed + 12 => {
                    // impossible requests
                    if rng.pct(50) {
                        let nev = [0, *n as i64 - 1, *n as i64, *n as i64 + 5][rng.us(4)];
                        ops.push(Op { v: sp.clone(), ..Op::new(K::Eigs).a(&[k as u32]).p(&[nev, 0]) });
                    } else {
                        let a = plain[rng.us(plain.len())];
                        ops.push(Op::new(K::Eigs).a(&[a]).p(&[rng.range(0, 3), 0]));
                    }
                }
                x if x < malformed + 20 => {
                    // other work on the same operand
                    let v = (0..*n).map(|_| G(rng.range(-5, 5), 0)).collect();
                    ops.push(Op::new(K::MatVec).a(&[k as u32]).p(&[rng.range(0, 2)]).v(v));
                }
                _ => {
                    let wide = *n > 14 && rng.pct(30);
                    // no more than stand out from the rest
                    let m = |i: usize| ((sp[i].0 as f64).powi(2) + (sp[i].1 as f64).powi(2)).sqrt();
                    let apart = (2..*n).take_while(|&i| m(i) < m(i - 2) / 1.2).count().saturating_sub(2);
                    let top = (*n - 2).min(if wide { apart.clamp(6, 16) } else { 6 });
                    let nev = 1 + rng.us(top.max(1)) as i64;
                    let scale = match rng.below(20) {
                        0..=3 => rng.range(-20, 30),
                        4 | 5 => [-50, -46, -42, 60, 200][rng.us(5)],
                        _ => 0,
                    };
                    ops.push(Op { v: sp.clone(), ..Op::new(K::Eigs).a(&[k as u32]).p(&[nev, 0, scale]) });
                }
            }
        }
        threads.push(ops);
    }
    Program { combo: 5, scale: 0, prelude, locked: vec![], threads }
}
