//! L01..L06: the dense direct linear solver (crates/linear), driven through its public trait.
use crate::rat::Rat;
use linear::{Dense, Error, LSolver, LSolverType};
use mcengine::*;
use nalgebra::{Const, Dyn, MatrixViewMut, SMatrix, SVector};

pub type M<const N: usize> = [[Rat; N]; N];

pub fn z() -> Rat {
    Rat::int(0)
}
pub fn to_na<const N: usize>(a: &M<N>) -> SMatrix<Rat, N, N> {
    SMatrix::from_fn(|i, j| a[i][j])
}
pub fn of_na<const N: usize>(a: &SMatrix<Rat, N, N>) -> M<N> {
    std::array::from_fn(|i| std::array::from_fn(|j| a[(i, j)]))
}
pub fn matmul<const N: usize>(a: &M<N>, b: &M<N>) -> M<N> {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..N).fold(z(), |s, k| s + a[i][k] * b[k][j])))
}
/// Model: exact Gaussian elimination.  First column (1-based) that is a linear combination of the
/// columns before it, or None if the matrix is nonsingular.
pub fn first_dependent_column<const N: usize>(a: &M<N>) -> Option<usize> {
    let mut m = *a;
    for k in 0..N {
        let Some(p) = (k..N).find(|&i| m[i][k] != z()) else { return Some(k + 1) };
        m.swap(k, p);
        for i in k + 1..N {
            let f = m[i][k] / m[k][k];
            if f != z() {
                for j in k..N {
                    let t = f * m[k][j];
                    m[i][j] -= t;
                }
            }
        }
    }
    None
}
pub fn show<const N: usize>(a: &M<N>) -> String {
    format!("{:?}", a)
}
type Solver<const N: usize> = Dense<Const<N>>;
pub fn new_solver<const N: usize>() -> Solver<N> {
    <Solver<N> as LSolver<Rat, Const<N>>>::new()
}
pub fn err_col(e: &Error) -> usize {
    #[allow(unreachable_patterns)]
    match e {
        Error::LUFactFail { col } => *col,
        _ => usize::MAX,
    }
}

/// PA = LU with unit lower L, |multipliers| <= 1, upper U with nonzero diagonal; some permutation P.
pub fn check_factors<const N: usize>(a: &M<N>, lu: &M<N>) -> Result<(), String> {
    let one = Rat::int(1);
    let l: M<N> = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { one } else if j < i { lu[i][j] } else { z() }));
    let u: M<N> = std::array::from_fn(|i| std::array::from_fn(|j| if j >= i { lu[i][j] } else { z() }));
    for i in 0..N {
        if !(u[i][i] != z()) || u[i][i].is_nan() {
            return Err(format!("U has a zero diagonal element at {}; A={} result={}", i, show(a), show(lu)));
        }
        for j in 0..i {
            if !(l[i][j] <= one && l[i][j] >= -one) {
                return Err(format!("multiplier ({},{}) = {:?} exceeds one in magnitude; A={} result={}", i, j, l[i][j], show(a), show(lu)));
            }
        }
    }
    let p = matmul(&l, &u);
    let mut used = [false; N];
    for i in 0..N {
        match (0..N).find(|&r| !used[r] && a[r] == p[i]) {
            Some(r) => used[r] = true,
            None => return Err(format!("L*U is not a row permutation of A: A={} result={} L*U={}", show(a), show(lu), show(&p))),
        }
    }
    Ok(())
}

pub const FACT: u32 = 1;
pub const SOLVE: u32 = 2;
pub const SING: u32 = 4;

/// One matrix through setup and, if it succeeds, solves for a complete set of right-hand sides.
pub fn lu_case<const N: usize>(a: &M<N>, what: u32, acc: &mut Acc) -> Result<(), String> {
    let mut s = new_solver::<N>();
    let mut m = to_na(a);
    acc.state(a);
    let r = LSolver::<Rat, Const<N>>::setup(&mut s, &mut m);
    acc.step(1);
    let lu = of_na(&m);
    acc.state(&lu);
    let dep = first_dependent_column(a);
    if what & SING != 0 {
        match (&r, dep) {
            (Ok(()), None) => acc.outcome("nonsingular accepted"),
            (Err(e), Some(c)) => {
                if err_col(e) != c {
                    return Err(format!("singular matrix reported at column {} instead of {}: A={}", err_col(e), c, show(a)));
                }
                acc.outcome("singular rejected, column exact");
            }
            (Ok(()), Some(c)) => return Err(format!("singular matrix (dependent column {}) accepted: A={}", c, show(a))),
            (Err(e), None) => return Err(format!("nonsingular matrix rejected at column {}: A={}", err_col(e), show(a))),
        }
    }
    acc.sample(|| format!("A={} -> {:?}, matrix after setup {}", show(a), r.as_ref().map_err(|e| err_col(e)), show(&lu)));
    if r.is_err() || dep.is_some() {
        acc.outcome("singular");
        acc.trace();
        return Ok(());
    }
    acc.outcome("factored");
    if what & FACT != 0 {
        check_factors(a, &lu)?;
    }
    if what & SOLVE != 0 {
        for c in 0..N + 2 {
            let b: [Rat; N] = std::array::from_fn(|i| {
                if N > 40 {
                    // large systems: right-hand sides whose solutions are a basis and a dense integer
                    // vector, so that everything stays within 128 bits
                    return match c {
                        c if c < N => a[i][c],
                        c if c == N => (0..N).fold(z(), |t, k| t + a[i][k] * Rat::int(1 + (k % 5) as i64)),
                        _ => z(),
                    };
                }
                if c < N {
                    Rat::int((i == c) as i64)
                } else if c == N {
                    Rat::new(1 + 3 * i as i128, if i % 2 == 0 { 2 } else { -3 })
                } else {
                    z()
                }
            });
            let bv = SVector::<Rat, N>::from_fn(|i, _| b[i]);
            // the previous contents of x and the tolerance must not matter
            let mut x = SVector::<Rat, N>::from_fn(|i, _| if c % 2 == 0 { Rat::int(7 + i as i64) } else { crate::rat::NAN });
            let tol = [z(), Rat::int(1), Rat::int(-5), Rat::new(1, 1000)][c % 4];
            let r = LSolver::<Rat, Const<N>>::solve(&s, &m, &mut x, &bv, tol);
            acc.step(1);
            if let Err(e) = r {
                return Err(format!("solve failed after a successful factorization ({:?}): A={} b={:?}", e, show(a), b));
            }
            if (0..N).any(|i| bv[i] != b[i]) {
                return Err(format!("solve changed the right-hand side: A={} b={:?} now {:?}", show(a), b, bv));
            }
            for i in 0..N {
                let ax = (0..N).fold(z(), |t, k| t + a[i][k] * x[k]);
                if ax != b[i] {
                    return Err(format!("A x != b in row {}: A={} b={:?} x={:?}", i, show(a), b, x.as_slice()));
                }
            }
            if of_na(&m) != lu {
                return Err(format!("solve changed the factored matrix: A={}", show(a)));
            }
        }
    }
    acc.trace();
    Ok(())
}

/// matrix number `idx` over the entry alphabet
pub fn from_alphabet<const N: usize>(mut idx: u64, alpha: &[Rat]) -> M<N> {
    std::array::from_fn(|_| std::array::from_fn(|_| alpha[take(&mut idx, alpha.len() as u64) as usize]))
}

/// Pivot path number `idx` (of n!): at step k row k + d_k, 0 <= d_k < n-k, is chosen.
pub fn pivot_path<const N: usize>(mut idx: u64) -> [usize; N] {
    std::array::from_fn(|k| k + take(&mut idx, (N - k) as u64) as usize)
}
/// A = P^T L U for the given pivot path: elimination with partial pivoting must choose exactly it
/// (multipliers are < 1 in magnitude).
pub fn from_factors<const N: usize>(path: &[usize; N], l: &M<N>, u: &M<N>) -> M<N> {
    let mut a = matmul(l, u);
    for k in (0..N).rev() {
        a.swap(k, path[k]);
    }
    a
}
fn l_pattern<const N: usize>(v: u64) -> M<N> {
    // v = 0: identity; otherwise all strict-lower entries from a fixed non-repeating pattern
    let vals = [Rat::new(1, 2), Rat::new(-1, 2), Rat::new(1, 3), z(), Rat::new(-2, 3), Rat::new(3, 4)];
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            if i == j {
                Rat::int(1)
            } else if j < i && v > 0 {
                vals[(i * 2 + j * 3 + v as usize) % if v == 1 { 3 } else { 6 }]
            } else {
                z()
            }
        })
    })
}
fn u_pattern<const N: usize>(v: u64) -> M<N> {
    let d = [Rat::int(2), Rat::int(-1), Rat::int(3), Rat::new(-3, 2), Rat::new(1, 2)];
    let o = [Rat::int(1), Rat::int(-1), z(), Rat::int(2), Rat::new(1, 2), z(), Rat::int(-3)];
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            if i == j {
                d[(i + v as usize) % 5]
            } else if j > i && v > 0 {
                o[(i * 3 + j * 2 + v as usize) % if v == 1 { 2 } else { 7 }]
            } else {
                z()
            }
        })
    })
}

fn alpha(k: usize) -> Vec<Rat> {
    (0..k as u64).map(|d| Rat::int(zigzag(d))).collect()
}

fn push_alpha<const N: usize>(v: &mut Vec<Space>, name: &str, al: Vec<Rat>, what: u32) {
    let size = (al.len() as u64).pow((N * N) as u32);
    v.push(Space::new(format!("all-{}x{}-{}", N, N, name), size, move |i, acc| lu_case::<N>(&from_alphabet::<N>(i, &al), what, acc)));
}
/// every pivot path, times multiplier and U patterns
fn push_paths<const N: usize>(v: &mut Vec<Space>, what: u32) {
    let np = factorial(N as u64);
    v.push(Space::new(format!("all-pivot-paths-{}x{}", N, N), np * 9, move |i, acc| {
        let mut i = i;
        let path = pivot_path::<N>(take(&mut i, np));
        let a = from_factors(&path, &l_pattern(take(&mut i, 3)), &u_pattern(take(&mut i, 3)));
        lu_case::<N>(&a, what, acc)
    }));
}
/// larger systems: every single interchange, rotation and reversal path
pub fn long_path<const N: usize>(mut i: u64) -> [usize; N] {
    // N*N single interchanges (k, l>=k), then N rotations-like paths, then reversal
    let n = N as u64;
    if i < n * n {
        let (k, l) = (i / n, i % n);
        let (k, l) = if k <= l { (k, l) } else { (l, k) };
        return std::array::from_fn(|q| if q == k as usize { l as usize } else { q });
    }
    i -= n * n;
    if i < n {
        return std::array::from_fn(|q| (q + i as usize).min(N - 1).max(q));
    }
    std::array::from_fn(|q| if q < N / 2 { N - 1 - q } else { q })
}
pub fn n_long_paths(n: usize) -> u64 {
    (n * n + n + 1) as u64
}
fn push_long<const N: usize>(v: &mut Vec<Space>, what: u32) {
    let np = n_long_paths(N);
    v.push(Space::new(format!("interchange-paths-{}x{}", N, N), np * 9, move |i, acc| {
        let mut i = i;
        let path = long_path::<N>(take(&mut i, np));
        let a = from_factors(&path, &l_pattern(take(&mut i, 3)), &u_pattern(take(&mut i, 3)));
        lu_case::<N>(&a, what, acc)
    }));
}
/// systems beyond the sizes of usual unrolling, blocking and index widths: a few paths each
fn push_huge<const N: usize>(v: &mut Vec<Space>, what: u32) {
    v.push(Space::new(format!("huge-{}x{}", N, N), 4, move |i, acc| {
        let path: [usize; N] = match i {
            0 => std::array::from_fn(|q| q),
            1 => std::array::from_fn(|q| if q < N / 2 { N - 1 - q } else { q }),
            2 => std::array::from_fn(|q| N - 1 - (N - 1 - q) / 2),
            _ => std::array::from_fn(|q| (q + 1 + q % 7).min(N - 1)),
        };
        let a = from_factors(&path, &l_pattern(1 + i % 2), &u_pattern(1 + i / 2));
        lu_case::<N>(&a, what, acc)
    }));
}
/// every pivot path of a 4x4, every multiplier pattern and every zero pattern of U
fn push_patterns4(v: &mut Vec<Space>, what: u32, full: bool) {
    let vals: Vec<Rat> = if full { vec![z(), Rat::new(1, 2), Rat::int(-1)] } else { vec![z(), Rat::new(-1, 2)] };
    let nl = (vals.len() as u64).pow(6);
    v.push(Space::new("4x4-paths-x-L-patterns-x-U-zero-patterns", 24 * nl * 64, move |i, acc| {
        let mut i = i;
        let path = pivot_path::<4>(take(&mut i, 24));
        let mut up = take(&mut i, 64);
        let mut lp = i;
        let mut l: M<4> = [[z(); 4]; 4];
        let mut u: M<4> = [[z(); 4]; 4];
        for r in 0..4 {
            l[r][r] = Rat::int(1);
            u[r][r] = Rat::int([1, -2, 3, -1][r]);
            for c in 0..r {
                l[r][c] = vals[take(&mut lp, vals.len() as u64) as usize];
            }
            for c in r + 1..4 {
                u[r][c] = if take(&mut up, 2) == 1 { Rat::int((r + c) as i64) } else { z() };
            }
        }
        lu_case::<4>(&from_factors(&path, &l, &u), what, acc)
    }));
}

/// units everywhere: every pattern of multipliers out of `vals` with a fixed U, and every pattern of
/// the strict upper triangle with a fixed L, for a few paths
fn push_units<const N: usize>(v: &mut Vec<Space>, what: u32, vals: &'static [i64]) {
    let m = (N * (N - 1) / 2) as u32;
    let nv = vals.len() as u64;
    let np = (nv).pow(m);
    v.push(Space::new(format!("{}x{}-multiplier-and-upper-patterns-{:?}", N, N, vals), np * 2 * 2 * 3, move |i, acc| {
        let mut i = i;
        let (side, var) = (take(&mut i, 2), take(&mut i, 2));
        let path: [usize; N] = match take(&mut i, 3) {
            0 => std::array::from_fn(|q| q),
            1 => std::array::from_fn(|q| if q < N / 2 { N - 1 - q } else { q }),
            _ => std::array::from_fn(|q| (q + 1).min(N - 1)),
        };
        let (mut l, mut u) = (l_pattern::<N>(1 + var), u_pattern::<N>(1 + var));
        for r in 0..N {
            for c in 0..r {
                let x = Rat::int(vals[take(&mut i, nv) as usize]);
                if side == 0 {
                    l[r][c] = x;
                } else {
                    u[c][r] = x;
                }
            }
        }
        lu_case::<N>(&from_factors(&path, &l, &u), what, acc)
    }));
}

fn push_singular<const N: usize>(v: &mut Vec<Space>, what: u32, all_paths: bool) {
    let np = if all_paths { factorial(N as u64) } else { n_long_paths(N) };
    let n = N as u64;
    // zero pivots at k and (optionally) k2 >= k
    v.push(Space::new(format!("forced-zero-pivots-{}x{}", N, N), np * n * n * 6, move |i, acc| {
        let mut i = i;
        let (k, k2) = (take(&mut i, n) as usize, take(&mut i, n) as usize);
        let pi = take(&mut i, np);
        let path = if all_paths { pivot_path::<N>(pi) } else { long_path::<N>(pi) };
        let l = l_pattern::<N>(take(&mut i, 3));
        let mut u = u_pattern::<N>(take(&mut i, 2) + 1);
        u[k][k] = z();
        u[k2][k2] = z();
        lu_case::<N>(&from_factors(&path, &l, &u), what, acc)
    }));
}

fn entry_spaces(what: u32) -> Vec<Space> {
    let th = tier() == Tier::Thorough;
    let mut v = vec![];
    let mut one: Vec<Rat> = alpha(41);
    one.extend([Rat::new(1, 3), Rat::new(-7, 5), Rat::new(1, 1 << 60), Rat::new(-1, 1i128 << 100), Rat::new(1 << 100, 3)]);
    push_alpha::<1>(&mut v, "rationals", one, what);
    push_alpha::<2>(&mut v, "ints-7", alpha(7), what);
    push_alpha::<2>(&mut v, "scales", vec![z(), Rat::int(1), Rat::int(-1), Rat::new(1, 1 << 55), Rat::new(-3, 1 << 55), Rat::new(1, 1 << 26), Rat::int(2)], what);
    push_alpha::<3>(&mut v, "ints-3", alpha(3), what);
    push_patterns4(&mut v, what, th);
    if th {
        push_alpha::<3>(&mut v, "ints-7", alpha(7), what);
        push_alpha::<4>(&mut v, "ints-3", alpha(3), what);
    } else {
        push_alpha::<3>(&mut v, "ints-5", alpha(5), what);
        push_alpha::<4>(&mut v, "ints-01", alpha(2), what);
    }
    v
}
fn path_spaces(what: u32) -> Vec<Space> {
    let mut v = vec![];
    push_units::<5>(&mut v, what, &[0, 1, -1]);
    push_units::<6>(&mut v, what, &[1, 0]);
    if tier() == Tier::Thorough {
        push_units::<6>(&mut v, what, &[1, -1]);
        push_units::<7>(&mut v, what, &[1, 0]);
    }
    push_paths::<2>(&mut v, what);
    push_paths::<3>(&mut v, what);
    push_paths::<5>(&mut v, what);
    push_paths::<6>(&mut v, what);
    push_paths::<7>(&mut v, what);
    if tier() == Tier::Thorough {
        push_paths::<8>(&mut v, what);
        push_paths::<9>(&mut v, what);
    }
    push_long::<8>(&mut v, what);
    push_long::<9>(&mut v, what);
    push_long::<10>(&mut v, what);
    push_long::<12>(&mut v, what);
    push_long::<16>(&mut v, what);
    push_long::<17>(&mut v, what);
    push_long::<33>(&mut v, what);
    push_huge::<64>(&mut v, what);
    push_huge::<65>(&mut v, what);
    push_huge::<100>(&mut v, what);
    push_huge::<129>(&mut v, what);
    if tier() == Tier::Thorough {
        push_huge::<257>(&mut v, what);
    }
    v
}

const RULE: &str = "every case is a distinct input of a finite indexed space, enumerated completely; the code under test runs with an exact rational scalar";

pub fn l01() -> Check {
    let mut s = entry_spaces(FACT);
    s.extend(path_spaces(FACT));
    Check { id: "L01".into(), spaces: s, rule: RULE.into(), assumptions: vec!["dimensions 1..33; entries from the listed alphabets; exact arithmetic (rounding is L05)".into()] }
}
pub fn l02() -> Check {
    let mut s = entry_spaces(SOLVE);
    s.extend(path_spaces(SOLVE));
    Check { id: "L02".into(), spaces: s, rule: RULE.into(), assumptions: vec!["dimensions 1..33; right-hand sides: a basis, one dense vector and zero per matrix (the solve is linear in b)".into()] }
}
pub fn l03() -> Check {
    let mut s = entry_spaces(SING);
    s.extend(path_spaces(SING));
    push_singular::<2>(&mut s, SING, true);
    push_singular::<3>(&mut s, SING, true);
    push_singular::<4>(&mut s, SING, true);
    push_singular::<5>(&mut s, SING, true);
    push_singular::<6>(&mut s, SING, true);
    push_singular::<8>(&mut s, SING, false);
    push_singular::<10>(&mut s, SING, false);
    push_singular::<12>(&mut s, SING, false);
    s.extend(float_singular());
    Check { id: "L03".into(), spaces: s, rule: RULE.into(), assumptions: vec!["in double precision only matrices whose elimination is exact are judged (dyadic multipliers), plus tiny and huge pivots".into()] }
}

// ---------------------------------------------------------------- double precision

type F<const N: usize> = [[f64; N]; N];
fn fsetup<const N: usize>(a: &F<N>) -> (Result<(), Error>, Dense<Const<N>>, SMatrix<f64, N, N>) {
    let mut s = <Dense<Const<N>> as LSolver<f64, Const<N>>>::new();
    let mut m = SMatrix::<f64, N, N>::from_fn(|i, j| a[i][j]);
    let r = LSolver::<f64, Const<N>>::setup(&mut s, &mut m);
    (r, s, m)
}
fn hashf(x: &[f64]) -> u64 {
    hash_of(&x.iter().map(|v| v.to_bits()).collect::<Vec<_>>())
}

/// f64 singularity: A = P^T L U with dyadic L, U (elimination exact), all pivot paths, pivot magnitudes
/// from 2^-1000 to 2^1000, zero pivots at chosen positions.
fn float_singular() -> Vec<Space> {
    fn case<const N: usize>(mut i: u64, acc: &mut Acc) -> Result<(), String> {
        let np = factorial(N as u64);
        let path = pivot_path::<N>(take(&mut i, np));
        let zk = take(&mut i, N as u64 + 1) as usize; // zk == N: nonsingular
        let sc = [1.0, 2f64.powi(-40), 2f64.powi(-60), 2f64.powi(-1000), 2f64.powi(900), 2f64.powi(-200)][take(&mut i, 6) as usize];
        let tiny = take(&mut i, N as u64 + 1) as usize; // one extra-small pivot
        let tv = 2f64.powi(-52 - 10);
        let lv = take(&mut i, 2);
        let mut l: F<N> = [[0.0; N]; N];
        let mut u: F<N> = [[0.0; N]; N];
        for r in 0..N {
            l[r][r] = 1.0;
            for c in 0..r {
                l[r][c] = [0.5, -0.5, 0.0, 0.25][(r + 2 * c + lv as usize) % 4];
            }
            u[r][r] = [1.0, -2.0, 0.5, 4.0][r % 4] * sc;
            if r == tiny {
                // a tiny pivot with nothing else in its row, so that forming A is exact
                u[r][r] *= tv;
            } else {
                for c in r + 1..N {
                    u[r][c] = [1.0, 0.0, -1.0, 2.0][(r * 2 + c) % 4] * sc;
                }
            }
        }
        if zk < N {
            u[zk][zk] = 0.0;
        }
        if tiny < N && tiny != N - 1 {
            // entries of column `tiny` above the tiny pivot would absorb it when A is formed
            for r in 0..tiny {
                u[r][tiny] = 0.0;
            }
        }
        if tiny == N - 1 {
            for r in 0..tiny {
                u[r][tiny] = 0.0;
            }
        }
        let mut a: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| (0..N).map(|k| l[r][k] * u[k][c]).sum()));
        for k in (0..N).rev() {
            a.swap(k, path[k]);
        }
        let (r, _s, m) = fsetup(&a);
        acc.step(1);
        acc.state(&hashf(&a.concat()));
        acc.state(&hashf(m.as_slice()));
        acc.trace();
        acc.sample(|| format!("f64 A={:?} -> {:?}", a, r.as_ref().map_err(err_col)));
        match (r, zk < N) {
            (Ok(()), false) => acc.outcome("f64 nonsingular accepted"),
            (Err(e), true) if err_col(&e) == zk + 1 => acc.outcome("f64 singular rejected"),
            (Err(e), true) => return Err(format!("singular at column {} but column {} reported: A={:?}", zk + 1, err_col(&e), a)),
            (Ok(()), true) => return Err(format!("singular matrix accepted (zero pivot in column {}): A={:?}", zk + 1, a)),
            (Err(e), false) => return Err(format!("nonsingular matrix rejected at column {}: A={:?}", err_col(&e), a)),
        }
        Ok(())
    }
    fn sp<const N: usize>() -> Space {
        let n = N as u64;
        Space::new(format!("f64-exact-elimination-{}x{}", N, N), factorial(n) * (n + 1) * 6 * (n + 1) * 2, |i, acc| case::<N>(i, acc))
    }
    vec![sp::<1>(), sp::<2>(), sp::<3>(), sp::<4>(), sp::<5>()]
}

/// f64 accuracy: residual bounded by rounding level (with the growth bound of partial pivoting), and
/// exact equivariance under power-of-two scaling of A and b.
fn facc_case<const N: usize>(a: &F<N>, acc: &mut Acc) -> Result<(), String> {
    let (r, s, m) = fsetup(a);
    acc.step(1);
    acc.state(&hashf(&a.concat()));
    let norm = |m: &F<N>| m.iter().flatten().fold(0f64, |t, x| t.max(x.abs()));
    let an = norm(a);
    if r.is_err() {
        acc.outcome("rejected as singular");
        // scaling by a power of two cannot change that verdict
        for k in [-600, 500] {
            let sa: F<N> = std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] * 2f64.powi(k)));
            let (r2, _, _) = fsetup(&sa);
            acc.step(1);
            match (&r, &r2) {
                (Err(e), Err(f)) if err_col(e) == err_col(f) => {}
                _ => return Err(format!("scaling A by 2^{} changes the singularity verdict: A={:?} {:?} vs {:?}", k, a, r.map_err(|e| err_col(&e)), r2.map_err(|e| err_col(&e)))),
            }
        }
        acc.trace();
        return Ok(());
    }
    let eps = f64::EPSILON;
    // growth of partial pivoting is at most 2^(n-1); 4 n^2 covers the usual backward error constant
    let c = 4.0 * (N * N) as f64 * 2f64.powi(N as i32 - 1) * eps;
    for bc in 0..3 {
        let b: [f64; N] = std::array::from_fn(|i| match bc {
            0 => 1.0,
            1 => [1.0, -3.0, 0.1, 7.0, -0.7, 2.5][i % 6],
            _ => if i == N - 1 { 1.0 } else { 0.0 },
        });
        let bv = SVector::<f64, N>::from_fn(|i, _| b[i]);
        let mut x = SVector::<f64, N>::from_element(f64::NAN);
        if LSolver::<f64, Const<N>>::solve(&s, &m, &mut x, &bv, f64::NAN).is_err() {
            return Err(format!("solve failed after successful setup: A={:?}", a));
        }
        acc.step(1);
        acc.state(&hashf(x.as_slice()));
        if x.iter().any(|v| !v.is_finite()) {
            // near-singular to the point of overflow: no accuracy claim
            acc.outcome("solution not finite");
            continue;
        }
        let xn = x.iter().fold(0f64, |t, v| t.max(v.abs()));
        for i in 0..N {
            // exact residual
            let mut res = -b[i];
            let mut comp = 0.0;
            for k in 0..N {
                let p = a[i][k] * x[k];
                comp += f64::mul_add(a[i][k], x[k], -p);
                let t = res + p;
                comp += if res.abs() >= p.abs() { (res - t) + p } else { (p - t) + res };
                res = t;
            }
            let res = res + comp;
            let bound = c * an * xn;
            if !(res.abs() <= bound) {
                return Err(format!("residual {:e} of row {} exceeds the backward error bound {:e}: A={:?} b={:?} x={:?}", res, i, bound, a, b, x.as_slice()));
            }
        }
        // equivariance: (2^k A) x' = 2^j b  =>  x' = 2^(j-k) x bit for bit
        for (k, j) in [(-300i32, 0i32), (250, 0), (0, 200), (-400, -400)] {
            let sa: F<N> = std::array::from_fn(|r| std::array::from_fn(|q| a[r][q] * 2f64.powi(k)));
            let (r2, s2, m2) = fsetup(&sa);
            acc.step(1);
            if let Err(e) = r2 {
                return Err(format!("scaling A by 2^{} makes it singular (column {}): A={:?}", k, err_col(&e), a));
            }
            let sb = SVector::<f64, N>::from_fn(|i, _| b[i] * 2f64.powi(j));
            let mut x2 = SVector::<f64, N>::zeros();
            LSolver::<f64, Const<N>>::solve(&s2, &m2, &mut x2, &sb, 0.0).map_err(|_| "solve failed".to_string())?;
            acc.step(1);
            for i in 0..N {
                let e = x[i] * 2f64.powi(j - k);
                if !(x2[i] == e || e.abs() < 1e-290 || (e - x2[i]).abs() <= 1e-300) {
                    return Err(format!("scaling A by 2^{} and b by 2^{} does not scale x: A={:?} b={:?} x[{}]={:e}, scaled {:e}", k, j, a, b, i, x[i], x2[i]));
                }
            }
        }
    }
    acc.outcome("accurate");
    acc.trace();
    acc.sample(|| format!("f64 A={:?} solved to rounding level", a));
    Ok(())
}
fn push_facc<const N: usize>(v: &mut Vec<Space>, name: &str, al: Vec<f64>) {
    let k = al.len() as u64;
    v.push(Space::new(format!("f64-all-{}x{}-{}", N, N, name), k.pow((N * N) as u32), move |mut i, acc| {
        let a: F<N> = std::array::from_fn(|_| std::array::from_fn(|_| al[take(&mut i, k) as usize]));
        facc_case::<N>(&a, acc)
    }));
}
/// every matrix that differs from a well-scaled base in a row scale, a column scale and one entry
fn push_fgraded<const N: usize>(v: &mut Vec<Space>) {
    let n = N as u64;
    let vals = [0.0, 1e-18, -1e-8, 1.0, 1e6];
    v.push(Space::new(format!("f64-graded-{}x{}", N, N), n * 5 * n * 5 * n * n * 5, move |mut i, acc| {
        let (r, rs) = (take(&mut i, n) as usize, [1.0, 1e-12, 1e-3, 1e4, 1e9][take(&mut i, 5) as usize]);
        let (c, cs) = (take(&mut i, n) as usize, [1.0, 1e-12, 1e-3, 1e4, 1e9][take(&mut i, 5) as usize]);
        let (er, ec) = (take(&mut i, n) as usize, take(&mut i, n) as usize);
        let val = vals[take(&mut i, 5) as usize];
        let mut a: F<N> = std::array::from_fn(|p| std::array::from_fn(|q| (((p * 7 + q * 5 + p * q * 3) % 11) as f64 - 5.0) / 3.0 + if p == q { 0.1 } else { 0.0 }));
        a[er][ec] = val;
        for q in 0..N {
            a[r][q] *= rs;
            a[q][c] *= cs;
        }
        facc_case::<N>(&a, acc)
    }));
}
/// A = 2^s P^T L U with dyadic factors and integer solutions: elimination and substitution are exact at
/// every scaling at which A is representable, down to pivots below the normal range.
fn push_fexact<const N: usize>(v: &mut Vec<Space>) {
    const S: [i32; 23] = [-1068, -1060, -1040, -1030, -1026, -1025, -1024, -1023, -1022, -1021, -1020, -1000, -600, -52, 0, 1, 30, 300, 900, 1000, 1010, 1015, 1016];
    let np = factorial(N as u64);
    v.push(Space::new(format!("f64-exact-at-every-scale-{}x{}", N, N), np * 4 * 4 * S.len() as u64, move |mut i, acc| {
        let path = pivot_path::<N>(take(&mut i, np));
        let (lv, uv) = (take(&mut i, 4) as usize, take(&mut i, 4) as usize);
        let sc = S[i as usize];
        let p2 = |x: f64| {
            // two factors: 2^sc itself may be outside the normal range
            let h = sc / 2;
            x * 2f64.powi(h) * 2f64.powi(sc - h)
        };
        let l: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| if r == c { 1.0 } else if c < r { [0.5, -0.5, 0.0, 0.25][(r + 2 * c + lv) % 4] } else { 0.0 }));
        let u: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| if r == c { [1.0, -2.0, 0.5, 4.0][(r + uv) % 4] } else if c > r { [1.0, 0.0, -1.0, 2.0][(r * 2 + c + uv) % 4] } else { 0.0 }));
        let mut a: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| (0..N).map(|k| l[r][k] * u[k][c]).sum()));
        for k in (0..N).rev() {
            a.swap(k, path[k]);
        }
        let x: [f64; N] = std::array::from_fn(|k| [1.0, -2.0, 3.0, 0.0, -1.0][(k + lv) % 5]);
        let b: [f64; N] = std::array::from_fn(|r| p2((0..N).map(|k| a[r][k] * x[k]).sum()));
        let sa: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| p2(a[r][c])));
        let (r, s, m) = fsetup(&sa);
        acc.step(1);
        acc.state(&hashf(&sa.concat()));
        if let Err(e) = r {
            return Err(format!("nonsingular matrix rejected at column {}: A = 2^{} * {:?}", err_col(&e), sc, a));
        }
        let bv = SVector::<f64, N>::from_fn(|k, _| b[k]);
        let mut got = SVector::<f64, N>::zeros();
        LSolver::<f64, Const<N>>::solve(&s, &m, &mut got, &bv, 0.0).map_err(|_| "solve failed".to_string())?;
        acc.step(1);
        acc.trace();
        acc.outcome(if sc < -1022 { "exact below the normal range" } else { "exact" });
        for k in 0..N {
            if got[k] != x[k] {
                return Err(format!("A = 2^{} * {:?} b = 2^{} * {:?}: solution {:?} instead of {:?}", sc, a, sc, b.map(|t| t / p2(1.0)), got.as_slice(), x));
            }
        }
        Ok(())
    }));
}
// ---------------------------------------------------------------- single precision

type F32<const N: usize> = [[f32; N]; N];
fn setup32<const N: usize>(a: &F32<N>) -> (Result<(), Error>, Dense<Const<N>>, SMatrix<f32, N, N>) {
    let mut s = <Dense<Const<N>> as LSolver<f32, Const<N>>>::new();
    let mut m = SMatrix::<f32, N, N>::from_fn(|i, j| a[i][j]);
    let r = LSolver::<f32, Const<N>>::setup(&mut s, &mut m);
    (r, s, m)
}
fn solve32<const N: usize>(s: &Dense<Const<N>>, m: &SMatrix<f32, N, N>, b: &[f32; N]) -> Result<[f32; N], String> {
    let bv = SVector::<f32, N>::from_fn(|k, _| b[k]);
    let mut x = SVector::<f32, N>::from_element(f32::NAN);
    LSolver::<f32, Const<N>>::solve(s, m, &mut x, &bv, f32::NAN).map_err(|_| "solve failed".to_string())?;
    Ok(std::array::from_fn(|k| x[k]))
}
fn hash32(x: &[f32]) -> u64 {
    hash_of(&x.iter().map(|v| v.to_bits()).collect::<Vec<_>>())
}
fn f32acc_case<const N: usize>(a: &F32<N>, acc: &mut Acc) -> Result<(), String> {
    let (r, s, m) = setup32(a);
    acc.step(1);
    acc.state(&hash32(&a.concat()));
    let scaled = |k: i32| -> F32<N> { std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] * 2f32.powi(k))) };
    if let Err(e) = &r {
        acc.outcome("single: rejected as singular");
        let (r2, _, _) = setup32(&scaled(40));
        acc.step(1);
        acc.trace();
        return match r2 {
            Err(f) if err_col(&f) == err_col(e) => Ok(()),
            r2 => Err(format!("f32: scaling A by 2^40 changes the singularity verdict: A={:?} {:?} vs {:?}", a, err_col(e), r2.map_err(|e| err_col(&e)))),
        };
    }
    let an = a.iter().flatten().fold(0f64, |t, x| t.max(x.abs() as f64));
    let c = 4.0 * (N * N) as f64 * 2f64.powi(N as i32 - 1) * f32::EPSILON as f64;
    for bc in 0..2 {
        let b: [f32; N] = std::array::from_fn(|i| if bc == 0 { 1.0 } else { [1.0, -3.0, 0.1, 7.0, -0.7, 2.5][i % 6] });
        let x = solve32(&s, &m, &b)?;
        acc.step(1);
        acc.state(&hash32(&x));
        if x.iter().any(|v| !v.is_finite()) {
            acc.outcome("single: solution not finite");
            continue;
        }
        let xn = x.iter().fold(0f64, |t, v| t.max(v.abs() as f64));
        for i in 0..N {
            // products of singles are exact in double
            let res: f64 = (0..N).map(|k| a[i][k] as f64 * x[k] as f64).sum::<f64>() - b[i] as f64;
            let bound = c * an * xn;
            if !(res.abs() <= bound) {
                return Err(format!("f32: residual {:e} of row {} exceeds the backward error bound {:e}: A={:?} b={:?} x={:?}", res, i, bound, a, b, x));
            }
        }
        for k in [-30, 25] {
            let (r2, s2, m2) = setup32(&scaled(k));
            acc.step(1);
            if let Err(e) = r2 {
                return Err(format!("f32: scaling A by 2^{} makes it singular (column {}): A={:?}", k, err_col(&e), a));
            }
            let x2 = solve32(&s2, &m2, &b)?;
            acc.step(1);
            for i in 0..N {
                let e = x[i] * 2f32.powi(-k);
                if !(x2[i] == e || !e.is_finite() || (e - x2[i]).abs() <= 1e-36) {
                    return Err(format!("f32: scaling A by 2^{} does not scale x: A={:?} b={:?} x[{}]={:e}, scaled {:e}", k, a, b, i, x[i], x2[i]));
                }
            }
        }
    }
    acc.outcome("single: accurate");
    acc.trace();
    Ok(())
}
fn push_f32acc<const N: usize>(v: &mut Vec<Space>, name: &str, al: Vec<f32>) {
    let k = al.len() as u64;
    v.push(Space::new(format!("f32-all-{}x{}-{}", N, N, name), k.pow((N * N) as u32), move |mut i, acc| {
        let a: F32<N> = std::array::from_fn(|_| std::array::from_fn(|_| al[take(&mut i, k) as usize]));
        f32acc_case::<N>(&a, acc)
    }));
}
/// as `push_fexact`, in single precision
fn push_f32exact<const N: usize>(v: &mut Vec<Space>) {
    const S: [i32; 16] = [-139, -136, -133, -129, -128, -127, -126, -125, -100, -30, -23, 0, 1, 60, 110, 118];
    let np = factorial(N as u64);
    v.push(Space::new(format!("f32-exact-at-every-scale-{}x{}", N, N), np * 4 * 4 * S.len() as u64, move |mut i, acc| {
        let path = pivot_path::<N>(take(&mut i, np));
        let (lv, uv) = (take(&mut i, 4) as usize, take(&mut i, 4) as usize);
        let sc = S[i as usize];
        let l: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| if r == c { 1.0 } else if c < r { [0.5, -0.5, 0.0, 0.25][(r + 2 * c + lv) % 4] } else { 0.0 }));
        let u: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| if r == c { [1.0, -2.0, 0.5, 4.0][(r + uv) % 4] } else if c > r { [1.0, 0.0, -1.0, 2.0][(r * 2 + c + uv) % 4] } else { 0.0 }));
        let mut a: F<N> = std::array::from_fn(|r| std::array::from_fn(|c| (0..N).map(|k| l[r][k] * u[k][c]).sum()));
        for k in (0..N).rev() {
            a.swap(k, path[k]);
        }
        let x: [f64; N] = std::array::from_fn(|k| [1.0, -2.0, 3.0, 0.0, -1.0][(k + lv) % 5]);
        let p = 2f64.powi(sc);
        let b: [f32; N] = std::array::from_fn(|r| (p * (0..N).map(|k| a[r][k] * x[k]).sum::<f64>()) as f32);
        let sa: F32<N> = std::array::from_fn(|r| std::array::from_fn(|c| (p * a[r][c]) as f32));
        let (r, s, m) = setup32(&sa);
        acc.step(1);
        acc.state(&hash32(&sa.concat()));
        if let Err(e) = r {
            return Err(format!("f32: nonsingular matrix rejected at column {}: A = 2^{} * {:?}", err_col(&e), sc, a));
        }
        let got = solve32(&s, &m, &b)?;
        acc.step(1);
        acc.trace();
        acc.outcome(if sc < -126 { "single: exact below the normal range" } else { "single: exact" });
        for k in 0..N {
            if got[k] as f64 != x[k] {
                return Err(format!("f32: A = 2^{} * {:?}: solution {:?} instead of {:?}", sc, a, got, x));
            }
        }
        Ok(())
    }));
}
pub fn l05() -> Check {
    let th = tier() == Tier::Thorough;
    let mut v = vec![];
    push_facc::<1>(&mut v, "values", vec![1.0, -1.0, 0.1, 3.0, 1e-20, 1e20, -7e-5, 0.0]);
    push_facc::<2>(&mut v, "scales", vec![0.0, 1.0, -1.0, 0.1, 3.0, 1e-20, -1e-9, 1e9, 1e17, -0.7]);
    push_facc::<3>(&mut v, "scales", if th { vec![0.0, 1.0, -0.3, 1e-17, 1e8, 7.0] } else { vec![0.0, 1.0, -0.3, 1e-17] });
    push_facc::<3>(&mut v, "tenths", if th { vec![0.1, -0.2, 0.3, 0.0, 1.1] } else { vec![0.1, -0.2, 0.3] });
    push_facc::<4>(&mut v, "tiny-diag", if th { vec![1e-17, 1.0, -0.3] } else { vec![1e-17, 1.0] });
    push_fgraded::<3>(&mut v);
    push_fgraded::<5>(&mut v);
    push_fgraded::<8>(&mut v);
    push_fexact::<1>(&mut v);
    push_fexact::<2>(&mut v);
    push_fexact::<3>(&mut v);
    push_fexact::<4>(&mut v);
    push_fexact::<5>(&mut v);
    push_fexact::<6>(&mut v);
    if th {
        push_fexact::<7>(&mut v);
        push_fexact::<8>(&mut v);
    }
    push_f32acc::<1>(&mut v, "values", vec![1.0, -1.0, 0.1, 3.0, 1e-9, 1e9, -7e-5, 0.0]);
    push_f32acc::<2>(&mut v, "scales", vec![0.0, 1.0, -1.0, 0.1, 3.0, 1e-9, -1e-5, 1e5, 1e8, -0.7]);
    push_f32acc::<3>(&mut v, "scales", if th { vec![0.0, 1.0, -0.3, 1e-9, 1e5, 7.0] } else { vec![0.0, 1.0, -0.3, 1e-9] });
    push_f32acc::<4>(&mut v, "tiny-diag", if th { vec![1e-9, 1.0, -0.3] } else { vec![1e-9, 1.0] });
    push_f32exact::<1>(&mut v);
    push_f32exact::<2>(&mut v);
    push_f32exact::<3>(&mut v);
    push_f32exact::<4>(&mut v);
    push_f32exact::<5>(&mut v);
    if th {
        push_f32exact::<6>(&mut v);
        push_f32exact::<7>(&mut v);
    }
    Check { id: "L05".into(), spaces: v, rule: "every matrix over the alphabets; each with three right-hand sides and four scalings".into(), assumptions: vec!["the residual bound uses the worst-case growth 2^(n-1) of partial pivoting; results that overflow are not judged".into()] }
}

// ---------------------------------------------------------------- L04 histories

/// Model of one solver object: which matrix (by catalogue number) its factorization belongs to.
#[derive(Clone, Copy, PartialEq, Hash, Debug)]
enum Fact {
    None,
    Of(usize),
}
fn catalogue<const N: usize>() -> Vec<M<N>> {
    let mut v: Vec<M<N>> = vec![];
    let np = factorial(N as u64);
    // identity, the reversal path, a middle path, and two singular ones (early and late column)
    v.push(std::array::from_fn(|i| std::array::from_fn(|j| Rat::int((i == j) as i64 * (2 + i as i64)))));
    v.push(from_factors(&pivot_path::<N>(np - 1), &l_pattern(1), &u_pattern(1)));
    v.push(from_factors(&pivot_path::<N>(np / 2), &l_pattern(2), &u_pattern(2)));
    let mut u = u_pattern::<N>(1);
    u[N - 1][N - 1] = z();
    v.push(from_factors(&pivot_path::<N>(np - 1), &l_pattern(1), &u));
    let mut u = u_pattern::<N>(1);
    u[0][0] = z();
    v.push(from_factors(&pivot_path::<N>(0), &l_pattern(1), &u));
    v
}
fn history_case<const N: usize>(mut idx: u64, depth: usize, acc: &mut Acc) -> Result<(), String> {
    let cat = catalogue::<N>();
    let nops = 2 * cat.len() as u64 + 2 * 2 + 2 + 1;
    let mut solvers = [new_solver::<N>(), new_solver::<N>()];
    let mut facts = [Fact::None; 2];
    let mut mats: [SMatrix<Rat, N, N>; 2] = [SMatrix::zeros(); 2];
    let mut hist = String::new();
    let mut x = SVector::<Rat, N>::zeros();
    for _ in 0..depth {
        let op = take(&mut idx, nops) as usize;
        let nc = cat.len();
        if op < 2 * nc {
            let (s, c) = (op / nc, op % nc);
            hist += &format!("setup(solver{}, m{}); ", s, c);
            let mut m = to_na(&cat[c]);
            let r = LSolver::<Rat, Const<N>>::setup(&mut solvers[s], &mut m);
            acc.step(1);
            match (r, first_dependent_column(&cat[c])) {
                (Ok(()), None) => {
                    check_factors(&cat[c], &of_na(&m)).map_err(|e| format!("{} after {}", e, hist))?;
                    mats[s] = m;
                    facts[s] = Fact::Of(c);
                }
                (Err(e), Some(k)) if err_col(&e) == k => facts[s] = Fact::None,
                (r, k) => return Err(format!("history {} gives {:?}, a fresh solver must give column {:?}", hist, r.map_err(|e| err_col(&e)), k)),
            }
        } else if op < 2 * nc + 4 {
            let (s, b) = ((op - 2 * nc) / 2, (op - 2 * nc) % 2);
            let Fact::Of(c) = facts[s] else { continue };
            hist += &format!("solve(solver{}, b{}); ", s, b);
            let bv = SVector::<Rat, N>::from_fn(|i, _| if b == 0 { Rat::int(1 + i as i64) } else { Rat::int(if i == N - 1 { -2 } else { 0 }) });
            // x keeps whatever the last solve left in it
            LSolver::<Rat, Const<N>>::solve(&solvers[s], &mats[s], &mut x, &bv, Rat::int(0)).map_err(|e| format!("{:?} after {}", e, hist))?;
            acc.step(1);
            for i in 0..N {
                let ax = (0..N).fold(z(), |t, k| t + cat[c][i][k] * x[k]);
                if ax != bv[i] {
                    return Err(format!("A x != b after history {}: A={} b={:?} x={:?}", hist, show(&cat[c]), bv.as_slice(), x.as_slice()));
                }
            }
        } else if op < 2 * nc + 6 {
            let s = op - 2 * nc - 4;
            hist += &format!("solver{} = solver{}.clone(); ", 1 - s, s);
            solvers[1 - s] = solvers[s].clone();
            mats[1 - s] = mats[s];
            facts[1 - s] = facts[s];
        } else {
            hist += "query solver type and counters; ";
            for s in &solvers {
                if !matches!(LSolver::<Rat, Const<N>>::get_type(s), LSolverType::Direct) {
                    return Err(format!("a direct solver reports another type after {}", hist));
                }
                if LSolver::<Rat, Const<N>>::num_iters(s) != 0 || LSolver::<Rat, Const<N>>::res_norm(s) != z() {
                    return Err(format!("a direct solver reports linear iterations or a residual norm after {}", hist));
                }
            }
            acc.step(1);
        }
        acc.state(&(N, facts, mats.iter().map(|m| of_na(m)).collect::<Vec<_>>(), x.iter().copied().collect::<Vec<_>>()));
    }
    acc.outcome(match facts {
        [Fact::None, Fact::None] => "both solvers without factorization at the end",
        [Fact::Of(a), Fact::Of(b)] if a == b => "both solvers hold the same matrix",
        [Fact::Of(_), Fact::Of(_)] => "solvers hold different matrices",
        _ => "one solver holds a factorization",
    });
    acc.trace();
    acc.sample(|| format!("n={} history {}", N, hist));
    Ok(())
}
pub fn l04() -> Check {
    let d = if tier() == Tier::Thorough { 5 } else { 4 };
    let nops = 17u64;
    let mut v = vec![];
    for depth in 1..=d {
        v.push(Space::new(format!("histories-2x2-depth-{}", depth), nops.pow(depth as u32), move |i, acc| history_case::<2>(i, depth, acc)));
        v.push(Space::new(format!("histories-3x3-depth-{}", depth), nops.pow(depth as u32), move |i, acc| history_case::<3>(i, depth, acc)));
        if depth < 4 || tier() == Tier::Thorough {
            v.push(Space::new(format!("histories-5x5-depth-{}", depth), nops.pow(depth as u32), move |i, acc| history_case::<5>(i, depth, acc)));
        }
    }
    // every ordered pair of 2x2 / 3x3 matrices through one solver: the second result must be as fresh
    fn pair<const N: usize>(a: &M<N>, b: &M<N>, acc: &mut Acc) -> Result<(), String> {
        let mut s = new_solver::<N>();
        let mut m = to_na(a);
        let _ = LSolver::<Rat, Const<N>>::setup(&mut s, &mut m);
        let mut m1 = to_na(b);
        let r1 = LSolver::<Rat, Const<N>>::setup(&mut s, &mut m1);
        acc.step(2);
        acc.state(&(of_na(&m), of_na(&m1)));
        acc.trace();
        match (r1, first_dependent_column(b)) {
            (Ok(()), None) => {
                check_factors(b, &of_na(&m1)).map_err(|e| format!("{} (after factoring {})", e, show(a)))?;
                let bv = SVector::<Rat, N>::from_fn(|i, _| Rat::int(3 - 2 * i as i64));
                let mut x = SVector::<Rat, N>::zeros();
                LSolver::<Rat, Const<N>>::solve(&s, &m1, &mut x, &bv, Rat::int(0)).map_err(|e| format!("{:?}", e))?;
                acc.step(1);
                for i in 0..N {
                    if (0..N).fold(z(), |t, k| t + b[i][k] * x[k]) != bv[i] {
                        return Err(format!("A x != b for A={} after the solver had factored {}", show(b), show(a)));
                    }
                }
                acc.outcome("pair: second factored");
            }
            (Err(e), Some(k)) if err_col(&e) == k => acc.outcome("pair: second singular"),
            (r, k) => return Err(format!("A={} after {}: {:?} instead of {:?}", show(b), show(a), r.map_err(|e| err_col(&e)), k)),
        }
        Ok(())
    }
    v.push(Space::new("ordered-pairs-2x2", 625 * 625, |mut i, acc| {
        let al = alpha(5);
        let a = from_alphabet::<2>(take(&mut i, 625), &al);
        let b = from_alphabet::<2>(i, &al);
        pair(&a, &b, acc)
    }));
    v.push(Space::new("ordered-pairs-3x3", 512 * 512, |mut i, acc| {
        let al = alpha(2);
        let a = from_alphabet::<3>(take(&mut i, 512), &al);
        let b = from_alphabet::<3>(i, &al);
        pair(&a, &b, acc)
    }));
    Check { id: "L04".into(), spaces: v, rule: "every operation history of the alphabet {setup of 5 matrices (2 singular), 2 solves, clone, query} on two solver objects, up to the depth; every ordered pair of matrices".into(), assumptions: vec!["a solve is only issued with the matrix the solver was last successfully set up with".into()] }
}

// ---------------------------------------------------------------- L06 storage

/// The same system held in owned storage and in strided views into a larger buffer.
fn view_case<const N: usize>(a: &M<N>, rs: usize, cs: usize, off: usize, xs: usize, acc: &mut Acc) -> Result<(), String> {
    let guard = Rat::new(12345, 7);
    let len = off + (N - 1) * rs + (N - 1) * cs + 1 + 3;
    let mut buf = vec![guard; len];
    for i in 0..N {
        for j in 0..N {
            buf[off + i * rs + j * cs] = a[i][j];
        }
    }
    let mut own = to_na(a);
    let mut s1 = new_solver::<N>();
    let mut s2 = new_solver::<N>();
    let r1 = LSolver::<Rat, Const<N>>::setup(&mut s1, &mut own).map_err(|e| err_col(&e));
    let inside: Vec<bool> = {
        let mut v = vec![false; len];
        for i in 0..N {
            for j in 0..N {
                v[off + i * rs + j * cs] = true;
            }
        }
        v
    };
    let r2 = {
        let mut v: MatrixViewMut<Rat, Const<N>, Const<N>, Dyn, Dyn> =
            MatrixViewMut::from_slice_with_strides_generic(&mut buf[off..], Const::<N>, Const::<N>, Dyn(rs), Dyn(cs));
        LSolver::<Rat, Const<N>>::setup(&mut s2, &mut v).map_err(|e| err_col(&e))
    };
    acc.step(2);
    acc.state(&(a, rs, cs, off));
    if r1 != r2 {
        return Err(format!("setup through a view with strides ({},{}) gives {:?}, owned storage {:?}: A={}", rs, cs, r2, r1, show(a)));
    }
    for (k, g) in buf.iter().enumerate() {
        if !inside[k] && *g != guard {
            return Err(format!("setup wrote outside the view at offset {}: A={} strides ({},{})", k, show(a), rs, cs));
        }
    }
    acc.trace();
    if r1.is_err() {
        acc.outcome("singular in both");
        return Ok(());
    }
    let dep = first_dependent_column(a);
    if dep.is_some() {
        return Ok(());
    }
    // factors in the view must be factors of A
    let lu: M<N> = std::array::from_fn(|i| std::array::from_fn(|j| buf[off + i * rs + j * cs]));
    check_factors(a, &lu)?;
    let snapshot = buf.clone();
    let mut xb = vec![guard; N * xs + 2];
    let mut bb = vec![guard; N * (xs + 1) + 2];
    let bvals: [Rat; N] = std::array::from_fn(|i| Rat::int(2 * i as i64 - 3));
    for i in 0..N {
        bb[1 + i * (xs + 1)] = bvals[i];
    }
    let bsnap = bb.clone();
    {
        let v: MatrixViewMut<Rat, Const<N>, Const<N>, Dyn, Dyn> =
            MatrixViewMut::from_slice_with_strides_generic(&mut buf[off..], Const::<N>, Const::<N>, Dyn(rs), Dyn(cs));
        let mut xv: MatrixViewMut<Rat, Const<N>, Const<1>, Dyn, Dyn> =
            MatrixViewMut::from_slice_with_strides_generic(&mut xb[1..], Const::<N>, Const::<1>, Dyn(xs), Dyn(N * xs));
        let bv: MatrixViewMut<Rat, Const<N>, Const<1>, Dyn, Dyn> =
            MatrixViewMut::from_slice_with_strides_generic(&mut bb[1..], Const::<N>, Const::<1>, Dyn(xs + 1), Dyn(N * (xs + 1)));
        LSolver::<Rat, Const<N>>::solve(&s2, &v, &mut xv, &bv, Rat::int(0)).map_err(|e| format!("solve through views failed: {:?}", e))?;
    }
    acc.step(1);
    if snapshot != buf || bsnap != bb {
        return Err(format!("solve through views changed the matrix or the right-hand side: A={}", show(a)));
    }
    for k in 0..xb.len() {
        let ins = k >= 1 && (k - 1) % xs == 0 && (k - 1) / xs < N;
        if !ins && xb[k] != guard {
            return Err(format!("solve wrote outside the solution view: A={}", show(a)));
        }
    }
    for i in 0..N {
        let ax = (0..N).fold(z(), |t, k| t + a[i][k] * xb[1 + k * xs]);
        if ax != bvals[i] {
            return Err(format!("solve through views: A x != b, A={} strides ({},{}) x stride {}", show(a), rs, cs, xs));
        }
    }
    acc.outcome("solved through views");
    acc.sample(|| format!("A={} strides ({},{}) offset {} x stride {}", show(a), rs, cs, off, xs));
    Ok(())
}
pub fn l06() -> Check {
    let mut v = vec![];
    fn layouts<const N: usize>() -> Vec<(usize, usize)> {
        // column-major with gaps, row-major, both with gaps
        vec![(1, N), (N, 1), (1, N + 2), (N + 1, 1), (2, 2 * N), (2 * N + 1, 2), (3, 3 * N + 1)]
    }
    fn sp<const N: usize>(al: Vec<Rat>) -> Space {
        let k = (al.len() as u64).pow((N * N) as u32);
        Space::new(format!("views-all-{}x{}", N, N), k * 7 * 2 * 3, move |mut i, acc| {
            let a = from_alphabet::<N>(take(&mut i, k), &al);
            let (rs, cs) = layouts::<N>()[take(&mut i, 7) as usize];
            let off = [0, 3][take(&mut i, 2) as usize];
            let xs = 1 + take(&mut i, 3) as usize;
            view_case::<N>(&a, rs, cs, off, xs, acc)
        })
    }
    fn spp<const N: usize>() -> Space {
        let np = if N <= 5 { factorial(N as u64) } else { n_long_paths(N) };
        Space::new(format!("views-paths-{}x{}", N, N), np * 9 * 7 * 3, move |mut i, acc| {
            let pi = take(&mut i, np);
            let path = if N <= 5 { pivot_path::<N>(pi) } else { long_path::<N>(pi) };
            let a = from_factors(&path, &l_pattern(take(&mut i, 3)), &u_pattern(take(&mut i, 3)));
            let (rs, cs) = layouts::<N>()[take(&mut i, 7) as usize];
            let xs = 1 + take(&mut i, 3) as usize;
            view_case::<N>(&a, rs, cs, 2, xs, acc)
        })
    }
    v.push(sp::<1>(alpha(5)));
    v.push(sp::<2>(alpha(5)));
    v.push(sp::<3>(alpha(if tier() == Tier::Thorough { 3 } else { 2 })));
    v.push(spp::<3>());
    v.push(spp::<4>());
    v.push(spp::<5>());
    v.push(spp::<8>());
    Check { id: "L06".into(), spaces: v, rule: "every matrix of the alphabets x 7 storage layouts x offsets x vector strides; guard cells around every view".into(), assumptions: vec!["layouts: column-major, row-major and gapped, non-overlapping".into()] }
}
