//! N07: the Newton solver and the dense linear solver together, as the integrator uses them.
use crate::lu::*;
use crate::rat::{Rat, NAN};
use linear::{Dense, LSolver};
use mcengine::*;
use nalgebra::{Const, DimNameAdd, Matrix, SMatrix, SVector, Storage, StorageMut, ToTypenum, U1};
use nonlinear::norm_wrms::NormWRMS;
use nonlinear::{Error, NLProblem, NLSolver, Newton};

/// F(y) = A y + q .* y .* y - b, with the linear solver set up on demand.
struct Prob<const N: usize> {
    a: M<N>,
    q: [Rat; N],
    b: [Rat; N],
    /// Jacobian handed to the linear solver when it is set up without jbad (stale model)
    stale: Option<M<N>>,
    mat: SMatrix<Rat, N, N>,
    ls: Dense<Const<N>>,
    setups: usize,
    residuals: usize,
}
fn resid<const N: usize>(a: &M<N>, q: &[Rat; N], b: &[Rat; N], y: &[Rat; N]) -> [Rat; N] {
    std::array::from_fn(|i| (0..N).fold(q[i] * y[i] * y[i] - b[i], |t, k| t + a[i][k] * y[k]))
}
fn jac<const N: usize>(a: &M<N>, q: &[Rat; N], y: &[Rat; N]) -> M<N> {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] + if i == j { Rat::int(2) * q[i] * y[i] } else { Rat::int(0) }))
}
fn arr<const N: usize, S: Storage<Rat, Const<N>, U1>>(m: &Matrix<Rat, Const<N>, U1, S>) -> [Rat; N] {
    std::array::from_fn(|i| m[i])
}
impl<const N: usize> NLProblem<Rat, Const<N>> for Prob<N> {
    fn sys<S1, S2>(&mut self, y: &Matrix<Rat, Const<N>, U1, S1>, f: &mut Matrix<Rat, Const<N>, U1, S2>) -> Result<(), Error>
    where
        S1: Storage<Rat, Const<N>, U1>,
        S2: StorageMut<Rat, Const<N>, U1>,
    {
        self.residuals += 1;
        if self.residuals > 200 {
            panic!("does not terminate: more than 200 residual evaluations");
        }
        let r = resid(&self.a, &self.q, &self.b, &arr(y));
        for i in 0..N {
            f[i] = r[i];
        }
        Ok(())
    }
    fn setup<S1, S2>(&mut self, y: &Matrix<Rat, Const<N>, U1, S1>, _f: &Matrix<Rat, Const<N>, U1, S2>, jbad: bool) -> Result<bool, Error>
    where
        S1: Storage<Rat, Const<N>, U1>,
        S2: Storage<Rat, Const<N>, U1>,
    {
        self.setups += 1;
        let (j, fresh) = match (&self.stale, jbad) {
            (Some(s), false) => (*s, false),
            _ => (jac(&self.a, &self.q, &arr(y)), true),
        };
        self.mat = to_na(&j);
        LSolver::<Rat, Const<N>>::setup(&mut self.ls, &mut self.mat)?;
        Ok(fresh)
    }
    fn solve<S1, S2>(&mut self, _y: &Matrix<Rat, Const<N>, U1, S1>, b: &mut Matrix<Rat, Const<N>, U1, S2>) -> Result<(), Error>
    where
        S1: Storage<Rat, Const<N>, U1>,
        S2: StorageMut<Rat, Const<N>, U1>,
    {
        let mut x = SVector::<Rat, N>::from_element(NAN);
        let bv = SVector::<Rat, N>::from_fn(|i, _| b[i]);
        LSolver::<Rat, Const<N>>::solve(&self.ls, &self.mat, &mut x, &bv, Rat::int(0))?;
        b.copy_from(&x);
        Ok(())
    }
    fn ctest<NLS, S1, S2, S3>(&mut self, _s: &NLS, _y: &Matrix<Rat, Const<N>, U1, S1>, del: &Matrix<Rat, Const<N>, U1, S2>, tol: Rat, ewt: &Matrix<Rat, Const<N>, U1, S3>) -> Result<bool, Error>
    where
        NLS: NLSolver<Rat, Const<N>>,
        S1: Storage<Rat, Const<N>, U1>,
        S2: Storage<Rat, Const<N>, U1>,
        S3: Storage<Rat, Const<N>, U1>,
    {
        Ok((0..N).all(|i| {
            let v = del[i] * ewt[i];
            v <= tol && v >= -tol
        }))
    }
}

#[derive(PartialEq, Debug, Clone)]
enum Out<const N: usize> {
    Ok([Rat; N]),
    Recover,
    Singular(usize),
}
/// Model: the modified Newton iteration on paper (exact inverse application by Gaussian elimination).
fn gauss<const N: usize>(a: &M<N>, b: &[Rat; N]) -> [Rat; N] {
    let (mut m, mut r) = (*a, *b);
    for k in 0..N {
        let p = (k..N).find(|&i| m[i][k] != z()).expect("ENGINE: singular");
        m.swap(k, p);
        r.swap(k, p);
        for i in 0..N {
            if i != k && m[i][k] != z() {
                let f = m[i][k] / m[k][k];
                for j in k..N {
                    let t = f * m[k][j];
                    m[i][j] -= t;
                }
                let t = f * r[k];
                r[i] -= t;
            }
        }
    }
    std::array::from_fn(|i| r[i] / m[i][i])
}
#[allow(clippy::too_many_arguments)]
fn model<const N: usize>(a: &M<N>, q: &[Rat; N], b: &[Rat; N], stale: &Option<M<N>>, y0: &[Rat; N], tol: Rat, w: &[Rat; N], maxiters: usize) -> Out<N> {
    for attempt in 0..2 {
        let j = match (stale, attempt) {
            (Some(s), 0) => *s,
            _ => jac(a, q, y0),
        };
        if let Some(c) = first_dependent_column(&j) {
            return Out::Singular(c);
        }
        let mut y = *y0;
        for _ in 0..maxiters {
            let r = resid(a, q, b, &y);
            let d = gauss(&j, &std::array::from_fn(|i| -r[i]));
            y = std::array::from_fn(|i| y[i] + d[i]);
            if y.iter().any(|v| v.is_nan()) {
                return Out::Ok([NAN; N]); // left the exact range: not judged
            }
            if (0..N).all(|i| d[i] * w[i] <= tol && d[i] * w[i] >= -tol) {
                return Out::Ok(y);
            }
        }
        if stale.is_none() {
            return Out::Recover;
        }
    }
    Out::Recover
}
#[allow(clippy::too_many_arguments)]
fn case<const N: usize>(a: M<N>, q: [Rat; N], b: [Rat; N], stale: Option<M<N>>, y0: [Rat; N], tol: Rat, maxiters: usize, acc: &mut Acc) -> Result<(), String>
where
    Const<N>: ToTypenum + DimNameAdd<Const<N>>,
{
    let w: [Rat; N] = std::array::from_fn(|i| Rat::int(1 + (i % 2) as i64));
    let want = model(&a, &q, &b, &stale, &y0, tol, &w, maxiters);
    acc.state(&(a, q, b, stale, y0, maxiters));
    if let Out::Ok(y) = &want {
        if y[0].is_nan() {
            acc.outcome("left the exact range, not judged");
            return Ok(());
        }
    }
    let mut p = Prob { a, q, b, stale, mat: SMatrix::zeros(), ls: new_solver::<N>(), setups: 0, residuals: 0 };
    let mut nls = <Newton<Rat, Const<N>> as NLSolver<Rat, Const<N>>>::new(maxiters);
    let vy0 = SVector::<Rat, N>::from_fn(|i, _| y0[i]);
    let vw = SVector::<Rat, N>::from_fn(|i, _| w[i]);
    let mut y = SVector::<Rat, N>::from_element(NAN);
    let r = nls.solve(&mut p, &vy0, &mut y, &vw, tol, true);
    acc.step((p.residuals + p.setups + nls.get_num_iters()) as u64);
    acc.trace();
    let got = match &r {
        Ok(()) => Out::Ok(arr(&y)),
        Err(Error::ConvergenceRecover {}) => Out::Recover,
        Err(e) => match crate::newton::eclass(e) {
            crate::newton::E::Lin(c) => Out::Singular(c),
            _ => return Err(format!("unexpected error {:?}", e)),
        },
    };
    if got != want {
        return Err(format!("A={} q={:?} b={:?} stale={:?} y0={:?} maxiters={}: got {:?}, expected {:?}", show(&a), q, b, stale, y0, maxiters, got, want));
    }
    // a linear system with its own Jacobian is solved exactly
    if let Out::Ok(y) = &got {
        if q.iter().all(|v| *v == z()) && p.stale.is_none() {
            if resid(&a, &q, &b, y).iter().any(|v| *v != z()) {
                return Err(format!("linear system not solved exactly: A={} b={:?} y={:?}", show(&a), b, y));
            }
        }
    }
    acc.outcome(match &got {
        Out::Ok(_) if p.setups > 1 => "converged after refreshing the Jacobian",
        Out::Ok(_) => "converged",
        Out::Recover => "not converged",
        Out::Singular(_) => "singular Jacobian",
    });
    acc.sample(|| format!("A={} q={:?} b={:?} stale={:?} -> {:?}", show(&a), q, b, stale, got));
    Ok(())
}
fn alpha(k: usize) -> Vec<Rat> {
    (0..k as u64).map(|d| Rat::int(zigzag(d))).collect()
}

// ---- double precision: nonlinear systems against an independent iteration
struct FProb<'a, const N: usize> {
    f: &'a dyn Fn(&[f64; N]) -> [f64; N],
    j: &'a dyn Fn(&[f64; N]) -> [[f64; N]; N],
    mat: SMatrix<f64, N, N>,
    ls: Dense<Const<N>>,
    calls: usize,
    norms: Vec<f64>,
}
fn farr<const N: usize, S: Storage<f64, Const<N>, U1>>(m: &Matrix<f64, Const<N>, U1, S>) -> [f64; N] {
    std::array::from_fn(|i| m[i])
}
impl<'a, const N: usize> NLProblem<f64, Const<N>> for FProb<'a, N> {
    fn sys<S1, S2>(&mut self, y: &Matrix<f64, Const<N>, U1, S1>, f: &mut Matrix<f64, Const<N>, U1, S2>) -> Result<(), Error>
    where
        S1: Storage<f64, Const<N>, U1>,
        S2: StorageMut<f64, Const<N>, U1>,
    {
        self.calls += 1;
        if self.calls > 300 {
            panic!("does not terminate: more than 300 residual evaluations");
        }
        let r = (self.f)(&farr(y));
        for i in 0..N {
            f[i] = r[i];
        }
        Ok(())
    }
    fn setup<S1, S2>(&mut self, y: &Matrix<f64, Const<N>, U1, S1>, _f: &Matrix<f64, Const<N>, U1, S2>, _b: bool) -> Result<bool, Error>
    where
        S1: Storage<f64, Const<N>, U1>,
        S2: Storage<f64, Const<N>, U1>,
    {
        let j = (self.j)(&farr(y));
        self.mat = SMatrix::from_fn(|r, c| j[r][c]);
        LSolver::<f64, Const<N>>::setup(&mut self.ls, &mut self.mat)?;
        Ok(true)
    }
    fn solve<S1, S2>(&mut self, _y: &Matrix<f64, Const<N>, U1, S1>, b: &mut Matrix<f64, Const<N>, U1, S2>) -> Result<(), Error>
    where
        S1: Storage<f64, Const<N>, U1>,
        S2: StorageMut<f64, Const<N>, U1>,
    {
        let mut x = SVector::<f64, N>::zeros();
        let bv = SVector::<f64, N>::from_fn(|i, _| b[i]);
        LSolver::<f64, Const<N>>::solve(&self.ls, &self.mat, &mut x, &bv, 0.0)?;
        b.copy_from(&x);
        Ok(())
    }
    fn ctest<NLS, S1, S2, S3>(&mut self, _s: &NLS, _y: &Matrix<f64, Const<N>, U1, S1>, del: &Matrix<f64, Const<N>, U1, S2>, tol: f64, ewt: &Matrix<f64, Const<N>, U1, S3>) -> Result<bool, Error>
    where
        NLS: NLSolver<f64, Const<N>>,
        S1: Storage<f64, Const<N>, U1>,
        S2: Storage<f64, Const<N>, U1>,
        S3: Storage<f64, Const<N>, U1>,
    {
        let n = del.norm_wrms(ewt);
        self.norms.push(n);
        Ok(n <= tol)
    }
}
/// reference: modified Newton with the Jacobian of the first iterate, plain f64
fn freference<const N: usize>(f: &dyn Fn(&[f64; N]) -> [f64; N], j: &dyn Fn(&[f64; N]) -> [[f64; N]; N], y0: [f64; N], w: [f64; N], tol: f64, maxit: usize) -> (Option<[f64; N]>, bool) {
    let jm = j(&y0);
    let mut y = y0;
    let mut marginal = false;
    for _ in 0..maxit {
        let r = f(&y);
        let (mut m, mut b) = (jm, r.map(|v| -v));
        for k in 0..N {
            let p = (k..N).max_by(|&a, &c| m[a][k].abs().total_cmp(&m[c][k].abs())).unwrap();
            m.swap(k, p);
            b.swap(k, p);
            for i in 0..N {
                if i != k {
                    let t = m[i][k] / m[k][k];
                    for c in k..N {
                        m[i][c] -= t * m[k][c];
                    }
                    b[i] -= t * b[k];
                }
            }
        }
        let d: [f64; N] = std::array::from_fn(|i| b[i] / m[i][i]);
        y = std::array::from_fn(|i| y[i] + d[i]);
        let n = ((0..N).map(|i| (d[i] * w[i]).powi(2)).sum::<f64>() / N as f64).sqrt();
        if !n.is_finite() || (n - tol).abs() < 1e-6 * tol || y.iter().any(|v| v.abs() > 1e12) {
            marginal = true;
        }
        if n <= tol {
            return (Some(y), marginal);
        }
    }
    (None, marginal)
}
fn fcase(mut i: u64, acc: &mut Acc) -> Result<(), String> {
    let g = |v: u64| [-1.5, -0.75, 0.5, 1.0, 2.0][v as usize];
    let (c1, c2, c3) = (g(take(&mut i, 5)), g(take(&mut i, 5)), g(take(&mut i, 5)));
    let y0 = [g(take(&mut i, 5)), g(take(&mut i, 5)), g(take(&mut i, 5))];
    let tol = [1e-2, 1e-9][take(&mut i, 2) as usize];
    let maxit = [3, 40][i as usize];
    let f = move |y: &[f64; 3]| [y[0] * y[0] + c1 * y[1] - y[2] - 1.0, y[1] + 0.25 * y[1] * y[2] * c2 - 0.5, 3.0 * y[2] - c3 * y[0] * y[1] + y[2].powi(3) * 0.1];
    let j = move |y: &[f64; 3]| {
        [
            [2.0 * y[0], c1, -1.0],
            [0.0, 1.0 + 0.25 * y[2] * c2, 0.25 * y[1] * c2],
            [-c3 * y[1], -c3 * y[0], 3.0 + 0.3 * y[2] * y[2]],
        ]
    };
    let w = [1.0, 2.0, 0.5];
    let jm = j(&y0);
    let det = jm[0][0] * (jm[1][1] * jm[2][2] - jm[1][2] * jm[2][1]) - jm[0][1] * (jm[1][0] * jm[2][2] - jm[1][2] * jm[2][0]) + jm[0][2] * (jm[1][0] * jm[2][1] - jm[1][1] * jm[2][0]);
    let mut p = FProb { f: &f, j: &j, mat: SMatrix::zeros(), ls: <Dense<Const<3>> as LSolver<f64, Const<3>>>::new(), calls: 0, norms: vec![] };
    let mut nls = <Newton<f64, Const<3>> as NLSolver<f64, Const<3>>>::new(maxit);
    let mut y = SVector::<f64, 3>::from_element(f64::NAN);
    let r = nls.solve(&mut p, &SVector::from(y0), &mut y, &SVector::from(w), tol, true);
    acc.step((p.calls + p.norms.len()) as u64);
    acc.state(&(y0.map(f64::to_bits), c1.to_bits(), c2.to_bits(), c3.to_bits(), tol.to_bits(), maxit));
    acc.trace();
    if det.abs() < 1e-3 {
        acc.outcome("nearly singular Jacobian, not judged");
        return Ok(());
    }
    let (want, marginal) = freference(&f, &j, y0, w, tol, maxit);
    if marginal {
        acc.outcome("marginal, not judged");
        return Ok(());
    }
    match (&r, want) {
        (Ok(()), Some(e)) => {
            for k in 0..3 {
                if !((y[k] - e[k]).abs() <= 1e-7 * (1.0 + e[k].abs()) * tol.max(1e-4)) {
                    return Err(format!("c={:?} y0={:?} tol={}: solution {:?}, reference {:?}", (c1, c2, c3), y0, tol, y.as_slice(), e));
                }
            }
            acc.outcome("f64 converged");
        }
        (Err(Error::ConvergenceRecover {}), None) => acc.outcome("f64 not converged"),
        (r, e) => return Err(format!("c={:?} y0={:?} tol={} maxit={}: {:?}, reference {:?}", (c1, c2, c3), y0, tol, maxit, r, e)),
    }
    Ok(())
}

pub fn n07() -> Check {
    let th = tier() == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::new("linear-1x1", 11 * 11 * 11 * 5, |mut i, acc| {
        let al = alpha(11);
        let (a, b, s) = (al[take(&mut i, 11) as usize], al[take(&mut i, 11) as usize], al[take(&mut i, 11) as usize]);
        case::<1>([[a]], [z()], [b], if s == z() { None } else { Some([[s]]) }, [Rat::int(i as i64 - 2)], Rat::new(1, 8), 3, acc)
    }));
    let k2 = 5u64.pow(4);
    v.push(Space::new("linear-2x2-own-jacobian", k2 * 25 * 3, move |mut i, acc| {
        let al = alpha(5);
        let a = from_alphabet::<2>(take(&mut i, k2), &al);
        let b = [al[take(&mut i, 5) as usize], al[take(&mut i, 5) as usize]];
        case::<2>(a, [z(); 2], b, None, [Rat::int(1), Rat::new(-1, 2)], Rat::new(1, 1000), 1 + i as usize, acc)
    }));
    let k3 = 3u64.pow(4);
    v.push(Space::new("linear-2x2-every-stale-jacobian", k3 * k3 * 9 * 4, move |mut i, acc| {
        let al = alpha(3);
        let a = from_alphabet::<2>(take(&mut i, k3), &al);
        let s = from_alphabet::<2>(take(&mut i, k3), &al);
        let b = [al[take(&mut i, 3) as usize], al[take(&mut i, 3) as usize]];
        let (maxit, tol) = ([2, 5][take(&mut i, 2) as usize], [Rat::new(1, 4), Rat::int(0)][i as usize]);
        case::<2>(a, [z(); 2], b, Some(s), [Rat::int(2), Rat::int(-3)], tol, maxit, acc)
    }));
    let k33 = 3u64.pow(9);
    v.push(Space::new("linear-3x3-own-jacobian", k33, move |i, acc| {
        let a = from_alphabet::<3>(i, &alpha(3));
        case::<3>(a, [z(); 3], [Rat::int(1), Rat::int(-2), Rat::int(5)], None, [Rat::int(1), Rat::int(0), Rat::new(1, 3)], Rat::new(1, 1000), 2, acc)
    }));
    v.push(Space::new("linear-3x3-stale-jacobian", k33 * 2, move |mut i, acc| {
        let mut a = from_alphabet::<3>(take(&mut i, k33), &alpha(3));
        let s = a;
        // the stale Jacobian differs from the current one in a diagonal entry
        a[1][1] += Rat::int(1 + i as i64);
        case::<3>(a, [z(); 3], [Rat::int(1), Rat::int(-2), Rat::int(5)], Some(s), [Rat::int(1), Rat::int(0), Rat::int(2)], Rat::new(1, 16), 3, acc)
    }));
    let ka = if th { 5u64 } else { 3 };
    v.push(Space::new("quadratic-2x2", ka.pow(4) * 9 * 9 * 9 * 2, move |mut i, acc| {
        let al = alpha(ka as usize);
        let a = from_alphabet::<2>(take(&mut i, ka.pow(4)), &al);
        let a3 = alpha(3);
        let q = [a3[take(&mut i, 3) as usize], a3[take(&mut i, 3) as usize]];
        let b = [a3[take(&mut i, 3) as usize], a3[take(&mut i, 3) as usize]];
        let y0 = [a3[take(&mut i, 3) as usize], a3[take(&mut i, 3) as usize]];
        let stale = if i == 0 { None } else { Some([[Rat::int(2), Rat::int(0)], [Rat::int(1), Rat::int(-3)]]) };
        case::<2>(a, q, b, stale, y0, Rat::new(1, 10), 3, acc)
    }));
    for n in [0, 1] {
        let _ = n;
    }
    fn bigger<const N: usize>() -> Space
    where
        Const<N>: ToTypenum + DimNameAdd<Const<N>>,
    {
        let np = if N <= 6 { factorial(N as u64) } else { n_long_paths(N) };
        Space::new(format!("linear-pivot-paths-{}x{}", N, N), np * 2, move |mut i, acc| {
            let pi = take(&mut i, np);
            let path = if N <= 6 { pivot_path::<N>(pi) } else { long_path::<N>(pi) };
            let mut l: M<N> = [[z(); N]; N];
            let mut u: M<N> = [[z(); N]; N];
            for r in 0..N {
                l[r][r] = Rat::int(1);
                u[r][r] = Rat::int(if r % 2 == 0 { 2 } else { -1 });
                for c in 0..r {
                    l[r][c] = [Rat::new(1, 2), z(), Rat::new(-1, 2)][(r + c) % 3];
                }
                for c in r + 1..N {
                    u[r][c] = Rat::int((r + 2 * c) as i64 % 3 - 1);
                }
            }
            if i == 1 {
                u[N - 1][N - 1] = z();
            }
            let a = from_factors(&path, &l, &u);
            case::<N>(a, [z(); N], std::array::from_fn(|k| Rat::int(k as i64 - 2)), None, std::array::from_fn(|k| Rat::int((k % 2) as i64)), Rat::new(1, 1000), 4, acc)
        })
    }
    v.push(bigger::<4>());
    v.push(bigger::<6>());
    v.push(bigger::<9>());
    v.push(Space::new("f64-nonlinear-3x3", 5u64.pow(6) * 4, fcase));
    Check { id: "N07".into(), spaces: v, rule: "every system over the coefficient alphabets, own or stale Jacobian, compared with the modified Newton iteration computed exactly".into(), assumptions: vec!["quadratic cases whose exact iterates leave 128-bit rationals and marginal double-precision cases are counted but not judged".into()] }
}
