//! Environment of the integrator: a problem, a linear solver and a nonlinear solver whose answers are
//! chosen by the explorer and whose every call is recorded.
use ida::linear::{LSolver, LSolverType};
use ida::nonlinear::{Error, NLProblem, NLSolver};
use ida::traits::{Jacobian, ModelSpec, Residual, Root};
use ndarray::prelude::*;
use ndarray::{Data, DataMut};
use std::cell::RefCell;
use std::rc::Rc;

pub type V = Vec<f64>;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    /// t, y, y', F
    Res(f64, V, V, V),
    /// t, cj, y, y', F argument, J (row major) on return
    Jac(f64, f64, V, V, V, V),
    /// t, y, y', g
    Root(f64, V, V, V),
    /// scripted nonlinear solver called: weights, tolerance, setup requested
    Begin(V, f64, bool),
    /// ... and answered
    End(Option<V>),
    /// scripted linear solver: setup (ok), solve (b, x or failure)
    LSetup(bool, V),
    LSolve(V, Option<V>),
    /// the matrix given to a linear solve is not what the last setup left
    Stale(V),
}

/// One answer of the scripted nonlinear solver.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    /// converged with this correction
    Ee(V),
    /// recoverable convergence failure
    Recover,
    /// unrecoverable failure
    Fatal,
    /// a correction chosen when the predictor is known (see `World::intent`)
    Intent(u16),
}

/// t, predicted y and y', cj, weights, code -> correction
type Fi = Rc<dyn Fn(f64, &[f64], &[f64], f64, &[f64], u16) -> V>;
type Fr = Rc<dyn Fn(f64, &[f64], &[f64], &mut [f64])>;
type Fj = Rc<dyn Fn(f64, f64, &[f64], &[f64], &mut [f64])>;

#[derive(Clone)]
pub struct World {
    pub n: usize,
    pub nroots: usize,
    pub res: Fr,
    pub jac: Fj,
    pub root: Fr,
    pub ev: Vec<Ev>,
    /// answers of the scripted nonlinear solver, in order; when they run out: `dflt`
    pub nls: Vec<Ans>,
    pub nls_pos: usize,
    pub dflt: Ans,
    /// scripted linear solver: setup failures / corrections by call index
    pub ls: Option<Rc<dyn Fn(usize, &[f64]) -> Option<V>>>,
    pub ls_setup: Option<Rc<dyn Fn(usize) -> bool>>,
    pub ls_pos: usize,
    pub ls_setup_pos: usize,
    pub ls_type: u8,
    pub ls_mat: V,
    pub nls_maxiters: usize,
    /// correction at which the scripted nonlinear solver probes the residual
    pub probe: V,
    pub intent: Option<Fi>,
}
impl World {
    pub fn new(n: usize) -> World {
        World {
            n,
            nroots: 0,
            res: Rc::new(|_, _, yp, r| r.copy_from_slice(yp)),
            jac: Rc::new(|_, cj, y, _, j| {
                for i in 0..y.len() {
                    j[i * y.len() + i] = cj;
                }
            }),
            root: Rc::new(|_, _, _, _| {}),
            ev: vec![],
            nls: vec![],
            nls_pos: 0,
            dflt: Ans::Ee(vec![0.0; n]),
            ls: None,
            ls_setup: None,
            ls_pos: 0,
            ls_setup_pos: 0,
            ls_type: 0,
            ls_mat: vec![],
            nls_maxiters: 0,
            probe: vec![1.0; n],
            intent: None,
        }
    }
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::new(1));
}
pub fn install(w: World) {
    W.with(|c| *c.borrow_mut() = w);
}
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|c| f(&mut c.borrow_mut()))
}
fn push(e: Ev) {
    mcengine::tick(1);
    w(|w| w.ev.push(e));
}
pub fn take_ev() -> Vec<Ev> {
    w(|w| std::mem::take(&mut w.ev))
}
fn v<S: Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> V {
    a.iter().copied().collect()
}

#[derive(Clone, Copy, Debug)]
pub struct Prob(pub usize);
impl ModelSpec for Prob {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.0
    }
}
impl Residual for Prob {
    fn res<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        let (y, yp) = (v(&y), v(&yp));
        let f = w(|w| w.res.clone());
        let mut r = vec![0.0; self.0];
        f(t, &y, &yp, &mut r);
        for i in 0..self.0 {
            rr[i] = r[i];
        }
        push(Ev::Res(t, y, yp, r));
    }
}
impl Jacobian for Prob {
    fn jac<S1, S2, S3, S4>(&self, t: f64, cj: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, rr: ArrayBase<S3, Ix1>, mut jac: ArrayBase<S4, Ix2>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: Data<Elem = f64>,
        S4: DataMut<Elem = f64>,
    {
        let (y, yp, rr) = (v(&y), v(&yp), v(&rr));
        let n = self.0;
        let f = w(|w| w.jac.clone());
        // the user fills in nonzero entries only: what is there on entry stays
        let mut j: V = (0..n * n).map(|i| jac[[i / n, i % n]]).collect();
        f(t, cj, &y, &yp, &mut j);
        for i in 0..n * n {
            jac[[i / n, i % n]] = j[i];
        }
        push(Ev::Jac(t, cj, y, yp, rr, j));
    }
}
impl Root for Prob {
    fn num_roots(&self) -> usize {
        w(|w| w.nroots)
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        let (y, yp) = (v(&y), v(&yp));
        let (f, m) = w(|w| (w.root.clone(), w.nroots));
        let mut g = vec![0.0; m];
        f(t, &y, &yp, &mut g);
        for i in 0..m {
            gout[i] = g[i];
        }
        push(Ev::Root(t, y, yp, g));
    }
}

/// Nonlinear solver answered by the explorer.  It evaluates the residual at the predictor, has the
/// Jacobian set up when asked to, and evaluates the residual at the corrected point.
#[derive(Clone, Debug)]
pub struct Script {
    n: usize,
}
impl NLSolver<Prob> for Script {
    fn new(size: usize, maxiters: usize) -> Self {
        w(|w| w.nls_maxiters = maxiters);
        Script { n: size }
    }
    fn setup<S1: DataMut<Elem = f64>>(&mut self, _: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error> {
        Ok(())
    }
    fn solve<N, S1, S2>(&mut self, problem: &mut N, _y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, wt: Array1<f64>, tol: f64, call_lsetup: bool) -> Result<(), failure::Error>
    where
        N: NLProblem<Prob>,
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
    {
        push(Ev::Begin(v(&wt), tol, call_lsetup));
        for i in 0..self.n {
            y[i] = 0.0;
        }
        let mut r = Array1::from(vec![0.0; self.n]);
        problem.sys(y.view(), r.view_mut())?;
        if call_lsetup {
            problem.setup(y.view(), r.view(), false)?;
        }
        let a = w(|w| {
            w.nls_pos += 1;
            w.nls.get(w.nls_pos - 1).cloned().unwrap_or(w.dflt.clone())
        });
        // probe the point y_pred + 1, which reveals cj whatever the answer is
        let one = Array1::from(w(|w| w.probe.clone()));
        problem.sys(one.view(), r.view_mut())?;
        let a = match a {
            Ans::Intent(c) => {
                let (f, p) = w(|w| {
                    let p: Vec<(f64, V, V)> = w.ev.iter().rev().filter_map(|e| if let Ev::Res(t, y, yp, _) = e { Some((*t, y.clone(), yp.clone())) } else { None }).take(2).collect();
                    (w.intent.clone().unwrap(), p)
                });
                let cj = (p[0].2[0] - p[1].2[0]) / (p[0].1[0] - p[1].1[0]);
                Ans::Ee(f(p[1].0, &p[1].1, &p[1].2, cj, &v(&wt), c))
            }
            a => a,
        };
        match a {
            Ans::Intent(_) => unreachable!(),
            Ans::Ee(e) => {
                for i in 0..self.n {
                    y[i] = e[i];
                }
                push(Ev::End(Some(e)));
                Ok(())
            }
            Ans::Recover => {
                push(Ev::End(None));
                Err(failure::Error::from(Error::ConvergenceRecover {}))
            }
            Ans::Fatal => {
                push(Ev::End(None));
                Err(failure::Error::from(Error::IllegalInput {}))
            }
        }
    }
    fn get_num_iters(&self) -> usize {
        0
    }
    fn get_cur_iter(&self) -> usize {
        0
    }
}

/// Linear solver answered by the explorer.
#[derive(Clone, Debug)]
pub struct LsScript {
    inner: ida::linear::Dense<f64>,
}
impl LSolver<f64> for LsScript {
    fn new(size: usize) -> Self {
        LsScript { inner: <ida::linear::Dense<f64> as LSolver<f64>>::new(size) }
    }
    fn get_type(&self) -> LSolverType {
        match w(|w| w.ls_type) {
            0 => LSolverType::Direct,
            1 => LSolverType::Iterative,
            _ => LSolverType::MatrixIterative,
        }
    }
    fn setup<S1: DataMut<Elem = f64>>(&mut self, mut mat: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> {
        let m: V = mat.iter().copied().collect();
        if let Some(f) = w(|w| w.ls_setup.clone()) {
            let i = w(|w| {
                w.ls_setup_pos += 1;
                w.ls_setup_pos - 1
            });
            if !f(i) {
                push(Ev::LSetup(false, m));
                return Err(failure::Error::from(ida::linear::Error::LUFactFail { col: 1 }));
            }
        }
        let r = self.inner.setup(mat.view_mut());
        let m2: V = mat.iter().copied().collect();
        w(|w| w.ls_mat = m2);
        push(Ev::LSetup(r.is_ok(), m));
        r
    }
    fn solve<S1, S2, S3>(&self, mat: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: f64) -> Result<(), failure::Error>
    where
        S1: Data<Elem = f64>,
        S2: DataMut<Elem = f64>,
        S3: Data<Elem = f64>,
    {
        let bv = v(&b);
        let m: V = mat.iter().copied().collect();
        if w(|w| w.ls_mat != m) {
            push(Ev::Stale(m));
        }
        let f = w(|w| w.ls.clone());
        match f {
            Some(f) => {
                let i = w(|w| {
                    w.ls_pos += 1;
                    w.ls_pos - 1
                });
                let r = f(i, &bv);
                push(Ev::LSolve(bv, r.clone()));
                match r {
                    Some(r) => {
                        for i in 0..r.len() {
                            x[i] = r[i];
                        }
                        Ok(())
                    }
                    None => Err(failure::Error::from(ida::linear::Error::LUFactFail { col: 1 })),
                }
            }
            None => {
                let r = self.inner.solve(mat, x.view_mut(), b.view(), tol);
                push(Ev::LSolve(bv, r.is_ok().then(|| v(&x))));
                r
            }
        }
    }
    fn num_iters(&self) -> usize {
        w(|w| lin_iters(w.ls_pos))
    }
}

/// iterations the scripted linear solver reports after its `n`-th solve
pub fn lin_iters(n: usize) -> usize {
    1 + n % 3
}

pub type Tol = ida::tol_control::TolControlSV<f64>;
pub type Ctl = ida::Ida<Prob, LsScript, Script, Tol>;
pub type Full = ida::Ida<Prob, LsScript, ida::nonlinear::Newton<Prob>, Tol>;

pub fn ctl(y0: &[f64], yp0: &[f64], rtol: f64, atol: &[f64]) -> Ctl {
    ida::Ida::new(Prob(y0.len()), Array1::from(y0.to_vec()), Array1::from(yp0.to_vec()), Tol::new(rtol, Array1::from(atol.to_vec())))
}
pub fn full(y0: &[f64], yp0: &[f64], rtol: f64, atol: &[f64]) -> Full {
    ida::Ida::new(Prob(y0.len()), Array1::from(y0.to_vec()), Array1::from(yp0.to_vec()), Tol::new(rtol, Array1::from(atol.to_vec())))
}

// ---------------------------------------------------------------- polynomials

/// Weights of the derivatives 0..=m at `x` of the polynomial through the nodes (Fornberg).
pub fn weights(x: f64, nodes: &[f64], m: usize) -> Vec<V> {
    let n = nodes.len();
    let mut d = vec![vec![0.0; n]; m + 1];
    d[0][0] = 1.0;
    let mut c1 = 1.0;
    for i in 1..n {
        let mut c2 = 1.0;
        let old: Vec<V> = d.clone();
        for j in 0..i {
            let c3 = nodes[i] - nodes[j];
            c2 *= c3;
            for k in 0..=m {
                d[k][j] = ((nodes[i] - x) * old[k][j] - if k > 0 { k as f64 * old[k - 1][j] } else { 0.0 }) / c3;
            }
        }
        for k in 0..=m {
            d[k][i] = c1 / c2 * (if k > 0 { k as f64 * old[k - 1][i - 1] } else { 0.0 } - (nodes[i - 1] - x) * old[k][i - 1]);
        }
        c1 = c2;
    }
    d
}
/// Value and rounding scale of derivative `m` at x of the polynomial through (nodes, ys) (per component).
pub fn poly(x: f64, nodes: &[f64], ys: &[V], m: usize) -> (V, V) {
    let d = weights(x, nodes, m);
    let n = ys[0].len();
    let mut a = vec![0.0; n];
    let mut s = vec![0.0; n];
    for (j, y) in ys.iter().enumerate() {
        for i in 0..n {
            a[i] += d[m][j] * y[i];
            s[i] += (d[m][j] * y[i]).abs();
        }
    }
    (a, s)
}
pub fn wrms(x: &[f64], w: &[f64]) -> f64 {
    (x.iter().zip(w).map(|(x, w)| (x * w) * (x * w)).sum::<f64>() / x.len() as f64).sqrt()
}
pub fn wrms_mask(x: &[f64], w: &[f64], id: Option<&[bool]>) -> f64 {
    match id {
        None => wrms(x, w),
        Some(id) => {
            let x: V = x.iter().zip(id).map(|(x, b)| if *b { *x } else { 0.0 }).collect();
            wrms(&x, w)
        }
    }
}
