//! N01..N06: the Newton solver (crates/nonlinear) under an adversarial environment.
//!
//! The problem handed to the solver is the explorer: every callback records its arguments and then
//! returns *every* answer of its alphabet over the executions (residual: value / recoverable /
//! unrecoverable error, setup: fresh / not refreshed / errors, ...).  The recorded trace of each
//! execution is judged by monitors that only look at the callbacks, their arguments, the answers and
//! the results.  Exact rational arithmetic makes all value comparisons exact.
use crate::rat::{Rat, NAN};
use mcengine::*;
use nalgebra::{
    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameAdd, Dyn, Matrix, MatrixViewMut, OVector,
    Storage, StorageMut, U1,
};
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Recover,
    Illegal,
    Lin(usize),
    Other,
}
pub fn eclass(e: &Error) -> E {
    #[allow(unreachable_patterns)]
    match e {
        Error::ConvergenceRecover {} => E::Recover,
        Error::IllegalInput {} => E::Illegal,
        Error::LinearSetupFailed { source } => E::Lin(crate::lu::err_col(source)),
        _ => E::Other,
    }
}
pub fn mk(e: E) -> Error {
    match e {
        E::Recover => Error::ConvergenceRecover {},
        E::Illegal => Error::IllegalInput {},
        E::Lin(c) => Error::LinearSetupFailed { source: linear::Error::LUFactFail { col: c } },
        E::Other => panic!("ENGINE: no such error"),
    }
}

type V = Vec<Rat>;
#[derive(Clone, PartialEq, Hash, Debug)]
pub enum Ev {
    /// y, answer: Ok(value of F)
    Sys(V, Result<V, E>),
    /// y, f, jbad, answer: Ok(Jacobian updated)
    Setup(V, V, bool, Result<bool, E>),
    /// y, b on entry, answer: Ok(correction)
    Solve(V, V, Result<V, E>),
    /// y, del, tol, w, (current iteration, total iterations, convergence failures) as reported by the
    /// solver, answer
    Ctest(V, V, Rat, V, (usize, usize, usize), Result<bool, E>),
}
impl Ev {
    fn err(&self) -> Option<E> {
        match self {
            Ev::Sys(_, r) => r.as_ref().err().copied(),
            Ev::Setup(_, _, _, r) => r.err(),
            Ev::Solve(_, _, r) => r.as_ref().err().copied(),
            Ev::Ctest(_, _, _, _, _, r) => r.err(),
        }
    }
}



pub struct Env<'a> {
    ch: &'a mut Chooser,
    pub ev: Vec<Ev>,
    /// small alphabets for long histories
    small: bool,
    salt: i64,
    /// more callbacks than any terminating run can make
    limit: usize,
    /// scripted answers for long histories
    script: Option<Script>,
    counts: [usize; 4],
}
/// What the environment does during one scripted solve.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Script {
    /// accept in iteration k (0-based)
    Accept(usize),
    /// recoverable error of the linear solve in iteration k of the first attempt, then accept in
    /// iteration j of the next
    RetryAccept(usize, usize),
    /// never accept
    Never,
    /// unrecoverable residual error at evaluation k
    SysFail(usize),
    /// setup fails
    SetupFail,
    /// setup does not refresh the Jacobian, divergence is detected in iteration k, always
    Diverge(usize),
}
impl Script {
    fn answer(&self, kind: usize, k: usize, attempt: usize) -> usize {
        // kind: 0 residual, 1 setup, 2 linear solve, 3 convergence test; k counts within the attempt
        match (*self, kind) {
            (Script::Accept(n), 3) => (k < n) as usize,
            (Script::RetryAccept(n, _), 2) if attempt == 0 && k == n => 1,
            (Script::RetryAccept(_, n), 3) => (attempt == 0 || k < n) as usize,
            (Script::RetryAccept(..), 1) if attempt == 0 => 1,
            (Script::Never, 3) => 1,
            (Script::SysFail(n), 0) if k == n => 2,
            (Script::SysFail(_), 3) => 1,
            (Script::SetupFail, 1) => 3,
            (Script::Diverge(_), 1) => 1,
            (Script::Diverge(n), 3) => if k == n { 2 } else { 1 },
            _ => 0,
        }
    }
}
fn vals(kind: i64, salt: i64, call: usize, n: usize) -> V {
    (0..n)
        .map(|i| {
            let k = call as i64 + 1 + 3 * salt;
            Rat::new((kind * 7 + k * k + 3 * k * i as i64 + (i * i) as i64 - 11) as i128, 1 + ((k + i as i64 + kind) % 3) as i128)
        })
        .collect()
}
impl<'a> Env<'a> {
    fn decide(&mut self, kind: usize, n: usize, at_start: bool) -> usize {
        let Some(sc) = self.script else { return self.ch.choose(n) };
        if kind == 0 && at_start && !self.ev.is_empty() {
            // a residual at the initial iterate starts an attempt
            self.counts = [0, 0, 0, self.counts[3] / 1000 * 1000 + 1000];
        }
        let attempt = self.counts[3] / 1000;
        let k = if kind == 3 { self.counts[3] % 1000 } else { self.counts[kind] };
        self.counts[kind] += 1;
        sc.answer(kind, k, attempt)
    }
    fn push(&mut self, e: Ev) {
        if self.ev.len() >= self.limit {
            panic!("NONTERM: more than {} callbacks in one call of solve", self.limit);
        }
        self.ev.push(e);
    }
}
fn rd<D: nalgebra::Dim, S: Storage<Rat, D, U1>>(m: &Matrix<Rat, D, U1, S>) -> V {
    (0..m.nrows()).map(|i| m[i]).collect()
}

impl<'a, D> NLProblem<Rat, D> for Env<'a>
where
    D: DimName,
    DefaultAllocator: Allocator<Rat, D>,
{
    fn sys<SB1, SB2>(&mut self, y: &Matrix<Rat, D, U1, SB1>, f: &mut Matrix<Rat, D, U1, SB2>) -> Result<(), Error>
    where
        SB1: Storage<Rat, D, U1>,
        SB2: StorageMut<Rat, D, U1>,
    {
        let y = rd(y);
        let n = y.len();
        let at_start = y == vals(4, self.salt, 0, n);
        let c = self.decide(0, 3, at_start);
        let ans = match c {
            0 => Ok(vals(1, self.salt, self.ev.len(), n)),
            1 => Err(E::Recover),
            _ => Err(E::Illegal),
        };
        self.push(Ev::Sys(y, ans.clone()));
        match ans {
            Ok(v) => {
                for i in 0..n {
                    f[i] = v[i];
                }
                Ok(())
            }
            Err(e) => {
                for i in 0..n {
                    f[i] = NAN;
                }
                Err(mk(e))
            }
        }
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<Rat, D, U1, SA>, f: &Matrix<Rat, D, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<Rat, D, U1>,
        SB: Storage<Rat, D, U1>,
    {
        let c = self.decide(1, if self.small { 3 } else { 4 }, false);
        let ans = match c {
            0 => Ok(true),
            1 => Ok(false),
            2 => Err(E::Recover),
            _ => Err(E::Lin(2)),
        };
        self.push(Ev::Setup(rd(y), rd(f), jbad, ans));
        ans.map_err(mk)
    }
    fn solve<SA, SB>(&mut self, y: &Matrix<Rat, D, U1, SA>, b: &mut Matrix<Rat, D, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<Rat, D, U1>,
        SB: StorageMut<Rat, D, U1>,
    {
        let c = self.decide(2, if self.small { 2 } else { 3 }, false);
        let n = b.nrows();
        let ans = match c {
            0 => Ok(vals(2, self.salt, self.ev.len(), n)),
            1 => Err(E::Recover),
            _ => Err(E::Lin(1)),
        };
        self.push(Ev::Solve(rd(y), rd(b), ans.clone()));
        match ans {
            Ok(v) => {
                for i in 0..n {
                    b[i] = v[i];
                }
                Ok(())
            }
            Err(e) => Err(mk(e)),
        }
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<Rat, D, U1, SA>,
        del: &Matrix<Rat, D, U1, SB>,
        tol: Rat,
        ewt: &Matrix<Rat, D, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<Rat, D>,
        SA: Storage<Rat, D, U1>,
        SB: Storage<Rat, D, U1>,
        SC: Storage<Rat, D, U1>,
    {
        let c = self.decide(3, if self.small { 3 } else { 4 }, false);
        let ans = match c {
            0 => Ok(true),
            1 => Ok(false),
            2 => Err(E::Recover),
            _ => Err(E::Illegal),
        };
        let cnt = (solver.get_cur_iter(), solver.get_num_iters(), solver.get_num_conv_fails());
        self.push(Ev::Ctest(rd(y), rd(del), tol, rd(ewt), cnt, ans));
        ans.map_err(mk)
    }
}

/// Everything observable about one call of `solve`.
#[derive(Clone, PartialEq, Hash, Debug)]
pub struct Obs {
    pub y0: V,
    pub w: V,
    pub tol: Rat,
    pub call_lsetup: bool,
    pub maxiters: usize,
    pub ev: Vec<Ev>,
    pub res: Result<(), E>,
    pub y: V,
    pub y0_after: V,
    pub w_after: V,
    /// (num_iters, cur_iter, num_conv_fails) before and after
    pub cnt0: (usize, usize, usize),
    pub cnt1: (usize, usize, usize),
    pub nonterm: bool,
}

#[derive(Clone, Copy)]
pub struct Conf {
    pub maxiters: usize,
    pub call_lsetup: bool,
    pub salt: i64,
    pub small: bool,
    pub views: bool,
    pub script: Option<Script>,
}

pub fn run_solve<D>(nls: &mut Newton<Rat, D>, c: &Conf, ch: &mut Chooser) -> Obs
where
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<Rat, D>,
{
    let n = D::dim();
    let y0 = vals(4, c.salt, 0, n);
    let w: V = (0..n).map(|i| Rat::new(1 + i as i128, 2)).collect();
    let tol = Rat::new(1 + c.salt as i128, 100);
    let cnt = |s: &Newton<Rat, D>| (s.get_num_iters(), s.get_cur_iter(), s.get_num_conv_fails());
    let cnt0 = cnt(nls);
    let mut env = Env { ch, ev: vec![], small: c.small, salt: c.salt, limit: 6 * c.maxiters.max(1) + 12, script: c.script, counts: [0; 4] };
    let (mut y0a, mut wa, mut ya) = (y0.clone(), w.clone(), vec![NAN; n]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if c.views {
            let (mut b0, mut b1, mut b2) = (vec![NAN; 2 * n + 1], vec![NAN; 3 * n + 2], vec![NAN; 2 * n + 3]);
            for i in 0..n {
                b0[1 + 2 * i] = y0[i];
                b2[2 + 2 * i] = w[i];
            }
            let r = {
                let v0: MatrixViewMut<Rat, D, U1, Dyn, Dyn> = MatrixViewMut::from_slice_with_strides_generic(&mut b0[1..], D::name(), Const::<1>, Dyn(2), Dyn(2 * n));
                let mut v1: MatrixViewMut<Rat, D, U1, Dyn, Dyn> = MatrixViewMut::from_slice_with_strides_generic(&mut b1[2..], D::name(), Const::<1>, Dyn(3), Dyn(3 * n));
                let v2: MatrixViewMut<Rat, D, U1, Dyn, Dyn> = MatrixViewMut::from_slice_with_strides_generic(&mut b2[2..], D::name(), Const::<1>, Dyn(2), Dyn(2 * n));
                nls.solve(&mut env, &v0, &mut v1, &v2, tol, c.call_lsetup)
            };
            for i in 0..n {
                y0a[i] = b0[1 + 2 * i];
                ya[i] = b1[2 + 3 * i];
                wa[i] = b2[2 + 2 * i];
            }
            for (k, v) in b1.iter().enumerate() {
                if !(k >= 2 && (k - 2) % 3 == 0 && (k - 2) / 3 < n) && !v.is_nan() {
                    ya[0] = NAN; // wrote outside the view
                }
            }
            r
        } else {
            let v0 = OVector::<Rat, D>::from_fn(|i, _| y0[i]);
            let vw = OVector::<Rat, D>::from_fn(|i, _| w[i]);
            let mut vy = OVector::<Rat, D>::from_element(NAN);
            let r = nls.solve(&mut env, &v0, &mut vy, &vw, tol, c.call_lsetup);
            y0a = rd(&v0);
            wa = rd(&vw);
            ya = rd(&vy);
            r
        }
    }));
    let ev = std::mem::take(&mut env.ev);
    let (res, nonterm) = match r {
        Ok(r) => (r.map_err(|e| eclass(&e)), false),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().unwrap_or_default();
            if m.contains("NONTERM") {
                (Err(E::Other), true)
            } else {
                std::panic::resume_unwind(p)
            }
        }
    };
    Obs { y0, w, tol, call_lsetup: c.call_lsetup, maxiters: c.maxiters, ev, res, y: ya, y0_after: y0a, w_after: wa, cnt0, cnt1: cnt(nls), nonterm }
}

/// Splits the trace at the points where an attempt has ended: an error, acceptance, or the last
/// allowed iteration being rejected.
struct Attempt<'a> {
    ev: &'a [Ev],
    /// how it ended: None = cut off by the end of the trace
    end: Option<Result<(), E>>,
}
fn attempts(o: &Obs) -> Vec<Attempt<'_>> {
    let mut v = vec![];
    let mut start = 0;
    let mut iters = 0;
    for (i, e) in o.ev.iter().enumerate() {
        let mut end = e.err().map(Err);
        if let Ev::Ctest(_, _, _, _, _, Ok(c)) = e {
            iters += 1;
            if *c {
                end = Some(Ok(()));
            } else if iters >= o.maxiters.max(1) {
                end = Some(Err(E::Recover));
            }
        }
        if let Some(r) = end {
            v.push(Attempt { ev: &o.ev[start..=i], end: Some(r) });
            start = i + 1;
            iters = 0;
        }
    }
    if start < o.ev.len() {
        v.push(Attempt { ev: &o.ev[start..], end: None });
    }
    v
}
fn neg(v: &V) -> V {
    v.iter().map(|x| -*x).collect()
}
fn plus(a: &V, b: &V) -> V {
    a.iter().zip(b).map(|(x, y)| *x + *y).collect()
}

// ---- monitors: each returns an error if the trace violates its property

/// N01: order and arguments of the callbacks.
pub fn mon_protocol(o: &Obs) -> Result<(), String> {
    for (ai, a) in attempts(o).iter().enumerate() {
        let mut y = o.y0.clone();
        let mut f: Option<V> = None;
        let mut it = a.ev.iter().peekable();
        match it.next() {
            Some(Ev::Sys(yy, r)) => {
                if *yy != y {
                    return Err(format!("attempt {} does not evaluate the residual at the initial iterate", ai));
                }
                f = r.clone().ok();
            }
            Some(e) => return Err(format!("attempt {} starts with {:?} instead of a residual evaluation", ai, e)),
            None => {}
        }
        if f.is_none() {
            continue;
        }
        let want_setup = o.call_lsetup || ai > 0;
        if want_setup {
            match it.next() {
                Some(Ev::Setup(yy, ff, _, r)) => {
                    if *yy != y {
                        return Err(format!("attempt {}: setup not called at the initial iterate: {:?}", ai, yy));
                    }
                    if Some(ff) != f.as_ref() {
                        return Err(format!("attempt {}: setup got residual {:?} instead of {:?}", ai, ff, f));
                    }
                    if r.is_err() {
                        continue;
                    }
                }
                None => continue,
                Some(e) => return Err(format!("attempt {}: {:?} instead of the linear solver setup", ai, e)),
            }
        }
        loop {
            let d = match it.next() {
                Some(Ev::Solve(yy, b, r)) => {
                    if *yy != y {
                        return Err(format!("linear solve called at {:?}, current iterate {:?}", yy, y));
                    }
                    if *b != neg(f.as_ref().unwrap()) {
                        return Err(format!("right-hand side {:?} is not the negative residual of {:?}", b, f));
                    }
                    match r {
                        Ok(d) => d.clone(),
                        Err(_) => break,
                    }
                }
                None => break,
                Some(e) => return Err(format!("attempt {}: {:?} instead of a linear solve", ai, e)),
            };
            y = plus(&y, &d);
            match it.next() {
                Some(Ev::Ctest(yy, dd, tol, w, _, r)) => {
                    if *yy != y || *dd != d || *tol != o.tol || *w != o.w {
                        return Err(format!("convergence test got y={:?} del={:?} tol={:?} w={:?}; expected y={:?} del={:?} tol={:?} w={:?}", yy, dd, tol, w, y, d, o.tol, o.w));
                    }
                    if !matches!(r, Ok(false)) {
                        break;
                    }
                }
                None => break,
                Some(e) => return Err(format!("attempt {}: {:?} instead of the convergence test", ai, e)),
            }
            match it.next() {
                Some(Ev::Sys(yy, r)) => {
                    if *yy != y {
                        return Err(format!("residual evaluated at {:?} instead of the updated iterate {:?}", yy, y));
                    }
                    match r {
                        Ok(v) => f = Some(v.clone()),
                        Err(_) => break,
                    }
                }
                None => break,
                Some(e) => return Err(format!("attempt {}: {:?} instead of the residual at the new iterate", ai, e)),
            }
        }
        if let Some(e) = it.next() {
            return Err(format!("attempt {} goes on with {:?} after it ended", ai, e));
        }
    }
    Ok(())
}

/// Jacobian freshness: updated by the last successful setup, used up by a successful solve.
pub fn jcur_after(o: &Obs, mut jcur: bool) -> bool {
    for e in &o.ev {
        match e {
            Ev::Setup(_, _, _, Ok(j)) => jcur = *j,
            Ev::Ctest(_, _, _, _, _, Ok(true)) => jcur = false,
            _ => {}
        }
    }
    jcur
}
/// N02: the retry rule and the staleness flag given to setup.
pub fn mon_retry(o: &Obs, mut jcur: bool) -> Result<(), String> {
    let at = attempts(o);
    for (ai, a) in at.iter().enumerate() {
        for e in a.ev {
            if let Ev::Setup(_, _, jbad, r) = e {
                if *jbad != (ai > 0) {
                    return Err(format!("setup in attempt {} told jbad={}", ai, jbad));
                }
                if let Ok(j) = r {
                    jcur = *j;
                }
            }
        }
        let expect = matches!(a.end, Some(Err(E::Recover))) && !jcur && ai == 0;
        let retried = ai + 1 < at.len();
        if retried && !expect {
            return Err(format!("attempt {} ended with {:?} (Jacobian current: {}) but another attempt was made", ai, a.end, jcur));
        }
        if !retried && expect {
            return Err(format!("recoverable failure with a stale Jacobian was not retried with a fresh one (attempt {})", ai));
        }
        if ai > 0 && a.ev.len() > 1 && matches!(a.ev[0], Ev::Sys(_, Ok(_))) && !matches!(a.ev[1], Ev::Setup(..)) {
            return Err("the retry does not refresh the Jacobian".into());
        }
    }
    Ok(())
}

/// N03: bounded work.
pub fn mon_budget(o: &Obs) -> Result<(), String> {
    if o.nonterm {
        return Err(format!("solve does not return: still running after {} callbacks; first ones {:?}", o.ev.len(), &o.ev[..o.ev.len().min(14)]));
    }
    let m = o.maxiters.max(1);
    let count = |f: fn(&Ev) -> bool| o.ev.iter().filter(|e| f(e)).count();
    let (ns, nl, nt, nf) = (
        count(|e| matches!(e, Ev::Setup(..))),
        count(|e| matches!(e, Ev::Solve(..))),
        count(|e| matches!(e, Ev::Ctest(..))),
        count(|e| matches!(e, Ev::Sys(..))),
    );
    if ns > 2 || nl > 2 * m || nt > 2 * m || nf > 2 * m {
        return Err(format!("with a limit of {} iterations: {} setups, {} linear solves, {} convergence tests, {} residuals", m, ns, nl, nt, nf));
    }
    // per attempt (an attempt starts from the initial iterate, i.e. after a setup or at the start)
    let mut run = 0;
    let mut lasty: Option<&V> = None;
    for e in &o.ev {
        match e {
            Ev::Sys(y, _) if *y == o.y0 && lasty != Some(y) => run = 0,
            Ev::Setup(..) => run = 0,
            Ev::Ctest(y, ..) => {
                lasty = Some(y);
                run += 1;
                if run > m {
                    return Err(format!("more than {} iterations in one attempt", m));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// N04: result and solution.
pub fn mon_outcome(o: &Obs) -> Result<(), String> {
    if o.nonterm {
        return Ok(());
    }
    if o.y0_after != o.y0 || o.w_after != o.w {
        return Err(format!("the initial iterate or the weights were changed: {:?} {:?}", o.y0_after, o.w_after));
    }
    let last = o.ev.last();
    let accepted = matches!(last, Some(Ev::Ctest(_, _, _, _, _, Ok(true))));
    if let Some(k) = o.ev.iter().position(|e| matches!(e, Ev::Ctest(_, _, _, _, _, Ok(true)))) {
        if k + 1 != o.ev.len() {
            return Err("the iteration went on after the convergence test had accepted the iterate".into());
        }
    }
    match (accepted, o.res) {
        (true, Ok(())) => {
            // y = initial iterate + the corrections of the accepted attempt
            let at = attempts(o);
            let mut y = o.y0.clone();
            for e in at.last().unwrap().ev {
                if let Ev::Solve(_, _, Ok(d)) = e {
                    y = plus(&y, d);
                }
            }
            if y != o.y {
                return Err(format!("solution {:?} is not the initial iterate plus all corrections {:?}", o.y, y));
            }
            if let Some(Ev::Ctest(yy, ..)) = last {
                if *yy != o.y {
                    return Err(format!("returned solution {:?} is not the accepted iterate {:?}", o.y, yy));
                }
            }
        }
        (true, Err(e)) => return Err(format!("convergence test accepted but solve returned {:?}", e)),
        (false, Ok(())) => return Err("solve returned success although the convergence test did not accept the last iterate".into()),
        (false, Err(e)) => {
            let want = match last {
                None => return Err(format!("{:?} without any callback", e)),
                Some(l) => match l.err() {
                    Some(x) => x,
                    // not an error answer: only running out of iterations can end the solve here
                    None => {
                        let n = attempts(o).last().map(|a| a.ev.iter().filter(|e| matches!(e, Ev::Ctest(..))).count()).unwrap_or(0);
                        if !matches!(l, Ev::Ctest(_, _, _, _, _, Ok(false))) || n < o.maxiters.max(1) {
                            return Err(format!("solve gave up with {:?} after {} iterations although nothing failed", e, n));
                        }
                        E::Recover
                    }
                },
            };
            if e != want {
                return Err(format!("solve returned {:?}, the failure that ended it was {:?}", e, want));
            }
        }
    }
    Ok(())
}

/// N05: the statistics.
pub fn mon_counters(o: &Obs) -> Result<(), String> {
    if o.nonterm {
        return Ok(());
    }
    let mut lin = o.cnt0.0;
    let mut fails = o.cnt0.2;
    for a in attempts(o) {
        let mut it = 0;
        for e in a.ev {
            match e {
                Ev::Solve(..) => lin += 1,
                Ev::Ctest(_, _, _, _, c, _) => {
                    if *c != (it, lin, fails) {
                        return Err(format!(
                            "during the convergence test of iteration {} the solver reports (current, total, failures) = {:?}, expected {:?}",
                            it, c, (it, lin, fails)
                        ));
                    }
                    it += 1;
                }
                _ => {}
            }
        }
        if let Some(Err(_)) = a.end {
            fails += 1;
        }
    }
    if o.cnt1.0 != lin {
        return Err(format!("total iterations {} reported, {} linear solves were made", o.cnt1.0, lin));
    }
    if o.cnt1.2 != fails {
        return Err(format!("{} convergence failures reported, {} attempts failed", o.cnt1.2, fails));
    }
    if o.res.is_ok() {
        let n = attempts(o).last().unwrap().ev.iter().filter(|e| matches!(e, Ev::Ctest(..))).count();
        if o.cnt1.1 + 1 != n {
            return Err(format!("current iteration {} reported after convergence in iteration {}", o.cnt1.1, n - 1));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mon {
    Protocol,
    Retry,
    Budget,
    Outcome,
    Counters,
    History,
}

fn outcome_key(o: &Obs) -> &'static str {
    let retried = attempts(o).len() > 1;
    match (o.nonterm, o.res, retried) {
        (true, _, _) => "does not return",
        (_, Ok(()), false) => "converged",
        (_, Ok(()), true) => "converged after retry",
        (_, Err(E::Recover), false) => "recoverable, no retry",
        (_, Err(E::Recover), true) => "recoverable after retry",
        (_, Err(E::Illegal), _) => "unrecoverable",
        (_, Err(E::Lin(_)), _) => "linear solver error",
        (_, Err(E::Other), _) => "other error",
    }
}

fn judge(m: Mon, o: &Obs, jcur: bool) -> Result<(), String> {
    let r = match m {
        Mon::Protocol => mon_protocol(o),
        Mon::Retry => mon_retry(o, jcur),
        Mon::Budget => mon_budget(o),
        Mon::Outcome => mon_outcome(o),
        Mon::Counters => mon_counters(o),
        Mon::History => Ok(()),
    };
    r.map_err(|e| format!("{}; n={} maxiters={} call_lsetup={} result={:?} trace={:?}", e, o.y0.len(), o.maxiters, o.call_lsetup, o.res, &o.ev[..o.ev.len().min(30)]))
}

fn record(o: &Obs, jcur: bool, acc: &mut Acc) {
    acc.step(o.ev.len() as u64 + 1);
    let mut h = hash_of(&(o.maxiters, o.call_lsetup, jcur, &o.y0));
    for e in &o.ev {
        h = hash_of(&(h, e));
        acc.state(&h);
    }
    acc.outcome(outcome_key(o));
}

/// A history of `nsolve` solves on one solver, every environment answer.
fn history_tree<D>(m: Mon, maxiters: usize, lsetups: &[bool], small: bool, views: bool, forced: Vec<usize>, acc: &mut Acc) -> Result<(), String>
where
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<Rat, D>,
{
    let n = explore(1_000_000, forced, |ch| {
        let mut nls = <Newton<Rat, D> as NLSolver<Rat, D>>::new(maxiters);
        let mut jcur = false;
        let mut obs: Vec<Obs> = vec![];
        for (k, &cl) in lsetups.iter().enumerate() {
            let c = Conf { maxiters, call_lsetup: cl, salt: k as i64, small, views, script: None };
            let o = run_solve::<D>(&mut nls, &c, ch);
            let stop = o.nonterm;
            obs.push(o);
            if stop {
                break;
            }
        }
        ch.finish();
        if ch.duplicate {
            return Ok(());
        }
        for (k, o) in obs.iter().enumerate() {
            record(o, jcur, acc);
            judge(m, o, jcur).map_err(|e| format!("solve {} of the history: {}", k, e))?;
            jcur = jcur_after(o, jcur);
        }
        acc.sample(|| format!("n={} maxiters={} call_lsetup={:?} answers={:?}: {:?}", D::dim(), maxiters, lsetups, ch.path(), obs.iter().map(|o| (o.res, o.ev.len())).collect::<Vec<_>>()));
        acc.trace();
        Ok(())
    })?;
    let _ = n;
    Ok(())
}

/// N06: a solver with any history behaves like a fresh one (up to Jacobian freshness), and so does
/// a clone of it.
fn fresh_vs_used<D>(maxiters: usize, lsetups: [bool; 2], forced: Vec<usize>, acc: &mut Acc) -> Result<(), String>
where
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<Rat, D>,
{
    explore(1_000_000, forced, |ch| {
        let mut used = <Newton<Rat, D> as NLSolver<Rat, D>>::new(maxiters);
        let c0 = Conf { maxiters, call_lsetup: lsetups[0], salt: 0, small: true, views: false, script: None };
        let o1 = run_solve::<D>(&mut used, &c0, ch);
        if o1.nonterm {
            return Ok(());
        }
        let jc = jcur_after(&o1, false);
        // clone before the second solve, so that all three get the same starting point
        let mut clone = used.clone();
        let mut fresh = <Newton<Rat, D> as NLSolver<Rat, D>>::new(maxiters);
        let c1 = Conf { maxiters, call_lsetup: lsetups[1], salt: 1, small: true, views: false, script: None };
        let o2 = run_solve::<D>(&mut used, &c1, ch);
        ch.finish();
        if ch.duplicate || o2.nonterm {
            return Ok(());
        }
        let answers: Vec<usize> = o2.ev.iter().map(answer_code).collect();
        let mut r1 = Ok(());
        let mut rerun = |s: &mut Newton<Rat, D>, what: &str, same_jcur: bool| -> Result<(), String> {
            // replay exactly the answers of o2 (run on, if it asks for more)
            let mut res = Ok(());
            let mut first = true;
            explore(1_000_000, answers.clone(), |c2| {
                if !first {
                    return Ok(());
                }
                first = false;
                let o3 = run_solve::<D>(s, &c1, c2);
                if !same_jcur {
                    return Ok(());
                }
                let d = |o: &Obs| (o.cnt1.0 - o.cnt0.0, if o.res.is_ok() { o.cnt1.1 } else { 0 }, o.cnt1.2 - o.cnt0.2);
                let strip = |o: &Obs| -> Vec<Ev> {
                    o.ev.iter()
                        .map(|e| match e {
                            Ev::Ctest(a, b, t, w, k, r) => Ev::Ctest(a.clone(), b.clone(), *t, w.clone(), (k.0, k.1 - o.cnt0.0, k.2 - o.cnt0.2), *r),
                            e => e.clone(),
                        })
                        .collect()
                };
                let y_same = o3.res.is_err() || o3.y == o2.y;
                if strip(&o3) != strip(&o2) || o3.res != o2.res || !y_same || d(&o3) != d(&o2) {
                    res = Err(format!(
                        "{} behaves differently from the solver with history: {:?} {:?} y={:?} counts {:?}\n versus {:?} {:?} y={:?} counts {:?}\n first solve: call_lsetup={} {:?}",
                        what, o3.res, o3.ev, o3.y, d(&o3), o2.res, o2.ev, o2.y, d(&o2), lsetups[0], o1.ev
                    ));
                }
                Ok(())
            })?;
            res
        };
        // jcur of the used solver only matters until the first setup of the second solve
        let same = !jc || lsetups[1];
        r1 = r1.and(rerun(&mut clone, "a clone", true));
        r1 = r1.and(rerun(&mut fresh, "a fresh solver", same && !jc));
        record(&o1, false, acc);
        record(&o2, jc, acc);
        acc.trace();
        acc.outcome(if jc { "second solve starts with a current Jacobian" } else { "second solve starts stale" });
        acc.sample(|| format!("n={} maxiters={} first {:?} then {:?}", D::dim(), maxiters, o1.res, o2.res));
        r1
    })?;
    Ok(())
}
fn answer_code(e: &Ev) -> usize {
    match e {
        Ev::Sys(_, r) => match r {
            Ok(_) => 0,
            Err(E::Recover) => 1,
            _ => 2,
        },
        Ev::Setup(_, _, _, r) => match r {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(E::Recover) => 2,
            _ => 3,
        },
        Ev::Solve(_, _, r) => match r {
            Ok(_) => 0,
            Err(E::Recover) => 1,
            _ => 2,
        },
        Ev::Ctest(_, _, _, _, _, r) => match r {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(E::Recover) => 2,
            _ => 3,
        },
    }
}

/// Long histories: every word of three scripted solves, repeated; iteration counts, failure counts and
/// Jacobian freshness accumulate over hundreds of iterations.
fn long_history<D>(m: Mon, maxiters: usize, word: [usize; 3], reps: usize, acc: &mut Acc) -> Result<(), String>
where
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<Rat, D>,
{
    let scripts = [
        (Script::Accept(0), false),
        (Script::Accept(maxiters - 1), true),
        (Script::RetryAccept(0, maxiters / 2), false),
        (Script::Never, true),
        (Script::SysFail(maxiters / 2), false),
        (Script::SetupFail, true),
        (Script::Diverge(maxiters / 3), false),
        (Script::RetryAccept(maxiters / 2, 0), true),
    ];
    let mut r = Ok(());
    let mut first = true;
    explore(10_000_000, vec![], |ch| {
        if !std::mem::take(&mut first) {
            return Ok(());
        }
        let mut nls = <Newton<Rat, D> as NLSolver<Rat, D>>::new(maxiters);
        let mut jcur = false;
        for k in 0..3 * reps {
            let (s, cl) = scripts[word[k % 3]];
            let c = Conf { maxiters, call_lsetup: cl, salt: (k % 5) as i64, small: false, views: false, script: Some(s) };
            let o = run_solve::<D>(&mut nls, &c, ch);
            record(&o, jcur, acc);
            r = judge(m, &o, jcur).map_err(|e| format!("solve {} of the scripted history {:?}: {}", k, word.map(|w| scripts[w]), e));
            if r.is_err() || o.nonterm {
                break;
            }
            jcur = jcur_after(&o, jcur);
        }
        acc.trace();
        acc.sample(|| format!("{} solves repeating {:?}, iteration limit {}, totals (iterations, -, failures) {:?}", 3 * reps, word.map(|w| scripts[w]), maxiters, (nls.get_num_iters(), nls.get_cur_iter(), nls.get_num_conv_fails())));
        Ok(())
    })?;
    r
}

/// Large iteration limits: acceptance, failure and divergence in every iteration, one solve.
const LIMITS: [usize; 9] = [9, 11, 16, 17, 50, 100, 255, 256, 257];
fn limit_case<D>(m: Mon, maxiters: usize, script: Script, cl: bool, acc: &mut Acc) -> Result<(), String>
where
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<Rat, D>,
{
    let mut r = Ok(());
    let mut first = true;
    explore(10_000_000, vec![], |ch| {
        if !std::mem::take(&mut first) {
            return Ok(());
        }
        let mut nls = <Newton<Rat, D> as NLSolver<Rat, D>>::new(maxiters);
        let c = Conf { maxiters, call_lsetup: cl, salt: 1, small: false, views: false, script: Some(script) };
        let o = run_solve::<D>(&mut nls, &c, ch);
        record(&o, false, acc);
        r = judge(m, &o, false).map_err(|e| format!("iteration limit {} script {:?}: {}", maxiters, script, e));
        acc.trace();
        acc.sample(|| format!("iteration limit {} script {:?} call_lsetup={}: {:?} after {} callbacks", maxiters, script, cl, o.res, o.ev.len()));
        Ok(())
    })?;
    r
}

const NFORCE: usize = 4;
fn forced(mut i: u64, k: usize) -> Vec<usize> {
    (0..k).map(|_| take(&mut i, 4) as usize).collect()
}

fn spaces(m: Mon) -> Vec<Space> {
    let th = tier() == Tier::Thorough;
    let mut v = vec![];
    let maxm = if th { 12 } else { 8 };
    // one solve: all iteration limits, both lsetup flags, full answer alphabets
    macro_rules! single {
        ($($d:literal),*) => {$(
            v.push(Space::new(format!("one-solve-n{}", $d), (maxm + 1) * 2 * 2, move |mut i, acc| {
                let cl = take(&mut i, 2) == 0;
                let views = take(&mut i, 2) == 1;
                history_tree::<Const<$d>>(m, i as usize, &[cl], false, views, vec![], acc)
            }));
        )*};
    }
    single!(1, 2, 3, 5, 8);
    let f2 = 4u64.pow(NFORCE as u32);
    let m2 = if th { 5 } else { 3 };
    v.push(Space::new("two-solves-n2", m2 * 4 * f2, move |mut i, acc| {
        let maxiters = 1 + take(&mut i, m2) as usize;
        let ls = [take(&mut i, 2) == 0, take(&mut i, 2) == 0];
        history_tree::<Const<2>>(m, maxiters, &ls, false, false, forced(i, NFORCE), acc)
    }));
    let f3 = 4u64.pow(NFORCE as u32);
    let m3 = if th { 2 } else { 1 };
    v.push(Space::new("three-solves-n1", m3 * 8 * f3, move |mut i, acc| {
        let maxiters = 1 + take(&mut i, m3) as usize;
        let ls = [take(&mut i, 2) == 0, take(&mut i, 2) == 0, take(&mut i, 2) == 0];
        history_tree::<Const<1>>(m, maxiters, &ls, true, false, forced(i, NFORCE), acc)
    }));
    for lim in LIMITS {
        let l = lim as u64;
        v.push(Space::new(format!("iteration-limit-{}-n1", lim), l * 5 * 2, move |mut i, acc| {
            let k = take(&mut i, l) as usize;
            let s = match take(&mut i, 5) {
                0 => Script::Accept(k),
                1 => Script::RetryAccept(k, lim - 1 - k),
                2 => Script::RetryAccept(lim - 1 - k / 2, k),
                3 => Script::Diverge(k),
                _ if k == 0 => Script::Never,
                _ => Script::SysFail(k),
            };
            limit_case::<Const<1>>(m, lim, s, i == 0, acc)
        }));
    }
    let reps = if th { 400 } else { 40 };
    v.push(Space::new("scripted-long-histories-n2", 512 * 3, move |mut i, acc| {
        let word = [take(&mut i, 8) as usize, take(&mut i, 8) as usize, take(&mut i, 8) as usize];
        long_history::<Const<2>>(m, [4, 1, 10][i as usize], word, reps, acc)
    }));
    v
}
fn ck(id: &str, m: Mon) -> Check {
    Check {
        id: id.into(),
        spaces: spaces(m),
        rule: "every execution of the tree of environment answers (residual, setup, linear solve and convergence test outcomes) for every iteration limit, dimension and lsetup flag; histories of up to three solves; states are distinct callback-trace prefixes".into(),
        assumptions: vec![
            "callbacks answer with a value, the recoverable error, or an unrecoverable error; the Continue error variant is not used as an answer".into(),
            "iteration limit 0 is treated as 1, as the code does".into(),
        ],
    }
}
pub fn n01() -> Check {
    ck("N01", Mon::Protocol)
}
pub fn n02() -> Check {
    ck("N02", Mon::Retry)
}
pub fn n03() -> Check {
    ck("N03", Mon::Budget)
}
pub fn n04() -> Check {
    ck("N04", Mon::Outcome)
}
pub fn n05() -> Check {
    ck("N05", Mon::Counters)
}
pub fn n06() -> Check {
    let th = tier() == Tier::Thorough;
    let mut c = ck("N06", Mon::History);
    c.spaces.clear();
    let f = 4u64.pow(NFORCE as u32);
    let mm = if th { 4 } else { 2 };
    macro_rules! sp {
        ($($d:literal),*) => {$(
            c.spaces.push(Space::new(format!("fresh-vs-used-n{}", $d), mm * 4 * f, move |mut i, acc| {
                let maxiters = 1 + take(&mut i, mm) as usize;
                let ls = [take(&mut i, 2) == 0, take(&mut i, 2) == 0];
                fresh_vs_used::<Const<$d>>(maxiters, ls, forced(i, NFORCE), acc)
            }));
        )*};
    }
    sp!(1, 2, 4);
    c
}
