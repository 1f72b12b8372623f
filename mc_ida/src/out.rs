//! I01 (what `solve` returns, when, and where it stops) and I05 (interpolation).
//!
//! The nonlinear solver accepts everything with prescribed corrections, so that the accepted history is
//! arbitrary but known; operation histories are enumerated.
use crate::ctl::{attempts, order_of};
use crate::h::*;
use ida::{IdaSolveStatus, IdaTask};
use mcengine::*;
use ndarray::prelude::*;

pub struct Drv {
    pub ida: Ctl,
    pub n: usize,
    pub yp0: V,
    /// accepted points, newest first
    pub ts: V,
    pub ys: Vec<V>,
    pub hs: V,
    pub kused: usize,
}
/// corrections used in turn; all far below the error test limit
pub fn pattern(p: usize, i: usize, atol: &[f64]) -> Ans {
    let s = match p {
        0 => 0.02,
        1 => [0.35, -0.35][i % 2],
        2 => [0.3, 0.1, -0.2, 0.25][i % 4],
        3 => 0.5 / (1.0 + i as f64),
        _ => [0.02, 0.6, 0.6, -0.01, 0.0][i % 5],
    };
    Ans::Ee(atol.iter().enumerate().map(|(j, a)| s * a * if j % 2 == 1 { -0.7 } else { 1.0 }).collect())
}
impl Drv {
    pub fn new(p: usize, yp0: &[f64], y0: &[f64], atol: &[f64], nroots: usize) -> Drv {
        let mut w = World::new(y0.len());
        w.nroots = nroots;
        w.nls = (0..400).map(|i| if p == 5 && i % 6 == 5 { Ans::Recover } else { pattern(p, i, atol) }).collect();
        install(w);
        let ida = ctl(y0, yp0, 0.0, atol);
        Drv { ida, n: y0.len(), yp0: yp0.to_vec(), ts: vec![0.0], ys: vec![y0.to_vec()], hs: vec![], kused: 0 }
    }
    /// Take in what happened during a call; the times of the accepted steps.
    pub fn absorb(&mut self, acc: &mut Acc) -> Result<V, String> {
        let ev = take_ev();
        acc.step(ev.len() as u64 + 1);
        let mut r = vec![];
        let at = attempts(&ev)?;
        for (i, a) in at.iter().enumerate() {
            let Some(ee) = &a.ee else { continue };
            // the error test failed if the next attempt does not go further
            if at.get(i + 1).is_some_and(|b| (b.t - self.ts[0]).abs() < (a.t - self.ts[0]).abs()) {
                continue;
            }
            let h = a.t - self.ts[0];
            self.kused = order_of(a.cj * h);
            self.hs.insert(0, h);
            self.ts.insert(0, a.t);
            self.ys.insert(0, a.yp.iter().zip(ee).map(|(p, e)| p + e).collect());
            r.push(a.t);
        }
        if !r.is_empty() {
            // what t - tn loses to roundoff
            let hu = self.ida.get_last_step();
            if (self.hs[0] - hu).abs() <= 1e-9 * hu.abs() {
                self.hs[0] = hu;
            }
        }
        Ok(r)
    }
    /// k-th derivative at t of the polynomial of degree kused (at least 1) through the accepted points.
    pub fn interp(&self, t: f64, k: usize) -> (V, V) {
        if self.ts.len() == 1 {
            let v = |f: &dyn Fn(usize) -> f64| (0..self.n).map(f).collect::<V>();
            let y = match k {
                0 => v(&|i| self.ys[0][i] + (t - self.ts[0]) * self.yp0[i]),
                1 => self.yp0.clone(),
                _ => vec![0.0; self.n],
            };
            let s = v(&|i| 1.0 + self.ys[0][i].abs() + self.yp0[i].abs());
            return (y, s);
        }
        let m = self.kused.max(1).min(self.ts.len() - 1);
        let mut x = vec![0.0];
        let mut s = 0.0;
        for i in 0..m {
            s -= self.hs[i];
            x.push(s);
        }
        // what rounding the largest values of the history leaves behind
        let floor: V = (0..self.n).map(|i| 1e-4 * self.ys.iter().fold(0.0f64, |a, y| a.max(y[i].abs()))).collect();
        let (y, mut s) = poly(t - self.ts[0], &x, &self.ys[..=m], k);
        let sum: f64 = weights(t - self.ts[0], &x, k)[k].iter().map(|d| d.abs()).sum();
        for i in 0..self.n {
            s[i] += sum * floor[i];
        }
        (y, s)
    }
    pub fn yy(&self) -> V {
        self.ida.get_yy().iter().copied().collect()
    }
    pub fn yp(&self) -> V {
        self.ida.get_yp().iter().copied().collect()
    }
}
pub fn near(a: &[f64], (b, s): &(V, V), tol: f64) -> bool {
    a.iter().zip(b).zip(s).all(|((a, b), s)| (a - b).abs() <= tol * (s + 1e-12))
}

// ------------------------------------------------------------------------------------------ I01

/// operations; with failures
const NOPS: u64 = 13;
const NFOPS: u64 = 16;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Normal(f64),
    One(f64),
    Stop(Option<f64>),
    Query(f64),
    /// the attempt after the next `n` fails: for good, or so that it is tried again
    Fail(usize, bool),
}
fn op(k: u64, d: &Drv, dir: f64, tl: f64) -> Op {
    let tn = d.ida.get_current_time();
    let (hh, hu) = if d.ts.len() == 1 { (dir, dir) } else { (d.ida.get_current_setp(), d.ida.get_last_step()) };
    match k {
        0 => Op::Normal(tn + 0.4 * hh),
        1 => Op::Normal(tn + 3.7 * hh),
        2 => Op::Normal(tn - 0.5 * hu),
        3 => Op::Normal(tl),
        4 => Op::Normal(tn),
        5 => Op::Normal(tn - 1.5 * hu),
        6 => Op::One(tn + 100.0 * hh),
        7 => Op::Stop(Some(tn + 1.6 * hh)),
        8 => Op::Stop(Some(tn + 0.3 * hh)),
        9 => Op::Stop(Some(tn - 0.5 * hu)),
        10 => Op::Stop(Some(tn)),
        11 => Op::Stop(None),
        12 => Op::Query(tn - 0.25 * hu),
        13 => Op::Fail(0, true),
        14 => Op::Fail(2, true),
        _ => Op::Fail(1, false),
    }
}

fn run_ops(p: usize, dir: f64, ops: &[u64], mxstep: u64, hin: f64, nroots: usize, fine: bool, acc: &mut Acc) -> Result<(), String> {
    // (fine: the accuracy asked for is out of reach from some time on)
    let atol = if fine { [1e-16, 2e-17] } else { [0.5, 0.1] };
    let mut d = if fine { Drv::new(p, &[1.0, -0.25], &[0.0, 0.0], &atol, nroots) } else { Drv::new(p, &[0.001, -0.002], &[1.0, -2.0], &atol, nroots) };
    let reach = |y: &[f64]| ((0..2).map(|j| (y[j] / atol[j]).powi(2)).sum::<f64>() / 2.0).sqrt() * f64::EPSILON <= 1.0;
    if mxstep != 500 {
        d.ida.verif_set_max_num_steps(mxstep);
    }
    if hin != 0.0 {
        d.ida.verif_set_init_step(hin);
    }
    let mut tl = 0.0; // last time returned
    let mut stop: Option<f64> = None;
    let mut done: Vec<Op> = vec![];
    for &k in ops {
        let o = op(k, &d, dir, tl);
        done.push(o);
        let tn = d.ida.get_current_time();
        let first = d.ts.len() == 1;
        let hu = d.ida.get_last_step();
        let fuzz = |t: f64, h: f64| 100.0 * f64::EPSILON * (t.abs() + h.abs());
        let err = |m: String| Err(format!("operations {:?}: {}", done, m));
        acc.state(&(k, d.ts.len(), tn.to_bits(), stop.map(|s| s.to_bits()), tl.to_bits(), d.kused));
        let (tout, task, one) = match o {
            Op::Stop(s) => {
                d.ida.verif_set_stop_time(s);
                stop = s;
                continue;
            }
            Op::Query(t) => {
                let r = d.ida.get_solution(t);
                if first {
                    continue;
                }
                if r.is_err() {
                    return err("get_solution inside the last step was rejected".into());
                }
                if !near(&d.yy(), &d.interp(t, 0), 1e-9) {
                    return err(format!("get_solution({}) = {:?}, interpolant {:?}", t, d.yy(), d.interp(t, 0).0));
                }
                continue;
            }
            Op::Fail(n, good) => {
                w(|w| {
                    let i = w.nls_pos + n;
                    if good || w.nls[i] != Ans::Fatal {
                        w.nls[i] = if good { Ans::Fatal } else { Ans::Recover };
                    }
                });
                continue;
            }
            Op::Normal(t) => (t, IdaTask::Normal, false),
            Op::One(t) => (t, IdaTask::OneStep, true),
        };
        let hcur = if first { dir } else { d.ida.get_current_setp() };
        let s = hcur.signum();
        let mut tret = f64::NAN;
        let pos0 = w(|w| w.nls_pos);
        let r = d.ida.solve(tout, &mut tret, task);
        let failed = w(|w| w.nls[pos0..w.nls_pos].contains(&Ans::Fatal));
        let steps = d.absorb(acc)?;
        acc.trace();
        let show = format!("{:?} tret={:?} steps={:?} tn was {:?}", r.as_ref().map_err(|e| e.to_string()), tret, steps, tn);
        let now = d.ida.get_current_time();
        if now != d.ts[0] {
            return err(format!("{}: current time {:?} is not that of the last accepted step {:?}", show, now, d.ts[0]));
        }
        // ---- calls that must be refused
        let refused = if first {
            let dt = tout - tn;
            dt == 0.0 || hin * dt < 0.0 || stop.is_some_and(|st| (st - tn) * dt <= 0.0)
        } else {
            stop.is_some_and(|st| (tn - st) * s > 0.0) || (!one && tout != tl && (tn - tout) * s >= 0.0 && (tout - (tn - hu)) * s < -fuzz(tn, hcur) * 2.0)
        };
        if refused {
            acc.outcome("refused");
            if r.is_ok() || !steps.is_empty() {
                return err(format!("{}: should have been refused", show));
            }
            continue;
        }
        // ---- calls answered without a step
        let mut want: Option<(IdaSolveStatus, f64)> = None;
        if !first {
            let at_stop = stop.filter(|st| (tn - st).abs() <= fuzz(tn, hcur));
            if !one && tout == tl {
                want = Some((IdaSolveStatus::Success, tout));
            } else if !one && (tn - tout) * s >= 0.0 {
                want = Some((IdaSolveStatus::Success, tout));
            } else if one && (tn - tl) * s > 0.0 {
                want = Some((IdaSolveStatus::Success, tn));
            } else if let Some(st) = at_stop {
                want = Some((IdaSolveStatus::TStop, st));
            }
        }
        if let Some((st, t)) = want {
            acc.outcome("answered without a step");
            if r.as_ref().ok() != Some(&st) || tret != t || !steps.is_empty() {
                return err(format!("{}: expected {:?} at {:?} without a step", show, st, t));
            }
            if !near(&d.yy(), &d.interp(t, 0), 1e-9) {
                return err(format!("{}: y {:?} is not the solution {:?} at tret", show, d.yy(), d.interp(t, 0).0));
            }
            if st == IdaSolveStatus::TStop {
                stop = None;
            }
            tl = t;
            continue;
        }
        // ---- calls that step
        let dirn = if first { (tout - tn).signum() } else { s };
        // the accuracy, or a failure, may end the call
        if !reach(&d.ys[steps.len()]) {
            acc.outcome("too much accuracy");
            if r.is_ok() || !steps.is_empty() || tret != tn {
                return err(format!("{}: the accuracy cannot be reached from {:?} on", show, d.ys[steps.len()]));
            }
            if !first && (!near(&d.yy(), &d.interp(tn, 0), 1e-9)) {
                return err(format!("{}: y {:?} is not the solution at tret", show, d.yy()));
            }
            tl = tn;
            continue;
        }
        if failed {
            acc.outcome("step failed for good");
            let t = d.ts[0];
            if r.is_ok() || tret != t {
                return err(format!("{}: the call should have ended with the failure at {:?}", show, t));
            }
            if !near(&d.yy(), &d.interp(t, 0), 1e-9) || !near(&d.yp(), &d.interp(t, 1), 1e-8) {
                return err(format!("{}: y {:?} y' {:?} is not the solution {:?} {:?} at tret", show, d.yy(), d.yp(), d.interp(t, 0).0, d.interp(t, 1).0));
            }
        }
        let mut prev = tn;
        for (i, &t) in steps.iter().enumerate() {
            if (t - prev) * dirn <= 0.0 {
                return err(format!("{}: step {} does not advance", show, i));
            }
            if stop.is_some_and(|st| (t - st) * dirn > fuzz(t, t - prev)) {
                return err(format!("{}: step {} goes past the stop time {:?}", show, i, stop));
            }
            let last = i + 1 == steps.len();
            let at_stop = stop.is_some_and(|st| (t - st).abs() <= fuzz(t, t - prev));
            let past = !one && (t - tout) * dirn >= 0.0;
            if !last && (one || at_stop || past) {
                return err(format!("{}: went on after step {} at {:?} (stop time {:?})", show, i, t, stop));
            }
            let stay = !one && !at_stop && !past;
            if !last && stay && !reach(&d.ys[steps.len() - 1 - i]) {
                return err(format!("{}: went on after step {} at {:?}, though the accuracy cannot be reached", show, i, t));
            }
            if last && failed {
                if !stay {
                    return err(format!("{}: went on after step {} at {:?}", show, i, t));
                }
                tl = t;
                break;
            }
            if last {
                if stay && !reach(&d.ys[0]) {
                    acc.outcome("too much accuracy");
                    if r.is_ok() || tret != t || !near(&d.yy(), &d.interp(t, 0), 1e-9) {
                        return err(format!("{}: the accuracy cannot be reached from {:?} on", show, d.ys[0]));
                    }
                    tl = t;
                    break;
                }
                let tooo = i as u64 + 1 == mxstep && !one && !past && !at_stop;
                if tooo {
                    acc.outcome("too many steps");
                    if r.is_ok() || tret != t {
                        return err(format!("{}: should have stopped with an error after {} steps at tret = {:?}", show, mxstep, t));
                    }
                    tl = t;
                    if !near(&d.yy(), &d.interp(t, 0), 1e-9) {
                        return err(format!("{}: y {:?} is not the solution at tret", show, d.yy()));
                    }
                    break;
                }
                let (st, tt) = if past {
                    (IdaSolveStatus::Success, tout)
                } else if at_stop {
                    (IdaSolveStatus::TStop, stop.unwrap())
                } else if one {
                    (IdaSolveStatus::Success, t)
                } else {
                    return err(format!("{}: returned before tout", show));
                };
                acc.outcome(match (&st, one) {
                    (IdaSolveStatus::TStop, _) => "stopped at the stop time",
                    (_, true) => "one step",
                    _ => "stepped to tout",
                });
                if r.as_ref().ok() != Some(&st) || tret != tt {
                    return err(format!("{}: expected {:?} at {:?}", show, st, tt));
                }
                if !near(&d.yy(), &d.interp(tt, 0), 1e-9) {
                    return err(format!("{}: y {:?} is not the solution {:?} at tret", show, d.yy(), d.interp(tt, 0).0));
                }
                if (past || at_stop) && !near(&d.yp(), &d.interp(tt, 1), 1e-8) {
                    return err(format!("{}: y' {:?} is not the derivative {:?} at tret", show, d.yp(), d.interp(tt, 1).0));
                }
                if st == IdaSolveStatus::TStop {
                    stop = None;
                }
                tl = tt;
            }
            prev = t;
        }
        if steps.is_empty() && failed {
            tl = tn;
        } else if steps.is_empty() {
            return err(format!("{}: expected at least one step", show));
        }
    }
    acc.sample(|| format!("{:?}: times {:?}", done, d.ts));
    Ok(())
}

pub fn i01() -> Check {
    let deep = tier() == Tier::Thorough;
    let mut v = vec![];
    for (p, dir, depth) in [(0usize, 1.0, 5), (1, 1.0, if deep { 5 } else { 4 }), (2, -1.0, if deep { 6 } else { 5 })] {
        v.push(Space::new(format!("operations 13^{} pattern {} direction {}", depth, p, dir), NOPS.pow(depth as u32), move |idx, acc| run_ops(p, dir, &digits(idx, NOPS, depth), 500, 0.0, 0, false, acc)));
    }
    // after some steps, with retries inside steps
    let d2 = if deep { 5 } else { 4 };
    for (p, dir, pre) in [(5usize, 1.0, 4usize), (1, -1.0, 9), (3, 1.0, 12), (4, 1.0, 7)] {
        v.push(Space::new(format!("operations 13^{} after {} steps, pattern {} direction {}", d2, pre, p, dir), NOPS.pow(d2 as u32), move |idx, acc| {
            let mut o: Vec<u64> = if dir > 0.0 { vec![6; pre] } else { vec![6; pre] };
            o.extend(digits(idx, NOPS, d2));
            run_ops(p, dir, &o, 500, 0.0, 0, false, acc)
        }));
    }
    // a given first step, longer and shorter than the distance to output and stop times
    for (hin, p) in [(0.5, 0usize), (-0.5, 2), (-2.0, 5), (1e3, 1)] {
        v.push(Space::new(format!("operations 13^{} with first step {}", d2, hin), NOPS.pow(d2 as u32), move |idx, acc| run_ops(p, if hin > 0.0 { 1.0 } else { -1.0 }, &digits(idx, NOPS, d2), 500, hin, 0, false, acc)));
    }
    for mx in 1..=3u64 {
        v.push(Space::new(format!("operations 13^{} with at most {} steps per call", d2, mx), NOPS.pow(d2 as u32), move |idx, acc| run_ops(1, 1.0, &digits(idx, NOPS, d2), mx, 0.0, 0, false, acc)));
    }
    // the same with root functions that never vanish, and with ones that do
    for (nr, mx, p, dir) in [(1usize, 500u64, 4usize, 1.0), (3, 2, 2, -1.0), (20, 500, 5, 1.0)] {
        v.push(Space::new(format!("operations 13^{} with {} root functions without roots, at most {} steps per call", d2, nr, mx), NOPS.pow(d2 as u32), move |idx, acc| run_ops(p, dir, &digits(idx, NOPS, d2), mx, 0.0, nr, false, acc)));
    }
    // steps that fail for good or are tried again, and accuracy that gets out of reach
    for (p, dir, pre) in [(2usize, 1.0, 0usize), (0, 1.0, 1), (1, -1.0, 4), (4, 1.0, 8)] {
        v.push(Space::new(format!("operations 16^{} with failures after {} steps, pattern {} direction {}", d2, pre, p, dir), NFOPS.pow(d2 as u32), move |idx, acc| {
            let mut o: Vec<u64> = vec![6; pre];
            o.extend(digits(idx, NFOPS, d2));
            run_ops(p, dir, &o, 500, 0.0, 0, false, acc)
        }));
    }
    for (p, dir) in [(0usize, 1.0), (2, -1.0)] {
        v.push(Space::new(format!("operations 16^{} with accuracy out of reach, pattern {} direction {}", d2, p, dir), NFOPS.pow(d2 as u32), move |idx, acc| {
            run_ops(p, dir, &digits(idx, NFOPS, d2), 500, 0.05 * dir, 0, true, acc)
        }));
    }
    v.push(crate::roots::limited());
    Check {
        id: "I01".into(),
        spaces: v,
        assumptions: vec!["stop times and the step limit are set through the verif_hooks feature (there is no public setter)".into(), "the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "every history of solve(Normal), solve(OneStep), stop-time settings and queries with output times before, at, inside and after the last step: status, tret, y, y', steps taken and refusals against the documented contract".into(),
    }
}

// ------------------------------------------------------------------------------------------ I05

fn run_interp(n: usize, answers: &[usize], dir: f64, unit: f64, curve: bool, acc: &mut Acc) -> Result<(), String> {
    // components: copies of the first two
    let rep = |a: [f64; 2]| (0..n).map(|j| a[j % 2]).collect::<V>();
    let atol = rep([0.5, 0.1]);
    // (4: recoverable failure; 5: fails the error test)
    let sizes = [0.02, 0.3, -0.6, 0.45, 0.0, 40.0];
    let mk = |acc: &mut Acc, probe: bool| -> Result<(Vec<Ev>, V), String> {
        let mut d = Drv::new(0, &rep([0.3 / unit, -0.2 / unit]), &rep([1.0, -2.0]), &atol, 0);
        w(|w| {
            w.nls = answers.iter().map(|&a| if a == 4 { Ans::Recover } else { Ans::Ee(atol.iter().enumerate().map(|(j, t)| sizes[a] * t * if j % 2 == 1 { -0.6 } else { 1.0 }).collect()) }).collect();
        });
        if curve {
            // corrections that lead to a curve, whatever was predicted
            let atol = atol.clone();
            w(|w| {
                w.nls = answers.iter().map(|&a| if a == 4 { Ans::Recover } else { Ans::Intent(a as u16) }).collect();
                w.intent = Some(std::rc::Rc::new(move |t, yp, _, _, _, code| (0..n).map(|j| [1.0, -2.0][j % 2] + atol[j] * (30.0 * ((0.3 * t + j as f64).sin() - (j as f64).sin()) + [0.0, 0.02, 0.1, -0.8, 0.0, 40.0][code as usize]) - yp[j]).collect()));
            });
        }
        let mut all = vec![];
        while w(|w| w.nls_pos) < answers.len() {
            let mut tret = 0.0;
            let r = d.ida.solve(dir * 700.0 * unit, &mut tret, IdaTask::OneStep);
            all.extend(w(|w| w.ev.clone()));
            let stepped = !d.absorb(acc)?.is_empty();
            if r.is_err() {
                break;
            }
            if curve && d.ida.get_last_step().abs() < 1e-5 * d.ida.get_current_time().abs() {
                break; // the times of the points no longer determine the steps
            }
            if !probe || !stepped {
                continue;
            }
            let (tn, hu) = (d.ida.get_current_time(), d.ida.get_last_step());
            let kmax = d.kused;
            acc.state(&(kmax, d.ts.len(), tn.to_bits()));
            let ctx = |t: f64| format!("answers {:?}: after {} steps, order {}, tn={:?} last step {:?}, t={:?}", answers, d.ts.len() - 1, kmax, tn, hu, t);
            let mut dky = Array1::from(vec![0.0; n]);
            for f in [0.0, 0.25, 0.5, 0.9, 1.0, -0.3] {
                // (f = -0.3: extrapolation beyond tn is allowed)
                let t = if f == 1.0 { d.ts[1] } else { tn - f * hu };
                if let Err(e) = d.ida.get_solution(t) {
                    return Err(format!("{}: rejected: {}", ctx(t), e));
                }
                let (y, yp) = (d.yy(), d.yp());
                let (p0, p1) = (d.interp(t, 0), d.interp(t, 1));
                if !near(&y, &p0, 1e-9) {
                    return Err(format!("{}: y = {:?}, polynomial through the accepted points {:?}", ctx(t), y, p0.0));
                }
                if !near(&yp, &p1, 1e-9) {
                    return Err(format!("{}: y' = {:?}, derivative of the interpolant {:?}", ctx(t), yp, p1.0));
                }
                for k in 0..=kmax {
                    if let Err(e) = d.ida.get_dky(t, k, &mut dky) {
                        return Err(format!("{}: derivative {} rejected: {}", ctx(t), k, e));
                    }
                    let v: V = dky.iter().copied().collect();
                    if !near(&v, &d.interp(t, k), 1e-8) {
                        return Err(format!("{}: derivative {} = {:?}, of the interpolant {:?}", ctx(t), k, v, d.interp(t, k).0));
                    }
                    acc.trace();
                }
                for k in [kmax + 1, 7, 100] {
                    if d.ida.get_dky(t, k, &mut dky).is_ok() {
                        return Err(format!("{}: derivative {} should be refused", ctx(t), k));
                    }
                }
            }
            for f in [1.001, 1.5, 20.0] {
                let t = tn - f * hu;
                if d.ida.get_solution(t).is_ok() {
                    return Err(format!("{}: a time before the last step should be refused", ctx(t)));
                }
                if d.ida.get_dky(t, 0, &mut dky).is_ok() {
                    return Err(format!("{}: a time before the last step should be refused", ctx(t)));
                }
            }
            // a call answered within the step leaves everything as it was
            let tout = tn - 0.37 * hu;
            match d.ida.solve(tout, &mut tret, IdaTask::Normal) {
                Ok(IdaSolveStatus::Success) if tret == tout => {}
                r => return Err(format!("{}: solve within the last step: {:?} at {:?}", ctx(tout), r.map_err(|e| e.to_string()), tret)),
            }
            if !near(&d.yy(), &d.interp(tout, 0), 1e-9) || !near(&d.yp(), &d.interp(tout, 1), 1e-9) {
                return Err(format!("{}: solve within the last step: y {:?} y' {:?}, interpolant {:?} {:?}", ctx(tout), d.yy(), d.yp(), d.interp(tout, 0).0, d.interp(tout, 1).0));
            }
            for f in [0.0, 0.37, 0.6, 0.37, 0.0] {
                let t = tn - f * hu;
                for k in (0..=kmax).rev() {
                    if let Err(e) = d.ida.get_dky(t, k, &mut dky) {
                        return Err(format!("{}: derivative {} rejected: {}", ctx(t), k, e));
                    }
                    let v: V = dky.iter().copied().collect();
                    if !near(&v, &d.interp(t, k), 1e-8) {
                        return Err(format!("{}: after solve({:?}): derivative {} = {:?}, of the interpolant {:?}", ctx(t), tout, k, v, d.interp(t, k).0));
                    }
                }
            }
            acc.outcome(["", "order 1", "order 2", "order 3", "order 4", "order 5"][kmax.min(5)]);
        }
        Ok((all, d.ts.clone()))
    };
    let a = mk(acc, true)?;
    let b = mk(acc, false)?;
    if a != b {
        return Err(format!("answers {:?}: interpolating between the steps changed the integration: times {:?} with, {:?} without", answers, a.1, b.1));
    }
    acc.sample(|| format!("answers {:?}: times {:?}", answers, a.1));
    Ok(())
}

pub fn i05() -> Check {
    let deep = tier() == Tier::Thorough;
    let depth = if deep { 7 } else { 5 };
    let mut v = vec![];
    for (name, pre, dir, unit) in [
        ("start", vec![], 1.0, 1.0),
        ("backward", vec![0usize, 1], -1.0, 1.0),
        ("order 5", vec![0, 0, 0, 0, 0, 0, 0], 1.0, 1.0),
        ("after a retry", vec![0, 1, 1, 4, 1, 3, 1, 3, 3], 1.0, 1.0),
        ("constant step", vec![3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3], -1.0, 1.0),
        // steps that are small against the time reached, and other units of time
        ("small steps", vec![0, 0, 0, 0, 4, 4, 4, 4, 4, 4, 4, 4, 0], 1.0, 1.0),
        ("small steps backward", vec![0, 0, 1, 0, 0, 4, 4, 4, 4, 4, 4, 0, 4, 4, 4, 4, 0], -1.0, 1.0),
        ("large unit of time", vec![0, 0, 0], 1.0, 1e6),
        ("small unit of time", vec![0, 0], -1.0, 1e-13),
    ] {
        v.push(Space::new(format!("{}: answers 5^{}", name, depth), 5u64.pow(depth as u32), move |idx, acc| {
            let mut a = pre.clone();
            a.extend(digits(idx, 5, depth).into_iter().map(|x| x as usize));
            run_interp(2, &a, dir, unit, false, acc)
        }));
    }
    let d2 = if deep { 5 } else { 4 };
    v.push(Space::new(format!("nine components: answers 5^{} after 0, 4 or 9 steps", d2), 3 * 5u64.pow(d2 as u32), move |idx, acc| {
        let mut a = vec![0usize, 1, 1, 3, 1, 0, 0, 3, 1][..[0, 4, 9][(idx % 3) as usize]].to_vec();
        a.extend(digits(idx / 3, 5, d2).into_iter().map(|x| x as usize));
        run_interp(9, &a, 1.0, 1.0, false, acc)
    }));
    // every pattern of steps, error test failures and recoverable failures, after a start to each order
    let fd = if deep { 8 } else { 6 };
    v.push(Space::new(format!("failures: (step, step, fails the error test, recoverable)^{} after 2 to 12 steps", fd), 4 * 4u64.pow(fd as u32), move |idx, acc| {
        let mut a = vec![0usize; [2, 5, 8, 12][(idx % 4) as usize]];
        a.extend(digits(idx / 4, 4, fd).into_iter().map(|x| [0, 1, 5, 4][x as usize]));
        run_interp(2, &a, if idx / 4 % 2 == 0 { 1.0 } else { -1.0 }, 1.0, false, acc)
    }));
    v.push(Space::new(format!("long: words (5 sizes, fails the error test)^{} repeated {} times, after 8 steps", 4, 15), 6u64.pow(4), move |idx, acc| {
        let word = digits(idx, 6, 4);
        let mut a = vec![0usize, 1, 0, 1, 0, 1, 0, 1];
        a.extend((0..4 * 15).map(|i| word[i % 4] as usize));
        run_interp(2, &a, 1.0, 1.0, true, acc)
    }));
    // long histories: every word repeated
    let (wl, reps) = (if deep { 5 } else { 4 }, if deep { 40 } else { 20 });
    v.push(Space::new(format!("long: words 5^{} repeated {} times", wl, reps), 2 * 5u64.pow(wl as u32), move |idx, acc| {
        let word = digits(idx / 2, 5, wl);
        let a: Vec<usize> = (0..wl * reps).map(|i| word[i % wl] as usize).collect();
        run_interp(2, &a, if idx % 2 == 0 { 1.0 } else { -1.0 }, 1.0, true, acc)
    }));
    Check {
        id: "I05".into(),
        spaces: v,
        assumptions: vec!["the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "after every step of every answer sequence: y, y' and every derivative at points of the last step against the polynomial of the last order through the accepted points, refusals outside, and no influence on the integration (same calls with and without queries)".into(),
    }
}
