//! I06 (when and with what the iteration matrix is set up) and I12 (iterates and convergence test of the
//! Newton iteration inside a step).
//!
//! The real Newton solver and the real integrator run against a linear solver whose every answer (size of
//! the correction, failure of a solve, failure of a setup) is chosen by the explorer.  A reference
//! automaton written from the documented rules follows every call that reaches the problem and the linear
//! solver.
use crate::h::*;
use ida::IdaTask;
use mcengine::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
pub enum J {
    Jac,
    Conv,
}
#[derive(Clone)]
pub struct NCfg {
    pub ls_type: u8,
    pub hin: f64,
    pub hmax_inv: f64,
    pub maxord: usize,
    pub dir: f64,
    /// components: copies of the first two
    pub n: usize,
}
const ATOL: [f64; 2] = [0.5, 0.02];
fn corr(n: usize, s: f64, i: usize) -> V {
    let d = [[1.0, -0.7], [0.9, 0.4], [-1.0, 0.6], [0.2, 1.1]][i % 4];
    (0..n).map(|j| s * d[j % 2] * ATOL[j % 2]).collect()
}
/// dense, with zeros at other places in every other evaluation
fn expected_j(n: usize, call: usize, cj: f64) -> V {
    let mut m = vec![0.0; n * n];
    for r in 0..n {
        for c in 0..n {
            m[r * n + c] = if r == c && call % 3 == 2 && call / 3 % n == r {
                0.0
            } else if r == c {
                (1 + r % 2) as f64 * cj
            } else if (r + c + call + (r > c) as usize) % 2 == 0 {
                (3 + r) as f64 - 2.0 * c as f64 + 0.25
            } else {
                0.0
            };
        }
    }
    m
}

/// `sizes`: answers of the linear solves in turn (None: failure); `setups`: bit i set: i-th setup fails.
pub fn run(c: &NCfg, sizes: Vec<Option<f64>>, setups: u64, j: J, acc: &mut Acc) -> Result<(), String> {
    run_stops(c, sizes, setups, &[], j, acc)
}
/// `stops`: what a stop time leaves of the i-th step (0: no stop time), in turn
pub fn run_stops(c: &NCfg, sizes: Vec<Option<f64>>, setups: u64, stops: &[f64], j: J, acc: &mut Acc) -> Result<(), String> {
    let n = c.n;
    let mut wd = World::new(n);
    wd.res = Rc::new(move |t, y, yp, r| {
        for j in 0..n {
            r[j] = if j % 2 == 0 { yp[j] + 0.25 * y[j] + t } else { 2.0 * yp[j] - 0.125 * y[j - 1] + y[j] };
        }
    });
    let calls = Rc::new(Cell::new(0usize));
    let c2 = calls.clone();
    wd.jac = Rc::new(move |_, cj, _, _, m| {
        let e = expected_j(n, c2.get(), cj);
        c2.set(c2.get() + 1);
        for i in 0..n * n {
            if e[i] != 0.0 {
                m[i] = e[i];
            }
        }
    });
    let s2 = sizes.clone();
    wd.ls = Some(Rc::new(move |i, _| match s2.get(i) {
        Some(s) => s.map(|s| corr(n, s, i)),
        None => Some(corr(n, 1e-4, i)),
    }));
    wd.ls_setup = Some(Rc::new(move |i| i >= 64 || setups >> i & 1 == 0));
    wd.ls_type = c.ls_type;
    install(wd);
    let rep = |a: &[f64; 2]| (0..n).map(|j| a[j % 2]).collect::<V>();
    let wt: V = rep(&ATOL).iter().map(|a| 1.0 / a).collect();
    let mut ida = full(&rep(&[1.0, -2.0]), &rep(&[0.01, 0.005]), 0.0, &rep(&ATOL));
    if c.hin != 0.0 {
        ida.verif_set_init_step(c.hin * c.dir);
    }
    if c.hmax_inv != 0.0 {
        ida.verif_set_max_step_inv(c.hmax_inv);
    }
    if c.maxord != 5 {
        ida.verif_set_max_order(c.maxord);
    }
    let alpha = |k: usize| (1..=k).map(|i| 1.0 / i as f64).sum::<f64>();
    let mut cjold = 0.0;
    let mut cjlast = f64::NAN;
    let mut ss: f64 = 20.0;
    let mut njac = 0usize;
    let mut nst = 0usize;
    while w(|w| w.ls_pos) <= sizes.len() && nst < sizes.len().max(40) {
        let tn = ida.get_current_time();
        if tn.abs() > 1e8 {
            break;
        }
        let (mut k, mut hh) = if nst == 0 { (1, 0.0) } else { (ida.get_current_order(), ida.get_current_setp()) };
        if nst > 0 && hh.abs() < 1e-9 * tn.abs() {
            break; // at the resolution of time
        }
        let f = if nst == 0 || stops.is_empty() { 0.0 } else { stops[nst % stops.len()] };
        if f != 0.0 {
            let st = tn + f * hh;
            ida.verif_set_stop_time(Some(st));
            if (tn + hh - st) * hh > 0.0 {
                hh = (st - tn) * (1.0 - 4.0 * f64::EPSILON);
            }
        } else {
            ida.verif_set_stop_time(None);
        }
        let mut tret = f64::NAN;
        let r = ida.solve(c.dir * 1e9, &mut tret, IdaTask::OneStep);
        let ev = take_ev();
        acc.step(ev.len() as u64 + 1);
        if ev.is_empty() && r.as_ref().is_err_and(|e| e.to_string().contains("TooMuchAccuracy")) {
            break; // the extrapolated solution has outgrown the absolute tolerance
        }
        let mut p = 0;
        let mut h = hh;
        let mut ncf = 0;
        let mut att = 0;
        macro_rules! no {
            ($tag:expr, $($a:tt)*) => {{
                if j == $tag {
                    return Err(format!("corrections {:?} setups failing {:b} stops {:?}: step {} (tn={:?}) attempt {} order {} h {:e} cj {:e} cjold {:e} ss {} event {} of {:?}: {}", sizes, setups, stops, nst, tn, att, k, h, alpha(k) / h, cjold, ss, p, ev, format!($($a)*)));
                }
                return Ok(());
            }};
        }
        let near = |a: f64, b: f64, s: f64, tol: f64| (a - b).abs() <= tol * s;
        if k == 0 {
            k = 1;
        }
        let accepted: Option<(V, V)> = loop {
            // ---- one attempt of the step
            let Some(Ev::Res(t, y0, yp0, f0)) = ev.get(p) else { no!(J::Conv, "an attempt must start with the residual at the predicted point (result {:?}, tret {:?}, y {:?})", r.as_ref().map_err(|e| e.to_string()), tret, ida.get_yy()) };
            p += 1;
            if att == 0 && nst == 0 {
                h = t - tn;
            }
            if !near(*t, tn + h, tn.abs() + h.abs(), 1e-12) {
                return Ok(()); // the retry rule is I03's
            }
            let cj = alpha(k) / h;
            let mut due = false;
            if nst == 0 {
                cjold = cj;
                ss = 20.0;
                due = true;
            }
            let mut ratio = cj / cjold;
            if (ratio - 0.6).abs() < 1e-9 || (ratio - 1.0 / 0.6).abs() < 1e-9 {
                return Ok(());
            }
            if !(0.6..=1.0 / 0.6).contains(&ratio) {
                due = true;
            }
            if !stops.is_empty() && cj != cjlast && (cj - cjlast).abs() <= 1e-9 * cj.abs() {
                return Ok(()); // the same but for rounding: either is right
            }
            if nst > 0 && (cj - cjlast).abs() > 1e-9 * cj.abs() {
                ss = 100.0;
            }
            acc.state(&(due, ratio.to_bits(), ss.to_bits(), k, nst == 0));
            cjlast = cj;
            let mut fresh = false;
            let mut f = f0.clone();
            // Some(y, yp): converged; None: failed
            let res: Option<(V, V)> = 'newton: loop {
                if due {
                    let Some(Ev::Jac(tj, cjj, yj, ypj, rr, m)) = ev.get(p) else { no!(J::Jac, "the Jacobian is due (cj ratio {}, first step {}, retry {}) but was not evaluated", ratio, nst == 0, fresh) };
                    if tj != t || yj != y0 || ypj != yp0 || rr != f0 {
                        no!(J::Jac, "the Jacobian must be evaluated with the time, y, y' and residual of the predicted point")
                    }
                    if !near(*cjj, cj, cj.abs(), 1e-9) {
                        no!(J::Jac, "the Jacobian must be evaluated with cj = {}", cj)
                    }
                    if *m != expected_j(n, njac, *cjj) {
                        no!(J::Jac, "the matrix was not cleared before the Jacobian was evaluated: {:?}", m)
                    }
                    njac += 1;
                    p += 1;
                    let Some(Ev::LSetup(ok, mat)) = ev.get(p) else { no!(J::Jac, "the linear solver must be set up with the new Jacobian") };
                    if mat != m {
                        no!(J::Jac, "the linear solver was set up with another matrix than the Jacobian evaluated")
                    }
                    p += 1;
                    cjold = cj;
                    ratio = 1.0;
                    ss = 20.0;
                    fresh = true;
                    if !ok {
                        acc.outcome("setup failed");
                        break None;
                    }
                } else if let Some(Ev::Jac(..)) | Some(Ev::LSetup(..)) = ev.get(p) {
                    no!(J::Jac, "the Jacobian was evaluated although it is not due (cj ratio {})", ratio)
                }
                let scale = if ratio != 1.0 && c.ls_type != 1 { 2.0 / (1.0 + ratio) } else { 1.0 };
                let mut sum = vec![0.0; n];
                let mut old = 0.0;
                let mut m = 0;
                loop {
                    if let Some(Ev::Stale(_)) = ev.get(p) {
                        no!(J::Jac, "the linear solver was given a matrix that is not the one last set up")
                    }
                    if let Some(Ev::Jac(..)) | Some(Ev::LSetup(..)) = ev.get(p) {
                        no!(J::Jac, "the Jacobian was evaluated within the iteration")
                    }
                    let Some(Ev::LSolve(b, x)) = ev.get(p) else { no!(J::Conv, "iteration {} not carried out", m) };
                    if b.iter().zip(&f).any(|(b, f)| *b != -*f) {
                        no!(J::Conv, "the right-hand side {:?} is not the negative of the last residual {:?}", b, f)
                    }
                    p += 1;
                    let Some(x) = x else {
                        acc.outcome("solve failed");
                        break 'newton None;
                    };
                    let d: V = x.iter().map(|x| x * scale).collect();
                    for i in 0..n {
                        sum[i] += d[i];
                    }
                    let del = wrms(&d, &wt);
                    let mut diverged = false;
                    let mut nc = false;
                    if m == 0 {
                        old = del;
                        nc = del <= 1e-4 * 1e-4 * 0.33;
                    } else {
                        let rate = (del / old).powf(1.0 / m as f64);
                        if (rate - 0.9).abs() < 1e-9 {
                            return Ok(());
                        }
                        diverged = rate > 0.9;
                        if !diverged {
                            ss = rate / (1.0 - rate);
                        }
                    }
                    if (ss * del - 0.33).abs() < 1e-9 {
                        return Ok(());
                    }
                    let conv = !diverged && (nc || ss * del <= 0.33);
                    if conv {
                        acc.outcome(["converged at the first iterate", "converged at the second", "converged at the third", "converged at the fourth"][m.min(3)]);
                        let y = y0.iter().zip(&sum).map(|(a, b)| a + b).collect();
                        let yp = yp0.iter().zip(&sum).map(|(a, b)| a + cj * b).collect();
                        break 'newton Some((y, yp));
                    }
                    if diverged || m + 1 >= 4 {
                        acc.outcome(if diverged { "diverged" } else { "too many iterations" });
                        if fresh {
                            break 'newton None;
                        }
                        // once more from the predictor with a new Jacobian
                        match ev.get(p) {
                            Some(Ev::Res(t2, y2, yp2, f2)) if t2 == t => {
                                if y2 != y0 || yp2 != yp0 {
                                    no!(J::Conv, "after divergence with an old Jacobian the iteration must start again at the predicted point")
                                }
                                f = f2.clone();
                                p += 1;
                            }
                            _ => no!(J::Jac, "divergence with an old Jacobian must lead to a new one and another attempt from the predictor"),
                        }
                        due = true;
                        continue 'newton;
                    }
                    m += 1;
                    let Some(Ev::Res(t2, y2, yp2, f2)) = ev.get(p) else { no!(J::Conv, "not converged (ss*norm = {}), so the residual at iterate {} is needed", ss * del, m) };
                    if t2 != t {
                        no!(J::Conv, "not converged (ss*norm = {}), but the iteration was left", ss * del)
                    }
                    for i in 0..n {
                        let (ey, eyp) = (y0[i] + sum[i], yp0[i] + cj * sum[i]);
                        if !near(y2[i], ey, y0[i].abs() + 1e-3 * sum[i].abs(), 1e-11) && !near(y2[i], ey, sum[i].abs(), 1e-9) || !near(yp2[i], eyp, yp0[i].abs() + (cj * sum[i]).abs(), 1e-9) {
                            // (scaling is part of both properties)
                            return Err(format!("corrections {:?}: step {} attempt {} (cj ratio {}): iterate {} is y={:?} y'={:?}; predictor {:?} {:?} plus (scaled) corrections {:?}, cj={}", sizes, nst, att, ratio, m, y2, yp2, y0, yp0, sum, cj));
                        }
                    }
                    f = f2.clone();
                    p += 1;
                }
            };
            acc.trace();
            match res {
                Some(x) => break Some(x),
                None => {
                    ncf += 1;
                    att += 1;
                    if ncf >= 10 {
                        if r.is_ok() || p != ev.len() {
                            return Ok(()); // I03's
                        }
                        break None;
                    }
                    if p == ev.len() {
                        no!(J::Conv, "a recoverable failure of the iteration must lead to another attempt with a smaller step, not to {:?}", r.map_err(|e| e.to_string()))
                    }
                    h *= 0.25;
                }
            }
        };
        let Some((y, yp)) = accepted else {
            acc.outcome("gave up");
            return Ok(());
        };
        if let Some(e) = ev.get(p) {
            match e {
                Ev::Res(t2, ..) if *t2 == tn + h => no!(J::Conv, "the iteration had converged but was continued"),
                Ev::Jac(..) | Ev::LSetup(..) | Ev::LSolve(..) => no!(J::Conv, "the iteration had converged but was continued"),
                _ => return Ok(()), // error test failure
            }
        }
        if r.is_err() {
            return Ok(());
        }
        if j == J::Conv {
            let (gy, gyp): (V, V) = (ida.get_yy().iter().copied().collect(), ida.get_yp().iter().copied().collect());
            for i in 0..n {
                if !near(gy[i], y[i], y[i].abs() + 1e-3, 1e-10) || !matches!(r, Ok(ida::IdaSolveStatus::TStop)) && !near(gyp[i], yp[i], yp[i].abs() + (alpha(k) / h).abs() * 1e-3, 1e-9) {
                    no!(J::Conv, "returned y {:?} y' {:?}; the converged iterate is {:?} {:?}", gy, gyp, y, yp)
                }
            }
        }
        nst += 1;
    }
    acc.sample(|| format!("corrections {:?}: {} steps, {} Jacobians", sizes, nst, njac));
    Ok(())
}

fn cfgs() -> Vec<NCfg> {
    vec![
        NCfg { ls_type: 0, hin: 0.0, hmax_inv: 0.0, maxord: 5, dir: 1.0, n: 2 },
        NCfg { ls_type: 0, hin: 0.25, hmax_inv: 4.0, maxord: 2, dir: -1.0, n: 2 },
        NCfg { ls_type: 1, hin: 0.5, hmax_inv: 1.0, maxord: 5, dir: 1.0, n: 2 },
        NCfg { ls_type: 2, hin: 0.1, hmax_inv: 2.5, maxord: 4, dir: 1.0, n: 2 },
        NCfg { ls_type: 0, hin: 0.25, hmax_inv: 1.0, maxord: 5, dir: 1.0, n: 9 },
    ]
}
pub fn spaces(j: J) -> Vec<Space> {
    let deep = tier() == Tier::Thorough;
    let al: [Option<f64>; 7] = [Some(1e-4), Some(0.006), Some(0.012), Some(0.04), Some(0.25), Some(1e-10), None];
    let mut v = vec![];
    for (ci, c) in cfgs().into_iter().enumerate() {
        for pre in [0usize, 3, 8] {
            let depth = match (deep, ci) {
                (true, _) => 8,
                (_, 0) => 6,
                _ => 5,
            };
            let c2 = c.clone();
            v.push(Space::new(format!("corrections cfg{} after {} easy ones, 7^{}", ci, pre, depth), 7u64.pow(depth), move |idx, acc| {
                let mut s = vec![Some(2e-3); pre];
                s.extend(digits(idx, 7, depth as usize).iter().map(|&d| al[d as usize]));
                run(&c2, s, 0, j, acc)
            }));
        }
        // slow convergence: third and fourth iterates, rates between the limits
        for pre in [0usize, 4] {
            let c2 = c.clone();
            let (slow, depth) = ([1.3, 0.95, 0.7, 0.5, 0.33, 0.16, 2e-3], if deep { 7 } else { 5 });
            v.push(Space::new(format!("slow corrections cfg{} after {} easy ones, 7^{}", ci, pre, depth), 7u64.pow(depth), move |idx, acc| {
                let mut s = vec![Some(2e-3); pre];
                s.extend(digits(idx, 7, depth as usize).iter().map(|&d| Some(slow[d as usize])));
                run(&c2, s, 0, j, acc)
            }));
        }
        // stop times that cut a step by little or much
        let (sl, cl) = if deep { (4, 5) } else { (3, 3) };
        for pre in [1usize, 6] {
            let c2 = c.clone();
            v.push(Space::new(format!("stop times cfg{} after {} easy corrections: cuts 6^{} x corrections 7^{}", ci, pre, sl, cl), 6u64.pow(sl) * 7u64.pow(cl), move |idx, acc| {
                let mut i = idx;
                let cuts: V = digits(take(&mut i, 6u64.pow(sl)), 6, sl as usize).iter().map(|&d| [0.0, 1.0 - 1e-6, 1.0 - 1e-3, 0.994, 0.8, 0.45][d as usize]).collect();
                let mut s = vec![Some(2e-3); pre];
                s.extend(digits(i, 7, cl as usize).iter().map(|&d| al[d as usize]));
                run_stops(&c2, s, 0, &cuts, j, acc)
            }));
        }
        // failing setups
        let (nb, depth) = if deep { (8, 6) } else { (6, 4) };
        let c2 = c.clone();
        v.push(Space::new(format!("failing setups cfg{} 2^{} x corrections 6^{}", ci, nb, depth), (1 << nb) * 6u64.pow(depth), move |idx, acc| {
            let mut i = idx;
            let m = take(&mut i, 1 << nb);
            let s = digits(i, 6, depth as usize).iter().map(|&d| al[d as usize]).collect();
            run(&c2, s, m, j, acc)
        }));
        // every setup fails, first or later, with corrections that force new Jacobians
        let c2 = c.clone();
        v.push(Space::new(format!("setups failing from one on cfg{}", ci), 16 * 36, move |idx, acc| {
            let mut i = idx;
            let from = take(&mut i, 16);
            let mut s: Vec<Option<f64>> = vec![Some(2e-3); from as usize];
            s.extend(digits(i, 6, 2).iter().map(|&d| al[d as usize]));
            s.extend([Some(0.04), Some(0.25), Some(0.25), Some(1e-4)]);
            run(&c2, s, !0u64 << from, j, acc)
        }));
        // long repetitions of a short word: iteration limits, repeated divergence
        let c2 = c.clone();
        let wl = if deep { 5 } else { 4 };
        v.push(Space::new(format!("repeated words cfg{} 7^{}", ci, wl), 7u64.pow(wl) * 4, move |idx, acc| {
            let mut i = idx;
            let pre = [0usize, 2, 5, 9][take(&mut i, 4) as usize];
            let wd = digits(i, 7, wl as usize);
            let mut s = vec![Some(2e-3); pre];
            for r in 0..24 {
                s.push(al[wd[r % wl as usize] as usize]);
            }
            run(&c2, s, 0, j, acc)
        }));
        // long histories
        let c2 = c.clone();
        let (wl, reps) = (3 + deep as u32, 50);
        v.push(Space::new(format!("long histories cfg{} 7^{} words repeated {} times", ci, wl, reps), 7u64.pow(wl), move |idx, acc| {
            let wd = digits(idx, 7, wl as usize);
            let s = (0..wl as usize * reps).map(|r| al[wd[r % wl as usize] as usize]).collect();
            run(&c2, s, 0, j, acc)
        }));
        let c2 = c.clone();
        let sl = 2 + deep as u32;
        v.push(Space::new(format!("long histories cfg{} cuts 6^{} x corrections 7^2, repeated {} times", ci, sl, reps), 6u64.pow(sl) * 49, move |idx, acc| {
            let mut i = idx;
            let cuts: V = digits(take(&mut i, 6u64.pow(sl)), 6, sl as usize).iter().map(|&d| [0.0, 1.0 - 1e-6, 1.0 - 1e-3, 0.994, 0.8, 0.45][d as usize]).collect();
            let wd = digits(i, 7, 2);
            let s = (0..2 * reps).map(|r| al[wd[r % 2] as usize]).collect();
            run_stops(&c2, s, 0, &cuts, j, acc)
        }));
    }
    v
}
pub fn check(id: &str) -> Check {
    let j = if id == "I06" { J::Jac } else { J::Conv };
    Check {
        id: id.into(),
        spaces: spaces(j),
        assumptions: vec![
            "the integrator sources are compiled against an ndarray/failure stand-in (shim/) and reach the real crates/nonlinear and crates/linear through bridge/".into(),
            "corrections come from a finite alphabet of sizes; decisions closer than 1e-9 to a threshold are not judged".into(),
        ],
        rule: if j == J::Jac {
            "every sequence of linear-solver answers: when the Jacobian is evaluated, with which arguments, into a cleared matrix, and that the linear solver is set up with it and solves with it"
        } else {
            "every sequence of linear-solver answers: right-hand sides, iterates, convergence and divergence decisions, and what a failure of the iteration leads to"
        }
        .into(),
    }
}
