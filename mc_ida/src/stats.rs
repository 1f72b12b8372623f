//! I09: the optional outputs (counters, orders, step sizes) against the calls that really happened.
use crate::ctl::{attempts, order_of};
use crate::h::*;
use ida::{IdaSolveStatus, IdaTask};
use mcengine::*;
use std::rc::Rc;

fn calls(way: usize, i: usize, d: f64, tn: f64, hh: f64) -> (f64, IdaTask) {
    match way {
        0 => (d * 1e4, IdaTask::OneStep),
        1 => (tn + 2.6 * hh, IdaTask::Normal),
        _ => {
            if i % 2 == 0 {
                (d * 1e4, IdaTask::OneStep)
            } else {
                (tn + 1.3 * hh, IdaTask::Normal)
            }
        }
    }
}

/// Scripted nonlinear solver: steps, error test failures, convergence failures, orders and step sizes.
fn controller(n: usize, answers: &[u64], d: f64, way: usize, roots: bool, opts: u64, near: bool, acc: &mut Acc) -> Result<(), String> {
    let rep = |a: [f64; 2]| (0..n).map(|j| a[j % 2]).collect::<V>();
    let atol = rep([0.5, 0.1]);
    let size = [0.02, 0.3, 2.0, 40.0];
    let mut w0 = World::new(n);
    w0.nls = answers
        .iter()
        .map(|&a| match a {
            4 => Ans::Recover,
            5 => Ans::Fatal,
            a => Ans::Ee((0..n).map(|j| size[a as usize] * atol[j] * if j % 2 == 1 { -0.8 } else { 1.0 }).collect()),
        })
        .collect();
    if near {
        // corrections that lead to a curve: long histories stay bounded
        w0.nls = answers.iter().map(|&a| if a == 4 { Ans::Recover } else { Ans::Intent(a as u16) }).collect();
        let atol = atol.clone();
        w0.intent = Some(Rc::new(move |t, yp, _, _, _, code| (0..n).map(|j| [1.0, -2.0][j % 2] + atol[j] * (30.0 * ((0.3 * t + j as f64).sin() - (j as f64).sin()) + [0.0, 0.02, -0.8, 40.0][code as usize]) - yp[j]).collect()));
    }
    if roots {
        w0.nroots = 2;
        w0.root = Rc::new(|t, _, _, g| {
            g[0] = (t.abs() + 1e-3).ln().sin() + 0.1;
            g[1] = t.abs() - 3.0;
        });
    }
    install(w0);
    let mut ida = ctl(&rep([1.0, -2.0]), &rep([0.001, 0.002]), 0.0, &atol);
    // given first step, step limit, stop time inside the first step or a little later
    if opts & 1 != 0 {
        ida.verif_set_init_step(0.5 * d);
    }
    if opts & 2 != 0 {
        ida.verif_set_max_step_inv(4.0);
    }
    if opts / 4 > 0 {
        ida.verif_set_stop_time(Some(d * [0.0, 5e-5, 0.125, 0.7][opts as usize / 4]));
    }
    let (mut nst, mut nre, mut netf, mut ncfn, mut nge, mut nset) = (0, 0, 0, 0, 0, 0);
    let mut klast = 0;
    let mut i = 0;
    let mut first: Option<f64> = None;
    while w(|w| w.nls_pos) < answers.len() {
        let tn = ida.get_current_time();
        let (k0, h0) = (ida.get_current_order(), ida.get_current_setp());
        let (tout, task) = calls(way, i, d, tn, if i == 0 { d } else { h0 });
        i += 1;
        if i > 60 && !near || i > 5000 {
            break;
        }
        if near && i > 1 && (tn.abs() > 9e3 || h0.abs() < 1e-6 * tn.abs()) {
            acc.outcome("(end of the range of times)");
            break;
        }
        let mut tret = f64::NAN;
        let r = ida.solve(tout, &mut tret, task);
        let ev = take_ev();
        acc.step(ev.len() as u64 + 1);
        acc.trace();
        nge += ev.iter().filter(|e| matches!(e, Ev::Root(..))).count();
        nre += ev.iter().filter(|e| matches!(e, Ev::Res(..))).count();
        nset += ev.iter().filter(|e| matches!(e, Ev::LSetup(..))).count();
        let at = attempts(&ev)?;
        if at.iter().any(|a| a.ypp.iter().any(|v| v.abs() > 1e9)) {
            return Ok(()); // the prescribed corrections make the history blow up: orders cannot be read off
        }
        if near && at.windows(2).any(|w| (w[1].t - w[0].t).abs() < 1e-6 * w[0].t.abs()) {
            acc.outcome("(step at the resolution of time: not followed further)");
            return Ok(());
        }
        let mut base = tn;
        let mut hlast = ida.get_last_step();
        let fresh = nst == 0;
        // (errors that are not about the step itself come after an accepted one)
        let stepped = r.as_ref().map_or_else(|e| ["TooMuch", "mxstep"].iter().any(|s| e.to_string().contains(s)), |_| true);
        for (m, a) in at.iter().enumerate() {
            if m == 0 && !fresh {
                let h = a.t - tn;
                if (h - h0).abs() > 1e-9 * h0.abs() + 1e-14 * tn.abs() || order_of(a.cj * h) != k0 {
                    return Err(format!("answers {:?}: announced order {} and step {:?} for the next step from {:?}, but it is tried with order {} and {:?}", answers, k0, h0, tn, order_of(a.cj * h), h));
                }
            }
            let ok = if m + 1 == at.len() { stepped && a.ee.is_some() } else { (at[m + 1].t - a.t) * d > 0.0 };
            if first.is_none() && nst == 0 && m == 0 {
                first = Some(a.t);
            }
            match (&a.ee, ok) {
                (None, _) => {
                    ncfn += 1;
                    acc.outcome("convergence failure");
                }
                (Some(_), false) => {
                    netf += 1;
                    acc.outcome("error test failure");
                }
                _ => {
                    nst += 1;
                    acc.outcome("step");
                    hlast = a.t - base;
                    klast = order_of(a.cj * hlast);
                    base = a.t;
                }
            }
        }
        let got = (ida.get_num_steps(), ida.get_num_res_evals(), ida.get_num_err_test_fails(), ida.get_num_nonlin_solv_conv_fails(), ida.get_num_g_evals(), ida.get_num_jac_evals(), ida.get_num_lin_solv_setups());
        let want = (nst, nre, netf, ncfn, nge, nset, nset);
        acc.state(&(got, ida.get_current_time().to_bits()));
        let show = format!("answers {:?} direction {} call {} to {:?}: {:?} at {:?}", answers, d, i, tout, r.as_ref().map_err(|e| e.to_string()), tret);
        if got != want {
            return Err(format!("{}: (steps, residuals, error test failures, convergence failures, root evaluations, Jacobians, setups) reported {:?}, happened {:?}", show, got, want));
        }
        if ida.get_current_time() != base {
            return Err(format!("{}: current time {:?}, the last accepted step ended at {:?}", show, ida.get_current_time(), base));
        }
        if nst > 0 && (ida.get_last_order() != klast || (ida.get_last_step() - hlast).abs() > 1e-9 * hlast.abs() + 1e-14 * base.abs()) {
            return Err(format!("{}: last order {} and step {:?} reported, happened {} and {:?}", show, ida.get_last_order(), ida.get_last_step(), klast, hlast));
        }
        if let Some(f) = first {
            let h = ida.get_actual_init_step();
            if (h - f).abs() > 1e-12 * f.abs() {
                return Err(format!("{}: initial step {:?} reported, {:?} tried first", show, h, f));
            }
        }
        if r.is_err() {
            if nst == 0 {
                break; // the next call starts again
            }
            // a failed step leaves the solution at the time reached
            if tret != base {
                return Err(format!("{}: the time reached is {:?}", show, base));
            }
            if r.err().unwrap().to_string().contains("TooMuch") {
                break;
            }
        } else if r.is_ok_and(|s| s == IdaSolveStatus::Root) {
            acc.outcome("root");
        }
    }
    acc.sample(|| format!("answers {:?}: {} steps {} error test failures {} convergence failures", answers, nst, netf, ncfn));
    Ok(())
}

/// Real Newton solver, scripted linear solver: residuals, Jacobians, setups, iterations.
fn newton(n: usize, sizes: &[u64], ls_type: u8, d: f64, way: usize, long: bool, acc: &mut Acc) -> Result<(), String> {
    let al = [Some(1e-4), Some(0.006), Some(0.04), Some(0.25), Some(1e-10), None];
    // components: copies of the first two
    let rep = |a: [f64; 2]| (0..n).map(|j| a[j % 2]).collect::<V>();
    let atol = rep([0.5, 0.02]);
    let mut wd = World::new(n);
    wd.res = Rc::new(move |t, y, yp, r| {
        for j in 0..n {
            r[j] = if j % 2 == 0 { yp[j] + 0.25 * y[j] + t } else { 2.0 * yp[j] - 0.125 * y[j - 1] + y[j] };
        }
    });
    wd.nroots = 1;
    wd.root = Rc::new(|t, _, _, g| g[0] = (t.abs() + 1e-3).ln().sin() + 0.1);
    let (s2, a2) = (sizes.to_vec(), atol.clone());
    wd.ls = Some(Rc::new(move |i, _| {
        let s = match s2.get(i) {
            Some(&k) => al[k as usize],
            None => Some(1e-4),
        };
        s.map(|s| (0..n).map(|j| s * a2[j] * if j % 2 == 1 { -0.7 } else { 1.0 }).collect())
    }));
    wd.ls_type = ls_type;
    install(wd);
    let mut ida = full(&rep([1.0, -2.0]), &rep([0.01, 0.005]), 0.0, &atol);
    if long {
        ida.verif_set_max_step_inv(2.0);
    }
    let (mut nre, mut nje, mut nset, mut nni, mut nge, mut nli) = (0, 0, 0, 0, 0, 0);
    let mut i = 0;
    while w(|w| w.ls_pos) < sizes.len() && (i < 40 || long && i < 5000) {
        let tn = ida.get_current_time();
        let h0 = ida.get_current_setp();
        let (tout, task) = calls(way, i, d, tn, if i == 0 { d } else { h0 });
        let mut tret = f64::NAN;
        let r = ida.solve(tout, &mut tret, task);
        i += 1;
        let ev = take_ev();
        acc.step(ev.len() as u64 + 1);
        acc.trace();
        for e in &ev {
            match e {
                Ev::Res(..) => nre += 1,
                Ev::Jac(..) => nje += 1,
                Ev::LSetup(..) => nset += 1,
                Ev::LSolve(..) => {
                    nni += 1;
                    // direct solvers do not iterate
                    nli += if ls_type == 0 { 0 } else { lin_iters(nni) };
                }
                Ev::Root(..) => nge += 1,
                _ => {}
            }
        }
        let got = (ida.get_num_res_evals(), ida.get_num_jac_evals(), ida.get_num_lin_solv_setups(), ida.get_num_nonlin_solv_iters(), ida.get_num_g_evals(), ida.get_num_lin_res_evals(), ida.get_num_lin_iters());
        let want = (nre, nje, nset, nni, nge, 0, nli);
        acc.state(&(got, ida.get_current_time().to_bits()));
        acc.outcome("call");
        if got != want {
            return Err(format!("linear solver answers {:?} call {}: {:?} at {:?}: (residuals, Jacobians, setups, iterations, root evaluations, difference quotient residuals, linear iterations) reported {:?}, happened {:?}", sizes, i, r.map_err(|e| e.to_string()), tret, got, want));
        }
        if r.is_err() {
            break;
        }
    }
    Ok(())
}

pub fn i09() -> Check {
    let deep = tier() == Tier::Thorough;
    let mut v = vec![];
    let depth = if deep { 8 } else { 6 };
    for (pre, roots, depth) in [(0usize, false, depth), (0, true, depth - 1), (7, false, depth - 1), (7, true, depth - 1)] {
        v.push(Space::new(format!("step answers 6^{} after {} steps x 2 directions x 3 ways of calling{}", depth, pre, if roots { " with root functions" } else { "" }), 6u64.pow(depth) * 6, move |idx, acc| {
            let d = if idx % 2 == 1 { -1.0 } else { 1.0 };
            let mut a = vec![0u64, 1, 1, 0, 1, 1, 0][..pre].to_vec();
            a.extend(digits(idx / 6, 6, depth as usize));
            controller(2, &a, d, (idx / 2 % 3) as usize, roots, 0, false, acc)
        }));
    }
    let od = if deep { 6 } else { 4 };
    v.push(Space::new(format!("step answers 6^{} x 2 directions x 3 ways of calling x first step, step limit, stop time 16", od), 6u64.pow(od) * 96, move |idx, acc| {
        let mut i = idx;
        let d = if take(&mut i, 2) == 1 { -1.0 } else { 1.0 };
        let (way, opts) = (take(&mut i, 3), take(&mut i, 16));
        controller(2, &digits(i, 6, od as usize), d, way as usize, false, opts, false, acc)
    }));
    // runs of the same answer: limits on failures in a step
    v.push(Space::new("runs of answers: (6 x lengths 12)^2 x 2 directions x 3 ways of calling", 72 * 72 * 6, |idx, acc| {
        let d = if idx % 2 == 1 { -1.0 } else { 1.0 };
        let i = idx / 6;
        let mut a = vec![];
        for x in digits(i, 72, 2) {
            a.extend(vec![x % 6; (x / 6 + 1) as usize]);
        }
        a.extend([0, 0]);
        controller(2, &a, d, (idx / 2 % 3) as usize, false, 0, false, acc)
    }));
    let nd = if deep { 8 } else { 6 };
    for t in 0..3u8 {
        let nd = if t == 0 { nd } else { nd - 1 };
        v.push(Space::new(format!("linear solver answers 6^{} type {} x 2 directions x 3 ways of calling", nd, t), 6u64.pow(nd) * 6, move |idx, acc| {
            let d = if idx % 2 == 1 { -1.0 } else { 1.0 };
            let mut a = vec![];
            let dg = digits(idx / 6, 6, nd as usize);
            a.extend(&dg);
            a.extend([1, 0, 0]);
            a.extend(&dg);
            newton(2, &a, t, d, (idx / 2 % 3) as usize, false, acc)
        }));
    }
    // many components
    let md = if deep { 6 } else { 4 };
    v.push(Space::new(format!("nine and twenty components: step answers 6^{} after 0 or 7 steps x roots or not x 2 directions", md), 6u64.pow(md) * 16, move |idx, acc| {
        let mut i = idx;
        let (n, pre, roots, d) = ([9, 20][take(&mut i, 2) as usize], [0, 7][take(&mut i, 2) as usize], take(&mut i, 2) == 1, [1.0, -1.0][take(&mut i, 2) as usize]);
        let mut a = vec![0u64, 1, 1, 0, 1, 1, 0][..pre].to_vec();
        a.extend(digits(i, 6, md as usize));
        controller(n, &a, d, (idx % 3) as usize, roots, 0, false, acc)
    }));
    v.push(Space::new(format!("three, nine and twenty components: linear solver answers 6^{} x 3 types", md), 6u64.pow(md) * 9, move |idx, acc| {
        let mut i = idx;
        let (n, t) = ([3, 9, 20][take(&mut i, 3) as usize], take(&mut i, 3) as u8);
        let dg = digits(i, 6, md as usize);
        let mut a = dg.clone();
        a.extend([1, 0, 0]);
        a.extend(&dg);
        newton(n, &a, t, 1.0, (i % 3) as usize, false, acc)
    }));
    // long histories: counters beyond 256
    let wl = if deep { 5 } else { 4 };
    v.push(Space::new(format!("long: step answers 5^{} repeated 100 times x 2 directions x 3 ways of calling", wl), 5u64.pow(wl) * 6, move |idx, acc| {
        let wd = digits(idx / 6, 5, wl as usize);
        let a: Vec<u64> = (0..100 * wd.len()).map(|i| wd[i % wd.len()]).collect();
        controller(2, &a, if idx % 2 == 1 { -1.0 } else { 1.0 }, (idx / 2 % 3) as usize, true, 0, true, acc)
    }));
    v.push(Space::new(format!("long: linear solver answers 6^{} repeated 100 times x 3 types x 3 ways of calling", wl), 6u64.pow(wl) * 9, move |idx, acc| {
        let wd = digits(idx / 9, 6, wl as usize);
        let a: Vec<u64> = (0..100 * wd.len()).map(|i| wd[i % wd.len()]).collect();
        newton(2, &a, (idx % 3) as u8, 1.0, (idx / 3 % 3) as usize, true, acc)
    }));
    Check {
        id: "I09".into(),
        spaces: v,
        assumptions: vec!["the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into(), "comparison ends when the very first step fails for good (the next call starts anew)".into()],
        rule: "after every call of every history: every counter, the last and next order and step, the initial step and the current time against the calls the environment received".into(),
    }
}
