//! I08: error weights, norms, the first call, and refusals that depend on the accuracy asked for.
use crate::h::*;
use ida::tol_control::{TolControl, TolControlSS, TolControlSV};
use ida::{Ida, IdaSolveStatus, IdaTask};
use std::rc::Rc;
use mcengine::*;
use ndarray::prelude::*;

fn close(a: f64, b: f64, ulps: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= ulps * f64::EPSILON * b.abs().max(f64::MIN_POSITIVE)
}

const YS: [f64; 9] = [0.0, 1.0, -1.0, 3.5, -1e-12, 1e-300, -1e300, 0.1, -7e5];
const RT: [f64; 5] = [0.0, 1e-4, 0.5, 1e-15, 1.0];
const AT: [f64; 5] = [0.0, 1e-6, 1.0, 1e3, 1e-300];

fn weights_case(idx: u64, acc: &mut Acc) -> Result<(), String> {
    let rtol = RT[(idx % 5) as usize];
    let i = idx / 5;
    let d = digits(i, 45, 2);
    let y: V = d.iter().map(|k| YS[(k % 9) as usize]).collect();
    let a: V = d.iter().map(|k| AT[(k / 9) as usize]).collect();
    acc.state(&(idx, 0));
    let yv = Array1::from(y.clone());
    let mut w = Array1::from(vec![-5.0; 2]);
    TolControlSV::new(rtol, Array1::from(a.clone())).ewt_set(yv.view(), w.view_mut());
    acc.step(1);
    for j in 0..2 {
        let e = 1.0 / (rtol * y[j].abs() + a[j]);
        if !close(w[j], e, 4.0) {
            return Err(format!("vector tolerance: rtol={:?} atol={:?} y={:?}: weights {:?}, component {} should be {:?}", rtol, a, y, w, j, e));
        }
    }
    if a[0] == a[1] {
        let mut w = Array1::from(vec![-5.0; 2]);
        TolControlSS::new(rtol, a[0]).ewt_set(yv.view(), w.view_mut());
        acc.step(1);
        for j in 0..2 {
            let e = 1.0 / (rtol * y[j].abs() + a[j]);
            if !close(w[j], e, 4.0) {
                return Err(format!("scalar tolerance: rtol={:?} atol={:?} y={:?}: weights {:?}, component {} should be {:?}", rtol, a[0], y, w, j, e));
            }
        }
    }
    acc.trace();
    acc.outcome("weights");
    Ok(())
}

fn norm_case(n: usize, idx: u64, acc: &mut Acc) -> Result<(), String> {
    let xs = [0.0, 1.0, -2.0, 0.75, -1e-5];
    let ws = [1.0, 0.5, 1e4];
    let d = digits(idx, 30, n);
    let x: V = d.iter().map(|k| xs[(k % 5) as usize]).collect();
    let w: V = d.iter().map(|k| ws[(k / 5 % 3) as usize]).collect();
    let id: Vec<bool> = d.iter().map(|k| k / 15 == 0).collect();
    acc.state(&(n, idx));
    let (xa, wa) = (Array1::from(x.clone()), Array1::from(w.clone()));
    install(World::new(n));
    let mut ida = ctl(&vec![0.0; n], &vec![0.0; n], 0.0, &vec![1.0; n]);
    ida.verif_set_suppress_alg(&id, true);
    let f: f64 = ida.wrms_norm(&xa, &wa, false);
    let g: f64 = ida.wrms_norm(&xa, &wa, true);
    acc.step(2);
    acc.trace();
    let e = wrms(&x, &w);
    let em = wrms_mask(&x, &w, Some(&id));
    if !close(f, e, 16.0) {
        return Err(format!("norm of {:?} with weights {:?} = {:?}, should be {:?}", x, w, f, e));
    }
    if !close(g, em, 16.0) {
        return Err(format!("norm of {:?} with weights {:?} over {:?} = {:?}, should be {:?}", x, w, id, g, em));
    }
    acc.outcome("norm");
    Ok(())
}

/// Long vectors: the same few components at every place.
fn long_norm_case(n: usize, idx: u64, acc: &mut Acc) -> Result<(), String> {
    let mut i = idx;
    let (p, q, m) = (take(&mut i, n as u64) as usize, take(&mut i, n as u64) as usize, take(&mut i, 3));
    let x: V = (0..n).map(|j| if j == p { 3.0 } else if j == q { -5.0 } else { 0.0 }).collect();
    let w: V = (0..n).map(|j| 1.0 + (j % 3) as f64).collect();
    let id: Vec<bool> = (0..n).map(|j| match m { 0 => j % 2 == 0, 1 => j != p, _ => j == q }).collect();
    acc.state(&(n, idx));
    install(World::new(n));
    let mut ida = ctl(&vec![0.0; n], &vec![0.0; n], 0.0, &vec![1.0; n]);
    ida.verif_set_suppress_alg(&id, true);
    let (xa, wa) = (Array1::from(x.clone()), Array1::from(w.clone()));
    for (mask, e) in [(false, wrms(&x, &w)), (true, wrms_mask(&x, &w, Some(&id)))] {
        let f: f64 = ida.wrms_norm(&xa, &wa, mask);
        acc.step(1);
        if !close(f, e, 64.0) {
            return Err(format!("norm of {:?} with weights {:?} mask {:?} ({}) = {:?}, should be {:?}", x, w, id, mask, f, e));
        }
    }
    // and the weights
    let y: V = (0..n).map(|j| if j == p { 3.0 } else if j == q { -5.0 } else { 0.5 }).collect();
    let at: V = (0..n).map(|j| 1e-3 * (1 + j) as f64).collect();
    let (mut sv, mut ss) = (Array1::from(vec![-5.0; n]), Array1::from(vec![-5.0; n]));
    TolControlSV::new(0.25, Array1::from(at.clone())).ewt_set(Array1::from(y.clone()).view(), sv.view_mut());
    TolControlSS::new(0.25, 0.125).ewt_set(Array1::from(y.clone()).view(), ss.view_mut());
    for j in 0..n {
        if !close(sv[j], 1.0 / (0.25 * y[j].abs() + at[j]), 4.0) || !close(ss[j], 1.0 / (0.25 * y[j].abs() + 0.125), 4.0) {
            return Err(format!("weights of {:?}: component {}: vector tolerance {:?}, scalar {:?}", y, j, sv[j], ss[j]));
        }
    }
    acc.trace();
    acc.outcome("norm and weights of a long vector");
    Ok(())
}

/// Weights used in each attempt of each step.
fn during<T: TolControl<f64>>(tol: T, rtol: f64, atol: &[f64], answers: &[u64], how: u64, near: bool, acc: &mut Acc) -> Result<(), String> {
    let y0 = [1.0, -2.0];
    let yp0 = [0.4, 1.5];
    let mut w0 = World::new(2);
    let size = [0.1, -0.45, 3.0];
    w0.nls = answers
        .iter()
        .map(|&a| match a {
            3 => Ans::Recover,
            a => Ans::Ee((0..2).map(|j| size[a as usize] * (rtol * (1.0 + j as f64) + atol[j]) * if j == 1 { -0.8 } else { 1.0 }).collect()),
        })
        .collect();
    if near {
        // corrections that keep the solution near a curve, whatever was predicted
        let (a, b) = (rtol, atol.to_vec());
        w0.nls = answers.iter().map(|&a| if a == 3 { Ans::Recover } else { Ans::Intent(a as u16) }).collect();
        w0.intent = Some(Rc::new(move |t, yp, _, _, _, code| {
            (0..2).map(|j| {
                let c: f64 = y0[j] * (2.0 + (0.1 * t + j as f64).sin());
                c + [0.0, 0.05, -2.0][code as usize % 3] * (a * c.abs() + b[j]) * if j == 1 { -0.8 } else { 1.0 } - yp[j]
            }).collect()
        }));
    }
    install(w0);
    let mut ida: Ida<Prob, LsScript, Script, T> = Ida::new(Prob(2), Array1::from(y0.to_vec()), Array1::from(yp0.to_vec()), tol);
    let mut y: V = y0.to_vec();
    let mut ymax: V = vec![2.0; 2];
    while w(|w| w.nls_pos) < answers.len() {
        let mut tret = 0.0;
        let tn = ida.get_current_time();
        if tn > 1e8 {
            break;
        }
        let r = match how {
            0 => ida.solve(50.0, &mut tret, IdaTask::OneStep),
            _ => ida.solve(tn + 0.3, &mut tret, IdaTask::Normal),
        };
        let ev = take_ev();
        acc.step(ev.len() as u64);
        let at = crate::ctl::attempts(&ev)?;
        let mut tl = tn;
        for (k, a) in at.iter().enumerate() {
            if (a.t - tl).abs() < 1e-6 * tl.abs() {
                acc.outcome("(step at the resolution of time: not followed further)");
                return Ok(());
            }
            for j in 0..2 {
                let e = 1.0 / (rtol * y[j].abs() + atol[j]);
                if (1.0 / a.w[j] - 1.0 / e).abs() > 1e-10 * (1.0 / e + rtol * ymax[j]) {
                    return Err(format!("rtol={:?} atol={:?} answers {:?}: attempt at t={:?} from y={:?} uses weights {:?}, component {} should be {:?}", rtol, atol, answers, a.t, y, a.w, j, e));
                }
            }
            acc.state(&(a.t.to_bits(), a.w[0].to_bits()));
            // accepted if it is the last of the call or the next attempt goes further
            let accepted = a.ee.is_some() && if k + 1 == at.len() { r.is_ok() } else { at[k + 1].t > a.t };
            if accepted {
                tl = a.t;
                y = a.yp.iter().zip(a.ee.as_ref().unwrap()).map(|(p, e)| p + e).collect();
                (0..2).for_each(|j| ymax[j] = ymax[j].max(y[j].abs()));
                acc.outcome("step");
            } else {
                acc.outcome("retry");
            }
        }
        if r.is_err() {
            break;
        }
    }
    acc.trace();
    acc.sample(|| format!("rtol={:?} atol={:?} answers {:?}", rtol, atol, answers));
    Ok(())
}

// ------------------------------------------------------------------------------------------ first call

#[derive(Clone, Debug)]
struct First {
    yp: V,
    tout: f64,
    hin: f64,
    hmax_inv: f64,
    stop: Option<f64>,
    id: Option<Vec<bool>>,
    task: bool,
    atol: f64,
}
fn first_case(f: &First, pre: &[First], acc: &mut Acc) -> Result<(), String> {
    install(World::new(2));
    let y0 = [1.0, -2.0];
    let mut ida = ctl(&y0, &f.yp, 0.0, &[f.atol, 2.0 * f.atol]);
    ida.verif_set_max_num_steps(2);
    for f in pre.iter().chain([f]) {
        ida.verif_set_init_step(f.hin);
        ida.verif_set_max_step_inv(f.hmax_inv);
        ida.verif_set_stop_time(f.stop);
        match &f.id {
            Some(id) => ida.verif_set_suppress_alg(id, true),
            None => ida.verif_set_suppress_alg(&[true, true], false),
        }
        let mut tret = f64::NAN;
        let r = ida.solve(f.tout, &mut tret, if f.task { IdaTask::OneStep } else { IdaTask::Normal });
        acc.trace();
        let ev = take_ev();
        acc.step(ev.len() as u64 + 1);
        let show = format!("after refused calls {:?}: {:?}: {:?} at {:?}, {} calls", pre.len(), f, r.as_ref().map_err(|e| e.to_string()), tret, ev.len());
        let t0 = 0.0;
        let dt = f.tout - t0;
        let s = dt.signum();
        let refused = dt == 0.0 || f.hin * s < 0.0 || f.stop.is_some_and(|st| st * s <= 0.0);
        acc.state(&(refused, f.tout.to_bits(), f.hin.to_bits(), f.hmax_inv.to_bits(), f.stop.map(|s| s.to_bits()), ev.len()));
        if refused {
            acc.outcome("refused");
            if r.is_ok() || !ev.is_empty() || ida.get_num_steps() != 0 || ida.get_current_time() != 0.0 {
                return Err(format!("{}: should have been refused without any call", show));
            }
            continue;
        }
        acc.outcome("started");
        let w = [1.0 / f.atol, 0.5 / f.atol];
        let ypn = wrms_mask(&f.yp, &w, f.id.as_deref());
        let mut h = if f.hin != 0.0 {
            f.hin
        } else {
            let h = 0.001 * dt.abs();
            s * if ypn > 2.0 / h { 0.5 / ypn } else { h }
        };
        if f.hmax_inv > 0.0 && h.abs() * f.hmax_inv > 1.0 {
            h = s / f.hmax_inv;
        }
        if let Some(st) = f.stop {
            if h.abs() > st.abs() {
                h = st;
            }
        }
        let Some(Ev::Res(t, y, yp, _)) = ev.iter().find(|e| matches!(e, Ev::Res(..))) else { return Err(format!("{}: no residual evaluation", show)) };
        if !close(*t, h, 64.0) {
            return Err(format!("{}: the first step goes to {:?}, should go to {:?}", show, t, h));
        }
        // predictor of the first step
        for j in 0..2 {
            if !close(y[j], y0[j] + h * f.yp[j], 64.0) && (y[j] - y0[j] - h * f.yp[j]).abs() > 1e-13 * (1.0 + (h * f.yp[j]).abs()) || (yp[j] - f.yp[j]).abs() > 1e-12 * f.yp[j].abs() {
                return Err(format!("{}: first evaluation at y={:?} y'={:?}", show, y, yp));
            }
        }
        if r.is_err() && f.task {
            return Err(format!("{}: should have succeeded", show));
        }
        // the actual initial step is reported
        if !close(ida.get_actual_init_step(), h, 64.0) {
            return Err(format!("{}: reported initial step {:?}, should be {:?}", show, ida.get_actual_init_step(), h));
        }
        break;
    }
    acc.sample(|| format!("{:?}", f));
    Ok(())
}
const NF: u64 = 4 * 9 * 5 * 4 * 7 * 3 * 2 * 2;
fn first_of(idx: u64) -> First {
    let mut i = idx;
    let mut dig = |b: u64| {
        let r = i % b;
        i /= b;
        r as usize
    };
    let yp = [vec![0.0, 0.0], vec![0.1, -0.2], vec![5e3, 1.0], vec![-1.0, 7e6]][dig(4)].clone();
    let tout: f64 = [1.0, 1e-3, 1e6, -1.0, -1e-6, -400.0, 0.0, 1e-30, 0.4][dig(9)];
    let hin = [0.0, 0.01, -0.01, 30.0, -30.0][dig(5)];
    let hmax_inv = [0.0, 10.0, 1e4, 1e-3][dig(4)];
    let k = dig(7);
    let stop = match k {
        0 => None,
        1 => Some(2.0 * tout),
        2 => Some(0.5 * tout),
        3 => Some(1e-4 * tout),
        4 => Some(-0.5 * tout),
        5 => Some(0.0),
        _ => Some(tout),
    };
    let id = [None, Some(vec![true, false]), Some(vec![false, true])][dig(3)].clone();
    let task = dig(2) == 1;
    let atol = [0.01, 1e-5][dig(2)];
    First { yp, tout, hin, hmax_inv, stop, id, task, atol }
}

// ------------------------------------------------------------------------------------------ accuracy

/// y = y0 + t yp0 in unit steps; the integration must stop as soon as the accuracy cannot be had.
fn accuracy(idx: u64, acc: &mut Acc) -> Result<(), String> {
    let mut i = idx;
    let mut dig = |b: u64| {
        let r = i % b;
        i /= b;
        r as usize
    };
    let y0 = [vec![1.0, -3.0], vec![0.0, 2.0], vec![-3.0, 3.0], vec![1e6, 1.0]][dig(4)].clone();
    let yp = [vec![0.0, 0.0], vec![1.0, 0.0], vec![1.0, -1.0], vec![1e5, 1e-3], vec![-100.0, 1.0]][dig(5)].clone();
    let rtol = [0.0, 1e-17, 1e-16, 1e-15, 1e-3][dig(5)];
    let atol = [vec![0.0, 0.0], vec![1e-13, 1e-13], vec![1e-10, 0.0], vec![1e-18, 1e-3], vec![1.0, 1.0]][dig(5)].clone();
    let id = [None, Some(vec![true, false]), Some(vec![false, true])][dig(3)].clone();
    let normal = dig(2) == 1;
    install(World::new(2));
    let mut ida = ctl(&y0, &yp, rtol, &atol);
    ida.verif_set_init_step(1.0);
    ida.verif_set_max_step_inv(1.0);
    if let Some(id) = &id {
        ida.verif_set_suppress_alg(id, true);
    }
    let mut last = 0.0;
    for call in 0..6 {
        let mut tret = f64::NAN;
        let tout = if normal { 1.0 + call as f64 * 1.5 } else { 50.0 };
        let r = ida.solve(tout, &mut tret, if normal { IdaTask::Normal } else { IdaTask::OneStep });
        acc.trace();
        let ev = take_ev();
        acc.step(ev.len() as u64 + 1);
        let to: V = ev.iter().filter_map(|e| if let Ev::Res(t, ..) = e { Some(*t) } else { None }).collect();
        let tn = to.last().copied().unwrap_or(last);
        let show = format!("y0={:?} y'={:?} rtol={:?} atol={:?} id={:?} call {}: {:?} at {:?}, steps to {:?}", y0, yp, rtol, atol, id, call, r.as_ref().map_err(|e| e.to_string()), tret, to);
        // may steps be taken from time t?
        let state = |t: f64| -> (i32, f64) {
            let y: V = y0.iter().zip(&yp).map(|(a, b)| a + t * b).collect();
            let wt: V = y.iter().zip(&atol).map(|(y, a)| 1.0 / (rtol * y.abs() + a)).collect();
            if wt.iter().any(|w| !w.is_finite()) {
                return (1, 0.0);
            }
            let s = f64::EPSILON * wrms_mask(&y, &wt, id.as_deref());
            (if s > 1.0 { 2 } else { 0 }, s)
        };
        let mut t = last;
        while t + 0.5 < tn {
            if state(t).0 != 0 {
                return Err(format!("{}: stepped on from {:?}, where the tolerances cannot be met", show, t));
            }
            t += 1.0;
        }
        acc.state(&(idx, call));
        let wants_more = if normal { tn < tout } else { to.is_empty() };
        if !wants_more {
            if r.as_ref().ok() != Some(&IdaSolveStatus::Success) {
                return Err(format!("{}: should have succeeded", show));
            }
            acc.outcome("went on");
            last = tn;
            continue;
        }
        let (bad, s) = state(tn);
        if bad == 0 || r.is_ok() {
            return Err(format!("{}: {}", show, if bad == 0 { "should not have stopped" } else { "should be an error" }));
        }
        let e = r.err().unwrap().to_string();
        if last > 0.0 || tn > 0.0 {
            if tret != tn {
                return Err(format!("{}: the time reached, {:?}, is not reported", show, tn));
            }
            for j in 0..2 {
                let want = y0[j] + tn * yp[j];
                if (ida.get_yy()[j] - want).abs() > 1e-9 * (1.0 + want.abs()) {
                    return Err(format!("{}: y={:?} is not the solution at the time reached", show, ida.get_yy()));
                }
            }
        }
        if bad == 2 {
            acc.outcome("too much accuracy");
            if !e.contains("TooMuchAccuracy") {
                return Err(format!("{}: should say that too much accuracy was requested", show));
            }
            let f = ida.get_tol_scale_factor();
            if !close(f, 10.0 * s, 1e6) {
                return Err(format!("{}: suggested tolerance factor {:?}, should be {:?}", show, f, 10.0 * s));
            }
        } else {
            acc.outcome("weights unusable");
            if e.contains("TooMuchAccuracy") {
                return Err(format!("{}: should say that the weights are unusable", show));
            }
        }
        // and it stays refused
        let r = ida.solve(tout, &mut tret, if normal { IdaTask::Normal } else { IdaTask::OneStep });
        let steps = take_ev().iter().any(|e| matches!(e, Ev::Res(..)));
        if steps || (r.is_ok() && tn == 0.0) {
            return Err(format!("{}: the same call again goes on", show));
        }
        break;
    }
    acc.sample(|| format!("y0={:?} y'={:?} rtol={:?} atol={:?}", y0, yp, rtol, atol));
    Ok(())
}

pub fn i08() -> Check {
    let deep = tier() == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::new("weights: rtol 5 x (y 9 x atol 5)^2", 5 * 45 * 45, weights_case));
    for n in 1..=if deep { 5usize } else { 4 } {
        v.push(Space::new(format!("norms: (x 5 x w 3 x mask 2)^{}", n), 30u64.pow(n as u32), move |i, a| norm_case(n, i, a)));
    }
    for n in [5usize, 7, 8, 9, 10, 20, 40] {
        v.push(Space::new(format!("norms and weights of length {}: pairs of places x 3 masks", n), 3 * (n * n) as u64, move |i, a| long_norm_case(n, i, a)));
    }
    let depth = if deep { 9 } else { 7 };
    v.push(Space::new(format!("weights of every attempt: answers 4^{} x 4 tolerances x 2 kinds x 2 ways of calling", depth), 4u64.pow(depth) * 16, move |idx, acc| {
        let (rt, at) = [(0.0, 0.01), (1e-3, 1e-6), (0.1, 0.0), (1e-2, 0.05)][(idx % 4) as usize];
        let sv = idx / 4 % 2 == 1;
        let how = idx / 8 % 2;
        let d = digits(idx / 16, 4, depth as usize);
        if sv {
            let a = [at, 3.0 * at];
            during(TolControlSV::new(rt, Array1::from(a.to_vec())), rt, &a, &d, how, false, acc)
        } else {
            during(TolControlSS::new(rt, at), rt, &[at, at], &d, how, false, acc)
        }
    }));
    let (wl, reps) = (if deep { 5 } else { 4 }, if deep { 60 } else { 25 });
    v.push(Space::new(format!("weights of every attempt, long: words 4^{} repeated {} times x 4 tolerances x near a curve or not x 2 ways of calling", wl, reps), 4u64.pow(wl) * 16, move |idx, acc| {
        let (rt, at) = [(0.0, 0.01), (1e-3, 1e-6), (0.1, 0.0), (1e-2, 0.05)][(idx % 4) as usize];
        let word = digits(idx / 16, 4, wl as usize);
        let d: Vec<u64> = (0..word.len() * reps).map(|i| word[i % word.len()]).collect();
        during(TolControlSS::new(rt, at), rt, &[at, at], &d, idx / 8 % 2, idx / 4 % 2 == 1, acc)
    }));
    v.push(Space::new("first call: y' 4 x tout 9 x initial step 5 x max step 4 x stop time 7 x masks 3 x task 2 x atol 2", NF, |idx, acc| first_case(&first_of(idx), &[], acc)));
    // refused calls before do not matter
    v.push(Space::new("first call after refused calls", NF, |idx, acc| {
        let f = first_of(idx);
        let mut a = f.clone();
        a.tout = 0.0;
        let mut b = f.clone();
        b.hin = -f.tout.signum() * 0.5;
        let mut c = f.clone();
        c.stop = Some(-f.tout);
        c.hin = 0.0;
        first_case(&f, &[a, b, c], acc)
    }));
    v.push(Space::new("accuracy: y 4 x y' 5 x rtol 5 x atol 5 x masks 3 x task 2", 4 * 5 * 5 * 5 * 3 * 2, accuracy));
    Check {
        id: "I08".into(),
        spaces: v,
        assumptions: vec!["stop time, initial step, maximum step and the mask are set through the verif_hooks feature (there is no public setter)".into(), "the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "every combination of tolerances, solution values, masks, step bounds, stop times and output times of the alphabets: weights, norms, the first step and the refusals against their definitions".into(),
    }
}
