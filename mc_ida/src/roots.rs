//! I07: root finding.
//!
//! The solution is y = t (or a prescribed curved history), the steps have unit length unless a stop
//! time cuts them, and the root functions are built from crossings placed in the steps.  What must be
//! reported follows from the placement alone.
use crate::h::*;
use crate::out::{near, pattern, Drv};
use ida::{IdaSolveStatus, IdaTask};
use mcengine::*;
use std::rc::Rc;

/// How a crossing at distance x = t - r looks.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    Linear,
    Cubic,
    Step,
    Steep,
    Scaled(f64),
    Convex,
}
fn factor(sh: Shape, x: f64, d: f64) -> f64 {
    match sh {
        Shape::Linear => x,
        Shape::Scaled(_) => x,
        Shape::Cubic => x * x * x,
        Shape::Step => {
            // (at the crossing itself: already on the far side)
            if x * d < 0.0 {
                -d
            } else {
                d
            }
        }
        Shape::Steep => x * 1e9 / (1.0 + (x * 1e9).abs()),
        Shape::Convex => (8.0 * x).exp_m1(),
    }
}
/// One root function: sign * product of crossings * product of touching points * t^at0, zero until `from`.
#[derive(Clone, Debug)]
struct G {
    dir: f64,
    s: f64,
    shape: Shape,
    cross: V,
    touch: V,
    at0: bool,
    /// identically zero for |t| < from
    from: f64,
    /// identically zero for |t| >= until
    until: f64,
}
impl G {
    fn new(dir: f64, s: f64) -> G {
        G { dir, s, shape: Shape::Linear, cross: vec![], touch: vec![], at0: false, from: 0.0, until: f64::INFINITY }
    }
    fn at(&self, t: f64) -> f64 {
        if t.abs() < self.from || t.abs() >= self.until {
            return 0.0;
        }
        let mut g = self.s;
        for r in &self.cross {
            g *= factor(self.shape, t - r, self.dir);
        }
        for r in &self.touch {
            g *= (t - r) * (t - r);
        }
        if self.at0 {
            g *= t;
        }
        if let Shape::Scaled(c) = self.shape {
            g *= c;
        }
        g
    }
}
fn sgn(x: f64) -> i32 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else {
        0
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    dir: f64,
    g: Vec<G>,
    rootdir: Vec<u8>,
    /// per call: None = one step, Some(t) = Normal with this tout (times dir)
    calls: Vec<Option<f64>>,
    stop: Option<f64>,
    /// most steps of one call in Normal mode (0: the usual limit)
    limit: usize,
}

/// Root functions the model believes to be monitored, and where the search stands.
struct Spec {
    active: Vec<bool>,
    lo: f64,
}

impl Cfg {
    /// the roots of function i in (lo, hi], in order of time: (time, direction)
    fn roots(&self, i: usize, lo: f64, hi: f64, act: bool) -> Option<(f64, i32)> {
        if !act {
            return None;
        }
        let g = &self.g[i];
        let d = self.dir;
        let eps = 1e-4 * d;
        let mut c: Vec<f64> = g.cross.iter().chain(g.touch.iter()).copied().collect();
        if g.until.is_finite() && (g.until * d - lo) * d > 0.0 && (hi - g.until * d) * d >= 0.0 {
            // becomes zero and stays so: the exact zero at the end of the interval
            c.push(hi);
        }
        c.sort_by(|a, b| (a * d).partial_cmp(&(b * d)).unwrap());
        for r in c {
            if (r - lo) * d <= 0.0 || (hi - r) * d < 0.0 {
                continue;
            }
            let before = sgn(g.at(if g.until.is_finite() && (r * d) >= g.until { g.until * d } else { r } - eps));
            let touch = g.touch.contains(&r);
            if touch && r != hi {
                continue; // not a change of sign
            }
            let way = -before;
            if self.rootdir[i] == 1 && way < 0 {
                continue;
            }
            return Some((r, way));
        }
        None
    }
}

fn run(c: &Cfg, acc: &mut Acc) -> Result<(), String> {
    let d = c.dir;
    let mut w0 = World::new(1);
    w0.nroots = c.g.len();
    let gs = c.g.clone();
    w0.root = Rc::new(move |t, _, _, g| {
        for (i, f) in gs.iter().enumerate() {
            g[i] = f.at(t);
        }
    });
    install(w0);
    let mut ida = ctl(&[0.0], &[1.0], 0.0, &[1.0]);
    ida.verif_set_init_step(d);
    ida.verif_set_max_step_inv(1.0);
    if c.rootdir.iter().any(|&r| r != 0) {
        ida.verif_set_root_direction(&c.rootdir);
    }
    ida.verif_set_stop_time(c.stop.map(|s| s * d));
    if c.limit > 0 {
        ida.verif_set_max_num_steps(c.limit as u64);
    }
    let mut stop = c.stop.map(|s| s * d);
    let n = c.g.len();
    let mut tn: f64 = 0.0;
    let mut first = true;
    let mut last = f64::NAN;
    // a function that is zero at t0 and still zero a little later is not monitored
    let mut sp = Spec { active: (0..n).map(|i| c.g[i].at(0.0) != 0.0 || c.g[i].at(0.1 * d) != 0.0).collect(), lo: 0.0 };
    for (ci, call) in c.calls.iter().enumerate() {
        let mut tret = f64::NAN;
        let (tout, task) = match call {
            Some(t) => (t * d, IdaTask::Normal),
            None => (100.0 * d, IdaTask::OneStep),
        };
        let one = call.is_none();
        if !one && ci > 0 && (tout - last) * d <= 0.0 {
            continue;
        }
        let r = ida.solve(tout, &mut tret, task);
        acc.trace();
        let ev = take_ev();
        acc.step(ev.len() as u64);
        let mut ends: V = vec![];
        let mut nroot = 0;
        let mut per = 0;
        for e in &ev {
            match e {
                Ev::Begin(..) => per = 0,
                Ev::Res(t, ..) if ends.last() != Some(t) => ends.push(*t),
                Ev::Root(t, y, yp, _) => {
                    nroot += 1;
                    per += 1;
                    if (y[0] - t).abs() > 1e-12 || (yp[0] - 1.0).abs() > 1e-9 {
                        return Err(format!("{:?} call {}: root function evaluated at t={:?} with y={:?} y'={:?} instead of the solution there", c, ci, t, y, yp));
                    }
                    if per > 400 {
                        return Err(format!("{:?} call {}: more than 400 evaluations of the root functions to locate one root", c, ci));
                    }
                }
                _ => {}
            }
        }
        let info: Vec<f64> = ida.get_root_info().iter().copied().collect();
        let y = ida.get_yy()[0];
        let yp = ida.get_yp()[0];
        let show = format!("{:?} call {}: {:?} at {:?} roots {:?}, steps to {:?} ({} evaluations of g)", c, ci, r.as_ref().map_err(|e| e.to_string()), tret, info, ends, nroot);
        acc.state(&(ci, tret.to_bits(), tn.to_bits(), ends.len(), r.is_ok(), info.iter().map(|x| x.to_bits()).collect::<V64>()));
        // ---- what must have happened
        let mut it = ends.iter();
        let mut taken = 0;
        let mut limit = false;
        let mut want: Option<(IdaSolveStatus, f64)> = None;
        let mut flags = vec![0.0; n];
        // an identically zero function right after its exact zero was reported is an error
        let close = !first && c.g.iter().enumerate().any(|(i, g)| sp.active[i] && g.until.is_finite() && sp.lo * d >= g.until);
        if close {
            if r.is_ok() || !ends.is_empty() {
                return Err(format!("{}: a root function that stays zero after its root should be an error", show));
            }
            acc.outcome("error: stays zero");
            return Ok(());
        }
        loop {
            let tol = 100.0 * f64::EPSILON * (tn.abs() + 1.0);
            let rest = (tn - sp.lo) * d > tol;
            if !rest && !first && stop.is_some_and(|s| (s - tn).abs() <= tol) {
                want = Some((IdaSolveStatus::TStop, stop.unwrap()));
                stop = None;
                break;
            }
            let hi = if rest {
                // the rest of the last step
                if one || (tout - tn) * d >= 0.0 {
                    tn
                } else {
                    tout
                }
            } else {
                match it.next() {
                    Some(&t) => {
                        tn = t;
                        taken += 1;
                        first = false;
                        if one || (tout - tn) * d >= 0.0 {
                            tn
                        } else {
                            tout
                        }
                    }
                    None => return Err(format!("{}: returned too early (solution known to {:?}, searched to {:?})", show, tn, sp.lo)),
                }
            };
            let hits: Vec<Option<(f64, i32)>> = (0..n).map(|i| c.roots(i, sp.lo, hi, sp.active[i])).collect();
            let t1 = hits.iter().flatten().map(|h| h.0 * d).fold(f64::INFINITY, f64::min) * d;
            if t1.is_finite() {
                for i in 0..n {
                    if let Some((t, w)) = hits[i] {
                        if t == t1 {
                            flags[i] = w as f64;
                        }
                    }
                }
                want = Some((IdaSolveStatus::Root, t1));
                sp.lo = t1;
            } else {
                sp.lo = hi;
            }
            for i in 0..n {
                // an unmonitored function comes alive when it is seen to be nonzero
                if !sp.active[i] && c.g[i].at(if t1.is_finite() { tret } else { sp.lo }) != 0.0 {
                    sp.active[i] = true;
                }
            }
            if want.is_some() {
                break;
            }
            let tol = 100.0 * f64::EPSILON * (tn.abs() + 1.0);
            if !one && (tn - tout) * d >= 0.0 {
                if hi != tout {
                    return Err(format!("ENGINE: {}", show));
                }
                want = Some((IdaSolveStatus::Success, tout));
                break;
            }
            if !(one && rest) && stop.is_some_and(|s| (s - tn).abs() <= tol) {
                want = Some((IdaSolveStatus::TStop, stop.unwrap()));
                stop = None;
                break;
            }
            if one {
                want = Some((IdaSolveStatus::Success, tn));
                break;
            }
            if taken > 0 && taken == c.limit {
                limit = true;
                break;
            }
        }
        if it.next().is_some() {
            return Err(format!("{}: went past {:?}", show, want));
        }
        if limit {
            acc.outcome("too many steps");
            if r.is_ok() || tret != tn {
                return Err(format!("{}: expected an error after {} steps, at {:?}", show, taken, tn));
            }
            if (y - tret).abs() > 1e-12 || (yp - 1.0).abs() > 1e-9 {
                return Err(format!("{}: y={:?} y'={:?} is not the solution at tret", show, y, yp));
            }
            last = tret;
            continue;
        }
        let (st, t) = want.unwrap();
        let ttol = 100.0 * f64::EPSILON * (tn.abs() + 1.0) * 1.01;
        if r.as_ref().ok() != Some(&st) {
            return Err(format!("{}: expected {:?} at {:?} {:?}", show, st, t, flags));
        }
        if st == IdaSolveStatus::Root {
            acc.outcome("root");
            if (tret - t) * d < 0.0 || (tret - t) * d > ttol {
                return Err(format!("{}: the root is at {:?}, must be returned at or less than {:e} after it", show, t, ttol));
            }
            if info != flags {
                return Err(format!("{}: expected root flags {:?}", show, flags));
            }
            if tret != t {
                sp.lo = tret;
            }
        } else {
            acc.outcome(if st == IdaSolveStatus::TStop { "stop time" } else { "no root" });
            if tret != t {
                return Err(format!("{}: expected {:?} at {:?}", show, st, t));
            }
        }
        last = tret;
        if (y - tret).abs() > 1e-12 || (yp - 1.0).abs() > 1e-9 {
            return Err(format!("{}: y={:?} y'={:?} is not the solution at tret", show, y, yp));
        }
    }
    acc.sample(|| format!("{:?}", c));
    Ok(())
}
type V64 = Vec<u64>;

const POS: [f64; 5] = [f64::NAN, 0.2, 0.5, 0.700001, 1.0];

fn tasks(k: usize) -> Vec<Option<f64>> {
    match k {
        // one call after the other to the same output time: returns at every root
        0 => vec![Some(2.9); 7],
        1 => vec![None; 10],
        2 => [0.5, 1.0, 1.1, 1.4, 2.0, 2.6, 2.9].iter().flat_map(|&t| vec![Some(t); 3]).collect(),
        // alternating
        _ => vec![Some(0.4), None, Some(1.3), None, None, Some(3.45), None, None, None, Some(5.9)],
    }
}

/// Levels crossed by the first component of a curved solution, one at most in each step.
fn curved(p: usize, d: f64, normal: bool, pre: usize, query: bool, digs: &[u64], acc: &mut Acc) -> Result<(), String> {
    let mk = |roots: usize| {
        let mut m = Drv::new(p, &[1.0, -0.4], &[1.0, -2.0], &[0.0002, 0.001], roots);
        m.ida.verif_set_max_step_inv(30.0);
        m.ida.verif_set_init_step(d * 0.01);
        m
    };
    // the history without root functions
    let mut h = mk(0);
    let mut ts = vec![];
    for _ in 0..pre + digs.len() {
        let mut tret = 0.0;
        if h.ida.solve(d * 10.0, &mut tret, IdaTask::OneStep).is_err() {
            return Err("history: step failed".into());
        }
        ts.extend(h.absorb(acc)?);
    }
    let ys: V = h.ys.iter().rev().map(|y| y[0]).collect();
    // up to where the solution turns round
    let mono = ys.windows(2).take_while(|w| (w[1] - w[0]) * d > 0.0).count();
    assert!(mono >= 5, "ENGINE: history {} turns round at once: {:?}", p, ys);
    if mono <= pre || digs.iter().enumerate().any(|(j, &g)| g > 0 && pre + j >= mono) {
        acc.outcome("(level after the turning point: not run)");
        return Ok(());
    }
    ts.truncate(mono);
    let mut levels = vec![];
    for (j, &g) in digs.iter().enumerate() {
        let k = pre + j;
        if g > 0 {
            levels.push((k, ys[k] + [0.0, 0.3, 0.8][g as usize] * (ys[k + 1] - ys[k])));
        }
    }
    let mut m = mk(1);
    let lv: V = levels.iter().map(|l| l.1).collect();
    let lv2 = lv.clone();
    w(|w| w.root = Rc::new(move |_, y, _, g| g[0] = lv2.iter().map(|c| y[0] - c).product()));
    let tend = ts[ts.len() - 1];
    let mut step = 0; // steps taken
    let mut next = 0; // next level
    let mut calls = 0;
    loop {
        let mut tret = f64::NAN;
        let tn0 = m.ida.get_current_time();
        calls += 1;
        if query && step > 0 {
            // dense output between the calls
            let _ = m.ida.get_solution(tn0 - [0.9, 0.1, 0.5][calls % 3] * m.ida.get_last_step());
        }
        let pend = next < levels.len() && levels[next].0 < step;
        let r = if normal { m.ida.solve(tend, &mut tret, IdaTask::Normal) } else { m.ida.solve(d * 10.0, &mut tret, IdaTask::OneStep) };
        acc.trace();
        // root functions must be evaluated with the solution at the time they are given
        let evs = w(|w| w.ev.clone());
        let got = m.absorb(acc)?;
        for (i, t) in got.iter().enumerate() {
            if step + i >= ts.len() || *t != ts[step + i] {
                return Err(format!("history {} dir {} levels {:?}: root functions changed the steps: {:?} from step {} on, without {:?}", p, d, lv, got, step, ts));
            }
        }
        let last_begin = evs.iter().rposition(|e| matches!(e, Ev::Begin(..))).unwrap_or(0);
        for (i, e) in evs.iter().enumerate() {
            if let Ev::Root(t, y, yp, _) = e {
                // (earlier steps of the same call are not followed)
                if i < last_begin || m.ts.len() == 1 || (got.is_empty() && tn0 == 0.0) {
                    continue;
                }
                if !near(y, &m.interp(*t, 0), 1e-9) || !near(yp, &m.interp(*t, 1), 1e-8) {
                    return Err(format!("history {} dir {} levels {:?} after {} steps: root function evaluated at t={:?} with {:?}, {:?}, the solution is {:?}, {:?}", p, d, lv, step + got.len(), t, y, yp, m.interp(*t, 0).0, m.interp(*t, 1).0));
                }
            }
        }
        step += got.len();
        let info = m.ida.get_root_info()[0];
        let show = format!("history {} dir {} levels {:?} after {} steps (tn {:?} from {:?}): {:?} at {:?} flag {:?}", p, d, levels, step, m.ts[0], tn0, r.as_ref().map_err(|e| e.to_string()), tret, info);
        acc.state(&(step, tret.to_bits(), next));
        let here = next < levels.len() && levels[next].0 < step;
        if pend && !got.is_empty() {
            return Err(format!("{}: stepped past a root in the last step", show));
        }
        if here {
            if r.as_ref().ok() != Some(&IdaSolveStatus::Root) {
                return Err(format!("{}: expected the root at level {:?}", show, levels[next]));
            }
            if levels[next].0 + 1 != step {
                return Err(format!("{}: stepped past the root at level {:?}", show, levels[next]));
            }
            let y = m.interp(tret, 0);
            let slope = m.interp(tret, 1).0[0].abs();
            let ttol = 101.0 * f64::EPSILON * (m.ts[0].abs() + m.ida.get_current_setp().abs());
            let over = (y.0[0] - levels[next].1) * d;
            if over < -1e-10 * y.1[0] || over > slope * ttol + 1e-10 * y.1[0] {
                return Err(format!("{}: y there is {:?}, the level is {:?}", show, y.0[0], levels[next].1));
            }
            // sign of g before the crossing
            let on_far_side = if d > 0.0 { lv.len() - next } else { next };
            let flag = if on_far_side % 2 == 0 { -1.0 } else { 1.0 };
            if info != flag {
                return Err(format!("{}: expected flag {:?}", show, flag));
            }
            if !near(&m.yy(), &y, 1e-9) || !near(&m.yp(), &m.interp(tret, 1), 1e-8) {
                return Err(format!("{}: y, y' are not the solution at the root", show));
            }
            acc.outcome("root of y");
            next += 1;
        } else {
            if r.as_ref().ok() != Some(&IdaSolveStatus::Success) || tret != m.ts[0] {
                return Err(format!("{}: expected no root", show));
            }
            if !near(&m.yy(), &m.interp(tret, 0), 1e-9) {
                return Err(format!("{}: y is not the solution at tret", show));
            }
            acc.outcome("no root of y");
            if step == ts.len() {
                return Ok(());
            }
            if normal {
                return Err(format!("{}: expected to go on to {:?}", show, tend));
            }
        }
    }
}

fn placed(digs: &[u64], d: f64, s: f64, shape: Shape) -> G {
    let mut g = G::new(d, s);
    g.shape = shape;
    for (step, &p) in digs.iter().enumerate() {
        match p {
            0 => {}
            5 => g.touch.push((step as f64 + 1.0) * d),
            _ => g.cross.push((step as f64 + POS[p as usize]) * d),
        }
    }
    g
}

/// Root functions and a limit on the number of steps of a call, and a stop time.
pub fn limited() -> Space {
    let n = if tier() == Tier::Thorough { 6 } else { 5 };
    Space::new(format!("root functions and step limits: placements 5^{} x 3 limits x 3 stop times x 2 directions x 4 ways of calling", n), 5u64.pow(n as u32) * 72, move |idx, acc| {
        let i = idx / 72;
        let (limit, st, way) = (1 + idx % 3, idx / 3 % 3, idx / 18 % 4);
        let d = if idx / 9 % 2 == 1 { -1.0 } else { 1.0 };
        let digs = digits(i, 5, n);
        let (f, g) = (placed(&digs[..3], d, 1.0, Shape::Linear), placed(&digs[3..], d, -1.0, Shape::Convex));
        if st == 1 && [&f, &g].iter().any(|g| g.cross.windows(2).any(|w| w[0] * d > 1.6 && (w[0] * d - 0.6).ceil() == (w[1] * d - 0.6).ceil())) {
            return Ok(()); // two changes of sign in one step cancel
        }
        run(&Cfg { dir: d, g: vec![f, g], rootdir: vec![0, 0], calls: tasks(way as usize), stop: [None, Some(1.6), Some(2.0)][st as usize], limit: limit as usize }, acc)
    })
}

pub fn i07() -> Check {
    let deep = tier() == Tier::Thorough;
    let mut v = vec![];
    // one function, three (four) steps, every placement, shape, sign, direction, filter, way of calling
    let steps = if deep { 5 } else { 3 };
    let shapes = [Shape::Linear, Shape::Cubic, Shape::Step, Shape::Steep, Shape::Scaled(1e-200), Shape::Scaled(1e200), Shape::Convex];
    v.push(Space::new(format!("one function: placements 6^{} x 7 shapes x 2 signs x 2 directions x 2 filters x 4 ways of calling x 3 stop times", steps), 6u64.pow(steps as u32) * 7 * 2 * 2 * 2 * 4 * 3, move |idx, acc| {
        let sh = shapes[(idx % 7) as usize];
        let b = digits(idx / 7, 2, 3);
        let i = idx / 56;
        let (way, st) = (i % 4, i / 4 % 3);
        let digs = digits(i / 12, 6, steps);
        let d = if b[0] == 1 { -1.0 } else { 1.0 };
        let s = if b[1] == 1 { -1.0 } else { 1.0 };
        let g = placed(&digs, d, s, sh);
        if st == 1 {
            // the steps end at 1, 1.6, 2.6, ...: two changes of sign in one of them cancel
            let same = |a: f64, b: f64| a * d > 1.6 && b * d > 1.6 && (a * d - 0.6).ceil() == (b * d - 0.6).ceil();
            let r: V = g.cross.iter().chain(&g.touch).copied().collect();
            if r.windows(2).any(|w| same(w[0], w[1])) {
                return Ok(());
            }
        }
        run(&Cfg { dir: d, g: vec![g], rootdir: vec![b[2] as u8], calls: tasks(way as usize), stop: [None, Some(1.6), Some(2.0)][st as usize], limit: 0 }, acc)
    }));
    // crossings just after the start, within the first tenth of the first step
    v.push(Space::new("early crossings: 4 places x 7 shapes x 2 signs x 2 directions x 2 filters x 4 ways of calling x placements 4^2", 4 * 7 * 8 * 4 * 16, move |idx, acc| {
        let mut i = idx;
        let (p, sh, b, way) = (take(&mut i, 4), take(&mut i, 7), digits(take(&mut i, 8), 2, 3), take(&mut i, 4));
        let d = if b[0] == 1 { -1.0 } else { 1.0 };
        let mut dg = vec![0];
        dg.extend(digits(i, 4, 2));
        let mut g = placed(&dg, d, if b[1] == 1 { -1.0 } else { 1.0 }, shapes[sh as usize]);
        g.cross.insert(0, [1e-6, 0.003, 0.05, 0.1][p as usize] * d);
        run(&Cfg { dir: d, g: vec![g], rootdir: vec![b[2] as u8], calls: tasks(way as usize), stop: None, limit: 0 }, acc)
    }));
    // two functions: every pair of placements
    for (steps, dirs, ways) in if deep { vec![(4usize, 1u64, 3u64), (3, 2, 4)] } else { vec![(3, 1, 3), (2, 2, 4)] } {
        v.push(Space::new(format!("two functions: placements 5^{} x 4 signs x 4 filters x {} directions x {} ways of calling", 2 * steps, dirs, ways), 5u64.pow(2 * steps as u32) * 16 * dirs * ways, move |idx, acc| {
            let b = digits(idx, 2, 4);
            let i = idx / 16;
            let d = if i % dirs == 1 { -1.0 } else { 1.0 };
            let i = i / dirs;
            let way = if ways == 3 { [0, 1, 3][(i % 3) as usize] } else { i % 4 };
            let digs = digits(i / ways, 5, 2 * steps);
            let s = |k: usize| if b[k] == 1 { -1.0 } else { 1.0 };
            run(
                &Cfg {
                    dir: d,
                    g: vec![placed(&digs[..steps], d, s(0), Shape::Linear), placed(&digs[steps..], d, s(1), Shape::Linear)],
                    rootdir: vec![b[2] as u8, b[3] as u8],
                    calls: tasks(way as usize),
                    stop: None,
                    limit: 0,
                },
                acc,
            )
        }));
    }
    // functions that start at zero, at once or until some time
    v.push(Space::new("start at zero: 6 kinds x placements 5^4 x 2 directions x 4 ways of calling", 6 * 625 * 8, move |idx, acc| {
        let kind = idx % 6;
        let i = idx / 6;
        let d = if i % 2 == 1 { -1.0 } else { 1.0 };
        let way = i / 2 % 4;
        let digs = digits(i / 8, 5, 4);
        let mut f = placed(&digs[..2], d, 1.0, Shape::Linear);
        let g = placed(&digs[2..], d, -1.0, Shape::Linear);
        match kind {
            0 => f.at0 = true,
            k => f.from = [0.0, 0.05, 0.3, 0.6, 0.9, 1.3][k as usize],
        }
        run(&Cfg { dir: d, g: vec![f, g], rootdir: vec![0, 0], calls: tasks(way as usize), stop: None, limit: 0 }, acc)
    }));
    // a function that becomes zero and stays zero
    v.push(Space::new("stays zero: 4 times x 4 shapes x 2 signs x 2 directions x 4 ways of calling", 4 * 4 * 16, move |idx, acc| {
        let u = [0.3, 0.8, 1.0, 1.7][(idx % 4) as usize];
        let i = idx / 4;
        let b = digits(i / 4, 2, 2);
        let d = if b[0] == 1 { -1.0 } else { 1.0 };
        let mut f = G::new(d, if b[1] == 1 { -1.0 } else { 1.0 });
        f.until = u;
        if i % 4 > 0 {
            f.cross.push(d * (2.0 + (i % 4) as f64));
        }
        run(&Cfg { dir: d, g: vec![f], rootdir: vec![0], calls: tasks((i / 16 % 4) as usize), stop: None, limit: 0 }, acc)
    }));
    // many functions: two of them with roots, or all
    for n in [3u64, 5, 8, 9, 16, 17, 33, 65, 100] {
        v.push(Space::new(format!("{} functions: pairs x 6 placements x 2 directions x 2 filters x 2 ways of calling", n), n * n * 48, move |idx, acc| {
            let mut i = idx;
            let (a, b, kind, d, filter, way) = (take(&mut i, n) as usize, take(&mut i, n) as usize, take(&mut i, 6), take(&mut i, 2), take(&mut i, 2), take(&mut i, 2));
            if a == b && (kind == 1 || kind == 2) {
                return Ok(()); // two changes of sign in one step cancel
            }
            if n > 17 && !deep && (a % 16) > 1 && a + 1 != n as usize && b % 13 > 1 {
                return Ok(());
            }
            let d = if d == 1 { -1.0 } else { 1.0 };
            let (pa, pb) = [(0.5, 0.5), (0.25, 0.75), (0.75, 0.25), (0.5, 1.5), (1.0, 1.5), (1.0, 1.0)][kind as usize];
            let g = (0..n as usize)
                .map(|k| {
                    let mut g = G::new(d, if k % 3 == 1 { -1.0 } else { 1.0 });
                    if k == a {
                        g.cross.push(pa * d);
                    }
                    if k == b && (k != a || pa != pb) {
                        g.cross.push(pb * d);
                    }
                    if kind == 4 {
                        g.cross.push(2.5 * d);
                    }
                    if a == b && kind == 0 && k != a {
                        g.cross.push(0.5 * d);
                    }
                    g
                })
                .collect();
            let rootdir = (0..n).map(|k| (filter == 1 && k % 4 == 1) as u8).collect();
            run(&Cfg { dir: d, g, rootdir, calls: tasks(way as usize), stop: None, limit: 0 }, acc)
        }));
    }
    // root functions of a curved solution, steps of changing order and length
    let steps = if deep { 9 } else { 6 };
    v.push(Space::new(format!("function of y: levels 3^{} x 5 histories x 2 directions x 2 ways of calling x after 0 or 6 steps x with and without dense output between the calls", steps), 3u64.pow(steps as u32) * 80, move |idx, acc| {
        let i = idx / 80;
        curved((idx % 5) as usize + 1, if idx / 5 % 2 == 1 { -1.0 } else { 1.0 }, idx / 10 % 2 == 1, if idx / 20 % 2 == 1 { 6 } else { 0 }, idx / 40 % 2 == 1, &digits(i, 3, steps), acc)
    }));
    Check {
        id: "I07".into(),
        spaces: v,
        assumptions: vec!["stop times, unit steps and direction filters are set through the verif_hooks feature (there is no public setter)".into(), "the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "every placement of sign changes and touching zeros in the steps: every root is returned once, in order, at the root or less than the tolerance after it, with the flags and signs of exactly the functions that have a root there and with the solution at that time; nothing else is returned".into(),
    }
}
