//! I02, I03, I04: the step controller.
//!
//! The nonlinear solver is the environment: every attempt of a step is answered by every answer of an
//! alphabet (corrections of several sizes and directions, recoverable failure, unrecoverable failure).
//! A reference model keeps the history of accepted points only, and states what the method is in terms
//! of interpolating polynomials and divided differences of that history - not in terms of the
//! implementation's phi/psi/alpha/beta recurrences:
//!  - I02: what the residual is evaluated at (predictor polynomial, fixed-leading-coefficient formula),
//!  - I03: which attempts are accepted, how a failed attempt is retried, when the step is given up,
//!  - I04: order and step size after an accepted step.
//! The model follows the implementation's own (order, step) so that each property is judged alone.
use crate::h::*;
use ida::{IdaSolveStatus, IdaTask};
use mcengine::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Formula,
    Accept,
    Select,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub y0: V,
    pub yp0: V,
    pub rtol: f64,
    pub atol: V,
    pub tout: f64,
    pub maxord: usize,
    pub hmax_inv: f64,
    pub hin: f64,
    pub id: Option<Vec<bool>>,
    /// how the steps are asked for: 1 an event at the end of every step, 2 in normal mode with a step limit
    /// of one, 4 dense output between the calls, 8 a stop time far ahead
    pub mode: usize,
}

#[derive(Clone, Debug)]
pub struct Att {
    pub w: V,
    pub t: f64,
    pub yp: V,
    pub ypp: V,
    pub cj: f64,
    pub ee: Option<V>,
}
/// Attempts recorded in one call of `solve`.
pub fn attempts(ev: &[Ev]) -> Result<Vec<Att>, String> {
    let mut r = vec![];
    let mut cur: Option<(V, Vec<(f64, V, V)>)> = None;
    for e in ev {
        match e {
            Ev::Begin(w, _, _) => cur = Some((w.clone(), vec![])),
            Ev::Res(t, y, yp, _) => match &mut cur {
                Some(c) => c.1.push((*t, y.clone(), yp.clone())),
                None => return Err("residual evaluated outside the nonlinear solve".into()),
            },
            Ev::End(a) => {
                let (w, p) = cur.take().unwrap();
                assert!(p.len() == 2, "ENGINE: two probes");
                let cj = (p[1].2[0] - p[0].2[0]) / (p[1].1[0] - p[0].1[0]);
                r.push(Att { w, t: p[0].0, yp: p[0].1.clone(), ypp: p[0].2.clone(), cj, ee: a.clone() });
            }
            _ => {}
        }
    }
    Ok(r)
}

pub type I = (f64, f64); // interval
fn lt(a: I, b: I) -> (bool, bool) {
    // (possibly a < b or a == b, possibly a > b)
    (a.0 <= b.1, a.1 >= b.0)
}
fn mul(a: I, c: f64) -> I {
    (a.0 * c, a.1 * c)
}

#[derive(Clone)]
pub struct Model {
    pub c: Cfg,
    /// accepted points, newest first, and the step sizes between them
    pub ys: Vec<V>,
    pub hs: V,
    pub prev_ee: Option<V>,
    pub kused: usize,
    pub hused: f64,
    pub ns: usize,
    pub phase: usize,
    pub nst: usize,
}
pub struct Est {
    err_k: I,
    err_km1: I,
    err_kp1: Option<I>,
    /// possible values of the order kept or lowered
    knew: Vec<usize>,
    /// ck * ||ee||
    test: I,
}

impl Model {
    pub fn new(c: &Cfg) -> Model {
        Model { c: c.clone(), ys: vec![c.y0.clone()], hs: vec![], prev_ee: None, kused: 0, hused: 0.0, ns: 0, phase: 0, nst: 0 }
    }
    /// nodes t_{n-1-i} relative to t_{n-1} and values, i = 0..=k, seen by an attempt with step h
    pub fn nodes(&self, k: usize, h: f64) -> (V, Vec<V>) {
        let mut x = vec![0.0];
        let mut y = vec![self.ys[0].clone()];
        let mut s = 0.0;
        for i in 0..k {
            if i < self.hs.len() {
                s -= self.hs[i];
                x.push(s);
                y.push(self.ys[i + 1].clone());
            } else {
                // before the initial point: the line given by the initial derivative
                assert!(i == 0, "ENGINE: order exceeds history");
                x.push(-h);
                y.push(self.ys[0].iter().zip(&self.c.yp0).map(|(y, p)| y - h * p).collect());
            }
        }
        (x, y)
    }
    fn norm(&self, x: &[f64], w: &[f64]) -> f64 {
        wrms_mask(x, w, self.c.id.as_deref())
    }
    /// error estimates of an attempt with order k, step h, predictor yp and correction ee
    pub fn est(&self, k: usize, h: f64, a: &Att) -> Est {
        let ee = a.ee.as_ref().unwrap();
        let yn: V = a.yp.iter().zip(ee).map(|(p, e)| p + e).collect();
        let (x, y) = self.nodes(k, h);
        // d_i = t_n - t_{n-1-i}
        let d: V = x.iter().map(|x| h - x).collect();
        let sigma = |j: usize| (1..=j).map(|i| i as f64 * h / d[i]).product::<f64>();
        let alpha_s: f64 = (1..=k).map(|j| 1.0 / j as f64).sum();
        let alpha0: f64 = (0..k).map(|i| h / d[i]).sum();
        let ak = h / d[k];
        let ck = (ak - alpha_s + alpha0).abs().max(ak);
        let en = self.norm(ee, &a.w);
        let rel = |v: f64, s: f64| (v - 1e-11 * s - 1e-10 * v.abs(), v + 1e-11 * s + 1e-10 * v.abs());
        let err_k = rel(sigma(k) * en, 0.0);
        // modified divided difference of order j of the history including the new point
        let phi = |j: usize| -> (V, f64) {
            let mut nodes = vec![h];
            nodes.extend(&x[..j]);
            let mut vals = vec![yn.clone()];
            vals.extend(y[..j].iter().cloned());
            let f: f64 = (1..=j).map(|i| i as f64).product();
            let (v, s) = poly(0.0, &nodes, &vals, j);
            let m: f64 = d[..j].iter().product::<f64>() / f;
            let v: V = v.iter().map(|v| v * m).collect();
            let s: V = s.iter().map(|v| v * m.abs()).collect();
            let sn = wrms(&s, &a.w);
            (v, sn)
        };
        let err_j = |j: usize| -> I {
            let (v, s) = phi(j + 1);
            let sg = sigma(j);
            rel(sg * self.norm(&v, &a.w), sg * s)
        };
        let mut err_km1 = (0.0, 0.0);
        let mut knew = vec![k];
        if k > 1 {
            err_km1 = err_j(k - 1);
            let tk = mul(err_k, k as f64 + 1.0);
            let t1 = mul(err_km1, k as f64);
            let (lower, keep) = if k > 2 {
                let t2 = mul(err_j(k - 2), k as f64 - 1.0);
                lt((t1.0.max(t2.0), t1.1.max(t2.1)), tk)
            } else {
                lt(t1, mul(tk, 0.5))
            };
            knew.clear();
            if lower {
                knew.push(k - 1);
            }
            if keep {
                knew.push(k);
            }
        }
        let err_kp1 = self.prev_ee.as_ref().map(|p| {
            let v: V = ee.iter().zip(p).map(|(a, b)| a - b).collect();
            let s: V = ee.iter().zip(p).map(|(a, b)| a.abs() + b.abs()).collect();
            rel(self.norm(&v, &a.w) / (k as f64 + 2.0), wrms(&s, &a.w))
        });
        Est { err_k, err_km1, err_kp1, knew, test: rel(ck * en, 0.0) }
    }
    pub fn begin(&mut self, k: usize, h: f64) {
        if h != self.hused || k != self.kused {
            self.ns = 0;
        }
        self.ns = (self.ns + 1).min(self.kused + 2);
    }
    /// A correction aimed at a decision of the controller: a mixture of the previous correction (which
    /// makes the error estimate of the next order small), the divided difference of the history (which
    /// makes that of the lower order small) and a fixed direction, scaled to a given error estimate.
    pub fn aim(&self, tn: f64, t: f64, yp: &[f64], cj: f64, w: &[f64], code: u16) -> V {
        let h = t - tn;
        let k = order_of(cj * h).min(self.hs.len().max(1));
        let (x, y) = self.nodes(k, h);
        let d: V = x.iter().map(|x| h - x).collect();
        let sigma: f64 = (1..=k).map(|i| i as f64 * h / d[i]).product();
        let n = self.c.y0.len();
        // divided difference of order k of the history with the predicted point
        let dk: V = {
            let mut nodes = vec![h];
            nodes.extend(&x[..k]);
            let mut vals = vec![yp.to_vec()];
            vals.extend(y[..k].iter().cloned());
            let m: f64 = d[..k].iter().enumerate().map(|(i, d)| d / (i + 1) as f64).product();
            poly(0.0, &nodes, &vals, k).0.iter().map(|v| v * m).collect()
        };
        let unit = |v: &[f64]| -> V {
            let s = self.norm(v, w);
            v.iter().map(|v| if s > 1e-12 { v / s } else { 0.0 }).collect()
        };
        let u: V = (0..n).map(|i| self.c.atol[i] * if i % 2 == 1 { -0.5 } else { 1.0 }).collect();
        let (u, q) = (unit(&u), unit(&dk));
        let p = self.prev_ee.as_ref().map(|p| unit(p)).unwrap_or(u.clone());
        let target = |v: V, e: f64| -> V {
            let v = unit(&v);
            v.iter().map(|v| v * e / sigma).collect()
        };
        let mix = |a: f64, b: f64, c: f64| -> V { (0..n).map(|i| a * p[i] + b * q[i] + c * u[i]).collect() };
        match code {
            // sizes
            0 => target(u, 1e-6),
            1 => target(u, 0.004),
            2 => target(u, 0.07),
            3 => target(u, 0.2),
            4 => target(u, 0.4),
            5 => target(mix(1.0, 0.0, 0.0), 0.4),
            6 => target(mix(-1.0, 0.0, 0.0), 0.3),
            7 => target(u, 0.62),
            8 => target(mix(-1.0, 0.0, 0.3), 0.55),
            9 => target(u, 4.0),
            // the previous correction again, exactly and nearly: the next order looks better
            10 => self.prev_ee.clone().unwrap_or(u),
            11 => self.prev_ee.as_ref().map(|p| p.iter().map(|p| 0.93 * p).collect()).unwrap_or(u),
            12 => target(mix(1.0, 0.0, 0.25), 0.25),
            // against the divided difference: the lower order looks better
            13 => dk.iter().map(|d| -0.98 * d).collect(),
            14 => dk.iter().map(|d| -0.7 * d).collect(),
            15 => dk.iter().map(|d| -0.5 * d).collect(),
            16 => dk.iter().map(|d| -0.3 * d).collect(),
            17 => target(mix(0.0, -1.0, 0.0), 0.3),
            18 => target(mix(0.0, -1.0, 0.4), 0.15),
            19 => target(mix(0.0, 1.0, 0.0), 0.3),
            // both
            20 => target(mix(1.0, -1.0, 0.0), 0.35),
            21 => target(mix(1.0, -0.5, 0.0), 0.2),
            22 => target(mix(0.5, -1.0, 0.1), 0.1),
            23 => target(mix(0.0, -1.0, 0.0), 0.9),
            24 => target(mix(0.0, -1.0, 0.7), 6.0),
            _ => panic!("ENGINE: code"),
        }
    }
    fn cap(&self, h: f64) -> f64 {
        let t = h.abs() * self.c.hmax_inv;
        if t > 1.0 { h / t } else { h }
    }
    /// possible (order, lowest h, highest h) for the next step after accepting (k, h)
    pub fn select(&self, k: usize, h: f64, e: &Est) -> Vec<(usize, f64, f64)> {
        let kdiff = k as isize - self.kused as isize;
        let mut out = vec![];
        for &knew in &e.knew {
            let phase = if knew + 1 == k || k == self.c.maxord { 1 } else { self.phase };
            if phase == 0 {
                if self.nst > 0 {
                    let h2 = self.cap(2.0 * h);
                    out.push((k + 1, h2, h2));
                } else {
                    out.push((k, h, h));
                }
                continue;
            }
            // (order, error estimate)
            let mut acts: Vec<(usize, I)> = vec![];
            if knew + 1 == k {
                acts.push((k - 1, e.err_km1));
            } else if k == self.c.maxord || k + 1 >= self.ns || kdiff == 1 {
                acts.push((k, e.err_k));
            } else {
                let ep = e.err_kp1.expect("ENGINE: no previous correction");
                let tk = mul(e.err_k, k as f64 + 1.0);
                let tp = mul(ep, k as f64 + 2.0);
                if k == 1 {
                    let (raise, keep) = lt(tp, mul(tk, 0.5));
                    if raise {
                        acts.push((2, ep));
                    }
                    if keep {
                        acts.push((1, e.err_k));
                    }
                } else {
                    let tm = mul(e.err_km1, k as f64);
                    let (lower, not) = lt(tm, (tk.0.min(tp.0), tk.1.min(tp.1)));
                    if lower {
                        acts.push((k - 1, e.err_km1));
                    }
                    if not {
                        let (raise, keep) = lt(tp, tk);
                        if raise {
                            acts.push((k + 1, ep));
                        }
                        if keep {
                            acts.push((k, e.err_k));
                        }
                    }
                }
            }
            for (k2, er) in acts {
                let rr = |e: f64| (2.0 * e.max(0.0) + 1e-4).powf(-1.0 / (k2 as f64 + 1.0));
                let (lo, hi) = (rr(er.1) * (1.0 - 1e-12), rr(er.0) * (1.0 + 1e-12));
                if hi >= 2.0 {
                    let h2 = self.cap(2.0 * h);
                    out.push((k2, h2, h2));
                }
                if lo <= 1.0 {
                    let c = |r: f64| r.min(0.9).max(0.5);
                    out.push((k2, h * c(lo), h * c(hi)));
                }
                if hi > 1.0 && lo < 2.0 {
                    out.push((k2, h, h));
                }
            }
        }
        out
    }
    pub fn accept(&mut self, k: usize, h: f64, a: &Att, e: &Est, next_k: usize) {
        let ee = a.ee.clone().unwrap();
        self.ys.insert(0, a.yp.iter().zip(&ee).map(|(p, e)| p + e).collect());
        self.hs.insert(0, h);
        self.ys.truncate(7);
        self.hs.truncate(6);
        // the phase ends when the order is (to be) lowered or has reached its maximum
        if k == self.c.maxord || e.knew == [k - 1] || (e.knew.contains(&(k - 1)) && next_k == k - 1) {
            self.phase = 1;
        }
        self.prev_ee = Some(ee);
        self.kused = k;
        self.hused = h;
        self.nst += 1;
    }
}
pub fn contains(set: &[(usize, f64, f64)], k: usize, h: f64, slack: f64) -> bool {
    set.iter().any(|&(k2, a, b)| {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let s = 1e-9 * b.abs().max(a.abs()) + slack;
        k == k2 && h >= a - s && h <= b + s
    })
}
pub fn order_of(cjh: f64) -> usize {
    let mut best = (f64::INFINITY, 0);
    let mut s = 0.0;
    for k in 1..=12 {
        s += 1.0 / k as f64;
        let d = (s - cjh).abs();
        if d < best.0 {
            best = (d, k);
        }
    }
    best.1
}
fn close(a: &[f64], b: &[f64], s: &[f64], tol: f64) -> bool {
    a.iter().zip(b).zip(s).all(|((a, b), s)| (a - b).abs() <= tol * (s + 1e-30))
}

/// One case: run `steps` calls of solve(OneStep) against the answers, judge every attempt.
pub fn run_case(c: &Cfg, answers: Vec<Ans>, steps: usize, stop_on_err: bool, j: Judge, acc: &mut Acc) -> Result<(), String> {
    let n = c.y0.len();
    let mut world = World::new(n);
    let nans = answers.len();
    world.nls = answers;
    world.dflt = Ans::Ee(vec![1e-4; n]);
    if c.mode & 1 != 0 {
        // zero exactly at the end of each attempt
        let cell = std::rc::Rc::new(std::cell::Cell::new(-1e9 * c.tout.signum()));
        let c2 = cell.clone();
        world.res = std::rc::Rc::new(move |t, _, yp, r| {
            cell.set(t);
            r.copy_from_slice(yp)
        });
        world.nroots = 1;
        world.root = std::rc::Rc::new(move |t, _, _, g| g[0] = t - c2.get());
    }
    install(world);
    let mut ida = ctl(&c.y0, &c.yp0, c.rtol, &c.atol);
    if c.mode & 2 != 0 {
        ida.verif_set_max_num_steps(1);
    }
    if c.mode & 8 != 0 {
        ida.verif_set_stop_time(Some(1e40 * c.tout));
    }
    if c.maxord != 5 {
        ida.verif_set_max_order(c.maxord);
    }
    if c.hmax_inv != 0.0 {
        ida.verif_set_max_step_inv(c.hmax_inv);
    }
    if c.hin != 0.0 {
        ida.verif_set_init_step(c.hin);
    }
    if let Some(id) = &c.id {
        ida.verif_set_suppress_alg(id, true);
    }
    let shared = std::rc::Rc::new(std::cell::RefCell::new((0.0, Model::new(c))));
    let sh = shared.clone();
    w(|w| w.intent = Some(std::rc::Rc::new(move |t, yp, _, cj, wt, code| {
        let b = sh.borrow();
        if code >= 100 {
            return near_start(&b.1.c, t, yp, code - 100);
        }
        b.1.aim(b.0, t, yp, cj, wt, code)
    })));
    let mut m = Model::new(c);
    for step in 0..steps {
        if w(|w| w.nls_pos) > nans {
            break;
        }
        let tn = ida.get_current_time();
        if c.mode & 4 != 0 && step > 0 {
            for f in [0.5, 1.0, 3.0] {
                let mut d = ndarray::Array1::zeros(n);
                let _ = ida.get_dky(tn - f * ida.get_last_step(), step % 3, &mut d);
                let _ = ida.get_solution(tn - f * ida.get_last_step());
            }
        }
        if c.mode & 2 != 0 && (tn - c.tout) * c.tout >= 0.0 {
            break;
        }
        take_ev();
        let before = ida.get_num_steps();
        *shared.borrow_mut() = (tn, m.clone());
        let mut tret = f64::NAN;
        let first = m.nst == 0;
        let mut hexp: Option<(Vec<(usize, f64, f64)>, f64)> = if first { None } else { Some((vec![(ida.get_current_order(), ida.get_current_setp(), ida.get_current_setp())], ida.get_current_setp())) };
        let mut r = ida.solve(c.tout, &mut tret, if c.mode & 2 != 0 { IdaTask::Normal } else { IdaTask::OneStep });
        if c.mode & 2 != 0 && r.is_err() && ida.get_num_steps() == before + 1 {
            // the step limit was reached after the step
            r = Ok(IdaSolveStatus::ContinueSteps);
        }
        let mut ev = take_ev();
        ev.retain(|e| !matches!(e, Ev::Root(..)));
        acc.step(ev.len() as u64 + 1);
        let at = attempts(&ev)?;
        if at.is_empty() {
            return Err(format!("step {}: solve attempted no step: {:?}", step, r.map_err(|e| e.to_string())));
        }
        let (mut ncf, mut nef) = (0, 0);
        let ns0 = m.ns;
        let mut gave_up = false;
        let mut accepted = false;
        let mut known = false;
        for (ai, a) in at.iter().enumerate() {
            let (ku, hu) = (m.kused, m.hused);
            let ctx = || format!("step {} attempt {} of {}: {:?} (tn={:?}, order used {}, last step {})", step, ai, at.len(), a, tn, ku, hu);
            if gave_up || accepted {
                return if j == Judge::Accept { Err(format!("{}: attempted although the step was already {}", ctx(), if accepted { "accepted" } else { "to be given up" })) } else { Ok(()) };
            }
            // the step size and order of this attempt
            let hobs = a.t - tn;
            let slack = 8.0 * f64::EPSILON * (tn.abs() + hobs.abs());
            if hobs.abs() < 1e-12 * tn.abs() {
                acc.outcome("step at the resolution of time: not judged further");
                return Ok(());
            }
            let k = order_of(a.cj * hobs);
            let mut h = hobs;
            let mut sharp = false; // ... and then the sizes derived from it are known exactly too
            if let Some((set, _)) = &hexp {
                if ai > 0 && j == Judge::Accept && !contains(set, k, hobs, slack) {
                    return Err(format!("{}: retried with order {} and step {:e}; allowed (order, from, to): {:?}", ctx(), k, hobs, set));
                }
                if ai == 0 && j == Judge::Formula && !contains(set, k, hobs, slack) {
                    return Err(format!("{}: order {} and step {:e} differ from the announced {:?}", ctx(), k, hobs, set));
                }
                // sharpen h, which t - tn only gives up to roundoff
                for &(k2, lo, hi) in set {
                    if k2 == k && (lo - hi).abs() <= 1e-13 * lo.abs() && (hobs - lo).abs() <= 1e-9 * lo.abs() + slack {
                        h = lo;
                        sharp = ai == 0 || known;
                    }
                }
            }
            if !(1..=c.maxord).contains(&k) || k > m.hs.len().max(1) {
                return if j == Judge::Formula { Err(format!("{}: cj*h = {} is not that of an order available here", ctx(), a.cj * hobs)) } else { Ok(()) };
            }
            known = sharp;
            m.begin(k, h);
            acc.state(&(step, k, m.ns, m.phase, h.to_bits(), a.ee.as_ref().map(|e| e[0].to_bits())));
            let prec = 1e-9 + 64.0 * f64::EPSILON * (tn.abs() + h.abs()) / h.abs();
            if j == Judge::Formula {
                let (x, y) = m.nodes(k, h);
                let (p, mut s) = poly(h, &x, &y, 0);
                s.iter_mut().zip(&c.atol).for_each(|(s, a)| *s += 1e-3 * a);
                // where h is known only as a difference of times, it is known to their roundoff
                let tol = if sharp { 1e-9 } else { 8.0 * prec };
                if !close(&a.yp, &p, &s, tol) {
                    return Err(format!("{}: the first point tried is not the extrapolation {:?} of the last {} accepted points", ctx(), p, k + 1));
                }
                let (p, mut s) = poly(h, &x, &y, 1);
                s.iter_mut().zip(&c.atol).for_each(|(s, a)| *s += 1e-3 * a / h.abs());
                if !close(&a.ypp, &p, &s, tol) {
                    return Err(format!("{}: y' of the first point tried is not the derivative {:?} of the predictor", ctx(), p));
                }
                let alpha_s: f64 = (1..=k).map(|j| 1.0 / j as f64).sum();
                if (a.cj - alpha_s / h).abs() > prec * a.cj.abs() + 1e-12 * a.ypp.iter().fold(0.0f64, |x, y| x.max(y.abs())) {
                    return Err(format!("{}: cj = {} is not {}/h", ctx(), a.cj, alpha_s));
                }
                let w: V = m.ys[0].iter().zip(&c.atol).map(|(y, at)| 1.0 / (c.rtol * y.abs() + at)).collect();
                if !close(&a.w, &w, &w, 1e-9) {
                    return Err(format!("{}: weights are not 1/(rtol*|y|+atol) = {:?} at the last accepted point", ctx(), w));
                }
                acc.trace();
            }
            // outcome
            match &a.ee {
                None => {
                    let fatal = w(|w| w.nls.get(w.nls_pos - at.len() + ai).cloned()) == Some(Ans::Fatal);
                    m.phase = 1;
                    ncf += 1;
                    if fatal || ncf >= 10 {
                        gave_up = true;
                    }
                    acc.outcome(if fatal { "unrecoverable failure" } else { "convergence failure" });
                    hexp = Some((vec![(k, 0.25 * h, 0.25 * h)], h));
                }
                Some(_) => {
                    let e = m.est(k, h, a);
                    let is_last = ai + 1 == at.len();
                    let ok = r.is_ok() && is_last;
                    if e.test.1 < 1.0 && !ok && j == Judge::Accept {
                        return Err(format!("{}: error test value {:?} <= 1 but the attempt was not accepted", ctx(), e.test));
                    }
                    if e.test.0 > 1.0 && ok && j == Judge::Accept {
                        return Err(format!("{}: error test value {:?} > 1 but the attempt was accepted", ctx(), e.test));
                    }
                    if ok {
                        accepted = true;
                        acc.outcome("accepted");
                        let (k2, h2) = (ida.get_current_order(), ida.get_current_setp());
                        let set = m.select(k, h, &e);
                        let sl = if ai == 0 { 0.0 } else { 1e-9 * h.abs() + slack };
                        if j == Judge::Select && !contains(&set, k2, h2, 2.0 * sl) {
                            return Err(format!("{}: next order {} and step {:e}; allowed (order, from, to): {:?} [ns={} phase={} err_k={:?} err_km1={:?} err_kp1={:?}]", ctx(), k2, h2, set, m.ns, m.phase, e.err_k, e.err_km1, e.err_kp1));
                        }
                        if ida.get_last_order() != k || (ida.get_last_step() - h).abs() > 1e-9 * h.abs() + slack {
                            return Err(format!("{}: last order/step reported {} {:e}, taken {} {:e}", ctx(), ida.get_last_order(), ida.get_last_step(), k, h));
                        }
                        let hu = ida.get_last_step();
                        m.accept(k, hu, a, &e, k2);
                        if m.phase == 1 {
                            if let (Some(ep), true) = (e.err_kp1, k > 1) {
                                let (tk, tp, tm) = ((k + 1) as f64 * e.err_k.0, (k + 2) as f64 * ep.0, k as f64 * e.err_km1.0);
                                if k2 > k && tm <= tk {
                                    acc.outcome("raised though the lower order looked better than the current");
                                } else if k2 < k && tp < tk {
                                    acc.outcome("lowered though the higher order looked better than the current");
                                }
                            }
                        }
                        acc.outcome(match (k2 > k, k2 < k, h2.abs() > hu.abs(), h2.abs() < hu.abs()) {
                            (true, ..) => "order raised",
                            (_, true, ..) => "order lowered",
                            (_, _, true, _) => "step doubled",
                            (_, _, _, true) => "step reduced",
                            _ => "step kept",
                        });
                    } else {
                        acc.outcome("error test failure");
                        m.phase = 1;
                        nef += 1;
                        if nef >= 10 {
                            gave_up = true;
                        }
                        let mut set = vec![];
                        for &kn in &e.knew {
                            if nef == 1 {
                                let er = if kn == k { e.err_k } else { e.err_km1 };
                                let rr = |e: f64| (0.9 * (2.0 * e.max(0.0) + 1e-4).powf(-1.0 / (kn as f64 + 1.0))).min(0.9).max(0.25);
                                set.push((kn, h * rr(er.1), h * rr(er.0)));
                            } else if nef == 2 {
                                set.push((kn, 0.25 * h, 0.25 * h));
                            } else {
                                set.push((1, 0.25 * h, 0.25 * h));
                            }
                        }
                        hexp = Some((set, h));
                    }
                }
            }
        }
        match r {
            Ok(s) => {
                if !accepted {
                    return Err(format!("step {}: solve returned {:?} although no attempt was accepted: {:?}", step, s, at));
                }
                if j == Judge::Accept && tret == ida.get_current_time() {
                    let y: V = ida.get_yy().iter().copied().collect();
                    let sc: V = m.ys[0].iter().map(|y| y.abs() + 1.0).collect();
                    if !close(&y, &m.ys[0], &sc, 1e-12) {
                        return Err(format!("step {}: returned y {:?} is not the accepted point {:?}", step, y, m.ys[0]));
                    }
                    let a = at.last().unwrap();
                    let ee = a.ee.as_ref().unwrap();
                    let yp: V = ida.get_yp().iter().copied().collect();
                    let ex: V = a.ypp.iter().zip(ee).map(|(p, e)| p + a.cj * e).collect();
                    let sc: V = a.ypp.iter().zip(ee).map(|(p, e)| p.abs() + (a.cj * e).abs() + 1e-9 * a.cj.abs()).collect();
                    // (at an event y' is the derivative of the interpolating polynomial, see I05)
                    if c.mode & 1 == 0 && !close(&yp, &ex, &sc, 1e-8) {
                        return Err(format!("step {}: returned y' {:?} is not that of the accepted point {:?}", step, yp, ex));
                    }
                    acc.trace();
                }
                if j == Judge::Select {
                    acc.trace();
                }
            }
            Err(e) => {
                acc.outcome("step given up");
                if j == Judge::Accept {
                    if !gave_up {
                        return Err(format!("step {}: solve gave up ({}) after {} error test and {} convergence failures", step, e, nef, ncf));
                    }
                    // the state is that of the last accepted point
                    let y: V = ida.get_yy().iter().copied().collect();
                    let sc: V = m.ys[0].iter().map(|y| y.abs() + 1.0).collect();
                    if ida.get_current_time() != tn || tret != tn {
                        return Err(format!("step {}: after giving up, current time {:?} and tret {:?} are not the last accepted time {:?}", step, ida.get_current_time(), tret, tn));
                    }
                    if !close(&y, &m.ys[0], &sc, 1e-9) {
                        return Err(format!("step {}: after giving up, y {:?} is not the last accepted point {:?}", step, y, m.ys[0]));
                    }
                    acc.trace();
                }
                if stop_on_err {
                    break;
                }
                m.ns = ns0;
                if first {
                    // the next call starts again
                    m = Model::new(c);
                }
            }
        }
    }
    acc.sample(|| format!("{:?}: history {:?}", c, m.ys));
    Ok(())
}

// ---------------------------------------------------------------- spaces

fn cfg(kind: usize) -> Cfg {
    match kind {
        0 => Cfg { y0: vec![1.0, -2.0], yp0: vec![0.01, 0.005], rtol: 0.01, atol: vec![0.5, 0.02], tout: 1000.0, maxord: 5, hmax_inv: 0.0, hin: 0.0, id: None, mode: 0 },
        // backward, single equation
        1 => Cfg { y0: vec![0.5], yp0: vec![0.25], rtol: 1e-3, atol: vec![0.125], tout: -300.0, maxord: 5, hmax_inv: 0.0, hin: 0.0, id: None, mode: 0 },
        // order limit and step limit
        2 => Cfg { y0: vec![1.0, 1.0], yp0: vec![0.0, 0.02], rtol: 0.0, atol: vec![0.1, 0.2], tout: 50.0, maxord: 3, hmax_inv: 2.0, hin: 0.125, id: None, mode: 0 },
        // algebraic component left out of the error test
        3 => Cfg { y0: vec![1.0, 1.0, 0.0], yp0: vec![0.0, 0.02, 0.1], rtol: 0.0, atol: vec![0.1, 0.2, 0.05], tout: 100.0, maxord: 4, hmax_inv: 0.0, hin: -0.0, id: Some(vec![true, false, true]), mode: 0 },
        // backward with an order limit and a step limit
        4 => Cfg { y0: vec![1.0, 1.0], yp0: vec![0.02, -0.01], rtol: 1e-3, atol: vec![0.2, 0.1], tout: -90.0, maxord: 4, hmax_inv: 0.5, hin: -0.125, id: None, mode: 0 },
        // the same without
        5 => Cfg { y0: vec![1.0, 1.0], yp0: vec![0.02, -0.01], rtol: 0.0, atol: vec![0.2, 0.1], tout: -90.0, maxord: 5, hmax_inv: 0.0, hin: -0.125, id: None, mode: 0 },
        // backward, where the start-up reaches the step limit
        6 => Cfg { y0: vec![1.0, 1.0], yp0: vec![0.02, -0.01], rtol: 1e-3, atol: vec![0.2, 0.1], tout: -90.0, maxord: 5, hmax_inv: 1.0, hin: -0.375, id: None, mode: 0 },
        // many components
        7 => Cfg { y0: (0..20).map(|i| (i as f64 - 9.0) / 4.0).collect(), yp0: (0..20).map(|i| 0.01 * (i % 3) as f64).collect(), rtol: 1e-2, atol: (0..20).map(|i| [0.1, 0.3, 0.05][i % 3]).collect(), tout: 100.0, maxord: 5, hmax_inv: 0.5, hin: 0.0, id: Some((0..20).map(|i| i % 7 != 6).collect()), mode: 0 },
        _ => panic!("ENGINE: cfg"),
    }
}
/// corrections by size (in units of the tolerance) and direction
pub fn ee(c: &Cfg, size: f64, dir: usize) -> Ans {
    let n = c.y0.len();
    Ans::Ee((0..n).map(|i| {
        let s = match (dir, i % 2) {
            (0, _) => 1.0,
            (1, _) => -1.0,
            (2, 0) => 1.0,
            (2, _) => -0.5,
            (_, 0) => 0.1,
            _ => 1.3,
        };
        s * size * c.atol[i]
    }).collect())
}
/// the correction that leads to a point close to the initial one (code < 8) or to a smooth curve through it,
/// whatever was predicted: long histories stay bounded
fn near_start(c: &Cfg, t: f64, yp: &[f64], code: u16) -> V {
    let s = if code < 8 { [0.0, 0.02, -0.02, 0.3, -0.3, 1.2, -2.5, 1e4] } else { [0.0, 1e-3, -1e-3, 0.02, 0.1, -0.1, 0.8, 1e4] }[code as usize % 8];
    (0..yp.len()).map(|i| {
        let curve = if code < 8 { 0.0 } else { 30.0 * ((0.3 * t + i as f64).sin() - (i as f64).sin()) };
        c.y0[i] + (curve + s * if i % 2 == 0 { 1.0 } else { -0.5 }) * c.atol[i] - yp[i]
    }).collect()
}
fn alphabet(c: &Cfg, kind: usize) -> Vec<Ans> {
    match kind {
        // full
        0 => {
            let mut v = vec![];
            for &s in &[0.003, 0.08, 0.45, 1.1, 30.0] {
                v.push(ee(c, s, 0));
                v.push(ee(c, s, 1));
            }
            v.push(ee(c, 0.2, 2));
            v.push(Ans::Recover);
            v
        }
        // small: accept easily, accept barely, fail, convergence failure
        1 => vec![ee(c, 0.02, 0), ee(c, 0.4, 2), ee(c, 4.0, 1), Ans::Recover],
        _ => panic!("ENGINE: alphabet"),
    }
}
/// deterministic starts: accepted steps that lead to different orders, step ratios and ns
fn prefixes(c: &Cfg) -> Vec<Vec<Ans>> {
    let mut v = vec![vec![]];
    let z = |s: f64, d: usize| ee(c, s, d);
    for m in [1usize, 2, 4, 6, 9] {
        v.push(vec![z(0.02, 0); m]);
    }
    // constant step: errors large enough not to raise, small enough not to reduce
    v.push((0..8).map(|_| z(0.5, 0)).collect());
    v.push((0..8).map(|i| z(0.35, i % 2)).collect());
    v.push((0..12).map(|i| if i == 2 { Ans::Recover } else { z(0.3 / (1.0 + i as f64), i % 2) }).collect());
    v.push((0..14).map(|i| if i == 5 { z(3.0, 1) } else { z(0.1, 0) }).collect());
    v.push((0..16).map(|i| if i % 5 == 4 { z(1.5, 2) } else { z(0.05 * (1 + i % 3) as f64, i % 3) }).collect());
    v.push((0..20).map(|i| if i == 3 { Ans::Recover } else { z(0.3, 0) }).collect());
    v
}

fn spaces(j: Judge) -> Vec<Space> {
    let deep = tier() == Tier::Thorough;
    let mut v = vec![];
    for kind in 0..4 {
        let c = cfg(kind);
        let al = alphabet(&c, 0);
        let depth = if deep { if kind == 0 { 6 } else { 5 } } else { 4 };
        let np = prefixes(&c).len() as u64;
        let size = np * (al.len() as u64).pow(depth);
        v.push(Space::new(format!("answers cfg{} prefixes x {}^{}", kind, al.len(), depth), size, move |idx, acc| {
            let mut i = idx;
            let mut ans = prefixes(&c)[take(&mut i, np) as usize].clone();
            for d in digits(i, al.len() as u64, depth as usize) {
                ans.push(al[d as usize].clone());
            }
            let l = ans.len();
            run_case(&c, ans, l + 1, true, j, acc)
        }));
        // longer sequences over fewer answers
        let c = cfg(kind);
        let al = alphabet(&c, 1);
        let depth = if deep { 11 } else { 8 };
        v.push(Space::new(format!("answers cfg{} {}^{}", kind, al.len(), depth), (al.len() as u64).pow(depth), move |idx, acc| {
            let ans: Vec<Ans> = digits(idx, al.len() as u64, depth as usize).into_iter().map(|d| al[d as usize].clone()).collect();
            let l = ans.len();
            run_case(&c, ans, l + 1, true, j, acc)
        }));
    }
    {
        let c = cfg(6);
        let al = alphabet(&c, 0);
        let depth = if deep { 5 } else { 4 };
        v.push(Space::new(format!("answers cfg6 {}^{}", al.len(), depth), (al.len() as u64).pow(depth), move |idx, acc| {
            let mut ans = vec![ee(&c, 0.05, 0)];
            ans.extend(digits(idx, al.len() as u64, depth as usize).into_iter().map(|d| al[d as usize].clone()));
            let l = ans.len();
            run_case(&c, ans, l + 2, true, j, acc)
        }));
    }
    // steps asked for in other ways
    for mode in [1usize, 2, 3, 4, 5, 6, 8, 9, 14] {
        for kind in [0usize, 1, 4, 3] {
            let mut c = cfg(kind);
            c.mode = mode;
            let al = alphabet(&c, 1);
            let depth = if deep { 6 } else { 4 };
            let np = prefixes(&c).len() as u64;
            v.push(Space::new(format!("called in way {} cfg{} prefixes x {}^{}", mode, kind, al.len(), depth), np * (al.len() as u64).pow(depth), move |idx, acc| {
                let mut i = idx;
                let mut ans = prefixes(&c)[take(&mut i, np) as usize].clone();
                for d in digits(i, al.len() as u64, depth as usize) {
                    ans.push(al[d as usize].clone());
                }
                let l = ans.len();
                run_case(&c, ans, l + 1, true, j, acc)
            }));
        }
        let mut c = cfg([5usize, 0][mode % 2]);
        c.mode = mode;
        let len = 2 + deep as u32;
        v.push(Space::new(format!("called in way {}: 9^{} words repeated 40 times near a point and a curve", mode, len), 2 * 9u64.pow(len), move |idx, acc| {
            let curve = (idx % 2) as u16;
            let word: Vec<Ans> = digits(idx / 2, 9, len as usize).into_iter().map(|d| if d == 8 { Ans::Recover } else { Ans::Intent(100 + 8 * curve + d as u16) }).collect();
            let ans: Vec<Ans> = (0..40).flat_map(|_| word.iter().cloned()).collect();
            let l = ans.len();
            run_case(&c, ans, l, true, j, acc)
        }));
    }
    // long runs: every word of answers repeated over and over
    for (kind, len, reps, curve) in [(0usize, 4u32, 40usize, false), (2, 3, 40, false), (6, 4, 40, false), (3, 3, 150, false), (7, 3, 20, false), (5, 4, 40, true), (0, 3, 60, true), (7, 3, 20, true)] {
        let c = cfg(kind);
        let len = len + deep as u32;
        v.push(Space::new(format!("long runs cfg{} near a {}: 9^{} words repeated {} times", kind, if curve { "curve" } else { "point" }, len, reps), 9u64.pow(len), move |idx, acc| {
            let word: Vec<Ans> = digits(idx, 9, len as usize).into_iter().map(|d| if d == 8 { Ans::Recover } else { Ans::Intent(100 + 8 * curve as u16 + d as u16) }).collect();
            let ans: Vec<Ans> = (0..reps).flat_map(|_| word.iter().cloned()).collect();
            let l = ans.len();
            run_case(&c, ans, l, true, j, acc)
        }));
    }
    // corrections aimed at the decisions: at order k, after j steps of constant size
    let na = 27u64;
    for (kind, depth) in [(5usize, 3u32), (4, 2), (3, 2), (0, 2)] {
        let c = cfg(kind);
        let depth = depth + deep as u32;
        let pre = 5 * 5 * 3u64;
        v.push(Space::new(format!("aimed cfg{} order 5 x constant steps 5 x end of start-up 3 x {}^{}", kind, na, depth), pre * na.pow(depth), move |idx, acc| {
            let mut i = idx;
            let (k, hold, end) = (take(&mut i, 5) as usize + 1, take(&mut i, 5) as usize, take(&mut i, 3));
            // start-up raises the order at every step after the first
            let mut ans: Vec<Ans> = (0..k).map(|i| Ans::Intent([1, 2][i % 2])).collect();
            match end {
                0 => ans.push(Ans::Recover),
                1 => ans.extend([Ans::Recover, Ans::Recover]),
                _ => ans.push(Ans::Intent(9)),
            }
            // steps kept as they are
            ans.extend((0..if hold == 0 { 0 } else { k + hold - 1 }).map(|i| Ans::Intent([4, 3, 19, 4][i % 4])));
            for d in digits(i, na, depth as usize) {
                ans.push(if d == 25 { Ans::Recover } else if d == 26 { ee(&c, 1e3, 0) } else { Ans::Intent(d as u16) });
            }
            let l = ans.len();
            run_case(&c, ans, l + 1, true, j, acc)
        }));
    }
    // failure limits: every order of error test and convergence failures until the step is given up,
    // on the first step and later, then whatever comes next
    for (kind, start) in [(0usize, 0usize), (0, 3), (1, 7), (2, 9)] {
        let c = cfg(kind);
        let len = if deep { 19 } else { 14 };
        v.push(Space::new(format!("failure runs cfg{} after {} steps, 2^{}", kind, start, len), 1 << len, move |idx, acc| {
            let mut ans: Vec<Ans> = (0..start).map(|i| ee(&c, 0.05, i % 2)).collect();
            for b in 0..len {
                ans.push(if idx >> b & 1 == 1 { Ans::Recover } else { ee(&c, 1e4, b % 3) });
            }
            let l = ans.len();
            run_case(&c, ans, l + 1, false, j, acc)
        }));
    }
    // unrecoverable failure at every attempt
    let c = cfg(0);
    v.push(Space::new("unrecoverable failure after each short history", 4u64.pow(5), move |idx, acc| {
        let al = alphabet(&c, 1);
        let mut ans: Vec<Ans> = digits(idx, 4, 5).into_iter().map(|d| al[d as usize].clone()).collect();
        ans.push(Ans::Fatal);
        ans.push(ee(&c, 0.1, 0));
        ans.push(ee(&c, 0.1, 1));
        run_case(&c, ans, 9, false, j, acc)
    }));
    // steps that fail for good anywhere, and going on afterwards
    for kind in [0usize, 1, 3, 4] {
        let c = cfg(kind);
        let mut al = alphabet(&c, 1);
        al.push(Ans::Fatal);
        let depth = if deep { 7 } else { 5 };
        let np = prefixes(&c).len() as u64;
        v.push(Space::new(format!("going on after failures for good, cfg{} prefixes x {}^{}", kind, al.len(), depth), np * (al.len() as u64).pow(depth), move |idx, acc| {
            let mut i = idx;
            let mut ans = prefixes(&c)[take(&mut i, np) as usize].clone();
            for d in digits(i, al.len() as u64, depth as usize) {
                ans.push(al[d as usize].clone());
            }
            let l = ans.len();
            run_case(&c, ans, l + 2, false, j, acc)
        }));
    }
    for (kind, curve) in [(5usize, 0u16), (0, 1)] {
        let c = cfg(kind);
        let len = 3 + deep as u32;
        v.push(Space::new(format!("going on after failures for good: 10^{} words repeated 30 times, cfg{}", len, kind), 10u64.pow(len), move |idx, acc| {
            let word: Vec<Ans> = digits(idx, 10, len as usize).into_iter().map(|d| match d {
                8 => Ans::Recover,
                9 => Ans::Fatal,
                d => Ans::Intent(100 + 8 * curve + d as u16),
            }).collect();
            let ans: Vec<Ans> = [Ans::Intent(101), Ans::Intent(102)].into_iter().chain((0..30).flat_map(|_| word.iter().cloned())).collect();
            let l = ans.len();
            run_case(&c, ans, l, false, j, acc)
        }));
    }
    v
}

pub fn check(id: &str) -> Check {
    let (j, rule) = match id {
        "I02" => (Judge::Formula, "every attempt of every answer sequence: the residual arguments (t, y, y') and the weights passed to the nonlinear solver against the interpolating polynomial of the accepted history"),
        "I03" => (Judge::Accept, "every attempt of every answer sequence: accepted iff the error test holds, retried with the order and step size the rules give, given up exactly at the limits, and the state after giving up"),
        _ => (Judge::Select, "every accepted step of every answer sequence: order and step size announced for the next step against the selection rule evaluated on divided differences of the accepted history"),
    };
    Check {
        id: id.into(),
        spaces: spaces(j),
        assumptions: vec![
            "the integrator sources are compiled against an ndarray/failure stand-in (shim/), validated by the repository's own recorded-trace unit tests".into(),
            "the nonlinear solver's answers are chosen from a finite alphabet of corrections; comparisons closer than 1e-10 relative are allowed to go either way".into(),
        ],
        rule: rule.into(),
    }
}
