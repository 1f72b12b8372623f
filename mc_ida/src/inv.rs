//! I13: the integrator has no built-in scale, direction or order of components.
//!
//! A problem and its image under a change of units (time, each component, residual), a reversal of time, a
//! reordering of the components or a duplication are integrated with the same answers of the environment;
//! everything observable must be the image of what was observed on the original.
use crate::e2e::{problems, Pb};
use crate::h::*;
use ida::IdaTask;
use mcengine::*;
use ndarray::prelude::*;
use std::rc::Rc;

/// An image of a problem: t -> s t, y_i -> m_i y_i, residual -> q residual, components in order `perm`,
/// everything twice.
#[derive(Clone, Debug)]
struct T {
    s: f64,
    m: Vec<f64>,
    perm: Vec<usize>,
    dup: bool,
    q: f64,
}
impl T {
    fn id(n: usize) -> T {
        T { s: 1.0, m: vec![1.0; n], perm: (0..n).collect(), dup: false, q: 1.0 }
    }
    fn n(&self) -> usize {
        self.perm.len() * (1 + self.dup as usize)
    }
    /// image of a vector of components with dimension y / t^d
    fn out(&self, y: &[f64], d: i32) -> V {
        let mut r: V = self.perm.iter().map(|&i| y[i] * self.m[i] / self.s.powi(d)).collect();
        if self.dup {
            let c = r.clone();
            r.extend(c);
        }
        r
    }
    fn back(&self, y: &[f64], d: i32) -> V {
        let mut r = vec![0.0; self.perm.len()];
        for (k, &i) in self.perm.iter().enumerate() {
            r[i] = y[k] / self.m[i] * self.s.powi(d);
            if self.dup && y[k] != y[k + self.perm.len()] {
                r[i] = f64::NAN;
            }
        }
        r
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Obs(&'static str, V);

fn image(p: &Pb, t: &T) -> World {
    let mut w = World::new(t.n());
    let (f, j, n) = (p.res, p.jac, p.n);
    let a = t.clone();
    w.res = Rc::new(move |tt, y, yp, r| {
        let mut o = vec![0.0; n];
        f(tt / a.s, &a.back(y, 0), &a.back(yp, 1), &mut o);
        // the equations keep their order, the unknowns are reordered
        for i in 0..n {
            r[i] = a.q * o[i];
            if a.dup {
                r[n + i] = r[i];
            }
        }
    });
    let a = t.clone();
    w.jac = Rc::new(move |tt, cj, y, yp, m| {
        let mut o = vec![0.0; n * n];
        j(tt / a.s, cj * a.s, &a.back(y, 0), &a.back(yp, 1), &mut o);
        let nn = a.n();
        for i in 0..n {
            for (k, &c) in a.perm.iter().enumerate() {
                m[i * nn + k] = a.q * o[i * n + c] / a.m[c];
                if a.dup {
                    m[(n + i) * nn + n + k] = m[i * nn + k];
                }
            }
        }
    });
    w
}
fn same(a: &[Obs], b: &[Obs], tol: f64) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let close = x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| p == q || (p - q).abs() <= tol * (p.abs() + q.abs()));
        if x.0 != y.0 || !close {
            return Err(format!("observation {}: {:?} on the original, {:?} on the image (in the units of the original)", i, x, y));
        }
    }
    if a.len() != b.len() {
        return Err(format!("{} observations on the original, {} on the image", a.len(), b.len()));
    }
    Ok(())
}

#[derive(Clone)]
struct Cfg {
    maxord: usize,
    maxh: f64,
    mask: Option<[bool; 2]>,
    hin: f64,
    task: usize,
}
fn cfgs() -> Vec<Cfg> {
    vec![
        Cfg { maxord: 5, maxh: 0.0, mask: None, hin: 0.1, task: 0 },
        Cfg { maxord: 3, maxh: 0.35, mask: None, hin: 0.0, task: 1 },
        Cfg { maxord: 5, maxh: 0.0, mask: Some([true, false]), hin: 0.0, task: 2 },
        Cfg { maxord: 2, maxh: 1.5, mask: Some([false, true]), hin: 0.25, task: 0 },
    ]
}
const SIZES: [f64; 5] = [0.003, 0.3, -0.7, 0.9, 2.7];

/// Scripted nonlinear solver: 0..=4 converged with a correction of that size, 5 convergence failure.
fn scripted(word: &[u64], pre: usize, c: &Cfg, n: usize, t: &T, acc: &mut Acc) -> Result<Vec<Obs>, String> {
    let (y0, yp0, atol) = ([1.0, -0.25], [0.02, 0.3], [0.5, 0.02]);
    let rtol = 0.01;
    let p = Pb {
        name: "",
        n,
        res: |t, y, p, r| {
            for i in 0..y.len() {
                r[i] = p[i] + y[i] * 0.5 + t;
            }
        },
        jac: |_, cj, y, _, j| {
            for i in 0..y.len() {
                j[i * y.len() + i] = cj + 0.5;
            }
        },
        exact: |_| (vec![], vec![]),
        scale: &[],
        tend: 0.0,
        c: 0.0,
    };
    let mut w = image(&p, t);
    let corr = |s: f64, i: usize| {
        let d = [[1.0, -0.7], [0.9, 0.4], [-1.0, 0.6]][i % 3];
        Ans::Ee(t.out(&(0..n).map(|j| s * d[j] * atol[j]).collect::<V>(), 0))
    };
    let mut nls: Vec<Ans> = (0..pre).map(|i| corr(0.05, i)).collect();
    nls.extend(word.iter().enumerate().map(|(i, &k)| if k == 5 { Ans::Recover } else { corr(SIZES[k as usize], i) }));
    nls.extend((0..200).map(|i| corr(0.1, i)));
    w.nls = nls;
    w.nroots = 2;
    w.probe = t.out(&vec![1.0; n], 0);
    let a = t.clone();
    w.root = Rc::new(move |_, y, _, g| {
        let y = a.back(y, 0);
        g[0] = y[0] - 1.02;
        g[1] = y[n - 1] + 0.21 - (n == 1) as u8 as f64 * 1.3;
    });
    install(w);
    let mut ida = ctl(&t.out(&y0[..n], 0), &t.out(&yp0[..n], 1), rtol, &t.out(&atol[..n], 0).iter().map(|x| x.abs()).collect::<V>());
    ida.verif_set_max_order(c.maxord);
    ida.verif_set_max_num_steps(9);
    if c.maxh > 0.0 {
        ida.verif_set_max_step_inv(1.0 / (c.maxh * t.s.abs()));
    }
    if c.hin != 0.0 {
        ida.verif_set_init_step(c.hin * t.s);
    }
    if let Some(m) = c.mask {
        let mut k: Vec<bool> = t.perm.iter().map(|&i| m[i]).collect();
        if t.dup {
            let d = k.clone();
            k.extend(d);
        }
        ida.verif_set_suppress_alg(&k, true);
    }
    let mut o = vec![];
    let mut tret = 0.0;
    for call in 0..6usize {
        let tout = [0.2, 0.9, 0.95, 2.0, 7.0, 20.0][call];
        let task = match (c.task, call % 2) {
            (0, _) | (2, 0) => IdaTask::Normal,
            _ => IdaTask::OneStep,
        };
        let r = ida.solve(tout * t.s, &mut tret, task);
        let kind: &'static str = match &r {
            Ok(ida::IdaSolveStatus::Success) => "success",
            Ok(ida::IdaSolveStatus::Root) => "root",
            Ok(ida::IdaSolveStatus::TStop) => "tstop",
            Ok(_) => "continue",
            Err(_) => "error",
        };
        for e in take_ev() {
            acc.step(1);
            o.push(match e {
                Ev::Res(tt, y, yp, _) => Obs("residual", [vec![tt / t.s], t.back(&y, 0), t.back(&yp, 1)].concat()),
                Ev::Jac(tt, cj, y, yp, ..) => Obs("Jacobian", [vec![tt / t.s, cj * t.s], t.back(&y, 0), t.back(&yp, 1)].concat()),
                Ev::Root(tt, y, yp, _) => Obs("root function", [vec![tt / t.s], t.back(&y, 0), t.back(&yp, 1)].concat()),
                Ev::Begin(w, tol, s) => {
                    let inv: V = w.iter().map(|x| 1.0 / x).collect();
                    Obs("nonlinear solver", [t.back(&inv, 0).iter().map(|x| x.abs()).collect(), vec![tol, s as u8 as f64]].concat())
                }
                Ev::End(_) => Obs("answer", vec![]),
                Ev::LSetup(b, _) => Obs("linear setup", vec![b as u8 as f64]),
                _ => Obs("linear solve", vec![]),
            });
        }
        o.push(Obs(kind, [vec![tret / t.s], t.back(&ida.get_yy().iter().copied().collect::<V>(), 0), t.back(&ida.get_yp().iter().copied().collect::<V>(), 1)].concat()));
        o.push(Obs("root flags", ida.get_root_info().iter().copied().collect()));
        o.push(Obs("times and steps", [ida.get_last_step(), ida.get_current_setp(), ida.get_current_time(), ida.get_actual_init_step()].iter().map(|x| x / t.s).collect()));
        o.push(Obs("counters", [ida.get_num_steps(), ida.get_last_order(), ida.get_current_order(), ida.get_num_err_test_fails(), ida.get_num_nonlin_solv_conv_fails(), ida.get_num_g_evals()].iter().map(|x| *x as f64).collect()));
        if ida.get_num_steps() > 0 {
            let mut d = Array1::from(vec![0.0; t.n()]);
            let tq = ida.get_current_time() - 0.25 * ida.get_last_step();
            for k in 0..=ida.get_last_order() {
                if ida.get_dky(tq, k, &mut d).is_ok() {
                    o.push(Obs("dense output", t.back(&d.iter().copied().collect::<V>(), k as i32)));
                }
            }
        }
    }
    Ok(o)
}
fn images(n: usize) -> Vec<T> {
    let id = T::id(n);
    let two = 2f64;
    let mut v = vec![
        T { s: -1.0, ..id.clone() },
        T { s: two.powi(-30), ..id.clone() },
        T { s: two.powi(40), ..id.clone() },
        T { s: -two.powi(5), ..id.clone() },
        T { m: (0..n).map(|i| two.powi([60, -45][i % 2])).collect(), ..id.clone() },
        T { m: (0..n).map(|i| -two.powi([-20, 0][i % 2])).collect(), ..id.clone() },
    ];
    if n > 1 {
        let mut p: Vec<usize> = (0..n).collect();
        p.reverse();
        v.push(T { perm: p.clone(), ..id.clone() });
        v.push(T { perm: p, s: -two.powi(-3), m: (0..n).map(|i| two.powi(7 * i as i32)).collect(), ..id.clone() });
    } else {
        v.push(T { dup: true, ..id.clone() });
        v.push(T { dup: true, s: -two.powi(9), ..id });
    }
    v
}

/// The real solvers.
fn real(p: &Pb, rtol: f64, t: &T, way: u64, acc: &mut Acc) -> Result<Vec<Obs>, String> {
    install(image(p, t));
    let (y, yp) = (p.exact)(0.0);
    let atol: V = p.scale.iter().map(|s| s * rtol).collect();
    let mut ida = full(&t.out(&y, 0), &t.out(&yp, 1), rtol, &t.out(&atol, 0).iter().map(|x| x.abs()).collect::<V>());
    ida.verif_set_max_num_steps(100_000);
    let mut o = vec![];
    let mut tret = 0.0;
    for i in 1..=8 {
        let tout = p.tend * (i * i) as f64 / 64.0;
        let task = if way == 1 && i % 2 == 0 { IdaTask::OneStep } else { IdaTask::Normal };
        ida.solve(tout * t.s, &mut tret, task).map_err(|e| format!("{}: {:?}: {}", p.name, t, e))?;
        // values to a thousandth of the tolerance
        let y = t.back(&ida.get_yy().iter().copied().collect::<V>(), 0);
        let y: V = (0..p.n).map(|i| y[i] / (rtol * y[i].abs() + atol[i])).map(|x| x + 1e4 * x.signum()).collect();
        o.push(Obs("returned", [vec![tret / t.s], y].concat()));
        o.push(Obs("counters", [ida.get_num_steps(), ida.get_last_order(), ida.get_num_res_evals(), ida.get_num_jac_evals(), ida.get_num_err_test_fails(), ida.get_num_nonlin_solv_conv_fails()].iter().map(|x| *x as f64).collect()));
    }
    acc.step(take_ev().len() as u64);
    Ok(o)
}

pub fn i13() -> Check {
    let deep = tier() == Tier::Thorough;
    let d = if deep { 7usize } else { 5 };
    let mut v = vec![];
    for (n, pre) in [(2usize, 0usize), (2, 7), (1, 0), (1, 7)] {
        let d = if n == 1 || pre > 0 { d - 1 } else { d };
        let nc = 4u64;
        v.push(Space::new(format!("answers 6^{} after {} steps, {} components: {} configurations x 8 images", d, pre, n, nc), 6u64.pow(d as u32) * nc, move |idx, acc| {
            let mut i = idx;
            let ci = take(&mut i, nc) as usize;
            let mut c = cfgs()[ci].clone();
            if n == 1 {
                c.mask = None;
            }
            let word = digits(i, 6, d);
            let a = scripted(&word, pre, &c, n, &T::id(n), acc)?;
            acc.state(&(n, pre, ci, &word));
            for t in images(n) {
                let b = scripted(&word, pre, &c, n, &t, acc)?;
                acc.trace();
                same(&a, &b, 1e-9).map_err(|e| format!("answers {:?} after {} steps, configuration {}, image {:?}: {}", word, pre, ci, t, e))?;
            }
            for o in &a {
                match o.0 {
                    "success" => acc.outcome("success"),
                    "root" => acc.outcome("root"),
                    "error" => acc.outcome("error"),
                    _ => {}
                }
            }
            acc.sample(|| format!("answers {:?} after {} steps, configuration {}: {} observations on 8 images", word, pre, ci, a.len()));
            Ok(())
        }));
    }
    let pbs = problems().len() as u64;
    v.push(Space::new(format!("real solvers: {} problems x 13 tolerances x 2 ways of calling x images", pbs), pbs * 13 * 2, move |idx, acc| {
        let mut i = idx;
        let p = problems()[take(&mut i, pbs) as usize];
        let way = take(&mut i, 2);
        let rtol = 10f64.powf(-2.0 - 0.5 * i as f64);
        let a = real(&p, rtol, &T::id(p.n), way, acc)?;
        acc.state(&(1, idx));
        let id = T::id(p.n);
        let mut ts = images(p.n);
        ts.push(T { q: 1024.0, ..id.clone() });
        ts.push(T { q: -2f64.powi(-40), ..id });
        for t in ts {
            acc.trace();
            let mut b = real(&p, rtol, &t, way, acc)?;
            if t.perm.windows(2).any(|w| w[0] > w[1]) {
                // elimination rounds differently: the decisions of the step control may differ
                if way == 1 {
                    continue;
                }
                let far = a.iter().zip(&b).any(|(x, y)| x.0 == "returned" && x.1.iter().zip(&y.1).any(|(p, q)| !((p - q).abs() <= 5.0)));
                if far {
                    return Err(format!("{}, rtol {:e}, image {:?}: {:?} on the original, {:?} on the image", p.name, rtol, t, a, b));
                }
                b = a.clone();
            }
            same(&a, &b, 1e-9).map_err(|e| format!("{}, rtol {:e}, image {:?}: {}", p.name, rtol, t, e))?;
        }
        acc.outcome("real solvers");
        Ok(())
    }));
    Check {
        id: "I13".into(),
        spaces: v,
        assumptions: vec!["changes of units by powers of two, so that they commute with rounding".into(), "the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "every answer sequence on the problem and on each image (time reversed, time, components and residual in other units, components reordered or duplicated): every call of the problem, every result and every reported quantity are images of each other".into(),
    }
}
