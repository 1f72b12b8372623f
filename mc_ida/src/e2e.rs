//! I11: the whole integrator (real Newton iteration, real dense solver) on problems with known solutions.
use crate::h::*;
use ida::{IdaSolveStatus, IdaTask};
use mcengine::*;
use ndarray::prelude::*;
use std::rc::Rc;

type F = fn(f64, &[f64], &[f64], &mut [f64]);
type J = fn(f64, f64, &[f64], &[f64], &mut [f64]);
#[derive(Clone, Copy)]
pub struct Pb {
    pub name: &'static str,
    pub n: usize,
    pub res: F,
    pub jac: J,
    pub exact: fn(f64) -> (V, V),
    /// weight of the components in the absolute tolerance
    pub scale: &'static [f64],
    pub tend: f64,
    /// global error over tolerance that is still fine
    pub c: f64,
}
pub fn problems() -> Vec<Pb> {
    vec![
        Pb {
            name: "decay",
            n: 1,
            res: |_, y, p, r| r[0] = p[0] + y[0],
            jac: |_, cj, _, _, j| j[0] = cj + 1.0,
            exact: |t| (vec![(-t).exp()], vec![-(-t).exp()]),
            scale: &[1.0],
            tend: 6.0,
            c: 15.0,
        },
        Pb {
            name: "stiff relaxation to cos t",
            n: 1,
            res: |t, y, p, r| r[0] = p[0] + 1000.0 * (y[0] - t.cos()) + t.sin(),
            jac: |_, cj, _, _, j| j[0] = cj + 1000.0,
            exact: |t| (vec![t.cos()], vec![-t.sin()]),
            scale: &[1.0],
            tend: 6.0,
            c: 12.0,
        },
        Pb {
            name: "oscillator",
            n: 2,
            res: |_, y, p, r| {
                r[0] = p[0] - y[1];
                r[1] = p[1] + y[0];
            },
            jac: |_, cj, _, _, j| {
                j[0] = cj;
                j[1] = -1.0;
                j[2] = 1.0;
                j[3] = cj;
            },
            exact: |t| (vec![t.sin(), t.cos()], vec![t.cos(), -t.sin()]),
            scale: &[1.0, 1.0],
            tend: 6.0,
            c: 85.0,
        },
        Pb {
            name: "logistic",
            n: 1,
            res: |_, y, p, r| r[0] = p[0] - y[0] * (1.0 - y[0]),
            jac: |_, cj, y, _, j| j[0] = cj - 1.0 + 2.0 * y[0],
            exact: |t| {
                let e = 9.0 * (-t).exp();
                (vec![1.0 / (1.0 + e)], vec![e / (1.0 + e) / (1.0 + e)])
            },
            scale: &[0.5],
            tend: 6.0,
            c: 50.0,
        },
        Pb {
            name: "differential and algebraic components",
            n: 3,
            res: |t, y, p, r| {
                // algebraic equation first: the matrix needs row interchanges
                r[0] = y[2] - y[0] * y[1] - t;
                r[1] = p[0] + 2.0 * p[1] + y[0] + 2.0 * y[1];
                r[2] = p[0] - p[1] + y[0] - 3.0 * y[1] + 2.0 * y[1];
            },
            jac: |_, cj, y, _, j| {
                j[0] = -y[1];
                j[1] = -y[0];
                j[2] = 1.0;
                j[3] = cj + 1.0;
                j[4] = 2.0 * (cj + 1.0);
                j[6] = cj + 1.0;
                j[7] = -cj - 1.0;
            },
            exact: |t| {
                let e = (-t).exp();
                (vec![2.0 * e, e, 2.0 * e * e + t], vec![-2.0 * e, -e, -4.0 * e * e + 1.0])
            },
            scale: &[1.0, 0.5, 1.0],
            tend: 6.0,
            c: 20.0,
        },
        Pb {
            name: "two decays, components of very different size",
            n: 2,
            res: |_, y, p, r| {
                r[0] = p[0] + 50.0 * y[0];
                r[1] = p[1] + 1e-6 * y[1] + 1e3 * y[0];
            },
            jac: |_, cj, _, _, j| {
                j[0] = cj + 50.0;
                j[2] = 1e3;
                j[3] = cj + 1e-6;
            },
            // y1 = e^{-50t} 1e-6, y2 = A e^{-1e-6 t} + B e^{-50 t} 
            exact: |t| {
                let (a, b) = (1e-6 * (-50.0 * t).exp(), (-1e-6 * t).exp());
                // B (-50 + 1e-6) = -1e3 * 1e-6
                let k = 1e-3 / (50.0 - 1e-6);
                let (y2, p2) = (2.0 * b + k * (-50.0 * t).exp(), -2e-6 * b - 50.0 * k * (-50.0 * t).exp());
                (vec![a, y2], vec![-50.0 * a, p2])
            },
            scale: &[1e-6, 1.0],
            tend: 6.0,
            c: 40.0,
        },
        Pb {
            name: "nonlinear in y and y'",
            n: 2,
            // y1' (1 + y2^2) = 2 t (1 + y2^2), exp-free: y1 = 1 + t^2; y2' y1 + 2 t y2 = 0 -> y2 = 1/(1+t^2)
            res: |t, y, p, r| {
                r[0] = (p[0] - 2.0 * t) * (1.0 + y[1] * y[1]);
                r[1] = p[1] * y[0] + p[0] * y[1];
            },
            jac: |t, cj, y, p, j| {
                j[0] = cj * (1.0 + y[1] * y[1]);
                j[1] = (p[0] - 2.0 * t) * 2.0 * y[1];
                j[2] = p[1] + cj * y[1];
                j[3] = cj * y[0] + p[0];
            },
            exact: |t| {
                let d = 1.0 + t * t;
                (vec![d, 1.0 / d], vec![2.0 * t, -2.0 * t / d / d])
            },
            scale: &[1.0, 0.3],
            tend: 3.0,
            c: 120.0,
        },
    ]
}
pub fn world(p: &Pb, dir: f64) -> World {
    let mut w = World::new(p.n);
    let (f, j) = (p.res, p.jac);
    // dir = -1: the problem in reversed time
    w.res = Rc::new(move |t, y, yp, r| {
        let q: V = yp.iter().map(|x| x * dir).collect();
        f(t * dir, y, &q, r)
    });
    w.jac = Rc::new(move |t, cj, y, yp, m| {
        let q: V = yp.iter().map(|x| x * dir).collect();
        j(t * dir, cj * dir, y, &q, m)
    });
    w
}
fn start(p: &Pb, dir: f64, rtol: f64) -> Full {
    let (y, yp) = (p.exact)(0.0);
    let yp: V = yp.iter().map(|x| x * dir).collect();
    let atol: V = p.scale.iter().map(|s| s * rtol).collect();
    full(&y, &yp, rtol, &atol)
}
/// largest error of y over tolerance
fn err(p: &Pb, t: f64, rtol: f64, y: &[f64]) -> f64 {
    let e = (p.exact)(t).0;
    (0..p.n).map(|i| (y[i] - e[i]).abs() / (rtol * e[i].abs() + rtol * p.scale[i])).fold(0.0, f64::max)
}
/// ways of calling: 0 Normal; 1 Normal with dense output after each call; 2 one step at a time, dense output
/// at the output times; 3 Normal calls alternating with single steps
fn run_to(ida: &mut Full, touts: &[f64], way: usize, mut at: impl FnMut(f64, V, V) -> Result<(), String>) -> Result<(), String> {
    let get = |ida: &Full| -> (V, V) { (ida.get_yy().iter().copied().collect(), ida.get_yp().iter().copied().collect()) };
    let mut tret = 0.0;
    let s = touts[touts.len() - 1].signum();
    for &t in touts {
        match way {
            0 | 1 | 3 => {
                if way == 3 && (ida.get_current_time() - t) * s < 0.0 {
                    ida.solve(t, &mut tret, IdaTask::OneStep).map_err(|e| format!("OneStep to {:?}: {}", t, e))?;
                    let (y, yp) = get(ida);
                    at(tret, y, yp)?;
                    if (tret - t) * s >= 0.0 {
                        // covered: fall through to Normal, answered without a step
                    }
                }
                let r = ida.solve(t, &mut tret, IdaTask::Normal).map_err(|e| format!("Normal to {:?}: {}", t, e))?;
                if r != IdaSolveStatus::Success || tret != t {
                    return Err(format!("Normal to {:?} returned {:?} at {:?}", t, r, tret));
                }
                let (y, yp) = get(ida);
                at(t, y, yp)?;
                if way == 1 {
                    let mut d = Array1::from(vec![0.0; ida.get_yy().len()]);
                    for k in 0..=ida.get_last_order() {
                        let tq = ida.get_current_time() - 0.3 * ida.get_last_step();
                        ida.get_dky(tq, k, &mut d).map_err(|e| e.to_string())?;
                    }
                }
            }
            _ => {
                let mut n = 0;
                while (ida.get_current_time() - t) * s < 0.0 || ida.get_num_steps() == 0 {
                    ida.solve(t, &mut tret, IdaTask::OneStep).map_err(|e| format!("OneStep to {:?}: {}", t, e))?;
                    let (y, yp) = get(ida);
                    at(tret, y, yp)?;
                    n += 1;
                    if n > 20000 {
                        return Err(format!("20000 single steps do not reach {:?}", t));
                    }
                }
                let mut d = Array1::from(vec![0.0; ida.get_yy().len()]);
                ida.get_dky(t, 0, &mut d).map_err(|e| e.to_string())?;
                let mut d1 = d.clone();
                ida.get_dky(t, 1, &mut d1).map_err(|e| e.to_string())?;
                at(t, d.iter().copied().collect(), d1.iter().copied().collect())?;
            }
        }
    }
    Ok(())
}
const RTOLS: [f64; 7] = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8];
fn accuracy(p: &Pb, rtol: f64, dir: f64, touts: &[f64], way: usize, mxh: f64, acc: &mut Acc) -> Result<(), String> {
    install(world(p, dir));
    let mut ida = start(p, dir, rtol);
    ida.verif_set_max_num_steps(100_000);
    if mxh > 0.0 {
        ida.verif_set_max_step_inv(1.0 / mxh);
    }
    let show = format!("{}, rtol {:e}, direction {}, way {}, output times {:?}", p.name, rtol, dir, way, touts);
    acc.state(&show);
    let ts: V = touts.iter().map(|t| t * dir).collect();
    let mut worst = 0.0f64;
    let c = p.c;
    run_to(&mut ida, &ts, way, |t, y, _| {
        let e = err(p, t * dir, rtol, &y);
        worst = worst.max(e);
        if !(e <= c) {
            return Err(format!("at {:?} y={:?}, exact {:?}: error {:.1} times the tolerance", t, y, (p.exact)(t * dir).0, e));
        }
        Ok(())
    })
    .map_err(|e| format!("{}: {}", show, e))?;
    acc.step(take_ev().len() as u64);
    acc.trace();
    if std::env::var("E2E_SHOW").is_ok() {
        eprintln!("{:8.2} {:6} {:5} {}", worst, ida.get_num_steps(), ida.get_num_err_test_fails(), show);
    }
    acc.outcome(if worst <= 1.0 {
        "error at most the tolerance"
    } else if worst <= 10.0 {
        "at most ten times the tolerance"
    } else {
        "more than ten times the tolerance"
    });
    acc.sample(|| format!("{}: largest error {:.2} times the tolerance, {} steps", show, worst, ida.get_num_steps()));
    Ok(())
}

/// The calls the integrator makes do not depend on the output times.
fn independent(p: &Pb, rtol: f64, dir: f64, mask: u64, ways: &[u64], acc: &mut Acc) -> Result<(), String> {
    let n = ways.len();
    let grid: V = (1..=n).map(|i| p.tend * dir * ((i * i) as f64) / ((n * n) as f64)).collect();
    let touts: V = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| grid[i]).chain([p.tend * dir * 1.1]).collect();
    let run = |free: bool, acc: &mut Acc| -> Result<Vec<Ev>, String> {
        install(world(p, dir));
        let mut ida = start(p, dir, rtol);
        ida.verif_set_max_num_steps(100_000);
        ida.verif_set_init_step(1e-4 * dir);
        if free {
            run_to(&mut ida, &[p.tend * dir * 1.1], 2, |_, _, _| Ok(()))?;
        } else {
            for (i, t) in touts.iter().enumerate() {
                run_to(&mut ida, &[*t], *ways.get(i).unwrap_or(&0) as usize, |_, _, _| Ok(()))?;
            }
        }
        let ev = take_ev();
        acc.step(ev.len() as u64);
        Ok(ev)
    };
    let show = format!("{}, rtol {:e}, direction {}, output times {:?}, ways {:?}", p.name, rtol, dir, touts, ways);
    acc.state(&show);
    acc.trace();
    let a = run(true, acc).map_err(|e| format!("{}: {}", show, e))?;
    let b = run(false, acc).map_err(|e| format!("{}: {}", show, e))?;
    let close = |x: &[f64], y: &[f64]| x.iter().zip(y).all(|(a, b)| (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) + 1e-13);
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let same = match (x, y) {
            (Ev::Res(t, y, p, _), Ev::Res(u, z, q, _)) => close(&[*t], &[*u]) && close(y, z) && close(p, q),
            (Ev::Jac(t, c, y, ..), Ev::Jac(u, d, z, ..)) => close(&[*t, *c], &[*u, *d]) && close(y, z),
            (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y),
        };
        if !same {
            return Err(format!("{}: call {} is {:?}; with single steps it is {:?}", show, i, y, x));
        }
    }
    if b.len() < a.len() {
        return Err(format!("{}: only {} of {} calls made", show, b.len(), a.len()));
    }
    acc.outcome("same calls");
    Ok(())
}

/// Tightening the tolerance by 100 reduces the error at the end of the run.
fn tighten(p: &Pb, dir: f64, acc: &mut Acc) -> Result<(), String> {
    let mut e = vec![];
    for rtol in RTOLS {
        install(world(p, dir));
        let mut ida = start(p, dir, rtol);
        ida.verif_set_max_num_steps(100_000);
        let mut w = 0.0f64;
        let ts: V = (1..=12).map(|i| p.tend * dir * i as f64 / 12.0).collect();
        run_to(&mut ida, &ts, 0, |t, y, _| {
            w = w.max(err(p, t * dir, rtol, &y) * rtol);
            Ok(())
        })?;
        acc.step(take_ev().len() as u64);
        e.push(w);
    }
    acc.trace();
    acc.state(&(p.name, dir > 0.0));
    for i in 0..e.len() - 2 {
        if !(e[i + 2] < e[i] * 0.5) {
            return Err(format!("{} direction {}: largest errors {:?} for rtol {:?} do not decrease", p.name, dir, e, RTOLS));
        }
    }
    acc.outcome("errors decrease");
    Ok(())
}

/// Robertson kinetics of the sample problem itself, against the reference of the original package.
fn roberts(mode: u64, acc: &mut Acc) -> Result<(), String> {
    use ida::sample_problems::Roberts;
    type R = ida::Ida<Roberts, ida::linear::Dense<f64>, ida::nonlinear::Newton<Roberts>, Tol>;
    // y at t = 0.4 * 10^k (k = 0..11), as printed by the original example; the last column to more digits
    let table: [[f64; 3]; 12] = [
        [9.8517e-01, 3.3864e-05, 1.4794e-02],
        [9.0553e-01, 2.2403e-05, 9.4452e-02],
        [7.1579e-01, 9.1851e-06, 2.8420e-01],
        [4.5044e-01, 3.2228e-06, 5.4955e-01],
        [1.8321e-01, 8.9444e-07, 8.1679e-01],
        [3.8984e-02, 1.6219e-07, 9.6102e-01],
        [4.9388e-03, 1.9850e-08, 9.9506e-01],
        [5.1683e-04, 2.0684e-09, 9.9948e-01],
        [5.2036e-05, 2.0815e-10, 9.9995e-01],
        [5.2103e-06, 2.0841e-11, 9.9999e-01],
        [5.2125e-07, 2.0850e-12, 1.0000e+00],
        [5.2083474e-08, 2.0833400e-13, 9.9999995e-01],
    ];
    let tight = [1.0, 1e-2, 1e-3][(mode % 3) as usize];
    let upto = mode / 3 % 12 + 1;
    let onestep = mode / 36 % 2 == 1;
    let (rtol, atol) = (1e-4 * tight, [1e-8 * tight, 1e-6 * tight, 1e-6 * tight]);
    // the original example: atol = 1e-8, 1e-6, 1e-6 (the tight runs keep the proportions but for the radical)
    let atol = if tight == 1.0 { vec![1e-8, 1e-14, 1e-6] } else { vec![atol[0], 1e-12 * tight, atol[2]] };
    let p = Roberts {};
    let mut ida: R = ida::Ida::new(p, Array1::from(vec![1.0, 0.0, 0.0]), Array1::from(vec![-0.04, 0.04, 0.0]), Tol::new(rtol, Array1::from(atol.clone())));
    ida.verif_set_max_num_steps(100_000);
    let show = format!("Roberts rtol {:e} atol {:?} to 0.4e{} {}", rtol, atol, upto - 1, if onestep { "one step at a time" } else { "" });
    acc.state(&show);
    let mut tret = 0.0;
    let mut roots = vec![];
    let mut k = 0;
    let mut prev = 0.0;
    let mut calls = 0;
    while k < upto {
        let tout = 0.4 * 10f64.powi(k as i32);
        calls += 1;
        if calls > 100_000 {
            return Err(format!("{}: does not get there", show));
        }
        let r = ida.solve(tout, &mut tret, if onestep { IdaTask::OneStep } else { IdaTask::Normal }).map_err(|e| format!("{} at {:?}: {}", show, tret, e))?;
        acc.step(1);
        let mut y: V = ida.get_yy().iter().copied().collect();
        if (tret - prev) < 0.0 {
            return Err(format!("{}: went back from {:?} to {:?}", show, prev, tret));
        }
        prev = tret;
        if (y[0] + y[1] + y[2] - 1.0).abs() > 1e-3 {
            return Err(format!("{}: y = {:?} at {:?} violates the conservation law", show, y, tret));
        }
        match r {
            IdaSolveStatus::Root => {
                let f: V = ida.get_root_info().iter().copied().collect();
                roots.push((tret, f));
            }
            IdaSolveStatus::Success => {
                if onestep {
                    if tret < tout {
                        continue;
                    }
                    let mut d = Array1::from(vec![0.0; 3]);
                    ida.get_dky(tout, 0, &mut d).map_err(|e| e.to_string())?;
                    y = d.iter().copied().collect();
                } else if tret != tout {
                    return Err(format!("{}: returned at {:?} for {:?}", show, tret, tout));
                }
                let w = table[k as usize];
                // the table was computed with rtol 1e-4 and printed with five digits
                for i in 0..3 {
                    if (y[i] - w[i]).abs() > 4e-3 * w[i] + 3.0 * atol[i] {
                        return Err(format!("{}: y({:?}) = {:?}, reference {:?}", show, tout, y, w));
                    }
                }
                k += 1;
            }
            s => return Err(format!("{}: {:?}", show, s)),
        }
    }
    acc.trace();
    // y3 = 0.01 at t = 0.2639 rising; y1 = 1e-4 at t = 2.0788e7 falling
    let want: Vec<(f64, V)> = [(2.6391e-1, vec![0.0, 1.0]), (2.0788e7, vec![-1.0, 0.0])].into_iter().filter(|(t, _)| *t < prev).collect();
    if roots.len() != want.len() || roots.iter().zip(&want).any(|(a, b)| (a.0 - b.0).abs() > 5e-3 * b.0 || a.1 != b.1) {
        return Err(format!("{}: roots {:?}, reference {:?}", show, roots, want));
    }
    acc.outcome("Roberts");
    Ok(())
}

/// Times at which component `comp` of the exact solution passes `level` in (0, tend), and the slope there.
fn passes(p: &Pb, comp: usize, level: f64) -> Vec<(f64, f64)> {
    let f = |t: f64| (p.exact)(t).0[comp] - level;
    let n = 4000;
    let mut r = vec![];
    for i in 0..n {
        let (mut a, mut b) = (p.tend * i as f64 / n as f64, p.tend * (i + 1) as f64 / n as f64);
        if f(a) * f(b) < 0.0 {
            for _ in 0..80 {
                let m = 0.5 * (a + b);
                if f(a) * f(m) <= 0.0 {
                    b = m
                } else {
                    a = m
                }
            }
            r.push((b, (p.exact)(b).1[comp]));
        }
    }
    r
}
/// Events with the real solvers: all passages of levels by the exact solution are reported, in order, where
/// the exact solution passes them up to the global error.  Optionally a stop time.
fn events(p: &Pb, rtol: f64, dir: f64, lv: &[(usize, f64)], way: u64, stop: Option<f64>, acc: &mut Acc) -> Result<(), String> {
    let mut wd = world(p, dir);
    wd.nroots = lv.len();
    let l2 = lv.to_vec();
    wd.root = Rc::new(move |_, y, _, g| {
        for (i, (c, l)) in l2.iter().enumerate() {
            g[i] = y[*c] - l;
        }
    });
    install(wd);
    let mut ida = start(p, dir, rtol);
    ida.verif_set_max_num_steps(100_000);
    ida.verif_set_stop_time(stop.map(|s| s * dir));
    let show = format!("{}, rtol {:e}, direction {}, levels {:?}, way {}, stop time {:?}", p.name, rtol, dir, lv, way, stop);
    acc.state(&show);
    let mut want: Vec<(f64, usize, f64)> = vec![];
    for (i, (c, l)) in lv.iter().enumerate() {
        want.extend(passes(p, *c, *l).into_iter().map(|(t, s)| (t, i, s)));
    }
    want.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let tout = p.tend;
    let (mut tret, mut got, mut stopped, mut prev) = (0.0, vec![], false, 0.0);
    for k in 0.. {
        if k > 30_000 {
            return Err(format!("{}: does not reach the end", show));
        }
        let one = way == 1 || (way == 2 && k % 3 == 1);
        let r = ida.solve(tout * dir, &mut tret, if one { IdaTask::OneStep } else { IdaTask::Normal }).map_err(|e| format!("{} at {:?}: {}", show, tret, e))?;
        let t = tret * dir;
        let y: V = ida.get_yy().iter().copied().collect();
        if t < prev {
            return Err(format!("{}: returned {:?} after {:?}", show, t, prev));
        }
        prev = t;
        let e = err(p, t, rtol, &y);
        if !(e <= p.c) {
            return Err(format!("{}: {:?} at {:?}: y={:?}: error {:.1} times the tolerance", show, r, t, y, e));
        }
        match r {
            IdaSolveStatus::Root => {
                for (i, f) in ida.get_root_info().iter().enumerate() {
                    if *f != 0.0 {
                        got.push((t, i, *f));
                    }
                }
            }
            IdaSolveStatus::TStop => {
                if stopped || stop.map(|s| (s - t).abs() > 1e-9) != Some(false) {
                    return Err(format!("{}: stopped at {:?}", show, t));
                }
                stopped = true;
            }
            IdaSolveStatus::Success => {
                if !stopped && stop.is_some_and(|s| t > s + 1e-9) {
                    return Err(format!("{}: went past the stop time to {:?}", show, t));
                }
                if t >= tout {
                    break;
                }
                if !one {
                    return Err(format!("{}: Normal returned at {:?}", show, t));
                }
            }
            IdaSolveStatus::ContinueSteps => return Err(format!("{}: status ContinueSteps", show)),
        }
    }
    acc.step(take_ev().len() as u64);
    acc.trace();
    if stop.is_some() && !stopped {
        return Err(format!("{}: the stop time was not reported", show));
    }
    // a single step may end beyond tout and report passages there
    got.retain(|g| g.0 <= tout);
    for i in 0..lv.len() {
        let w: Vec<_> = want.iter().filter(|x| x.1 == i).collect();
        let g: Vec<_> = got.iter().filter(|x| x.1 == i).collect();
        let c = lv[i].0;
        let off = |w: &(f64, usize, f64)| p.c * rtol * ((p.exact)(w.0).0[c].abs() + p.scale[c]) / w.2.abs() * 1.5 + 1e-9;
        if w.len() != g.len() || w.iter().zip(&g).any(|(w, g)| (w.0 - g.0).abs() > off(w) || g.2 != w.2.signum()) {
            return Err(format!("{}: function {}: passages (time, sign) {:?} reported, the exact ones (time, slope) are {:?}", show, i, g, w));
        }
    }
    acc.outcome(if want.is_empty() { "no passage" } else { "passages of levels" });
    Ok(())
}

pub fn i11() -> Check {
    let deep = tier() == Tier::Thorough;
    let pbs = problems().len() as u64;
    let mut v = vec![];
    // accuracy: every subset of five output times
    let nt = if deep { 7u32 } else { 4 };
    v.push(Space::new(format!("accuracy: {} problems x 7 tolerances x 2 directions x 4 ways of calling x {} sets of output times", pbs, 1u64 << nt), pbs * 7 * 2 * 4 * (1 << nt), move |idx, acc| {
        let mut i = idx;
        let p = problems()[take(&mut i, pbs) as usize];
        let rtol = RTOLS[take(&mut i, 7) as usize];
        let dir = [1.0, -1.0][take(&mut i, 2) as usize];
        let way = take(&mut i, 4) as usize;
        let mut t: V = (0..nt as u64).filter(|b| i >> b & 1 == 1).map(|b| p.tend * ((b + 1) as f64) / (nt as f64 + 0.5)).collect();
        t.push(p.tend);
        accuracy(&p, rtol, dir, &t, way, 0.0, acc)
    }));
    v.push(Space::new("accuracy: first output time very near, maximum step", pbs * 7 * 2 * 4 * 4, move |idx, acc| {
        let mut i = idx;
        let p = problems()[take(&mut i, pbs) as usize];
        let rtol = RTOLS[take(&mut i, 7) as usize];
        let dir = [1.0, -1.0][take(&mut i, 2) as usize];
        let way = take(&mut i, 4) as usize;
        let first = [1e-9, 1e-6, 1e-3, 0.05][take(&mut i, 4) as usize];
        accuracy(&p, rtol, dir, &[first, 3.0 * first, p.tend], way, if way == 1 { 0.05 } else { 0.0 }, acc)
    }));
    v.push(Space::new("error decreases with the tolerance", pbs * 2, move |idx, acc| tighten(&problems()[(idx / 2) as usize], [1.0, -1.0][(idx % 2) as usize], acc)));
    let ng = if deep { 5u64 } else { 3 };
    v.push(Space::new(format!("calls do not depend on output: {} problems x 3 tolerances x 2 directions x 2^{} output times x 4^{} ways of calling", pbs, ng, ng), pbs * 3 * 2 * (1 << ng) * 4u64.pow(ng as u32), move |idx, acc| {
        let mut i = idx;
        let p = problems()[take(&mut i, pbs) as usize];
        let rtol = [1e-3, 1e-5, 1e-7][take(&mut i, 3) as usize];
        let dir = [1.0, -1.0][take(&mut i, 2) as usize];
        let mask = take(&mut i, 1 << ng);
        independent(&p, rtol, dir, mask, &digits(i, 4, ng as usize), acc)
    }));
    // every set of levels, away from turning points
    const LV: [(usize, usize, f64); 9] = [(0, 0, 0.9), (0, 0, 0.3), (0, 0, 0.05), (2, 0, 0.5), (2, 1, -0.7), (2, 0, -0.3), (3, 0, 0.5), (3, 0, 0.15), (3, 0, 0.9)];
    v.push(Space::new("events: 3 problems x 7 sets of levels x 4 tolerances x 2 directions x 3 ways of calling x 5 stop times", 3 * 7 * 4 * 2 * 3 * 5, move |idx, acc| {
        let mut i = idx;
        let g = take(&mut i, 3) as usize;
        let p = problems()[LV[3 * g].0];
        let m = take(&mut i, 7) + 1;
        let rtol = [1e-3, 1e-4, 1e-6, 1e-8][take(&mut i, 4) as usize];
        let dir = [1.0, -1.0][take(&mut i, 2) as usize];
        let way = take(&mut i, 3);
        let lv: Vec<(usize, f64)> = (0..3).filter(|b| m >> b & 1 == 1).map(|b| (LV[3 * g + b].1, LV[3 * g + b].2)).collect();
        let stop = [None, Some(0.01), Some(1.0), Some(2.5), Some(5.9)][i as usize];
        events(&p, rtol, dir, &lv, way, stop, acc)
    }));
    v.push(Space::new("Roberts against the original package: 3 tolerances x 12 end times x 2 ways of calling", 72, |idx, acc| roberts(idx, acc)));
    Check {
        id: "I11".into(),
        spaces: v,
        assumptions: vec!["error bounds are generous multiples of the tolerance (40 to 150)".into(), "initial step and limits are set through the verif_hooks feature".into(), "the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "every problem, tolerance, direction, set of output times and way of calling: error against the exact solution; identical calls of the problem whatever the output times; the Robertson problem against the published results".into(),
    }
}
