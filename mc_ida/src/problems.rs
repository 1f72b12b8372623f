//! I10: the sample problems are the systems their documentation says.
use crate::h::V;
use ida::sample_problems::{Roberts, SlCrank};
use ida::traits::{Jacobian, ModelSpec, Residual, Root};
use mcengine::*;
use ndarray::prelude::*;

fn res<P: Residual + ModelSpec<Scalar = f64, Dim = Ix1>>(p: &P, t: f64, y: &[f64], yp: &[f64]) -> V {
    let mut r = Array1::from(vec![f64::NAN; y.len()]);
    let (y, yp) = (Array1::from(y.to_vec()), Array1::from(yp.to_vec()));
    p.res(t, y.view(), yp.view(), r.view_mut());
    r.iter().copied().collect()
}
fn near(a: f64, b: f64, s: f64) -> bool {
    (a - b).abs() <= 1e-12 * s
}

/// Robertson: residual, Jacobian of F with respect to y plus cj times that with respect to y', roots.
fn roberts(idx: u64, acc: &mut Acc) -> Result<(), String> {
    let ys = [0.0, 1.0, 0.5, -2e-4, 3e-9];
    let ps = [0.0, -0.04, 7.0];
    let cjs = [1.0, -250.0, 1e-3];
    let mut i = idx;
    let mut dig = |b: u64| {
        let r = i % b;
        i /= b;
        r as usize
    };
    let y: V = (0..3).map(|_| ys[dig(5)]).collect();
    let yp: V = (0..3).map(|_| ps[dig(3)]).collect();
    let cj = cjs[dig(3)];
    let t = [0.0, 0.4, 4e10][dig(3)];
    let p = Roberts {};
    acc.state(&idx);
    acc.step(3);
    acc.trace();
    let r = res(&p, t, &y, &yp);
    let f1 = -0.04 * y[0] + 1e4 * y[1] * y[2];
    let want = [f1 - yp[0], -f1 - 3e7 * y[1] * y[1] - yp[1], y[0] + y[1] + y[2] - 1.0];
    let s = 1.0 + 1e4 * (y[1] * y[2]).abs() + 3e7 * y[1] * y[1] + 7.0;
    for k in 0..3 {
        if !near(r[k], want[k], s) {
            return Err(format!("Roberts: residual at y={:?} y'={:?} is {:?}, should be {:?}", y, yp, r, want));
        }
    }
    let mut j = Array2::from_elem((3, 3), 0.0);
    let (ya, pa, ra) = (Array1::from(y.clone()), Array1::from(yp.clone()), Array1::from(r.clone()));
    p.jac(t, cj, ya.view(), pa.view(), ra.view(), j.view_mut());
    // the residual is quadratic: central differences along (e_c, cj e_c) are exact up to rounding
    for c in 0..3 {
        let h = 0.25;
        let at = |d: f64| {
            let (mut y, mut yp) = (y.clone(), yp.clone());
            y[c] += d;
            yp[c] += d * cj;
            res(&p, t, &y, &yp)
        };
        let (a, b) = (at(h), at(-h));
        for r in 0..3 {
            let want = (a[r] - b[r]) / (2.0 * h);
            if (j[[r, c]] - want).abs() > 1e-11 * (a[r].abs() + b[r].abs() + 1.0) / h {
                return Err(format!("Roberts: Jacobian entry [{}, {}] at y={:?}, cj={:?} is {:?}, the derivative of the residual is {:?}", r, c, y, cj, j[[r, c]], want));
            }
        }
    }
    let mut g = Array1::from(vec![f64::NAN; p.num_roots()]);
    p.root(t, ya.view(), pa.view(), g.view_mut());
    if p.num_roots() != 2 || !near(g[0], y[0] - 1e-4, 1.0) || !near(g[1], y[2] - 0.01, 1.0) || p.model_size() != 3 {
        return Err(format!("Roberts: root functions at y={:?} are {:?}", y, g));
    }
    acc.outcome("Roberts");
    acc.sample(|| format!("Roberts at t={:?} y={:?} y'={:?} cj={:?}: residual {:?}", t, y, yp, cj, r));
    Ok(())
}

/// Value and derivative along one direction.
#[derive(Clone, Copy)]
struct D(f64, f64);
impl std::ops::Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        D(self.0 + o.0, self.1 + o.1)
    }
}
impl std::ops::Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        D(self.0 - o.0, self.1 - o.1)
    }
}
impl std::ops::Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        D(self.0 * o.0, self.0 * o.1 + self.1 * o.0)
    }
}
impl D {
    fn sin(self) -> D {
        D(self.0.sin(), self.1 * self.0.cos())
    }
    fn cos(self) -> D {
        D(self.0.cos(), -self.1 * self.0.sin())
    }
    fn sqrt(self) -> D {
        D(self.0.sqrt(), self.1 / (2.0 * self.0.sqrt()))
    }
}
/// partial derivatives of a function of (crank angle, slider position, rod angle)
fn grad(q: &[f64], f: impl Fn(D, D, D) -> D) -> (f64, [f64; 3]) {
    let at = |k: usize| f(D(q[0], (k == 0) as i32 as f64), D(q[1], (k == 1) as i32 as f64), D(q[2], (k == 2) as i32 as f64));
    (at(0).0, [at(0).1, at(1).1, at(2).1])
}

/// The mechanism from its geometry: crank of length a from the origin, rod of length 1 from the slider at
/// (x, 0) to the end of the crank, spring and damper between the two midpoints, force on the rod.
fn slider(y: &[f64], yp: &[f64], acc: &mut Acc) -> Result<(), String> {
    let (a, j1, m2, j2, k, c, l0, force) = (0.5, 1.0, 1.0, 2.0, 1.0, 1.0, 1.0, 1.0);
    let ka = D(a, 0.0);
    let half = D(0.5, 0.0);
    let q = &y[0..3];
    let v = &y[3..6];
    let dot = |g: &[f64; 3]| g.iter().zip(v).map(|(g, v)| g * v).sum::<f64>();
    // distance of the midpoints
    let (l, gl) = grad(q, |q, x, p| {
        let dx = x - half * p.cos() - half * ka * q.cos();
        let dy = half * p.sin() + half * ka * q.sin();
        (dx * dx + dy * dy).sqrt()
    });
    if l < 1e-3 {
        acc.outcome("(spring of no length)");
        return Ok(());
    }
    let f = k * (l - l0) + c * dot(&gl);
    // the force acts horizontally at the far end of the rod
    let (_, gf) = grad(q, |_, x, p| x + p.cos());
    let (phi1, g1) = grad(q, |q, x, p| x - p.cos() - ka * q.cos());
    let (phi2, g2) = grad(q, |q, _, p| D(0.0, 0.0) - p.sin() - ka * q.sin());
    let mass = [j1, m2, j2];
    let mut want = vec![0.0; 10];
    for i in 0..3 {
        want[i] = yp[i] - v[i] + g1[i] * y[8] + g2[i] * y[9];
        want[3 + i] = mass[i] * yp[3 + i] - (-f * gl[i] + force * gf[i]) + g1[i] * y[6] + g2[i] * y[7];
    }
    want[6] = phi1;
    want[7] = phi2;
    want[8] = dot(&g1);
    want[9] = dot(&g2);
    let p = SlCrank::default();
    let r = res(&p, 0.0, y, yp);
    acc.step(1);
    acc.trace();
    let s = 1.0 + y.iter().chain(yp).fold(0.0f64, |a, x| a.max(x.abs())) * 10.0 * (1.0 + 1.0 / l);
    for i in 0..10 {
        if !near(r[i], want[i], s * 10.0) {
            return Err(format!("slider-crank: residual component {} at y={:?} y'={:?} is {:?}, the mechanism gives {:?}", i, y, yp, r[i], want[i]));
        }
    }
    if p.model_size() != 10 {
        return Err("slider-crank: model size".into());
    }
    acc.outcome("slider-crank");
    acc.sample(|| format!("slider-crank at y={:?} y'={:?}: residual {:?}", y, yp, r));
    Ok(())
}

pub fn i10() -> Check {
    let deep = tier() == Tier::Thorough;
    let mut v = vec![Space::new("Roberts: y 5^3 x y' 3^3 x cj 3 x t 3", 125 * 27 * 9, roberts)];
    let n = if deep { 8u64 } else { 5 };
    let al = [0.0, 0.7, -1.3, 2.9, -0.2, 1.6, 3.5, -2.2];
    v.push(Space::new(format!("slider-crank: positions and velocities {}^6", n), n.pow(6), move |idx, acc| {
        let d = digits(idx, n, 6);
        let mut y: V = d.iter().map(|&k| al[k as usize]).collect();
        acc.state(&idx);
        // the multipliers and derivatives enter linearly: several values each, all different
        y.extend([0.3, -0.8, 1.7, -0.6]);
        let yp: V = (0..10).map(|i| ((idx as f64 * 0.37 + i as f64 * 1.9).sin() * 3.0)).collect();
        slider(&y, &yp, acc)
    }));
    let al2 = [0.0, 1.0, -2.5];
    v.push(Space::new("slider-crank: multipliers 3^4 x derivatives 3^6 x 4 states", 81 * 729 * 4, move |idx, acc| {
        let mut i = idx;
        let st = take(&mut i, 4) as usize;
        let mut y: V = [[0.0, 1.0, 0.0, 0.0, 0.0, 0.0], [1.0, 1.1, -0.4, 0.5, -0.3, 0.2], [-2.0, 0.6, 0.5, -1.0, 1.0, 2.0], [3.1, -0.4, 2.2, 0.0, 0.7, -0.1]][st].to_vec();
        let d = digits(i, 3, 10);
        acc.state(&(1, idx));
        y.extend(d[..4].iter().map(|&k| al2[k as usize]));
        let mut yp: V = d[4..].iter().map(|&k| al2[k as usize]).collect();
        yp.extend([9.0, -7.0, 5.0, 3.0]);
        slider(&y, &yp, acc)
    }));
    Check {
        id: "I10".into(),
        spaces: v,
        assumptions: vec!["default parameters of the slider-crank (the fields are private)".into(), "the integrator sources are compiled against an ndarray/failure stand-in (shim/)".into()],
        rule: "every combination of the value alphabets: residuals, Jacobian and root functions of the sample problems against the documented equations, the derivative of the residual, and the geometry of the mechanism".into(),
    }
}
