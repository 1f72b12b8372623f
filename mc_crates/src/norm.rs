//! W01: the weighted root-mean-square norm.
use crate::rat::{Rat, NAN};
use mcengine::*;
use nalgebra::{Const, DMatrix, DVector, Dyn, MatrixView, SVector, U1};
use nonlinear::norm_wrms::NormWRMS;

fn hashf(a: &[f64], b: &[f64]) -> u64 {
    hash_of(&(a.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), b.iter().map(|v| v.to_bits()).collect::<Vec<_>>()))
}
/// sum of squares is computed exactly (inputs are small dyadics), one rounding in the division and one
/// in the root remain: 4 ulps covers every order of evaluation.
fn want(x: &[f64], w: &[f64]) -> f64 {
    let s: f64 = x.iter().zip(w).map(|(a, b)| (a * b) * (a * b)).sum();
    (s / x.len() as f64).sqrt()
}
fn close(got: f64, want: f64) -> bool {
    got == want || (got - want).abs() <= 4.0 * f64::EPSILON * want.abs()
}
/// the norm through every storage kind nalgebra offers for the pair
fn all_storages<const N: usize>(x: &[f64], w: &[f64], acc: &mut Acc) -> Result<(), String> {
    let want = want(x, w);
    let mut got: Vec<(&str, f64)> = vec![];
    let (dx, dw) = (DVector::from_row_slice(x), DVector::from_row_slice(w));
    got.push(("dynamic", dx.norm_wrms(&dw)));
    got.push(("dynamic matrix with one column", DMatrix::from_column_slice(x.len(), 1, x).norm_wrms(&dw)));
    if x.len() == N {
        let (sx, sw) = (SVector::<f64, N>::from_row_slice(x), SVector::<f64, N>::from_row_slice(w));
        got.push(("static", sx.norm_wrms(&sw)));
        got.push(("static/dynamic", sx.norm_wrms(&dw)));
        got.push(("dynamic/static", dx.norm_wrms(&sw)));
        // strided views
        let mut bx = vec![f64::NAN; 3 * N + 1];
        let mut bw = vec![f64::NAN; 2 * N + 1];
        for i in 0..N {
            bx[1 + 3 * i] = x[i];
            bw[2 * i] = w[i];
        }
        let vx: MatrixView<f64, Const<N>, U1, Dyn, Dyn> = MatrixView::from_slice_with_strides_generic(&bx[1..], Const::<N>, Const::<1>, Dyn(3), Dyn(3 * N));
        let vw: MatrixView<f64, Const<N>, U1, Dyn, Dyn> = MatrixView::from_slice_with_strides_generic(&bw, Const::<N>, Const::<1>, Dyn(2), Dyn(2 * N));
        got.push(("views", vx.norm_wrms(&vw)));
        // a column of a larger matrix
        let m = DMatrix::<f64>::from_fn(N, 3, |i, j| if j == 1 { x[i] } else { 1e30 });
        got.push(("matrix column", m.column(1).norm_wrms(&dw)));
    }
    acc.step(got.len() as u64);
    acc.state(&hashf(x, w));
    acc.trace();
    for (k, g) in got {
        if !close(g, want) {
            return Err(format!("{} norm of x={:?} w={:?} is {:e}, expected {:e}", k, x, w, g, want));
        }
    }
    acc.outcome(if want == 0.0 { "zero norm" } else if want == want.round() { "integer norm" } else { "other norm" });
    acc.sample(|| format!("x={:?} w={:?} norm {}", x, w, want));
    Ok(())
}
fn small<const N: usize>(xs: &'static [f64], ws: &'static [f64]) -> Space {
    let (a, b) = (xs.len() as u64, ws.len() as u64);
    Space::new(format!("all-vectors-n{}", N), (a * b).pow(N as u32), move |mut i, acc| {
        let mut x = [0.0; N];
        let mut w = [0.0; N];
        for k in 0..N {
            x[k] = xs[take(&mut i, a) as usize];
            w[k] = ws[take(&mut i, b) as usize];
        }
        all_storages::<N>(&x, &w, acc)
    })
}
/// length n, two spikes at every pair of positions
fn spikes(nmax: u64) -> Space {
    Space::new("spikes-in-every-length", nmax * nmax * 3, move |mut i, acc| {
        let n = take(&mut i, nmax) as usize + 1;
        let p = take(&mut i, nmax) as usize;
        let kind = i;
        if p >= n {
            return Ok(());
        }
        let mut x = vec![[0.0, 1.0, -0.5][kind as usize]; n];
        let mut w = vec![[1.0, 0.5, 2.0][kind as usize]; n];
        x[p] = 8.0;
        w[p] = -0.25;
        x[n - 1 - p] += 3.0;
        all_storages::<16>(&x, &w, acc)
    })
}
fn long_lengths() -> Space {
    let lens = [255usize, 256, 257, 1000, 65535, 65536, 65537, 100_000, 1 << 20];
    Space::new("long-vectors", lens.len() as u64 * 4, move |mut i, acc| {
        let n = lens[take(&mut i, lens.len() as u64) as usize];
        let x: Vec<f64> = (0..n)
            .map(|k| match i {
                0 => 1.0,
                1 => (k % 3) as f64 - 1.0,
                2 => (k == n - 1) as u8 as f64 * 4.0,
                _ => 0.5,
            })
            .collect();
        let w = vec![if i == 3 { -2.0 } else { 1.0 }; n];
        let (dx, dw) = (DVector::from_vec(x.clone()), DVector::from_vec(w.clone()));
        let g = dx.norm_wrms(&dw);
        acc.step(1);
        acc.trace();
        acc.state(&(n, i));
        acc.outcome("long");
        if !close(g, want(&x, &w)) {
            return Err(format!("norm of a vector of length {} (kind {}) is {:e}, expected {:e}", n, i, g, want(&x, &w)));
        }
        Ok(())
    })
}
/// scaling by powers of two is exact as long as squares stay in range
fn scaling() -> Space {
    Space::new("power-of-two-scaling", 5 * 101 * 101, |mut i, acc| {
        let n = 1 + take(&mut i, 5) as usize;
        let (kx, kw) = ((take(&mut i, 101) as i32 - 50) * 5, (take(&mut i, 101) as i32 - 50) * 5);
        let x: Vec<f64> = (0..n).map(|k| [1.0, -3.0, 0.5, 2.0, 7.0][k]).collect();
        let w: Vec<f64> = (0..n).map(|k| [2.0, 1.0, -1.0, 4.0, 0.25][k]).collect();
        let base = want(&x, &w);
        let xs = DVector::from_iterator(n, x.iter().map(|v| v * 2f64.powi(kx)));
        let ws = DVector::from_iterator(n, w.iter().map(|v| v * 2f64.powi(kw)));
        let g = xs.norm_wrms(&ws);
        acc.step(1);
        acc.trace();
        acc.state(&(n, kx, kw));
        acc.outcome("scaled");
        let e = base * 2f64.powi(kx + kw);
        if (kx + kw).abs() <= 480 && !close(g, e) {
            return Err(format!("x*2^{} w*2^{}: norm {:e}, expected {:e}", kx, kw, g, e));
        }
        Ok(())
    })
}
/// a NaN or infinity anywhere is never hidden
fn nonfinite() -> Space {
    Space::new("non-finite-components", 24 * 24 * 4, |mut i, acc| {
        let n = 1 + take(&mut i, 24) as usize;
        let p = take(&mut i, 24) as usize;
        if p >= n {
            return Ok(());
        }
        let mut x = DVector::from_element(n, 1.0);
        let mut w = DVector::from_element(n, 0.5);
        match i {
            0 => x[p] = f64::NAN,
            1 => w[p] = f64::NAN,
            2 => x[p] = f64::INFINITY,
            _ => w[p] = f64::NEG_INFINITY,
        }
        let g = x.norm_wrms(&w);
        acc.step(1);
        acc.trace();
        acc.state(&(n, p, i));
        acc.outcome(if g.is_nan() { "NaN" } else { "infinite" });
        if g.is_finite() {
            return Err(format!("length {} with a non-finite component at {}: norm {}", n, p, g));
        }
        Ok(())
    })
}
/// exact rational arithmetic on vectors whose mean square is a perfect square
fn exact() -> Space {
    Space::new("exact-perfect-squares", 40 * 7 * 7, |mut i, acc| {
        let n = 1 + take(&mut i, 40) as usize;
        let c = Rat::new(zigzag(take(&mut i, 7)) as i128 + 4, 3);
        let f = [Rat::int(1), Rat::int(-1), Rat::new(1, 2), Rat::new(-7, 3), Rat::int(5), Rat::new(1, 97), Rat::int(1000)][i as usize];
        let x = DVector::from_fn(n, |k, _| if k % 2 == 0 { c * f } else { -c / f });
        let w = DVector::from_fn(n, |k, _| if k % 2 == 0 { Rat::int(1) / f } else { f });
        let g = x.norm_wrms(&w);
        acc.step(1);
        acc.trace();
        acc.state(&(n, c, f));
        acc.outcome("exact");
        let e = if c < Rat::int(0) { -c } else { c };
        if g != e {
            return Err(format!("exact norm of length {} is {:?}, expected {:?}", n, g, e));
        }
        let _ = NAN;
        Ok(())
    })
}
pub fn w01() -> Check {
    static X6: [f64; 6] = [0.0, 1.0, -1.0, 2.0, -0.5, 3.0];
    static W5: [f64; 5] = [1.0, 0.5, 2.0, -1.0, 0.0];
    static X4: [f64; 4] = [0.0, 1.0, -2.0, 0.5];
    static W3: [f64; 3] = [1.0, 0.5, -2.0];
    static X3: [f64; 3] = [0.0, 1.0, -2.0];
    static W2: [f64; 2] = [1.0, 0.5];
    let mut v = vec![small::<1>(&X6, &W5), small::<2>(&X6, &W5), small::<3>(&X6, &W5), small::<4>(&X4, &W3), small::<5>(&X4, &W3), small::<6>(&X3, &W2), small::<7>(&X3, &W2)];
    if tier() == Tier::Thorough {
        v.push(small::<4>(&X6, &W5));
        v.push(small::<6>(&X4, &W3));
        v.push(small::<8>(&X3, &W2));
    }
    v.push(spikes(if tier() == Tier::Thorough { 400 } else { 130 }));
    v.push(long_lengths());
    v.push(scaling());
    v.push(nonfinite());
    v.push(exact());
    Check { id: "W01".into(), spaces: v, rule: "every vector and weight vector over small alphabets, every length with a spike at every position, every storage kind".into(), assumptions: vec!["vectors have at least one component; squares that overflow or underflow are not judged".into()] }
}
