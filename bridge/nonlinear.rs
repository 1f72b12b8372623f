//! Bridge: the `nonlinear` module with ndarray signatures expected by the integrator sources,
//! delegated to the real crates/nonlinear.
use crate::traits::{IdaProblem, ModelSpec};
use nalgebra::{Const, Matrix, RealField, SVector, Storage, StorageMut, U1};
use ndarray::prelude::*;
use ndarray::{Data, DataMut};

pub use ::nonlinear::Error;

pub trait NLProblem<P: ModelSpec> {
    fn sys<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: Data<Elem = P::Scalar>,
        S2: DataMut<Elem = P::Scalar>;
    fn setup<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: Data<Elem = P::Scalar>,
        S2: Data<Elem = P::Scalar>;
    fn solve<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, b: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: Data<Elem = P::Scalar>,
        S2: DataMut<Elem = P::Scalar>;
    fn ctest<S1, S2, S3, NLS>(&mut self, solver: &NLS, y: ArrayBase<S1, Ix1>, del: ArrayBase<S2, Ix1>, tol: P::Scalar, ewt: ArrayBase<S3, Ix1>) -> Result<bool, failure::Error>
    where
        S1: Data<Elem = P::Scalar>,
        S2: Data<Elem = P::Scalar>,
        S3: Data<Elem = P::Scalar>,
        NLS: NLSolver<P>;
}

pub trait NLSolver<P: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;
    fn setup<S1: DataMut<Elem = P::Scalar>>(&mut self, y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>;
    fn solve<N, S1, S2>(&mut self, problem: &mut N, y0: ArrayBase<S1, Ix1>, y: ArrayBase<S2, Ix1>, w: Array1<P::Scalar>, tol: P::Scalar, call_lsetup: bool) -> Result<(), failure::Error>
    where
        N: NLProblem<P>,
        S1: Data<Elem = P::Scalar>,
        S2: DataMut<Elem = P::Scalar>;
    fn get_num_iters(&self) -> usize;
    fn get_cur_iter(&self) -> usize;
    fn get_num_conv_fails(&self) -> usize {
        0
    }
}

/// What a convergence test sees of the solver.
struct CurIter(usize, usize);
impl<P: ModelSpec> NLSolver<P> for CurIter {
    fn new(_: usize, _: usize) -> Self {
        unreachable!("ENGINE")
    }
    fn setup<S1: DataMut<Elem = P::Scalar>>(&mut self, _: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error> {
        unreachable!("ENGINE")
    }
    fn solve<N, S1, S2>(&mut self, _: &mut N, _: ArrayBase<S1, Ix1>, _: ArrayBase<S2, Ix1>, _: Array1<P::Scalar>, _: P::Scalar, _: bool) -> Result<(), failure::Error>
    where
        N: NLProblem<P>,
        S1: Data<Elem = P::Scalar>,
        S2: DataMut<Elem = P::Scalar>,
    {
        unreachable!("ENGINE")
    }
    fn get_num_iters(&self) -> usize {
        self.1
    }
    fn get_cur_iter(&self) -> usize {
        self.0
    }
}

/// Adapts an ndarray problem to the real crate's trait.  Errors that `nonlinear::Error` cannot carry
/// (the integrator's own error type) are parked in `stash` and travel through the real solver as
/// `IllegalInput`, which it treats like every unrecoverable error.
struct Adapter<'a, N, P> {
    nlp: &'a mut N,
    stash: Option<failure::Error>,
    p: std::marker::PhantomData<P>,
}
fn arr<T: nalgebra::Scalar + Copy, const K: usize, S: Storage<T, Const<K>, U1>>(m: &Matrix<T, Const<K>, U1, S>) -> Array1<T> {
    Array1::from(m.iter().copied().collect::<Vec<T>>())
}
impl<'a, N, P> Adapter<'a, N, P> {
    fn err(&mut self, e: failure::Error) -> Error {
        match e.downcast::<Error>() {
            Ok(e) => e,
            Err(e) => {
                self.stash = Some(e);
                Error::IllegalInput {}
            }
        }
    }
}
impl<'a, N, P, T, const K: usize> ::nonlinear::NLProblem<T, Const<K>> for Adapter<'a, N, P>
where
    P: ModelSpec<Scalar = T>,
    N: NLProblem<P>,
    T: RealField + Copy,
{
    fn sys<SB1, SB2>(&mut self, y: &Matrix<T, Const<K>, U1, SB1>, f: &mut Matrix<T, Const<K>, U1, SB2>) -> Result<(), Error>
    where
        SB1: Storage<T, Const<K>, U1>,
        SB2: StorageMut<T, Const<K>, U1>,
    {
        let mut fa = arr(f);
        let r = self.nlp.sys(arr(y).view(), fa.view_mut());
        for i in 0..K {
            f[i] = fa[i];
        }
        r.map_err(|e| self.err(e))
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<T, Const<K>, U1, SA>, f: &Matrix<T, Const<K>, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<T, Const<K>, U1>,
        SB: Storage<T, Const<K>, U1>,
    {
        let r = self.nlp.setup(arr(y).view(), arr(f).view(), jbad);
        r.map_err(|e| self.err(e))
    }
    fn solve<SA, SB>(&mut self, y: &Matrix<T, Const<K>, U1, SA>, b: &mut Matrix<T, Const<K>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<T, Const<K>, U1>,
        SB: StorageMut<T, Const<K>, U1>,
    {
        let mut ba = arr(b);
        let r = self.nlp.solve(arr(y).view(), ba.view_mut());
        for i in 0..K {
            b[i] = ba[i];
        }
        r.map_err(|e| self.err(e))
    }
    fn ctest<NLS, SA, SB, SC>(&mut self, solver: &NLS, y: &Matrix<T, Const<K>, U1, SA>, del: &Matrix<T, Const<K>, U1, SB>, tol: T, ewt: &Matrix<T, Const<K>, U1, SC>) -> Result<bool, Error>
    where
        NLS: ::nonlinear::NLSolver<T, Const<K>>,
        SA: Storage<T, Const<K>, U1>,
        SB: Storage<T, Const<K>, U1>,
        SC: Storage<T, Const<K>, U1>,
    {
        let c = CurIter(solver.get_cur_iter(), solver.get_num_iters());
        let r = self.nlp.ctest(&c, arr(y).view(), arr(del).view(), tol, arr(ewt).view());
        r.map_err(|e| self.err(e))
    }
}

pub mod newton {
    use super::*;
    macro_rules! newton {
        ($($v:ident $n:literal),*) => {
            #[derive(Clone, Debug)]
            enum Inner<T: nalgebra::Scalar> { $($v(::nonlinear::Newton<T, Const<$n>>)),* }

            #[derive(Clone, Debug)]
            pub struct Newton<P: ModelSpec> where P::Scalar: nalgebra::Scalar { inner: Inner<P::Scalar> }

            impl<P> NLSolver<P> for Newton<P> where P: IdaProblem, P::Scalar: RealField + Copy {
                fn new(size: usize, maxiters: usize) -> Self {
                    let inner = match size {
                        $($n => Inner::$v(::nonlinear::NLSolver::<P::Scalar, Const<$n>>::new(maxiters)),)*
                        _ => panic!("ENGINE: problem size {} not bridged", size),
                    };
                    Newton { inner }
                }
                fn setup<S1: DataMut<Elem = P::Scalar>>(&mut self, y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error> {
                    match &self.inner {
                        $(Inner::$v(s) => {
                            let mut v = SVector::<P::Scalar, $n>::from_fn(|i, _| y[i]);
                            let r = ::nonlinear::NLSolver::<P::Scalar, Const<$n>>::setup(s, &mut v);
                            for i in 0..$n { y[i] = v[i]; }
                            r.map_err(failure::Error::from)
                        })*
                    }
                }
                fn solve<N, S1, S2>(&mut self, problem: &mut N, y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: Array1<P::Scalar>, tol: P::Scalar, call_lsetup: bool) -> Result<(), failure::Error>
                where N: NLProblem<P>, S1: Data<Elem = P::Scalar>, S2: DataMut<Elem = P::Scalar> {
                    match &mut self.inner {
                        $(Inner::$v(s) => {
                            let y0v = SVector::<P::Scalar, $n>::from_fn(|i, _| y0[i]);
                            let mut yv = SVector::<P::Scalar, $n>::from_fn(|i, _| y[i]);
                            let wv = SVector::<P::Scalar, $n>::from_fn(|i, _| w[i]);
                            let mut a = Adapter::<N, P> { nlp: problem, stash: None, p: std::marker::PhantomData };
                            let r = ::nonlinear::NLSolver::<P::Scalar, Const<$n>>::solve(s, &mut a, &y0v, &mut yv, &wv, tol, call_lsetup);
                            for i in 0..$n { y[i] = yv[i]; }
                            match (r, a.stash) {
                                (Err(Error::IllegalInput {}), Some(e)) => Err(e),
                                (r, _) => r.map_err(failure::Error::from),
                            }
                        })*
                    }
                }
                fn get_num_iters(&self) -> usize {
                    match &self.inner { $(Inner::$v(s) => ::nonlinear::NLSolver::<P::Scalar, Const<$n>>::get_num_iters(s)),* }
                }
                fn get_cur_iter(&self) -> usize {
                    match &self.inner { $(Inner::$v(s) => ::nonlinear::NLSolver::<P::Scalar, Const<$n>>::get_cur_iter(s)),* }
                }
                fn get_num_conv_fails(&self) -> usize {
                    match &self.inner { $(Inner::$v(s) => ::nonlinear::NLSolver::<P::Scalar, Const<$n>>::get_num_conv_fails(s)),* }
                }
            }
        };
    }
    newton!(N1 1, N2 2, N3 3, N4 4, N5 5, N6 6, N7 7, N8 8, N9 9, N10 10, N20 20);
}
pub use newton::Newton;
