//! Bridge: the integrator sources expect a `linear` module with ndarray signatures (it existed before
//! the solvers were moved to crates/linear).  Everything is delegated to the real crate.
use ndarray::prelude::*;
use ndarray::{Data, DataMut};

pub use ::linear::{Error, LSolverType};
use nalgebra::{Const, RealField, SMatrix, SVector};

pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where
        S1: Data<Elem = Scalar>,
        S2: Data<Elem = Scalar>,
    {
    }
    fn setup<S1: DataMut<Elem = Scalar>>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>;
    fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: Scalar) -> Result<(), failure::Error>
    where
        S1: Data<Elem = Scalar>,
        S2: DataMut<Elem = Scalar>,
        S3: Data<Elem = Scalar>;
    fn num_iters(&self) -> usize {
        0
    }
}

macro_rules! dense {
    ($($v:ident $n:literal),*) => {
        #[derive(Clone, Debug)]
        enum Inner { $($v(::linear::Dense<Const<$n>>)),* }

        #[derive(Clone, Debug)]
        pub struct Dense<Scalar> { inner: Inner, p: std::marker::PhantomData<Scalar> }

        impl<T: RealField + Copy> LSolver<T> for Dense<T> {
            fn new(size: usize) -> Self {
                let inner = match size {
                    $($n => Inner::$v(<::linear::Dense<Const<$n>> as ::linear::LSolver<T, Const<$n>>>::new()),)*
                    _ => panic!("ENGINE: problem size {} not bridged", size),
                };
                Dense { inner, p: std::marker::PhantomData }
            }
            fn get_type(&self) -> LSolverType {
                match &self.inner { $(Inner::$v(d) => ::linear::LSolver::<T, Const<$n>>::get_type(d)),* }
            }
            fn setup<S1: DataMut<Elem = T>>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> {
                match &mut self.inner {
                    $(Inner::$v(d) => {
                        assert_eq!(mat_a.shape(), &[$n, $n]);
                        let mut m = SMatrix::<T, $n, $n>::from_fn(|i, j| mat_a[[i, j]]);
                        let r = ::linear::LSolver::<T, Const<$n>>::setup(d, &mut m);
                        for i in 0..$n { for j in 0..$n { mat_a[[i, j]] = m[(i, j)]; } }
                        r.map_err(failure::Error::from)
                    })*
                }
            }
            fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: T) -> Result<(), failure::Error>
            where S1: Data<Elem = T>, S2: DataMut<Elem = T>, S3: Data<Elem = T> {
                match &self.inner {
                    $(Inner::$v(d) => {
                        let m = SMatrix::<T, $n, $n>::from_fn(|i, j| mat_a[[i, j]]);
                        let mut xv = SVector::<T, $n>::from_fn(|i, _| x[i]);
                        let bv = SVector::<T, $n>::from_fn(|i, _| b[i]);
                        let r = ::linear::LSolver::<T, Const<$n>>::solve(d, &m, &mut xv, &bv, tol);
                        for i in 0..$n { x[i] = xv[i]; }
                        r.map_err(failure::Error::from)
                    })*
                }
            }
        }
    };
}
dense!(N1 1, N2 2, N3 3, N4 4, N5 5, N6 6, N7 7, N8 8, N9 9, N10 10, N20 20, N40 40);
