//! Offline stand-in for `ndarray` 0.12-0.15: the subset (and a wide neighbourhood) of its API that
//! the integrator sources in /repo/src use.  Semantics follow the real crate: strided views,
//! negative steps, broadcasting on the right operand, `Zip` with equal shapes, panics on shape
//! mismatch.  It is validated by running the repository's own unit tests (src/tests, recorded
//! SUNDIALS traces) against it, and by the tests in tests/shim.rs.
#![allow(clippy::all)]

mod dimension;
mod impls;
mod ops;
mod slice;
mod zip;

pub use dimension::*;
pub use impls::*;
pub use slice::*;
pub use zip::{FoldWhile, IntoNdProducer, NdProducer, Zip};

pub mod iter {
    pub use crate::impls::{AxisIter, AxisIterMut, Iter, IterMut, Lanes, LanesMut};
}

pub mod linalg {
    pub use crate::ops::Dot;
}
pub use ops::ScalarOperand;

use std::marker::PhantomData;

/// # Safety
/// `Elem` storage reachable from the array pointer must be valid for reads while `Self` lives.
pub unsafe trait RawData: Sized {
    type Elem;
}
/// # Safety
/// see [`RawData`]
pub unsafe trait Data: RawData {}
/// # Safety
/// the storage must be valid for writes
pub unsafe trait DataMut: Data {}
/// # Safety
/// the storage is owned
pub unsafe trait DataOwned: DataMut {
    fn from_vec(v: Vec<Self::Elem>) -> Self;
    fn first_ptr(&mut self) -> *mut Self::Elem;
}
/// # Safety
/// clone must return a pointer corresponding to the same logical first element
pub unsafe trait DataClone: Data {
    unsafe fn clone_with_ptr(&self, ptr: *mut Self::Elem) -> (Self, *mut Self::Elem);
}
pub use DataClone as RawDataClone;

#[derive(Debug)]
pub struct OwnedRepr<A> {
    v: Vec<A>,
}
#[derive(Debug, Clone, Copy)]
pub struct ViewRepr<A> {
    life: PhantomData<A>,
}

unsafe impl<A> RawData for OwnedRepr<A> {
    type Elem = A;
}
unsafe impl<A> Data for OwnedRepr<A> {}
unsafe impl<A> DataMut for OwnedRepr<A> {}
unsafe impl<A> DataOwned for OwnedRepr<A> {
    fn from_vec(v: Vec<A>) -> Self {
        OwnedRepr { v }
    }
    fn first_ptr(&mut self) -> *mut A {
        self.v.as_mut_ptr()
    }
}
unsafe impl<A: Clone> DataClone for OwnedRepr<A> {
    unsafe fn clone_with_ptr(&self, ptr: *mut A) -> (Self, *mut A) {
        let off = (ptr as *const A).offset_from(self.v.as_ptr());
        let mut v = self.v.clone();
        let p = v.as_mut_ptr().offset(off);
        (OwnedRepr { v }, p)
    }
}
/// views only: another handle on the same storage
#[doc(hidden)]
pub trait ViewData: Data {
    fn again() -> Self;
}
impl<'a, A> ViewData for ViewRepr<&'a A> {
    fn again() -> Self {
        ViewRepr { life: PhantomData }
    }
}
impl<'a, A> ViewData for ViewRepr<&'a mut A> {
    fn again() -> Self {
        ViewRepr { life: PhantomData }
    }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a A> {
    type Elem = A;
}
unsafe impl<'a, A> Data for ViewRepr<&'a A> {}
unsafe impl<'a, A> DataClone for ViewRepr<&'a A> {
    unsafe fn clone_with_ptr(&self, ptr: *mut A) -> (Self, *mut A) {
        (ViewRepr { life: PhantomData }, ptr)
    }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a mut A> {
    type Elem = A;
}
unsafe impl<'a, A> Data for ViewRepr<&'a mut A> {}
unsafe impl<'a, A> DataMut for ViewRepr<&'a mut A> {}

pub struct ArrayBase<S, D>
where
    S: RawData,
{
    pub(crate) data: S,
    pub(crate) ptr: *mut S::Elem,
    pub(crate) dim: D,
    /// strides stored as usize, reinterpret as isize
    pub(crate) strides: D,
}

unsafe impl<S: RawData + Send, D: Send> Send for ArrayBase<S, D> where S::Elem: Send {}
unsafe impl<S: RawData + Sync, D: Sync> Sync for ArrayBase<S, D> where S::Elem: Sync {}

pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type Array0<A> = Array<A, Ix0>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type ArrayView0<'a, A> = ArrayView<'a, A, Ix0>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;

pub mod prelude {
    pub use crate::{
        arr1, arr2, array, azip, s, Array, Array0, Array1, Array2, ArrayBase, ArrayD, ArrayView, ArrayView1,
        ArrayView2, ArrayViewMut, ArrayViewMut1, ArrayViewMut2, Axis, Dim, Dimension, Ix, Ix0, Ix1,
        Ix2, IxDyn, NewAxis, ShapeBuilder,
    };
}

#[macro_export]
macro_rules! array {
    ($([$($x:expr),* $(,)*]),+ $(,)*) => {{ $crate::arr2(&[$([$($x,)*],)*]) }};
    ($($x:expr),* $(,)*) => {{ $crate::Array::from(vec![$($x,)*]) }};
}

#[macro_export]
macro_rules! azip {
    (($p0:pat in $e0:expr $(, $p:pat in $e:expr)* $(,)?) $body:expr) => {
        $crate::Zip::from($e0)$(.and($e))*.for_each(|$p0 $(, $p)*| { $body })
    };
}

pub fn arr1<A: Clone>(xs: &[A]) -> Array1<A> {
    Array::from(xs.to_vec())
}
pub fn arr2<A: Clone, const N: usize>(xs: &[[A; N]]) -> Array2<A> {
    let mut v = Vec::new();
    for r in xs {
        v.extend(r.iter().cloned());
    }
    Array::from_shape_vec((xs.len(), N), v).unwrap()
}
pub fn aview1<A>(xs: &[A]) -> ArrayView1<'_, A> {
    ArrayView1::from(xs)
}
