use crate::*;
use num_traits::{Float, Zero};
use std::ops::*;

pub trait ScalarOperand: 'static + Clone {}
impl ScalarOperand for f64 {}
impl ScalarOperand for f32 {}
impl ScalarOperand for i32 {}
impl ScalarOperand for i64 {}
impl ScalarOperand for usize {}
impl ScalarOperand for bool {}

macro_rules! binop {
    ($tr:ident, $f:ident, $atr:ident, $af:ident) => {
        impl<A, B, S, S2, D, E> $tr<ArrayBase<S2, E>> for ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: Clone, S: DataOwned<Elem = A> + DataMut, S2: Data<Elem = B>, D: Dimension, E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(self, rhs: ArrayBase<S2, E>) -> Self::Output { self.$f(&rhs) }
        }
        impl<'a, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: Clone, S: DataOwned<Elem = A> + DataMut, S2: Data<Elem = B>, D: Dimension, E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, rhs: &ArrayBase<S2, E>) -> Self::Output {
                self.zip_mut_with(rhs, |x, y| *x = x.clone().$f(y.clone()));
                self
            }
        }
        impl<'a, 'b, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for &'b ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, B: Clone, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension, E: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, rhs: &ArrayBase<S2, E>) -> Self::Output { self.to_owned().$f(rhs) }
        }
        impl<A, S, D, B> $tr<B> for ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, S: DataOwned<Elem = A> + DataMut, D: Dimension, B: ScalarOperand,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, x: B) -> Self::Output {
                for e in self.iter_mut() { *e = e.clone().$f(x.clone()); }
                self
            }
        }
        impl<'a, A, S, D, B> $tr<B> for &'a ArrayBase<S, D>
        where A: Clone + $tr<B, Output = A>, S: Data<Elem = A>, D: Dimension, B: ScalarOperand,
        {
            type Output = Array<A, D>;
            fn $f(self, x: B) -> Self::Output { self.to_owned().$f(x) }
        }
        impl<'a, A, S, S2, D, E> $atr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where A: Clone + $atr<A>, S: DataMut<Elem = A>, S2: Data<Elem = A>, D: Dimension, E: Dimension,
        {
            fn $af(&mut self, rhs: &ArrayBase<S2, E>) { self.zip_mut_with(rhs, |x, y| x.$af(y.clone())); }
        }
        impl<A, S, D> $atr<A> for ArrayBase<S, D>
        where A: ScalarOperand + $atr<A>, S: DataMut<Elem = A>, D: Dimension,
        {
            fn $af(&mut self, x: A) { for e in self.iter_mut() { e.$af(x.clone()); } }
        }
    };
}
binop!(Add, add, AddAssign, add_assign);
binop!(Sub, sub, SubAssign, sub_assign);
binop!(Mul, mul, MulAssign, mul_assign);
binop!(Div, div, DivAssign, div_assign);

macro_rules! scalar_left {
    ($($t:ty),*) => {$(
        scalar_left!(@ $t, Add, add); scalar_left!(@ $t, Sub, sub); scalar_left!(@ $t, Mul, mul); scalar_left!(@ $t, Div, div);
    )*};
    (@ $t:ty, $tr:ident, $f:ident) => {
        impl<'a, S: Data<Elem = $t>, D: Dimension> $tr<&'a ArrayBase<S, D>> for $t {
            type Output = Array<$t, D>;
            fn $f(self, rhs: &ArrayBase<S, D>) -> Self::Output { rhs.mapv(|x| self.$f(x)) }
        }
        impl<S: DataOwned<Elem = $t>, D: Dimension> $tr<ArrayBase<S, D>> for $t {
            type Output = ArrayBase<S, D>;
            fn $f(self, mut rhs: ArrayBase<S, D>) -> Self::Output { rhs.mapv_inplace(|x| self.$f(x)); rhs }
        }
    };
}
scalar_left!(f64, f32);

impl<A: Clone + Neg<Output = A>, S: DataOwned<Elem = A>, D: Dimension> Neg for ArrayBase<S, D> {
    type Output = Self;
    fn neg(mut self) -> Self {
        self.mapv_inplace(|x| -x);
        self
    }
}
impl<'a, A: Clone + Neg<Output = A>, S: Data<Elem = A>, D: Dimension> Neg for &'a ArrayBase<S, D> {
    type Output = Array<A, D>;
    fn neg(self) -> Array<A, D> {
        self.mapv(|x| -x)
    }
}

pub trait Dot<Rhs> {
    type Output;
    fn dot(&self, rhs: &Rhs) -> Self::Output;
}
pub trait LinalgScalar: Copy + Zero + Add<Output = Self> + Mul<Output = Self> {}
impl<T: Float> LinalgScalar for T {}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1> {
    type Output = A;
    fn dot(&self, r: &ArrayBase<S2, Ix1>) -> A {
        assert_eq!(self.len(), r.len());
        self.iter().zip(r.iter()).fold(A::zero(), |a, (&x, &y)| a + x * y)
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2> {
    type Output = Array1<A>;
    fn dot(&self, r: &ArrayBase<S2, Ix1>) -> Array1<A> {
        assert_eq!(self.ncols(), r.len());
        self.rows().map(|row| row.iter().zip(r.iter()).fold(A::zero(), |a, (&x, &y)| a + x * y)).collect()
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix2> {
    type Output = Array2<A>;
    fn dot(&self, r: &ArrayBase<S2, Ix2>) -> Array2<A> {
        assert_eq!(self.ncols(), r.nrows());
        Array2::from_shape_fn((self.nrows(), r.ncols()), |(i, j)| {
            (0..r.nrows()).fold(A::zero(), |a, k| a + self[[i, k]] * r[[k, j]])
        })
    }
}
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn dot<Rhs>(&self, rhs: &Rhs) -> <Self as Dot<Rhs>>::Output
    where
        Self: Dot<Rhs>,
    {
        Dot::dot(self, rhs)
    }
}
