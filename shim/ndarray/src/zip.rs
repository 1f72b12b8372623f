use crate::impls::Offsets;
use crate::*;

#[derive(Debug, Copy, Clone, PartialEq)]
pub enum FoldWhile<T> {
    Continue(T),
    Done(T),
}
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T {
        match self {
            FoldWhile::Continue(x) | FoldWhile::Done(x) => x,
        }
    }
    pub fn is_done(&self) -> bool {
        matches!(*self, FoldWhile::Done(_))
    }
}

/// A producer is an iterator with a shape, visited in logical order.
pub trait NdProducer: Iterator {
    type Dim: Dimension;
}
pub struct Producer<I, D> {
    it: I,
    d: std::marker::PhantomData<D>,
}
impl<I: Iterator, D> Iterator for Producer<I, D> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
}
impl<I: Iterator, D: Dimension> NdProducer for Producer<I, D> {
    type Dim = D;
}
fn prod<I, D>(it: I) -> Producer<I, D> {
    Producer { it, d: std::marker::PhantomData }
}

pub trait IntoNdProducer {
    type Item;
    type Dim: Dimension;
    type Output: NdProducer<Item = Self::Item, Dim = Self::Dim>;
    fn shape_of(&self) -> Self::Dim;
    fn into_producer(self) -> Self::Output;
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayView<'a, A, D> {
    type Item = &'a A;
    type Dim = D;
    type Output = Producer<Iter<'a, A>, D>;
    fn shape_of(&self) -> D {
        self.raw_dim()
    }
    fn into_producer(self) -> Self::Output {
        prod(self.into_iter())
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type Dim = D;
    type Output = Producer<IterMut<'a, A>, D>;
    fn shape_of(&self) -> D {
        self.raw_dim()
    }
    fn into_producer(self) -> Self::Output {
        prod(self.into_iter())
    }
}
impl<'a, S: Data, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a S::Elem;
    type Dim = D;
    type Output = Producer<Iter<'a, S::Elem>, D>;
    fn shape_of(&self) -> D {
        self.raw_dim()
    }
    fn into_producer(self) -> Self::Output {
        prod(self.iter())
    }
}
impl<'a, S: DataMut, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a mut S::Elem;
    type Dim = D;
    type Output = Producer<IterMut<'a, S::Elem>, D>;
    fn shape_of(&self) -> D {
        self.raw_dim()
    }
    fn into_producer(self) -> Self::Output {
        prod(self.iter_mut())
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for AxisIter<'a, A, D> {
    type Item = ArrayView<'a, A, D>;
    type Dim = Ix1;
    type Output = Producer<AxisIter<'a, A, D>, Ix1>;
    fn shape_of(&self) -> Ix1 {
        Ix1(self.n())
    }
    fn into_producer(self) -> Self::Output {
        prod(self)
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for AxisIterMut<'a, A, D> {
    type Item = ArrayViewMut<'a, A, D>;
    type Dim = Ix1;
    type Output = Producer<AxisIterMut<'a, A, D>, Ix1>;
    fn shape_of(&self) -> Ix1 {
        Ix1(self.n())
    }
    fn into_producer(self) -> Self::Output {
        prod(self)
    }
}
impl<'a, A> IntoNdProducer for &'a [A] {
    type Item = &'a A;
    type Dim = Ix1;
    type Output = Producer<std::slice::Iter<'a, A>, Ix1>;
    fn shape_of(&self) -> Ix1 {
        Ix1(self.len())
    }
    fn into_producer(self) -> Self::Output {
        prod(self.iter())
    }
}
impl<'a, A> IntoNdProducer for &'a mut [A] {
    type Item = &'a mut A;
    type Dim = Ix1;
    type Output = Producer<std::slice::IterMut<'a, A>, Ix1>;
    fn shape_of(&self) -> Ix1 {
        Ix1(self.len())
    }
    fn into_producer(self) -> Self::Output {
        prod(self.iter_mut())
    }
}
pub struct Indexed<D> {
    o: Offsets,
    d: std::marker::PhantomData<D>,
}
impl<D: Dimension> Iterator for Indexed<D> {
    type Item = D::Pattern;
    fn next(&mut self) -> Option<D::Pattern> {
        self.o.next_with_index().map(|(_, ix)| D::from_slice(&ix).pattern())
    }
}
impl<D: Dimension> NdProducer for Indexed<D> {
    type Dim = D;
}

pub struct Zip<Parts, D> {
    parts: Parts,
    dim: D,
}
impl<P: NdProducer> Zip<(P,), P::Dim> {
    pub fn from<IP: IntoNdProducer<Dim = P::Dim, Output = P, Item = P::Item>>(p: IP) -> Self {
        let dim = p.shape_of();
        Zip { parts: (p.into_producer(),), dim }
    }
}
impl<P: NdProducer> Zip<(Indexed<P::Dim>, P), P::Dim> {
    pub fn indexed<IP: IntoNdProducer<Dim = P::Dim, Output = P, Item = P::Item>>(p: IP) -> Self {
        let dim = p.shape_of();
        let st = vec![0; dim.ndim()];
        Zip {
            parts: (Indexed { o: Offsets::new(dim.slice(), &st), d: std::marker::PhantomData }, p.into_producer()),
            dim,
        }
    }
}

macro_rules! zip_impl {
    (@and $($p:ident)+) => {
        impl<$($p: Iterator,)+ D: Dimension> Zip<($($p,)+), D> {
            #[allow(non_snake_case)]
            pub fn and<IP: IntoNdProducer<Dim = D>>(self, p: IP) -> Zip<($($p,)+ IP::Output), D> {
                assert!(p.shape_of() == self.dim, "assertion failed: part.equal_dim(dimension)");
                let ($($p,)+) = self.parts;
                Zip { parts: ($($p,)+ p.into_producer()), dim: self.dim }
            }
            #[allow(non_snake_case)]
            pub fn and_broadcast<'a, A: 'a, E: Dimension, S: Data<Elem = A>>(self, p: &'a ArrayBase<S, E>) -> Zip<($($p,)+ Producer<Iter<'a, A>, D>), D> {
                let v: ArrayView<'a, A, D> = p.broadcast_unwrap(&self.dim);
                let ($($p,)+) = self.parts;
                Zip { parts: ($($p,)+ v.into_producer()), dim: self.dim }
            }
        }
    };
    ($($p:ident)+) => {
        impl<$($p: Iterator,)+ D: Dimension> Zip<($($p,)+), D> {
            pub fn size(&self) -> usize { self.dim.size() }
            #[allow(non_snake_case)]
            pub fn for_each<F: FnMut($($p::Item),+)>(self, mut f: F) {
                let ($(mut $p,)+) = self.parts;
                for _ in 0..self.dim.size() { f($($p.next().unwrap()),+) }
            }
            pub fn apply<F: FnMut($($p::Item),+)>(self, f: F) { self.for_each(f) }
            #[allow(non_snake_case)]
            pub fn fold_while<Acc, F: FnMut(Acc, $($p::Item),+) -> FoldWhile<Acc>>(self, mut acc: Acc, mut f: F) -> FoldWhile<Acc> {
                let ($(mut $p,)+) = self.parts;
                for _ in 0..self.dim.size() {
                    match f(acc, $($p.next().unwrap()),+) {
                        FoldWhile::Continue(a) => acc = a,
                        d => return d,
                    }
                }
                FoldWhile::Continue(acc)
            }
            #[allow(non_snake_case)]
            pub fn fold<Acc, F: FnMut(Acc, $($p::Item),+) -> Acc>(self, mut acc: Acc, mut f: F) -> Acc {
                let ($(mut $p,)+) = self.parts;
                for _ in 0..self.dim.size() { acc = f(acc, $($p.next().unwrap()),+); }
                acc
            }
            #[allow(non_snake_case)]
            pub fn all<F: FnMut($($p::Item),+) -> bool>(self, mut f: F) -> bool {
                let ($(mut $p,)+) = self.parts;
                for _ in 0..self.dim.size() { if !f($($p.next().unwrap()),+) { return false; } }
                true
            }
            #[allow(non_snake_case)]
            pub fn any<F: FnMut($($p::Item),+) -> bool>(self, mut f: F) -> bool {
                let ($(mut $p,)+) = self.parts;
                for _ in 0..self.dim.size() { if f($($p.next().unwrap()),+) { return true; } }
                false
            }
            #[allow(non_snake_case)]
            pub fn map_collect<R, F: FnMut($($p::Item),+) -> R>(self, mut f: F) -> Array<R, D> {
                let ($(mut $p,)+) = self.parts;
                let mut v = Vec::new();
                for _ in 0..self.dim.size() { v.push(f($($p.next().unwrap()),+)); }
                Array::from_parts(v, self.dim)
            }
        }
    };
}
zip_impl!(P1);
zip_impl!(P1 P2);
zip_impl!(P1 P2 P3);
zip_impl!(P1 P2 P3 P4);
zip_impl!(P1 P2 P3 P4 P5);
zip_impl!(P1 P2 P3 P4 P5 P6);
zip_impl!(P1 P2 P3 P4 P5 P6 P7);
zip_impl!(@and P1);
zip_impl!(@and P1 P2);
zip_impl!(@and P1 P2 P3);
zip_impl!(@and P1 P2 P3 P4);
zip_impl!(@and P1 P2 P3 P4 P5);
zip_impl!(@and P1 P2 P3 P4 P5 P6);
