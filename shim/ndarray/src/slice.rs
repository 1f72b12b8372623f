use crate::{Ix0, Ix1, Ix2};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice {
        Slice { start, end, step }
    }
    pub fn step_by(self, step: isize) -> Slice {
        Slice { step: self.step * step, ..self }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct NewAxis;

macro_rules! slice_from {
    ($($t:ty),*) => {$(
        impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Slice { Slice { start: r.start as isize, end: Some(r.end as isize), step: 1 } } }
        impl From<RangeInclusive<$t>> for Slice { fn from(r: RangeInclusive<$t>) -> Slice {
            let e = *r.end() as isize; Slice { start: *r.start() as isize, end: if e == -1 { None } else { Some(e + 1) }, step: 1 } } }
        impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Slice { Slice { start: r.start as isize, end: None, step: 1 } } }
        impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Slice { Slice { start: 0, end: Some(r.end as isize), step: 1 } } }
        impl From<RangeToInclusive<$t>> for Slice { fn from(r: RangeToInclusive<$t>) -> Slice {
            let e = r.end as isize; Slice { start: 0, end: if e == -1 { None } else { Some(e + 1) }, step: 1 } } }
        impl SliceArg for Range<$t> { type Kind = Keep; fn elem(&self) -> SliceOrIndex { SliceOrIndex::S(Slice::from(self.clone())) } }
        impl SliceArg for RangeInclusive<$t> { type Kind = Keep; fn elem(&self) -> SliceOrIndex { SliceOrIndex::S(Slice::from(self.clone())) } }
        impl SliceArg for RangeFrom<$t> { type Kind = Keep; fn elem(&self) -> SliceOrIndex { SliceOrIndex::S(Slice::from(self.clone())) } }
        impl SliceArg for RangeTo<$t> { type Kind = Keep; fn elem(&self) -> SliceOrIndex { SliceOrIndex::S(Slice::from(self.clone())) } }
        impl SliceArg for RangeToInclusive<$t> { type Kind = Keep; fn elem(&self) -> SliceOrIndex { SliceOrIndex::S(Slice::from(self.clone())) } }
        impl SliceArg for $t { type Kind = Drop1; fn elem(&self) -> SliceOrIndex { SliceOrIndex::I(*self as isize) } }
    )*};
}
slice_from!(usize, isize, i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Slice {
        Slice { start: 0, end: None, step: 1 }
    }
}

pub struct Keep;
pub struct Drop1;
#[derive(Clone, Copy, Debug)]
pub enum SliceOrIndex {
    S(Slice),
    I(isize),
}
pub trait SliceArg {
    type Kind;
    fn elem(&self) -> SliceOrIndex;
}
impl SliceArg for RangeFull {
    type Kind = Keep;
    fn elem(&self) -> SliceOrIndex {
        SliceOrIndex::S(Slice::from(..))
    }
}
impl SliceArg for Slice {
    type Kind = Keep;
    fn elem(&self) -> SliceOrIndex {
        SliceOrIndex::S(*self)
    }
}
pub trait OutDim {
    type Out: crate::Dimension;
}
impl OutDim for (Keep,) {
    type Out = Ix1;
}
impl OutDim for (Drop1,) {
    type Out = Ix0;
}
impl OutDim for (Keep, Keep) {
    type Out = Ix2;
}
impl OutDim for (Keep, Drop1) {
    type Out = Ix1;
}
impl OutDim for (Drop1, Keep) {
    type Out = Ix1;
}
impl OutDim for (Drop1, Drop1) {
    type Out = Ix0;
}
pub struct SliceInfo<T>(pub T);
pub trait SliceTuple<D> {
    type Out: crate::Dimension;
    fn elems(&self) -> Vec<SliceOrIndex>;
}
impl<A: SliceArg> SliceTuple<Ix1> for SliceInfo<(A,)>
where
    (A::Kind,): OutDim,
{
    type Out = <(A::Kind,) as OutDim>::Out;
    fn elems(&self) -> Vec<SliceOrIndex> {
        vec![(self.0).0.elem()]
    }
}
impl<A: SliceArg, B: SliceArg> SliceTuple<Ix2> for SliceInfo<(A, B)>
where
    (A::Kind, B::Kind): OutDim,
{
    type Out = <(A::Kind, B::Kind) as OutDim>::Out;
    fn elems(&self) -> Vec<SliceOrIndex> {
        vec![(self.0).0.elem(), (self.0).1.elem()]
    }
}
impl<'a, D, T: SliceTuple<D>> SliceTuple<D> for &'a T {
    type Out = T::Out;
    fn elems(&self) -> Vec<SliceOrIndex> {
        (**self).elems()
    }
}
pub struct Stepped<T>(pub T, pub isize);
impl<T: SliceArg<Kind = Keep>> SliceArg for Stepped<T> {
    type Kind = Keep;
    fn elem(&self) -> SliceOrIndex {
        match self.0.elem() {
            SliceOrIndex::S(s) => SliceOrIndex::S(s.step_by(self.1)),
            x => x,
        }
    }
}

#[macro_export]
macro_rules! s {
    ($a:expr ; $sa:expr, $b:expr ; $sb:expr $(,)?) => { &$crate::SliceInfo(($crate::Stepped($a, $sa), $crate::Stepped($b, $sb))) };
    ($a:expr ; $sa:expr, $b:expr $(,)?) => { &$crate::SliceInfo(($crate::Stepped($a, $sa), $b)) };
    ($a:expr, $b:expr ; $sb:expr $(,)?) => { &$crate::SliceInfo(($a, $crate::Stepped($b, $sb))) };
    ($a:expr, $b:expr $(,)?) => { &$crate::SliceInfo(($a, $b)) };
    ($a:expr ; $sa:expr $(,)?) => { &$crate::SliceInfo(($crate::Stepped($a, $sa),)) };
    ($a:expr $(,)?) => { &$crate::SliceInfo(($a,)) };
}
