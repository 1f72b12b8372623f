use crate::*;
use num_traits::{Float, One, Zero};
use std::fmt;
use std::marker::PhantomData;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ShapeError(pub &'static str);
impl fmt::Display for ShapeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ShapeError: {}", self.0)
    }
}
impl std::error::Error for ShapeError {}

pub(crate) fn default_strides(shape: &[usize]) -> Vec<usize> {
    let mut st = vec![0usize; shape.len()];
    if shape.iter().all(|&d| d != 0) {
        let mut acc = 1usize;
        for i in (0..shape.len()).rev() {
            st[i] = acc;
            acc *= shape[i];
        }
    }
    st
}

const RANK: usize = 6;
/// visits the offsets of all elements in logical (row major) order
#[derive(Clone)]
pub(crate) struct Offsets {
    n: usize,
    shape: [usize; RANK],
    strides: [isize; RANK],
    idx: [usize; RANK],
    off: isize,
    front: usize,
    left: usize,
}
impl Offsets {
    pub(crate) fn new(shape: &[usize], strides: &[usize]) -> Self {
        let n = shape.len();
        assert!(n <= RANK, "rank not supported");
        let mut o = Offsets { n, shape: [0; RANK], strides: [0; RANK], idx: [0; RANK], off: 0, front: 0, left: shape.iter().product() };
        for i in 0..n {
            o.shape[i] = shape[i];
            o.strides[i] = strides[i] as isize;
        }
        o
    }
    pub(crate) fn next_with_index(&mut self) -> Option<(isize, Vec<usize>)> {
        let cur = self.idx[..self.n].to_vec();
        self.next().map(|o| (o, cur))
    }
}
impl Iterator for Offsets {
    type Item = isize;
    #[inline]
    fn next(&mut self) -> Option<isize> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.front += 1;
        let off = self.off;
        for a in (0..self.n).rev() {
            self.idx[a] += 1;
            self.off += self.strides[a];
            if self.idx[a] < self.shape[a] {
                break;
            }
            self.off -= self.strides[a] * self.shape[a] as isize;
            self.idx[a] = 0;
        }
        Some(off)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}
impl ExactSizeIterator for Offsets {}
impl DoubleEndedIterator for Offsets {
    fn next_back(&mut self) -> Option<isize> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let mut i = self.front + self.left;
        let mut off = 0;
        for a in (0..self.n).rev() {
            off += (i % self.shape[a]) as isize * self.strides[a];
            i /= self.shape[a];
        }
        Some(off)
    }
}

#[derive(Clone)]
pub struct Iter<'a, A> {
    ptr: *const A,
    o: Offsets,
    life: PhantomData<&'a A>,
}
impl<'a, A> Iterator for Iter<'a, A> {
    type Item = &'a A;
    fn next(&mut self) -> Option<&'a A> {
        self.o.next().map(|o| unsafe { &*self.ptr.offset(o) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.o.size_hint()
    }
}
impl<'a, A> ExactSizeIterator for Iter<'a, A> {}
impl<'a, A> DoubleEndedIterator for Iter<'a, A> {
    fn next_back(&mut self) -> Option<&'a A> {
        self.o.next_back().map(|o| unsafe { &*self.ptr.offset(o) })
    }
}
pub struct IterMut<'a, A> {
    ptr: *mut A,
    o: Offsets,
    life: PhantomData<&'a mut A>,
}
impl<'a, A> Iterator for IterMut<'a, A> {
    type Item = &'a mut A;
    fn next(&mut self) -> Option<&'a mut A> {
        self.o.next().map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.o.size_hint()
    }
}
impl<'a, A> ExactSizeIterator for IterMut<'a, A> {}
impl<'a, A> DoubleEndedIterator for IterMut<'a, A> {
    fn next_back(&mut self) -> Option<&'a mut A> {
        self.o.next_back().map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
}

/// rows / columns / axis iteration: a sequence of sub-views
#[derive(Clone)]
pub struct AxisIter<'a, A, D> {
    ptr: *const A,
    n: usize,
    step: isize,
    i: usize,
    j: usize,
    dim: D,
    strides: D,
    life: PhantomData<&'a A>,
}
pub struct AxisIterMut<'a, A, D> {
    ptr: *mut A,
    n: usize,
    step: isize,
    i: usize,
    j: usize,
    dim: D,
    strides: D,
    life: PhantomData<&'a mut A>,
}
pub type Lanes<'a, A, D> = AxisIter<'a, A, D>;
pub type LanesMut<'a, A, D> = AxisIterMut<'a, A, D>;
impl<'a, A, D: Dimension> AxisIter<'a, A, D> {
    fn at(&self, i: usize) -> ArrayView<'a, A, D> {
        unsafe { raw_view(self.ptr.offset(i as isize * self.step) as *mut A, self.dim.clone(), self.strides.clone()) }
    }
    pub(crate) fn n(&self) -> usize {
        self.n
    }
}
impl<'a, A, D: Dimension> Iterator for AxisIter<'a, A, D> {
    type Item = ArrayView<'a, A, D>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.j {
            return None;
        }
        let v = self.at(self.i);
        self.i += 1;
        Some(v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.j - self.i, Some(self.j - self.i))
    }
}
impl<'a, A, D: Dimension> DoubleEndedIterator for AxisIter<'a, A, D> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.i >= self.j {
            return None;
        }
        self.j -= 1;
        Some(self.at(self.j))
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for AxisIter<'a, A, D> {}
impl<'a, A, D: Dimension> AxisIterMut<'a, A, D> {
    fn at(&mut self, i: usize) -> ArrayViewMut<'a, A, D> {
        unsafe { raw_view_mut(self.ptr.offset(i as isize * self.step), self.dim.clone(), self.strides.clone()) }
    }
    pub(crate) fn n(&self) -> usize {
        self.n
    }
}
impl<'a, A, D: Dimension> Iterator for AxisIterMut<'a, A, D> {
    type Item = ArrayViewMut<'a, A, D>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.j {
            return None;
        }
        let i = self.i;
        self.i += 1;
        Some(self.at(i))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.j - self.i, Some(self.j - self.i))
    }
}
impl<'a, A, D: Dimension> DoubleEndedIterator for AxisIterMut<'a, A, D> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.i >= self.j {
            return None;
        }
        self.j -= 1;
        let j = self.j;
        Some(self.at(j))
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for AxisIterMut<'a, A, D> {}

pub(crate) unsafe fn raw_view<'a, A, D>(ptr: *mut A, dim: D, strides: D) -> ArrayView<'a, A, D> {
    ArrayBase { data: ViewRepr { life: PhantomData }, ptr, dim, strides }
}
pub(crate) unsafe fn raw_view_mut<'a, A, D>(ptr: *mut A, dim: D, strides: D) -> ArrayViewMut<'a, A, D> {
    ArrayBase { data: ViewRepr { life: PhantomData }, ptr, dim, strides }
}

pub(crate) fn broadcast_strides(from_dim: &[usize], from_str: &[usize], to: &[usize]) -> Option<Vec<usize>> {
    if to.len() < from_dim.len() {
        return None;
    }
    let mut st = vec![0usize; to.len()];
    let k = to.len() - from_dim.len();
    for i in 0..from_dim.len() {
        if from_dim[i] == to[k + i] {
            st[k + i] = from_str[i];
        } else if from_dim[i] == 1 {
            st[k + i] = 0;
        } else {
            return None;
        }
    }
    Some(st)
}

fn abs_index(len: usize, i: isize) -> usize {
    if i < 0 {
        (len as isize + i) as usize
    } else {
        i as usize
    }
}

/// (new len, new stride, offset in elements) of slicing one axis
fn do_slice(len: usize, stride: isize, sl: Slice) -> (usize, isize, isize) {
    let start = abs_index(len, sl.start);
    let mut end = abs_index(len, sl.end.unwrap_or(len as isize));
    if end < start {
        end = start;
    }
    assert!(start <= len, "slice begin {} is past end of axis of length {}", start, len);
    assert!(end <= len, "slice end {} is past end of axis of length {}", end, len);
    let m = end - start;
    assert!(sl.step != 0, "slice step must not be zero");
    let offset = if m == 0 {
        0
    } else if sl.step < 0 {
        stride * (end as isize - 1)
    } else {
        stride * start as isize
    };
    let a = sl.step.unsigned_abs();
    let n = m / a + (m % a > 0) as usize;
    (n, stride * sl.step, offset)
}

impl<A, S: DataOwned<Elem = A>, D: Dimension> ArrayBase<S, D> {
    pub(crate) fn from_parts(v: Vec<A>, dim: D) -> Self {
        debug_assert_eq!(v.len(), dim.size());
        let strides = D::from_slice(&default_strides(dim.slice()));
        let mut data = S::from_vec(v);
        let ptr = data.first_ptr();
        ArrayBase { data, ptr, dim, strides }
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(shape: Sh, x: A) -> Self
    where
        A: Clone,
    {
        let dim = shape.into_dimension();
        Self::from_parts(vec![x; dim.size()], dim)
    }
    pub fn zeros<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + Zero,
    {
        Self::from_elem(shape, A::zero())
    }
    pub fn ones<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + One,
    {
        Self::from_elem(shape, A::one())
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + Default,
    {
        Self::from_elem(shape, A::default())
    }
    pub fn from_shape_fn<Sh: ShapeBuilder<Dim = D>, F: FnMut(D::Pattern) -> A>(shape: Sh, mut f: F) -> Self {
        let dim = shape.into_dimension();
        let st = default_strides(dim.slice());
        let mut o = Offsets::new(dim.slice(), &st);
        let mut v = Vec::new();
        while let Some((_, ix)) = o.next_with_index() {
            v.push(f(D::from_slice(&ix).pattern()));
        }
        Self::from_parts(v, dim)
    }
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(shape: Sh, v: Vec<A>) -> Result<Self, ShapeError> {
        let dim = shape.into_dimension();
        if dim.size() != v.len() {
            return Err(ShapeError("wrong number of elements"));
        }
        Ok(Self::from_parts(v, dim))
    }
}
impl<A, S: DataOwned<Elem = A>> ArrayBase<S, Ix1> {
    pub fn from_vec(v: Vec<A>) -> Self {
        let n = v.len();
        Self::from_parts(v, Ix1(n))
    }
    pub fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
    pub fn linspace(a: A, b: A, n: usize) -> Self
    where
        A: Float,
    {
        let step = if n > 1 { (b - a) / A::from(n - 1).unwrap() } else { A::zero() };
        Self::from_vec((0..n).map(|i| a + step * A::from(i).unwrap()).collect())
    }
}
impl<A, S: DataOwned<Elem = A>> ArrayBase<S, Ix2> {
    pub fn from_diag<S2: Data<Elem = A>>(d: &ArrayBase<S2, Ix1>) -> Self
    where
        A: Clone + Zero,
    {
        let mut m: Self = Self::zeros((d.len(), d.len()));
        for (i, x) in d.iter().enumerate() {
            m[[i, i]] = x.clone();
        }
        m
    }
    pub fn eye(n: usize) -> Self
    where
        A: Clone + Zero + One,
    {
        let mut a = Self::zeros((n, n));
        for i in 0..n {
            a[[i, i]] = A::one();
        }
        a
    }
}
impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self {
        Self::from_vec(v)
    }
}
impl<A, const N: usize> From<[A; N]> for Array1<A> {
    fn from(v: [A; N]) -> Self {
        Self::from_vec(v.into_iter().collect())
    }
}
impl<A> std::iter::FromIterator<A> for Array1<A> {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
}
impl<'a, A> From<&'a [A]> for ArrayView1<'a, A> {
    fn from(v: &'a [A]) -> Self {
        unsafe { raw_view(v.as_ptr() as *mut A, Ix1(v.len()), Ix1(1)) }
    }
}
impl<'a, A> From<&'a mut [A]> for ArrayViewMut1<'a, A> {
    fn from(v: &'a mut [A]) -> Self {
        unsafe { raw_view_mut(v.as_mut_ptr(), Ix1(v.len()), Ix1(1)) }
    }
}
impl<'a, A, S: Data<Elem = A>, D: Dimension> From<&'a ArrayBase<S, D>> for ArrayView<'a, A, D> {
    fn from(a: &'a ArrayBase<S, D>) -> Self {
        a.view()
    }
}

impl<S: DataClone, D: Clone> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        unsafe {
            let (data, ptr) = self.data.clone_with_ptr(self.ptr);
            ArrayBase { data, ptr, dim: self.dim.clone(), strides: self.strides.clone() }
        }
    }
}
/// Several disjoint mutable slices at once.
pub trait MultiSlice<'a, A, D> {
    type Out;
    fn cut(self, a: ArrayViewMut<'a, A, D>) -> Self::Out;
}
fn disjoint<A, D: Dimension, E: Dimension>(a: &ArrayViewMut<'_, A, D>, b: &ArrayViewMut<'_, A, E>) {
    let x: std::collections::HashSet<*const A> = a.iter().map(|p| p as *const A).collect();
    assert!(!b.iter().any(|p| x.contains(&(p as *const A))), "multi_slice_mut: slices intersect");
}
macro_rules! multi {
    ($($t:ident $x:ident),+) => {
        impl<'a, A: 'a, D: Dimension, $($t: SliceTuple<D>),+> MultiSlice<'a, A, D> for ($($t,)+) {
            type Out = ($(ArrayViewMut<'a, A, $t::Out>,)+);
            fn cut(self, a: ArrayViewMut<'a, A, D>) -> Self::Out {
                let ($($x,)+) = self;
                $(let $x = {
                    let (o, d, s) = a.slice_parts(&$x.elems());
                    unsafe { raw_view_mut(a.ptr.offset(o), Dimension::from_slice(&d), Dimension::from_slice(&s)) }
                };)+
                let r: Self::Out = ($($x,)+);
                multi_check!(r, $($x),+);
                r
            }
        }
    };
}
macro_rules! multi_check {
    ($r:ident, $x:ident, $y:ident) => { disjoint(&$r.0, &$r.1) };
    ($r:ident, $x:ident, $y:ident, $z:ident) => { disjoint(&$r.0, &$r.1); disjoint(&$r.0, &$r.2); disjoint(&$r.1, &$r.2) };
}
multi!(T1 x, T2 y);
multi!(T1 x, T2 y, T3 z);

/// Arrays one after the other along an existing axis.
pub fn concatenate<A: Clone, D: Dimension>(a: Axis, parts: &[ArrayView<'_, A, D>]) -> Result<Array<A, D>, ShapeError> {
    let first = parts.first().ok_or(ShapeError("nothing to concatenate"))?;
    let mut d = first.shape().to_vec();
    d[a.0] = 0;
    for p in parts {
        if p.ndim() != d.len() || (0..d.len()).any(|i| i != a.0 && p.shape()[i] != d[i]) {
            return Err(ShapeError("incompatible shapes"));
        }
        d[a.0] += p.shape()[a.0];
    }
    let st = default_strides(&d);
    let mut v: Vec<Option<A>> = vec![None; d.iter().product()];
    let mut at = 0;
    for p in parts {
        let mut o = Offsets::new(p.shape(), p.strides.slice());
        while let Some((off, ix)) = o.next_with_index() {
            let k: usize = ix.iter().enumerate().map(|(i, &x)| (x + if i == a.0 { at } else { 0 }) * st[i]).sum();
            v[k] = Some(unsafe { (*p.ptr.offset(off)).clone() });
        }
        at += p.shape()[a.0];
    }
    Ok(Array::from_parts(v.into_iter().map(|x| x.unwrap()).collect(), D::from_slice(&d)))
}
/// Arrays one after the other along a new axis.
pub fn stack<A: Clone, D: Dimension>(a: Axis, parts: &[ArrayView<'_, A, D>]) -> Result<Array<A, D::Larger>, ShapeError> {
    let v: Vec<ArrayView<'_, A, D::Larger>> = parts.iter().map(|p| p.clone().insert_axis(a)).collect();
    concatenate(a, &v)
}

impl<'a, A, D: Copy> Copy for ArrayView<'a, A, D> {}

impl<S: DataOwned, D: Dimension> Default for ArrayBase<S, D>
where
    S::Elem: Default + Clone,
{
    fn default() -> Self {
        Self::from_parts(vec![S::Elem::default(); D::default().size()], D::default())
    }
}

impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn to_slice(&self) -> Option<&'a [A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn reborrow<'b>(self) -> ArrayView<'b, A, D>
    where
        'a: 'b,
    {
        unsafe { raw_view(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
}

impl<A, S: Data<Elem = A>, D: Dimension> ArrayBase<S, D> {
    pub fn len(&self) -> usize {
        self.dim.size()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn shape(&self) -> &[usize] {
        self.dim.slice()
    }
    pub fn ndim(&self) -> usize {
        self.dim.ndim()
    }
    pub fn dim(&self) -> D::Pattern {
        self.dim.pattern()
    }
    pub fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    pub fn len_of(&self, a: Axis) -> usize {
        self.dim.slice()[a.0]
    }
    pub fn strides(&self) -> Vec<isize> {
        self.strides.slice().iter().map(|&s| s as isize).collect()
    }
    pub fn as_ptr(&self) -> *const A {
        self.ptr
    }
    pub fn view(&self) -> ArrayView<'_, A, D> {
        unsafe { raw_view(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, A, D>
    where
        S: DataMut,
    {
        unsafe { raw_view_mut(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> {
        let dim = IxDyn(self.dim.slice());
        let strides = IxDyn(self.strides.slice());
        ArrayBase { data: self.data, ptr: self.ptr, dim, strides }
    }
    pub fn is_standard_layout(&self) -> bool {
        self.is_empty() || {
            let st = default_strides(self.dim.slice());
            self.dim.slice().iter().zip(self.strides.slice()).zip(&st).all(|((&d, &a), &b)| d == 1 || a == b)
        }
    }
    pub fn as_slice(&self) -> Option<&[A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [A]>
    where
        S: DataMut,
    {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn iter(&self) -> Iter<'_, A> {
        Iter { ptr: self.ptr, o: Offsets::new(self.dim.slice(), self.strides.slice()), life: PhantomData }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, A>
    where
        S: DataMut,
    {
        IterMut { ptr: self.ptr, o: Offsets::new(self.dim.slice(), self.strides.slice()), life: PhantomData }
    }
    pub fn indexed_iter<'a>(&'a self) -> impl Iterator<Item = (D::Pattern, &'a A)> + 'a
    where
        A: 'a,
    {
        let mut o = Offsets::new(self.dim.slice(), self.strides.slice());
        let p = self.ptr;
        std::iter::from_fn(move || {
            o.next_with_index().map(|(off, ix)| (D::from_slice(&ix).pattern(), unsafe { &*p.offset(off) }))
        })
    }
    pub fn indexed_iter_mut<'a>(&'a mut self) -> impl Iterator<Item = (D::Pattern, &'a mut A)> + 'a
    where
        S: DataMut,
        A: 'a,
    {
        let mut o = Offsets::new(self.dim.slice(), self.strides.slice());
        let p = self.ptr;
        std::iter::from_fn(move || {
            o.next_with_index().map(|(off, ix)| (D::from_slice(&ix).pattern(), unsafe { &mut *p.offset(off) }))
        })
    }
    pub fn to_owned(&self) -> Array<A, D>
    where
        A: Clone,
    {
        Array::from_parts(self.iter().cloned().collect(), self.dim.clone())
    }
    pub fn into_owned(self) -> Array<A, D>
    where
        A: Clone,
    {
        self.to_owned()
    }
    pub fn to_vec(&self) -> Vec<A>
    where
        A: Clone,
    {
        self.iter().cloned().collect()
    }
    pub fn first(&self) -> Option<&A> {
        self.iter().next()
    }
    pub fn get<I: NdIndex<D>>(&self, i: I) -> Option<&A> {
        self.offset_of(&i).map(|o| unsafe { &*self.ptr.offset(o) })
    }
    pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> Option<&mut A>
    where
        S: DataMut,
    {
        self.offset_of(&i).map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    pub fn swap<I: NdIndex<D>, J: NdIndex<D>>(&mut self, i: I, j: J)
    where
        S: DataMut,
    {
        let a = self.offset_of(&i).expect("index out of bounds");
        let b = self.offset_of(&j).expect("index out of bounds");
        unsafe { std::ptr::swap(self.ptr.offset(a), self.ptr.offset(b)) }
    }
    fn offset_of<I: NdIndex<D>>(&self, i: &I) -> Option<isize> {
        let (ix, n) = i.idx();
        let mut off = 0;
        for a in 0..n {
            if ix[a] >= self.dim.slice()[a] {
                return None;
            }
            off += ix[a] as isize * self.strides.slice()[a] as isize;
        }
        Some(off)
    }
    fn sub_parts(&self, a: Axis, i: usize) -> (isize, D::Smaller, D::Smaller) {
        assert!(i < self.dim.slice()[a.0], "index_axis: index {} out of bounds for axis {} of {:?}", i, a.0, self.dim);
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        d.remove(a.0);
        let st = s.remove(a.0) as isize;
        (i as isize * st, D::Smaller::from_slice(&d), D::Smaller::from_slice(&s))
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayView<'_, A, D::Smaller>
    where
        D: RemoveAxis,
    {
        let (o, d, s) = self.sub_parts(a, i);
        unsafe { raw_view(self.ptr.offset(o), d, s) }
    }
    pub fn index_axis_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, A, D::Smaller>
    where
        D: RemoveAxis,
        S: DataMut,
    {
        let (o, d, s) = self.sub_parts(a, i);
        unsafe { raw_view_mut(self.ptr.offset(o), d, s) }
    }
    pub fn index_axis_move(self, a: Axis, i: usize) -> ArrayBase<S, D::Smaller>
    where
        D: RemoveAxis,
    {
        let (o, d, s) = self.sub_parts(a, i);
        ArrayBase { ptr: unsafe { self.ptr.offset(o) }, data: self.data, dim: d, strides: s }
    }
    pub fn subview(&self, a: Axis, i: usize) -> ArrayView<'_, A, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis(a, i)
    }
    pub fn subview_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, A, D::Smaller>
    where
        D: RemoveAxis,
        S: DataMut,
    {
        self.index_axis_mut(a, i)
    }
    fn slice_parts(&self, el: &[SliceOrIndex]) -> (isize, Vec<usize>, Vec<usize>) {
        let (mut off, mut d, mut s) = (0, vec![], vec![]);
        for (a, e) in el.iter().enumerate() {
            let (len, st) = (self.dim.slice()[a], self.strides.slice()[a] as isize);
            match *e {
                SliceOrIndex::I(i) => {
                    let i = abs_index(len, i);
                    assert!(i < len, "slice: index out of bounds");
                    off += i as isize * st;
                }
                SliceOrIndex::S(sl) => {
                    let (n, nst, o) = do_slice(len, st, sl);
                    off += o;
                    d.push(n);
                    s.push(nst as usize);
                }
            }
        }
        (off, d, s)
    }
    pub fn slice<I: SliceTuple<D>>(&self, info: I) -> ArrayView<'_, A, I::Out> {
        let (o, d, s) = self.slice_parts(&info.elems());
        unsafe { raw_view(self.ptr.offset(o), Dimension::from_slice(&d), Dimension::from_slice(&s)) }
    }
    pub fn slice_mut<I: SliceTuple<D>>(&mut self, info: I) -> ArrayViewMut<'_, A, I::Out>
    where
        S: DataMut,
    {
        let (o, d, s) = self.slice_parts(&info.elems());
        unsafe { raw_view_mut(self.ptr.offset(o), Dimension::from_slice(&d), Dimension::from_slice(&s)) }
    }
    pub fn slice_move<I: SliceTuple<D>>(self, info: I) -> ArrayBase<S, I::Out> {
        let (o, d, s) = self.slice_parts(&info.elems());
        ArrayBase {
            ptr: unsafe { self.ptr.offset(o) },
            data: self.data,
            dim: Dimension::from_slice(&d),
            strides: Dimension::from_slice(&s),
        }
    }
    fn slice_axis_parts(&self, a: Axis, sl: Slice) -> (isize, D, D) {
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        let (n, st, o) = do_slice(d[a.0], s[a.0] as isize, sl);
        d[a.0] = n;
        s[a.0] = st as usize;
        (o, D::from_slice(&d), D::from_slice(&s))
    }
    pub fn slice_axis(&self, a: Axis, sl: Slice) -> ArrayView<'_, A, D> {
        let (o, d, s) = self.slice_axis_parts(a, sl);
        unsafe { raw_view(self.ptr.offset(o), d, s) }
    }
    pub fn slice_axis_mut(&mut self, a: Axis, sl: Slice) -> ArrayViewMut<'_, A, D>
    where
        S: DataMut,
    {
        let (o, d, s) = self.slice_axis_parts(a, sl);
        unsafe { raw_view_mut(self.ptr.offset(o), d, s) }
    }
    pub fn slice_axis_inplace(&mut self, a: Axis, sl: Slice) {
        let (o, d, s) = self.slice_axis_parts(a, sl);
        self.ptr = unsafe { self.ptr.offset(o) };
        self.dim = d;
        self.strides = s;
    }
    pub fn split_at(self, a: Axis, i: usize) -> (Self, Self)
    where
        S: crate::ViewData,
    {
        let n = self.len_of(a);
        let (o1, d1, s1) = self.slice_axis_parts(a, Slice::from(0..i));
        let (o2, d2, s2) = self.slice_axis_parts(a, Slice::from(i..n));
        unsafe {
            (
                ArrayBase { data: S::again(), ptr: self.ptr.offset(o1), dim: d1, strides: s1 },
                ArrayBase { data: S::again(), ptr: self.ptr.offset(o2), dim: d2, strides: s2 },
            )
        }
    }
    pub fn invert_axis(&mut self, a: Axis) {
        self.slice_axis_inplace(a, Slice::new(0, None, -1));
    }
    pub fn broadcast<E: IntoDimension>(&self, to: E) -> Option<ArrayView<'_, A, E::Dim>> {
        let to = to.into_dimension();
        let st = broadcast_strides(self.dim.slice(), self.strides.slice(), to.slice())?;
        Some(unsafe { raw_view(self.ptr, to, Dimension::from_slice(&st)) })
    }
    pub(crate) fn broadcast_unwrap<E: Dimension>(&self, to: &E) -> ArrayView<'_, A, E> {
        match broadcast_strides(self.dim.slice(), self.strides.slice(), to.slice()) {
            Some(st) => unsafe { raw_view(self.ptr, to.clone(), E::from_slice(&st)) },
            None => panic!("ndarray: could not broadcast array from shape: {:?} to: {:?}", self.shape(), to.slice()),
        }
    }
    pub fn reversed_axes(self) -> Self {
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        d.reverse();
        s.reverse();
        ArrayBase { data: self.data, ptr: self.ptr, dim: D::from_slice(&d), strides: D::from_slice(&s) }
    }
    pub fn t(&self) -> ArrayView<'_, A, D> {
        self.view().reversed_axes()
    }
    pub fn insert_axis(self, a: Axis) -> ArrayBase<S, D::Larger> {
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        d.insert(a.0, 1);
        s.insert(a.0, 0);
        ArrayBase {
            data: self.data,
            ptr: self.ptr,
            dim: Dimension::from_slice(&d),
            strides: Dimension::from_slice(&s),
        }
    }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        if let Some(n) = D2::NDIM {
            if n != self.dim.ndim() {
                return Err(ShapeError("incompatible number of dimensions"));
            }
        }
        let dim = D2::from_slice(self.dim.slice());
        let strides = D2::from_slice(self.strides.slice());
        Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides })
    }
    pub fn into_shape<E: IntoDimension>(self, shape: E) -> Result<Array<A, E::Dim>, ShapeError>
    where
        A: Clone,
    {
        let dim = shape.into_dimension();
        if dim.size() != self.len() {
            return Err(ShapeError("incompatible shapes"));
        }
        Ok(Array::from_parts(self.iter().cloned().collect(), dim))
    }
    pub fn axis_iter(&self, a: Axis) -> AxisIter<'_, A, D::Smaller> {
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        let n = d.remove(a.0);
        let st = s.remove(a.0) as isize;
        AxisIter {
            ptr: self.ptr,
            n,
            step: st,
            i: 0,
            j: n,
            dim: Dimension::from_slice(&d),
            strides: Dimension::from_slice(&s),
            life: PhantomData,
        }
    }
    pub fn axis_iter_mut(&mut self, a: Axis) -> AxisIterMut<'_, A, D::Smaller>
    where
        S: DataMut,
    {
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        let n = d.remove(a.0);
        let st = s.remove(a.0) as isize;
        AxisIterMut {
            ptr: self.ptr,
            n,
            step: st,
            i: 0,
            j: n,
            dim: Dimension::from_slice(&d),
            strides: Dimension::from_slice(&s),
            life: PhantomData,
        }
    }
    pub fn outer_iter(&self) -> AxisIter<'_, A, D::Smaller> {
        self.axis_iter(Axis(0))
    }
    pub fn outer_iter_mut(&mut self) -> AxisIterMut<'_, A, D::Smaller>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }

    pub fn fill(&mut self, x: A)
    where
        S: DataMut,
        A: Clone,
    {
        for e in self.iter_mut() {
            *e = x.clone();
        }
    }
    pub fn assign<S2: Data<Elem = A>, E: Dimension>(&mut self, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        A: Clone,
    {
        self.zip_mut_with(rhs, |x, y| *x = y.clone())
    }
    pub fn zip_mut_with<B, S2: Data<Elem = B>, E: Dimension, F: FnMut(&mut A, &B)>(&mut self, rhs: &ArrayBase<S2, E>, mut f: F)
    where
        S: DataMut,
    {
        let r = rhs.broadcast_unwrap(&self.dim);
        let rp = r.ptr;
        let ro = Offsets::new(r.dim.slice(), r.strides.slice());
        for (x, o) in self.iter_mut().zip(ro) {
            f(x, unsafe { &*rp.offset(o) })
        }
    }
    pub fn scaled_add<S2: Data<Elem = A>, E: Dimension>(&mut self, alpha: A, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        A: Clone + std::ops::Mul<Output = A> + std::ops::AddAssign,
    {
        self.zip_mut_with(rhs, |y, x| *y += alpha.clone() * x.clone())
    }
    pub fn map<'a, B, F: FnMut(&'a A) -> B>(&'a self, f: F) -> Array<B, D>
    where
        A: 'a,
    {
        Array::from_parts(self.iter().map(f).collect(), self.dim.clone())
    }
    pub fn mapv<B, F: FnMut(A) -> B>(&self, mut f: F) -> Array<B, D>
    where
        A: Clone,
    {
        Array::from_parts(self.iter().map(|x| f(x.clone())).collect(), self.dim.clone())
    }
    pub fn mapv_into<F: FnMut(A) -> A>(mut self, f: F) -> Self
    where
        S: DataMut,
        A: Clone,
    {
        self.mapv_inplace(f);
        self
    }
    pub fn mapv_inplace<F: FnMut(A) -> A>(&mut self, mut f: F)
    where
        S: DataMut,
        A: Clone,
    {
        for x in self.iter_mut() {
            *x = f(x.clone());
        }
    }
    pub fn map_inplace<F: FnMut(&mut A)>(&mut self, mut f: F)
    where
        S: DataMut,
    {
        for x in self.iter_mut() {
            f(x);
        }
    }
    pub fn map_mut<'a, B, F: FnMut(&'a mut A) -> B>(&'a mut self, f: F) -> Array<B, D>
    where
        S: DataMut,
        A: 'a,
    {
        let dim = self.dim.clone();
        Array::from_parts(self.iter_mut().map(f).collect(), dim)
    }
    pub fn visit<'a, F: FnMut(&'a A)>(&'a self, f: F)
    where
        A: 'a,
    {
        self.iter().for_each(f)
    }
    pub fn fold<'a, B, F: FnMut(B, &'a A) -> B>(&'a self, init: B, f: F) -> B
    where
        A: 'a,
    {
        self.iter().fold(init, f)
    }
    pub fn sum(&self) -> A
    where
        A: Clone + std::ops::Add<Output = A> + Zero,
    {
        self.iter().fold(A::zero(), |a, x| a + x.clone())
    }
    pub fn scalar_sum(&self) -> A
    where
        A: Clone + std::ops::Add<Output = A> + Zero,
    {
        self.sum()
    }
    pub fn product(&self) -> A
    where
        A: Clone + std::ops::Mul<Output = A> + One,
    {
        self.iter().fold(A::one(), |a, x| a * x.clone())
    }
    pub fn sum_axis(&self, a: Axis) -> Array<A, D::Smaller>
    where
        A: Clone + Zero + std::ops::Add<Output = A>,
        D: RemoveAxis,
    {
        let n = self.len_of(a);
        let mut d = self.dim.slice().to_vec();
        d.remove(a.0);
        let mut res = Array::from_parts(vec![A::zero(); d.iter().product()], D::Smaller::from_slice(&d));
        for i in 0..n {
            let v = self.index_axis(a, i);
            res.zip_mut_with(&v, |x, y| *x = x.clone() + y.clone());
        }
        res
    }
    pub fn mean(&self) -> Option<A>
    where
        A: Clone + Zero + num_traits::FromPrimitive + std::ops::Div<Output = A>,
    {
        if self.is_empty() {
            None
        } else {
            Some(self.sum() / A::from_usize(self.len())?)
        }
    }
    pub fn map_axis<'a, B, F: FnMut(ArrayView1<'a, A>) -> B>(&'a self, a: Axis, mut f: F) -> Array<B, D::Smaller>
    where
        A: 'a,
        D: RemoveAxis,
    {
        let (n, st) = (self.dim.slice()[a.0], self.strides.slice()[a.0]);
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        d.remove(a.0);
        s.remove(a.0);
        let v = Offsets::new(&d, &s).map(|o| f(unsafe { raw_view(self.ptr.offset(o), Ix1(n), Ix1(st)) })).collect();
        Array::from_parts(v, D::Smaller::from_slice(&d))
    }
    pub fn accumulate_axis_inplace<F: FnMut(&A, &mut A)>(&mut self, a: Axis, mut f: F)
    where
        S: DataMut,
    {
        let (n, st) = (self.dim.slice()[a.0], self.strides.slice()[a.0] as isize);
        let mut d = self.dim.slice().to_vec();
        let mut s = self.strides.slice().to_vec();
        d.remove(a.0);
        s.remove(a.0);
        for o in Offsets::new(&d, &s) {
            for i in 1..n as isize {
                unsafe { f(&*self.ptr.offset(o + (i - 1) * st), &mut *self.ptr.offset(o + i * st)) }
            }
        }
    }
    pub fn multi_slice_mut<'a, M: MultiSlice<'a, A, D>>(&'a mut self, info: M) -> M::Out
    where
        A: 'a,
        S: DataMut,
    {
        info.cut(self.view_mut())
    }
    pub fn fold_axis<B: Clone, F: FnMut(&B, &A) -> B>(&self, a: Axis, init: B, mut f: F) -> Array<B, D::Smaller>
    where
        D: RemoveAxis,
    {
        let mut d = self.dim.slice().to_vec();
        d.remove(a.0);
        let mut res = Array::from_parts(vec![init; d.iter().product()], D::Smaller::from_slice(&d));
        for i in 0..self.len_of(a) {
            let v = self.index_axis(a, i);
            res.zip_mut_with(&v, |x, y| *x = f(x, y));
        }
        res
    }
    pub fn all_close<S2: Data<Elem = A>, E: Dimension>(&self, rhs: &ArrayBase<S2, E>, tol: A) -> bool
    where
        A: Float,
    {
        let r = rhs.broadcast_unwrap(&self.dim);
        let b = self.iter().zip(r.iter()).all(|(x, y)| (*x - *y).abs() <= tol);
        b
    }
}

impl<A, S: Data<Elem = A>> ArrayBase<S, Ix1> {
    pub fn windows<'a>(&'a self, n: usize) -> impl Iterator<Item = ArrayView1<'a, A>> + 'a
    where
        A: 'a,
    {
        assert!(n > 0);
        let c = (self.len() + 1).saturating_sub(n);
        (0..c).map(move |i| self.slice_axis(Axis(0), Slice::from(i..i + n)))
    }
    pub fn last_mut(&mut self) -> Option<&mut A>
    where
        S: DataMut,
    {
        self.iter_mut().next_back()
    }
    pub fn into_raw_vec(self) -> Vec<A>
    where
        A: Clone,
    {
        self.to_vec()
    }
    pub fn last(&self) -> Option<&A> {
        self.iter().last()
    }
}
impl<A, S: Data<Elem = A>> ArrayBase<S, Ix2> {
    pub fn nrows(&self) -> usize {
        self.shape()[0]
    }
    pub fn ncols(&self) -> usize {
        self.shape()[1]
    }
    pub fn rows(&self) -> Lanes<'_, A, Ix1> {
        self.axis_iter(Axis(0))
    }
    pub fn columns(&self) -> Lanes<'_, A, Ix1> {
        self.axis_iter(Axis(1))
    }
    pub fn genrows(&self) -> Lanes<'_, A, Ix1> {
        self.axis_iter(Axis(0))
    }
    pub fn gencolumns(&self) -> Lanes<'_, A, Ix1> {
        self.axis_iter(Axis(1))
    }
    pub fn lanes(&self, a: Axis) -> Lanes<'_, A, Ix1> {
        self.axis_iter(Axis(1 - a.0))
    }
    pub fn rows_mut(&mut self) -> LanesMut<'_, A, Ix1>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn columns_mut(&mut self) -> LanesMut<'_, A, Ix1>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(1))
    }
    pub fn genrows_mut(&mut self) -> LanesMut<'_, A, Ix1>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn gencolumns_mut(&mut self) -> LanesMut<'_, A, Ix1>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(1))
    }
    pub fn row(&self, i: usize) -> ArrayView1<'_, A> {
        self.index_axis(Axis(0), i)
    }
    pub fn column(&self, i: usize) -> ArrayView1<'_, A> {
        self.index_axis(Axis(1), i)
    }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, A>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(0), i)
    }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, A>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(1), i)
    }
    pub fn diag_mut(&mut self) -> ArrayViewMut1<'_, A>
    where
        S: DataMut,
    {
        let n = self.nrows().min(self.ncols());
        let st = self.strides.slice()[0].wrapping_add(self.strides.slice()[1]);
        unsafe { raw_view_mut(self.ptr, Ix1(n), Ix1(st)) }
    }
    pub fn into_diag(self) -> Array1<A>
    where
        A: Clone,
    {
        self.diag().to_owned()
    }
    pub fn diag(&self) -> ArrayView1<'_, A> {
        let n = self.nrows().min(self.ncols());
        let st = self.strides.slice()[0].wrapping_add(self.strides.slice()[1]);
        unsafe { raw_view(self.ptr, Ix1(n), Ix1(st)) }
    }
}

impl<S: Data, D: Dimension, I: NdIndex<D>> std::ops::Index<I> for ArrayBase<S, D> {
    type Output = S::Elem;
    fn index(&self, i: I) -> &S::Elem {
        match self.offset_of(&i) {
            Some(o) => unsafe { &*self.ptr.offset(o) },
            None => panic!("ndarray: index out of bounds"),
        }
    }
}
impl<S: DataMut, D: Dimension, I: NdIndex<D>> std::ops::IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut S::Elem {
        match self.offset_of(&i) {
            Some(o) => unsafe { &mut *self.ptr.offset(o) },
            None => panic!("ndarray: index out of bounds"),
        }
    }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a S::Elem;
    type IntoIter = Iter<'a, S::Elem>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a mut S::Elem;
    type IntoIter = IterMut<'a, S::Elem>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<A: Clone, D: Dimension> IntoIterator for Array<A, D> {
    type Item = A;
    type IntoIter = std::vec::IntoIter<A>;
    fn into_iter(self) -> Self::IntoIter {
        self.to_vec().into_iter()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = Iter<'a, A>;
    fn into_iter(self) -> Self::IntoIter {
        Iter { ptr: self.ptr, o: Offsets::new(self.dim.slice(), self.strides.slice()), life: PhantomData }
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type IntoIter = IterMut<'a, A>;
    fn into_iter(self) -> Self::IntoIter {
        IterMut { ptr: self.ptr, o: Offsets::new(self.dim.slice(), self.strides.slice()), life: PhantomData }
    }
}

impl<A, B, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D>
where
    A: PartialEq<B>,
{
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}
impl<S: Data, D: Dimension> Eq for ArrayBase<S, D> where S::Elem: Eq {}

macro_rules! fmt_impl {
    ($($tr:ident),*) => {$(
        impl<A: fmt::$tr, S: Data<Elem = A>, D: Dimension> fmt::$tr for ArrayBase<S, D> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fn rec<A: fmt::$tr>(f: &mut fmt::Formatter<'_>, shape: &[usize], it: &mut dyn Iterator<Item = &A>) -> fmt::Result {
                    if shape.is_empty() { return match it.next() { Some(x) => fmt::$tr::fmt(x, f), None => Ok(()) }; }
                    f.write_str("[")?;
                    for i in 0..shape[0] {
                        if i > 0 { f.write_str(", ")?; }
                        rec(f, &shape[1..], it)?;
                    }
                    f.write_str("]")
                }
                rec(f, self.shape(), &mut self.iter())
            }
        }
    )*};
}
fmt_impl!(Debug, Display, LowerExp, UpperExp);
