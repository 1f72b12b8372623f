use std::fmt::Debug;

pub type Ix = usize;
pub type Ixs = isize;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Dim<I: ?Sized> {
    pub(crate) index: I,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct IxDynImpl(pub(crate) Vec<usize>);
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type IxDyn = Dim<IxDynImpl>;

#[allow(non_snake_case)]
pub fn Ix1(a: usize) -> Ix1 {
    Dim { index: [a] }
}
#[allow(non_snake_case)]
pub fn Ix2(a: usize, b: usize) -> Ix2 {
    Dim { index: [a, b] }
}
#[allow(non_snake_case)]
pub fn IxDyn(v: &[usize]) -> IxDyn {
    Dim { index: IxDynImpl(v.to_vec()) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Axis(pub usize);
impl Axis {
    pub fn index(self) -> usize {
        self.0
    }
}

pub trait Dimension: Clone + Eq + Debug + Send + Sync + Default + 'static {
    const NDIM: Option<usize>;
    type Pattern: IntoDimension<Dim = Self> + Clone + Debug + PartialEq + Eq + Default;
    type Smaller: Dimension;
    type Larger: Dimension;
    fn slice(&self) -> &[usize];
    fn from_slice(s: &[usize]) -> Self;
    fn pattern(&self) -> Self::Pattern;
    fn into_pattern(self) -> Self::Pattern {
        self.pattern()
    }
    fn ndim(&self) -> usize {
        self.slice().len()
    }
    fn size(&self) -> usize {
        self.slice().iter().product()
    }
    fn as_array_view(&self) -> crate::ArrayView1<'_, usize> {
        crate::ArrayView1::from(self.slice())
    }
}

impl Dimension for Ix0 {
    const NDIM: Option<usize> = Some(0);
    type Pattern = ();
    type Smaller = Ix0;
    type Larger = Ix1;
    fn slice(&self) -> &[usize] {
        &self.index
    }
    fn from_slice(s: &[usize]) -> Self {
        assert_eq!(s.len(), 0);
        Dim { index: [] }
    }
    fn pattern(&self) {}
}
impl Dimension for Ix1 {
    const NDIM: Option<usize> = Some(1);
    type Pattern = usize;
    type Smaller = Ix0;
    type Larger = Ix2;
    fn slice(&self) -> &[usize] {
        &self.index
    }
    fn from_slice(s: &[usize]) -> Self {
        assert_eq!(s.len(), 1);
        Dim { index: [s[0]] }
    }
    fn pattern(&self) -> usize {
        self.index[0]
    }
}
impl Dimension for Ix2 {
    const NDIM: Option<usize> = Some(2);
    type Pattern = (usize, usize);
    type Smaller = Ix1;
    type Larger = IxDyn;
    fn slice(&self) -> &[usize] {
        &self.index
    }
    fn from_slice(s: &[usize]) -> Self {
        assert_eq!(s.len(), 2);
        Dim { index: [s[0], s[1]] }
    }
    fn pattern(&self) -> (usize, usize) {
        (self.index[0], self.index[1])
    }
}
impl Dimension for IxDyn {
    const NDIM: Option<usize> = None;
    type Pattern = IxDyn;
    type Smaller = IxDyn;
    type Larger = IxDyn;
    fn slice(&self) -> &[usize] {
        &self.index.0
    }
    fn from_slice(s: &[usize]) -> Self {
        IxDyn(s)
    }
    fn pattern(&self) -> IxDyn {
        self.clone()
    }
}
impl std::ops::Index<usize> for Ix1 {
    type Output = usize;
    fn index(&self, i: usize) -> &usize {
        &self.index[i]
    }
}
impl std::ops::Index<usize> for Ix2 {
    type Output = usize;
    fn index(&self, i: usize) -> &usize {
        &self.index[i]
    }
}

pub trait RemoveAxis: Dimension {}
impl RemoveAxis for Ix1 {}
impl RemoveAxis for Ix2 {}
impl RemoveAxis for IxDyn {}

pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}
/// only C order exists here
pub trait ShapeBuilder: IntoDimension {}
impl<T: IntoDimension> ShapeBuilder for T {}

impl IntoDimension for () {
    type Dim = Ix0;
    fn into_dimension(self) -> Ix0 {
        Dim { index: [] }
    }
}
impl IntoDimension for usize {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Ix1(self)
    }
}
impl IntoDimension for (usize,) {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Ix1(self.0)
    }
}
impl IntoDimension for (usize, usize) {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Ix2(self.0, self.1)
    }
}
impl IntoDimension for [usize; 1] {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Ix1(self[0])
    }
}
impl IntoDimension for [usize; 2] {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Ix2(self[0], self[1])
    }
}
impl IntoDimension for Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        IxDyn(&self)
    }
}
impl<'a> IntoDimension for &'a [usize] {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        IxDyn(self)
    }
}
impl IntoDimension for Ix0 {
    type Dim = Ix0;
    fn into_dimension(self) -> Ix0 {
        self
    }
}
impl IntoDimension for Ix1 {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        self
    }
}
impl IntoDimension for Ix2 {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        self
    }
}
impl IntoDimension for IxDyn {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        self
    }
}

/// index types accepted by `a[ix]`
pub trait NdIndex<D> {
    fn idx(&self) -> ([usize; 2], usize);
}
impl NdIndex<Ix1> for usize {
    fn idx(&self) -> ([usize; 2], usize) {
        ([*self, 0], 1)
    }
}
impl NdIndex<Ix1> for [usize; 1] {
    fn idx(&self) -> ([usize; 2], usize) {
        ([self[0], 0], 1)
    }
}
impl NdIndex<Ix1> for (usize,) {
    fn idx(&self) -> ([usize; 2], usize) {
        ([self.0, 0], 1)
    }
}
impl NdIndex<Ix2> for [usize; 2] {
    fn idx(&self) -> ([usize; 2], usize) {
        (*self, 2)
    }
}
impl NdIndex<Ix2> for (usize, usize) {
    fn idx(&self) -> ([usize; 2], usize) {
        ([self.0, self.1], 2)
    }
}
impl NdIndex<Ix0> for () {
    fn idx(&self) -> ([usize; 2], usize) {
        ([0, 0], 0)
    }
}
impl NdIndex<Ix0> for [usize; 0] {
    fn idx(&self) -> ([usize; 2], usize) {
        ([0, 0], 0)
    }
}
