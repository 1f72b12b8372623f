//! Stand-in for `nearly_eq`: `assert_nearly_eq!(a, b[, eps])` on numbers and arrays; like the
//! original, the default epsilon is absolute 1e-6.
use ndarray::{ArrayBase, Data, Dimension};

pub trait NearlyEq<R: ?Sized> {
    fn nearly(&self, r: &R, eps: f64) -> bool;
}
impl NearlyEq<f64> for f64 {
    fn nearly(&self, r: &f64, eps: f64) -> bool {
        self == r || (self - r).abs() < eps
    }
}
impl<S1: Data<Elem = f64>, S2: Data<Elem = f64>, D: Dimension> NearlyEq<ArrayBase<S2, D>> for ArrayBase<S1, D> {
    fn nearly(&self, r: &ArrayBase<S2, D>, eps: f64) -> bool {
        self.shape() == r.shape() && self.iter().zip(r.iter()).all(|(a, b)| a.nearly(b, eps))
    }
}
#[macro_export]
macro_rules! assert_nearly_eq {
    ($a:expr, $b:expr) => { $crate::assert_nearly_eq!($a, $b, 1e-6) };
    ($a:expr, $b:expr, $e:expr) => {{
        let (a, b) = (&$a, &$b);
        assert!($crate::NearlyEq::nearly(a, b, $e), "not nearly equal (eps {:?})\n {:?}\n {:?}", $e, a, b);
    }};
}
