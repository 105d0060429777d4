//! Stand-in for `nearly_eq` 0.2 (used only to run the repository's own src/tests against the stand-ins).
use ndarray::{ArrayBase, Data, Dimension};
pub trait NearlyEq<Rhs: ?Sized, Diff: ?Sized> {
    fn eps() -> f64 {
        1e-6
    }
    fn near(&self, other: &Rhs, eps: f64) -> bool;
}
impl NearlyEq<f64, f64> for f64 {
    fn near(&self, o: &f64, eps: f64) -> bool {
        self == o || (self - o).abs() < eps
    }
}
impl<S: Data<Elem = f64>, S2: Data<Elem = f64>, D: Dimension> NearlyEq<ArrayBase<S2, D>, f64> for ArrayBase<S, D> {
    fn near(&self, o: &ArrayBase<S2, D>, eps: f64) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b || (a - b).abs() < eps)
    }
}
impl<'a, T: ?Sized + NearlyEq<U, f64>, U: ?Sized> NearlyEq<U, f64> for &'a T {
    fn near(&self, o: &U, eps: f64) -> bool {
        (**self).near(o, eps)
    }
}
#[macro_export]
macro_rules! assert_nearly_eq {
    ($a:expr, $b:expr) => { $crate::assert_nearly_eq!($a, $b, 1e-6) };
    ($a:expr, $b:expr, $eps:expr) => {{
        let (a, b) = (&$a, &$b);
        assert!($crate::NearlyEq::near(a, b, $eps), "assertion failed: {:?} vs {:?}", a, b);
    }};
}
