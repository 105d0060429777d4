//! Scalar abstraction and exact-ish arithmetic for oracles.
use nalgebra::RealField;
pub trait Fl: RealField + Copy + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// unit roundoff
    const U: f64;
    const BIG: f64;
    const SMALL: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const U: f64 = 1.1102230246251565e-16;
    const BIG: f64 = 1e290;
    const SMALL: f64 = 1e-290;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const U: f64 = 5.960464477539063e-8;
    const BIG: f64 = 1e33;
    const SMALL: f64 = 1e-33;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}

/// double-double accumulator
#[derive(Clone, Copy, Default, Debug)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}
impl DD {
    pub fn new(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
    pub fn add(&mut self, x: f64) {
        let s = self.hi + x;
        let bb = s - self.hi;
        let e = (self.hi - (s - bb)) + (x - bb);
        self.hi = s;
        self.lo += e;
    }
    pub fn add_prod(&mut self, a: f64, b: f64) {
        let p = a * b;
        let e = a.mul_add(b, -p);
        self.add(p);
        self.lo += e;
    }
    pub fn val(self) -> f64 {
        self.hi + self.lo
    }
}
