//! The two float types the operators are generic over, and generators of numbers, boxes and goal functions.
use crate::fw::{hash_u64s, mix, Rng};
use num::Float;
use optlib::genetic::cross::{CrossBitwise, CrossMean, FloatCrossExp, FloatCrossGeometricMean};
use optlib::genetic::mutation::BitwiseMutation;
use optlib::genetic::{Cross, Mutation};
use rand::distributions::uniform::SampleUniform;
use std::fmt::{Debug, Display};

pub trait Fl: Float + SampleUniform + Debug + Display + Send + Sync + 'static + num::Zero {
    const BITS: usize;
    const NAME: &'static str;
    fn bits(self) -> u64;
    fn of_bits(b: u64) -> Self;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn eps() -> f64;
    fn cross_bitwise() -> Box<dyn Cross<Self>>;
    fn mutation_bitwise(n: usize) -> Box<dyn Mutation<Self>>;
    fn ulp_up(self) -> Self;
    fn ulp_down(self) -> Self {
        -((-self).ulp_up())
    }
    fn cross_exp() -> Box<dyn Cross<Self>> {
        Box::new(FloatCrossExp::new())
    }
    fn cross_mean() -> Box<dyn Cross<Self>> {
        Box::new(CrossMean::new())
    }
    fn cross_geo() -> Box<dyn Cross<Self>> {
        Box::new(FloatCrossGeometricMean::new())
    }
}

macro_rules! fl {
    ($t:ty, $u:ty, $bits:expr, $name:expr) => {
        impl Fl for $t {
            const BITS: usize = $bits;
            const NAME: &'static str = $name;
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn of_bits(b: u64) -> Self {
                <$t>::from_bits(b as $u)
            }
            fn f(self) -> f64 {
                self as f64
            }
            fn of(x: f64) -> Self {
                x as $t
            }
            fn eps() -> f64 {
                <$t>::EPSILON as f64
            }
            fn cross_bitwise() -> Box<dyn Cross<Self>> {
                Box::new(CrossBitwise::new())
            }
            fn mutation_bitwise(n: usize) -> Box<dyn Mutation<Self>> {
                Box::new(BitwiseMutation::new(n))
            }
            fn ulp_up(self) -> Self {
                if self.is_nan() || self == <$t>::INFINITY {
                    return self;
                }
                if self == 0.0 {
                    return <$t>::from_bits(1);
                }
                if self > 0.0 {
                    <$t>::from_bits(self.to_bits() + 1)
                } else {
                    <$t>::from_bits(self.to_bits() - 1)
                }
            }
        }
    };
}
fl!(f32, u32, 32, "f32");
fl!(f64, u64, 64, "f64");

/// Any float at all: special values, neighbours of specials, random bit patterns, ordinary numbers.
pub fn any_float<F: Fl>(r: &mut Rng) -> F {
    match r.below(12) {
        0 => *r.pick(&[F::zero(), -F::zero(), F::nan(), F::infinity(), F::neg_infinity(), F::max_value(), F::min_value(), F::min_positive_value(), F::one()]),
        1 | 2 | 3 => F::of_bits(r.u64()),
        4 => F::of_bits(r.u64()).abs(),
        5 => F::of(r.f(-1e-30, 1e-30)),
        6 => F::of(r.below(21) as f64 - 10.0),
        7 => F::of(r.f(-1e6, 1e6)),
        _ => F::of(r.f(-10.0, 10.0)),
    }
}

pub fn finite_float<F: Fl>(r: &mut Rng) -> F {
    loop {
        let x = any_float::<F>(r);
        if x.is_finite() {
            return x;
        }
    }
}

/// A finite interval with a representable width.
pub fn interval<F: Fl>(r: &mut Rng) -> (F, F) {
    loop {
        let (a, b) = match r.below(8) {
            0 => (0.0, 1.0),
            1 => (-r.f(0.001, 10.0), r.f(0.001, 10.0)),
            2 => {
                let c = r.f(-1e3, 1e3);
                (c, c + r.f(1e-3, 1.0))
            }
            3 => (-r.f(1e5, 1e12), r.f(1e5, 1e12)),
            4 => (r.f(1e-9, 1e-8), r.f(1e-7, 1e-6)),
            5 => (-5.12, 5.12),
            6 => (-500.0, 500.0),
            _ => (-r.f(50.0, 100.0), -r.f(0.0, 40.0)),
        };
        let (a, b) = (F::of(a), F::of(b));
        if a < b {
            return (a, b);
        }
    }
}

pub fn intervals<F: Fl>(r: &mut Rng, dim: usize) -> Vec<(F, F)> {
    (0..dim).map(|_| interval(r)).collect()
}

pub fn key<F: Fl>(x: &[F]) -> Vec<u64> {
    x.iter().map(|v| v.bits()).collect()
}

pub fn inside<F: Fl>(x: &[F], iv: &[(F, F)]) -> bool {
    x.len() == iv.len() && x.iter().zip(iv).all(|(v, (a, b))| v.is_finite() && *v >= *a && *v <= *b)
}

/// A goal function, as a pure function of (point, number of the call in this run).
#[derive(Clone, Debug, PartialEq)]
pub enum GoalKind {
    Sphere,
    Rugged(u64),
    Plateau(f64),
    Const(f64),
    NanHoles(u64, u32),
    InfHoles(u64, u32),
    Mixed(u64),
    AllNan,
    Huge,
    Zeros,
    /// Value depends on the call number too.
    Noisy(u64),
    /// Becomes worse with every call.
    Worsening,
    /// Becomes better with every call.
    Improving,
    /// Like Mixed, but never NaN or infinite.
    FewValues(u64, u32),
}
use GoalKind::*;

impl GoalKind {
    pub fn pure(&self) -> bool {
        !matches!(self, Noisy(_) | Worsening | Improving)
    }
    pub fn any(r: &mut Rng) -> GoalKind {
        let s = r.u64();
        match r.below(15) {
            0 | 1 => Sphere,
            2 | 3 => Rugged(s),
            4 => Plateau(*r.pick(&[0.5, 1.0, 5.0, 100.0])),
            5 => Const(*r.pick(&[0.0, 1.0, -3.5, f64::INFINITY, f64::NEG_INFINITY, f64::MAX])),
            6 => NanHoles(s, *r.pick(&[10, 100, 200, 250])),
            7 => InfHoles(s, *r.pick(&[10, 100, 200])),
            8 => Mixed(s),
            9 => AllNan,
            10 => Huge,
            11 => Zeros,
            12 => Noisy(s),
            13 => {
                if r.chance(0.5) {
                    Worsening
                } else {
                    Improving
                }
            }
            _ => FewValues(s, *r.pick(&[2, 3, 8])),
        }
    }
    pub fn any_pure(r: &mut Rng) -> GoalKind {
        loop {
            let g = Self::any(r);
            if g.pure() {
                return g;
            }
        }
    }
    /// Finite goals with distinct values for distinct points (almost surely).
    pub fn smooth(r: &mut Rng) -> GoalKind {
        let s = r.u64();
        if r.chance(0.5) {
            Sphere
        } else {
            Rugged(s)
        }
    }
    pub fn eval(&self, k: &[u64], coords: &[f64], call: u64) -> f64 {
        let h = |s: u64| mix(hash_u64s(k) ^ s);
        let unit = |z: u64| (z >> 11) as f64 / (1u64 << 53) as f64;
        let sphere = || {
            let mut s = 0.0;
            for (i, x) in coords.iter().enumerate() {
                s += (x - (i as f64 + 1.0) * 0.1) * (x - (i as f64 + 1.0) * 0.1);
            }
            s
        };
        match self {
            Sphere => sphere(),
            Rugged(s) => unit(h(*s)) * 1000.0 - 200.0,
            Plateau(w) => (sphere() / w).floor(),
            Const(c) => *c,
            NanHoles(s, p) => {
                if h(*s) & 0xff < u64::from(*p) {
                    f64::NAN
                } else {
                    unit(h(*s ^ 77)) * 10.0 - 5.0
                }
            }
            InfHoles(s, p) => {
                let z = h(*s);
                if z & 0xff < u64::from(*p) {
                    if z & 0x100 == 0 {
                        f64::INFINITY
                    } else {
                        f64::NEG_INFINITY
                    }
                } else {
                    sphere()
                }
            }
            Mixed(s) => match h(*s) % 10 {
                0 => f64::NAN,
                1 => f64::INFINITY,
                2 => f64::NEG_INFINITY,
                3 => f64::MAX,
                4 => -0.0,
                5 => 0.0,
                6 => 1.0,
                7 => f64::MIN_POSITIVE / 8.0,
                _ => unit(h(*s ^ 5)) - 0.5,
            },
            AllNan => f64::NAN,
            Huge => {
                if h(3) & 1 == 0 {
                    1e308
                } else {
                    -1e308
                }
            }
            Zeros => {
                if h(9) & 1 == 0 {
                    0.0
                } else {
                    -0.0
                }
            }
            Noisy(s) => unit(mix(h(*s) ^ call)) * 100.0,
            Worsening => call as f64,
            Improving => -(call as f64),
            FewValues(s, n) => (h(*s) % u64::from(*n)) as f64,
        }
    }
}

/// An upper bound a tail of a chi-square variable with `df` degrees of freedom exceeds with probability < 1e-12
/// (Wilson-Hilferty with z = 7.5).
pub fn chi2_bound(df: usize) -> f64 {
    let k = df as f64;
    let z = 7.5;
    let t = 1.0 - 2.0 / (9.0 * k) + z * (2.0 / (9.0 * k)).sqrt();
    // Wilson-Hilferty is too small in the far tail for very small df; add a safety margin.
    k * t * t * t * 1.15 + 25.0
}

pub fn chi2(counts: &[u64], expected: &[f64]) -> f64 {
    counts.iter().zip(expected).map(|(c, e)| (*c as f64 - e) * (*c as f64 - e) / e).sum()
}

/// Two-sided bound on a binomial count: |count - n p| may exceed this with probability < 1e-12.
pub fn binom_dev(n: u64, p: f64) -> f64 {
    // Bernstein: P(|X-np| > t) <= 2 exp(-t^2 / (2 (np(1-p) + t/3))), solve for 1e-12.
    let v = n as f64 * p * (1.0 - p);
    let l = (2e12f64).ln();
    l / 3.0 + ((l / 3.0) * (l / 3.0) + 2.0 * v * l).sqrt()
}
