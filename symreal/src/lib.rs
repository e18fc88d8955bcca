#![allow(clippy::all)]
pub mod big;
pub mod ctx;
pub mod quick;
pub mod rat;
pub mod s;
pub mod solver;
pub use s::{sym_as, SymAs, S};

pub fn enter(name: &'static str) {
    ctx::CTX.with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            if c.active && c.fun_ptrs.insert(name.as_ptr() as usize) {
                c.functions.insert(name);
            }
        }
    })
}

/// stands for `std::f64`
pub mod f64 {
    pub use crate::S;
    pub const MAX: S = S::MAX;
    pub const MIN: S = S::MIN;
    pub const EPSILON: S = S::EPSILON;
    pub const INFINITY: S = S::INFINITY;
    pub const NEG_INFINITY: S = S::NEG_INFINITY;
    pub const NAN: S = S::NAN;
    pub const MIN_POSITIVE: S = S::MIN_POSITIVE;
    pub mod consts {
        use crate::S;
        use std::f64::consts as k;
        pub const PI: S = S::C(k::PI);
        pub const TAU: S = S::C(k::TAU);
        pub const E: S = S::C(k::E);
        pub const FRAC_PI_2: S = S::C(k::FRAC_PI_2);
        pub const FRAC_PI_3: S = S::C(k::FRAC_PI_3);
        pub const FRAC_PI_4: S = S::C(k::FRAC_PI_4);
        pub const FRAC_PI_6: S = S::C(k::FRAC_PI_6);
        pub const FRAC_PI_8: S = S::C(k::FRAC_PI_8);
        pub const FRAC_1_PI: S = S::C(k::FRAC_1_PI);
        pub const FRAC_2_PI: S = S::C(k::FRAC_2_PI);
        pub const FRAC_1_SQRT_2: S = S::C(k::FRAC_1_SQRT_2);
        pub const SQRT_2: S = S::C(k::SQRT_2);
        pub const LN_2: S = S::C(k::LN_2);
        pub const LN_10: S = S::C(k::LN_10);
    }
}
