//! Exact embeddings of the specification's integer lattice into the coordinate types.
//!
//! The specification works on integer coordinates. An embedding places lattice point `k` at
//! `(k + off) * 2^exp`; drivers choose only embeddings for which every coordinate, difference and
//! product the code needs is exactly representable, so the result must map back to the lattice
//! exactly. A value that is not on the lattice is reported as `OFF`, which the specification rejects.

use crate::Rng;

/// Marks a value that is not a lattice point.
pub const OFF: i64 = 99_999_999;

#[derive(Clone, Copy, Debug)]
pub struct Emb {
    pub exp: i32,
    pub off: i64,
    /// Write zero as minus zero (floating point types only).
    pub neg_zero: bool,
}

impl Emb {
    pub const ID: Emb = Emb { exp: 0, off: 0, neg_zero: false };
    pub fn new(exp: i32, off: i64) -> Self {
        Emb { exp, off, neg_zero: false }
    }
    pub fn show(&self) -> String {
        format!("{{\"exp\":{},\"off\":{},\"nz\":{}}}", self.exp, self.off, self.neg_zero)
    }
}

pub trait Lat: Copy + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    /// Significant bits.
    const BITS: u32;
    fn to(k: i64, e: &Emb) -> Self;
    fn back(self, e: &Emb) -> i64;
    fn fits(k: i64, e: &Emb) -> bool;
}

macro_rules! float_lat {
    ($t:ty, $bits:expr) => {
        impl Lat for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = true;
            const BITS: u32 = $bits;
            fn to(k: i64, e: &Emb) -> Self {
                let v = k + e.off;
                if v == 0 && e.neg_zero {
                    return -0.0;
                }
                (v as $t) * (2.0 as $t).powi(e.exp)
            }
            fn back(self, e: &Emb) -> i64 {
                let v = self * (2.0 as $t).powi(-e.exp);
                if v.is_finite() && v.fract() == 0.0 && v.abs() <= 9_007_199_254_740_992.0 {
                    let k = v as i64 - e.off;
                    if k.abs() < OFF {
                        return k;
                    }
                }
                OFF
            }
            fn fits(k: i64, e: &Emb) -> bool {
                (k + e.off).unsigned_abs() < (1u64 << $bits)
            }
        }
    };
}
float_lat!(f32, 24);
float_lat!(f64, 53);

macro_rules! int_lat {
    ($($t:ty),*) => {$(
        impl Lat for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = false;
            const BITS: u32 = <$t>::BITS;
            fn to(k: i64, e: &Emb) -> Self {
                <$t>::try_from((k as i128 + e.off as i128) << e.exp).unwrap()
            }
            fn back(self, e: &Emb) -> i64 {
                let v = self as i128;
                if v & ((1i128 << e.exp) - 1) == 0 {
                    let k = (v >> e.exp) - e.off as i128;
                    if k.abs() < OFF as i128 {
                        return k as i64;
                    }
                }
                OFF
            }
            fn fits(k: i64, e: &Emb) -> bool {
                <$t>::try_from((k as i128 + e.off as i128) << e.exp).is_ok()
            }
        }
    )*};
}
int_lat!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

/// Embeddings that keep every coordinate in `-reach..=reach` and all squared distances exact.
pub fn dist_embedding(r: &mut Rng, ty: &str, reach: i64, d: usize) -> Emb {
    let plain = r.chance(1, 3);
    let mut e = match ty {
        _ if plain => Emb::ID,
        "f32" => Emb::new(r.range(-40, 40) as i32, r.range(-(1 << 22), 1 << 22)),
        "f64" => Emb::new(r.range(-400, 400) as i32, r.range(-(1 << 50), 1 << 50)),
        "i32" => {
            // (2 * reach * 2^exp)^2 * d < 2^31
            let mut x = 0;
            while (2.0 * reach as f64 * 2f64.powi(x + 1)).powi(2) * (d as f64) < 2e9 {
                x += 1;
            }
            let x = r.range(0, x as i64) as i32;
            let room = (i32::MAX as i64 >> x) - reach - 2;
            Emb::new(x, *r.pick(&[0, room, -room, room / 2]))
        }
        _ => {
            let x = r.range(0, 16) as i32;
            let room = (i64::MAX >> x) - reach - 2;
            Emb::new(x, *r.pick(&[0, room, -room, room / 2]))
        }
    };
    e.neg_zero = ty.starts_with('f') && r.chance(1, 2);
    e
}


/// Embeddings that only keep every coordinate in `-reach..=reach` exact.
pub fn wild_embedding(r: &mut Rng, ty: &str, reach: i64) -> Emb {
    let mut e = match ty {
        "f32" => Emb::new(*r.pick(&[-126, -100, -80, -64, 64, 90, 100]), *r.pick(&[0, 0, 1 << 22])),
        "f64" => Emb::new(*r.pick(&[-1022, -900, -600, -530, 500, 600, 900]), *r.pick(&[0, 0, 1 << 50])),
        _ => {
            let bits = if ty == "i32" { 31 } else { 63 };
            let mut x = 0;
            while (reach + 2) << (x + 1) < (1i64 << (bits - 1)) {
                x += 1;
            }
            Emb::new(x, 0)
        }
    };
    e.neg_zero = ty.starts_with('f') && r.chance(1, 2);
    e
}
