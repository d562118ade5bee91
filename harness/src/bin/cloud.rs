//! Calls to the point cloud functions: nearest, sorts, NaN detection, downsampling, centroid,
//! transforms and generation.

use harness::embed::dist_embedding;
use harness::*;
use mapping_algorithms::{
    point_clouds::{
        calculate_point_cloud_center, downsample_point_cloud_voxel, find_nearest_neighbour_naive, generate_point_cloud,
        lex_sort, lex_sort_in_place, lex_sort_ref, transform_point_cloud,
    },
    polygons::graham_scan,
    types::IsNan,
};
use nalgebra::{
    AbstractRotation, ComplexField, Isometry, Matrix2, Matrix3, Point, Quaternion, RealField, Rotation2, Rotation3, SVector, Scalar,
    Translation, Unit, UnitComplex,
};
use num_traits::{AsPrimitive, Bounded, NumAssign, NumOps, Zero};
use std::collections::HashMap;

fn pt<T: Lat + Scalar, const N: usize>(p: &[i64], e: &Emb) -> Point<T, N> {
    Point::from(std::array::from_fn(|i| T::to(p[i], e)))
}
fn unpt<T: Lat + Scalar, const N: usize>(p: &Point<T, N>, e: &Emb) -> Vec<i64> {
    p.coords.iter().map(|c| c.back(e)).collect()
}

fn fail(p: &str, op: &str, m: &str) -> String {
    format!("{{\"op\":\"fail\",\"p\":\"{p}\",\"in\":\"{op}\",\"what\":\"{m}\"}}")
}

macro_rules! by_dim {
    (@ $f:ident, [$($t:ty),*], $n:literal, ($($a:expr),*)) => { $f::<$($t,)* $n>($($a),*) };
    ($d:expr, $f:ident, $t:tt, $a:tt; $($n:literal),*) => {
        match $d { $($n => by_dim!(@ $f, $t, $n, $a),)* _ => unreachable!() }
    };
}

// ---------------------------------------------------------------- nearest
fn near<T, const N: usize>(pts: &[Vec<i64>], reps: &[i64], q: &[i64], e: &Emb) -> String
where
    T: Lat + Scalar + Bounded + Default + NumOps + PartialOrd,
{
    let ctx = format!("find_nearest_neighbour_naive {} {N} {} {} times {} {}", T::NAME, e.show(), arr2(pts), arr(reps), arr(q));
    let v: Vec<Point<T, N>> = expand(&pts.iter().map(|p| pt(p, e)).collect::<Vec<_>>(), reps);
    match call(&ctx, || find_nearest_neighbour_naive(&pt::<T, N>(q, e), &v)) {
        Ok(r) => {
            let r: Vec<Vec<i64>> = r.iter().map(|p| unpt(p, e)).collect();
            format!("{{\"op\":\"near\",\"ty\":\"{}\",\"pts\":{},\"reps\":{},\"q\":{},\"r\":{}}}", T::NAME, arr2(pts), arr(reps), arr(q), arr2(&r))
        }
        Err(m) => fail("N01", "near", &m),
    }
}

fn near_any(ty: &str, d: usize, pts: &[Vec<i64>], reps: &[i64], q: &[i64], e: &Emb) -> String {
    match ty {
        "f32" => by_dim!(d, near, [f32], (pts, reps, q, e); 1, 2, 3, 4, 5, 6, 7, 9),
        "f64" => by_dim!(d, near, [f64], (pts, reps, q, e); 1, 2, 3, 4, 5, 6, 7, 9),
        "i32" => by_dim!(d, near, [i32], (pts, reps, q, e); 1, 2, 3, 4, 5, 6, 7, 9),
        _ => by_dim!(d, near, [i64], (pts, reps, q, e); 1, 2, 3, 4, 5, 6, 7, 9),
    }
}

// ---------------------------------------------------------------- sorting and NaN
trait Val: Copy + PartialOrd + IsNan + Scalar {
    const NAME: &'static str;
    const FLOAT: bool;
    fn bits(self) -> u128;
    fn specials() -> Vec<Self>;
    fn nans() -> Vec<Self>;
    fn random(r: &mut Rng) -> Self;
}
macro_rules! int_val {
    ($($t:ty),*) => {$(
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = false;
            fn bits(self) -> u128 { self as u128 }
            fn specials() -> Vec<Self> { vec![<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 2, <$t>::MIN / 2] }
            fn nans() -> Vec<Self> { vec![] }
            fn random(r: &mut Rng) -> Self { (((r.next() as u128) << 64) | r.next() as u128) as $t }
        }
    )*};
}
int_val!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! float_val {
    ($t:ty, $u:ty, $mant:expr, $expmask:expr) => {
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = true;
            fn bits(self) -> u128 {
                self.to_bits() as u128
            }
            fn specials() -> Vec<Self> {
                let tiny = <$t>::from_bits(1);
                vec![
                    <$t>::NEG_INFINITY, <$t>::MIN, -1.0, -<$t>::MIN_POSITIVE, -tiny, -0.0, 0.0, tiny, <$t>::MIN_POSITIVE, 0.1,
                    1.0, 1.0 + <$t>::EPSILON, <$t>::MAX, <$t>::INFINITY,
                ]
            }
            fn nans() -> Vec<Self> {
                let e: $u = $expmask;
                let s: $u = 1 << (<$u>::BITS - 1);
                let q: $u = 1 << ($mant - 1);
                [e | 1, e | q, e | q | 1, s | e | 1, s | e | q, s | e | (q - 1), e | (2 * q - 1), s | e | (2 * q - 1), e | (q >> 1)]
                    .iter()
                    .map(|b| <$t>::from_bits(*b))
                    .collect()
            }
            fn random(r: &mut Rng) -> Self {
                loop {
                    let v = <$t>::from_bits(r.next() as $u);
                    if !v.is_nan() {
                        return v;
                    }
                }
            }
        }
    };
}
float_val!(f32, u32, 23, 0x7f80_0000);
float_val!(f64, u64, 52, 0x7ff0_0000_0000_0000);

/// Values of a type with their codes: twice the place in the order, plus one for the second of two equal values.
struct Palette<T: Val> {
    vals: Vec<(i64, T)>,
    nans: Vec<(i64, T)>,
    code: HashMap<u128, i64>,
}
impl<T: Val> Palette<T> {
    fn new(mut vals: Vec<T>) -> Self {
        vals.sort_by(|a, b| a.partial_cmp(b).unwrap().then(b.bits().cmp(&a.bits())));
        let mut out: Vec<(i64, T)> = Vec::new();
        let mut code = HashMap::new();
        let mut rank = -1;
        for v in vals {
            if code.contains_key(&v.bits()) {
                continue;
            }
            let equal = out.last().is_some_and(|l| l.1 == v);
            if !equal {
                rank += 1;
            }
            let c = 2 * rank + equal as i64;
            code.insert(v.bits(), c);
            out.push((c, v));
        }
        let nans: Vec<(i64, T)> = T::nans().into_iter().enumerate().map(|(i, v)| (1_000_000 + i as i64, v)).collect();
        for (c, v) in &nans {
            code.insert(v.bits(), *c);
        }
        Palette { vals: out, nans, code }
    }
    fn random(r: &mut Rng, n: usize) -> Self {
        let sp = T::specials();
        let mut v: Vec<T> = Vec::new();
        if T::FLOAT && r.chance(2, 3) {
            v.extend([sp[5], sp[6]]);
        }
        while v.len() < n {
            let x = if r.chance(1, 2) { *r.pick(&sp) } else { T::random(r) };
            v.push(x);
        }
        Self::new(v)
    }
    fn of(&self, v: T) -> i64 {
        *self.code.get(&v.bits()).unwrap_or(&OFF)
    }
    fn val(&self, c: i64) -> T {
        self.vals.iter().chain(&self.nans).find(|x| x.0 == c).unwrap().1
    }
}

fn sort<T: Val, const N: usize>(codes: &[Vec<i64>], pal: &Palette<T>) -> Vec<String> {
    let pts: Vec<Point<T, N>> = codes.iter().map(|p| Point::from(std::array::from_fn(|i| pal.val(p[i])))).collect();
    let back = |v: &[Point<T, N>]| -> String {
        arr2(&v.iter().map(|p| p.coords.iter().map(|c| pal.of(*c)).collect()).collect::<Vec<_>>())
    };
    let head = |v: &str| format!("{{\"op\":\"sort\",\"v\":\"{v}\",\"ty\":\"{}\",\"pts\":{}", T::NAME, arr2(codes));
    let prop = if codes.iter().flatten().any(|c| *c >= 1_000_000) { "L02" } else { "L01" };
    let ctx = format!("lex_sort variants {} {N} {:?}", T::NAME, pts);
    let mut out = Vec::new();
    out.push(match call(&ctx, || lex_sort(&pts)) {
        Ok(r) => format!("{},\"ok\":{},\"r\":{},\"after\":{}}}", head("copy"), r.is_some(), back(&r.unwrap_or_default()), back(&pts)),
        Err(m) => fail(prop, "lex_sort", &m),
    });
    out.push(match call(&ctx, || {
        lex_sort_ref(&pts).map(|r| {
            let base = pts.as_ptr() as usize;
            let size = std::mem::size_of::<Point<T, N>>();
            let idx: Vec<i64> = r.iter().map(|p| (((*p as *const _ as usize).wrapping_sub(base)) / size) as i64 + 1).collect();
            (r.into_iter().copied().collect::<Vec<_>>(), idx)
        })
    }) {
        Ok(r) => {
            let ok = r.is_some();
            let (r, idx) = r.unwrap_or_default();
            format!("{},\"ok\":{ok},\"r\":{},\"idx\":{},\"after\":{}}}", head("ref"), back(&r), arr(idx), back(&pts))
        }
        Err(m) => fail(prop, "lex_sort_ref", &m),
    });
    let mut own = pts.clone();
    out.push(match call(&ctx, || lex_sort_in_place(&mut own)) {
        Ok(ok) => format!("{},\"ok\":{ok},\"r\":{},\"after\":{}}}", head("inplace"), back(&own), back(&own)),
        Err(m) => fail(prop, "lex_sort_in_place", &m),
    });
    out
}

/// Many copies of a few points, all different in the order.
fn heavy<T: Val, const N: usize>(r: &mut Rng, codes: &[Vec<i64>], reps: &[i64], pal: &Palette<T>) -> Vec<String> {
    let base: Vec<Point<T, N>> = codes.iter().map(|p| Point::from(std::array::from_fn(|i| pal.val(p[i])))).collect();
    let mut pts = expand(&base, reps);
    match r.below(3) {
        0 => {}
        1 => pts.reverse(),
        _ => r.shuffle(&mut pts),
    }
    let same = |a: &[Point<T, N>], b: &[Point<T, N>]| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.coords.iter().zip(y.coords.iter()).all(|(c, d)| c.bits() == d.bits()))
    };
    let kept = pts.clone();
    let show = |v: &str, ok: bool, out: &[Point<T, N>], untouched: bool, distinct: usize| {
        let mut runs: Vec<Vec<i64>> = vec![];
        let mut counts: Vec<i64> = vec![];
        for p in out {
            let c: Vec<i64> = p.coords.iter().map(|c| pal.of(*c)).collect();
            if runs.last() == Some(&c) {
                *counts.last_mut().unwrap() += 1;
            } else if runs.len() < 2000 {
                runs.push(c);
                counts.push(1);
            }
        }
        format!(
            "{{\"op\":\"heavy\",\"v\":\"{v}\",\"ty\":\"{}\",\"pts\":{},\"reps\":{},\"ok\":{ok},\"runs\":{},\"counts\":{},\"untouched\":{untouched},\"distinct\":{distinct}}}",
            T::NAME,
            arr2(codes),
            arr(reps),
            arr2(&runs),
            arr(counts)
        )
    };
    let ctx = format!("lex_sort variants {} {N} {:?} times {:?}", T::NAME, base, reps);
    let mut out = vec![];
    out.push(match call(&ctx, || lex_sort(&pts)) {
        Ok(x) => show("copy", x.is_some(), &x.unwrap_or_default(), same(&pts, &kept), pts.len()),
        Err(m) => fail("L01", "lex_sort", &m),
    });
    out.push(match call(&ctx, || {
        lex_sort_ref(&pts).map(|x| {
            let places: std::collections::HashSet<usize> = x.iter().map(|p| *p as *const _ as usize).collect();
            (places.len(), x.into_iter().copied().collect::<Vec<_>>())
        })
    }) {
        Ok(x) => {
            let ok = x.is_some();
            let (places, x) = x.unwrap_or_default();
            show("ref", ok, &x, same(&pts, &kept), places)
        }
        Err(m) => fail("L01", "lex_sort_ref", &m),
    });
    let mut own = pts.clone();
    out.push(match call(&ctx, || lex_sort_in_place(&mut own)) {
        Ok(ok) => show("inplace", ok, &own, true, own.len()),
        Err(m) => fail("L01", "lex_sort_in_place", &m),
    });
    out
}

fn sort_heavy<T: Val>(r: &mut Rng) -> Vec<String> {
    let pal = Palette::<T>::random(r, 9);
    let d = *r.pick(&[1, 2, 3, 4]);
    let plain: Vec<i64> = pal.vals.iter().map(|v| v.0).filter(|c| c % 2 == 0).collect();
    let mut codes: Vec<Vec<i64>> = (0..1 + r.below(9)).map(|_| (0..d).map(|_| *r.pick(&plain)).collect()).collect();
    codes.sort();
    codes.dedup();
    r.shuffle(&mut codes);
    let reps = some_reps(r, codes.len(), true);
    let (codes, reps, pal) = (&codes, &reps, &pal);
    by_dim!(d, heavy, [T], (r, codes, reps, pal); 1, 2, 3, 4)
}

fn sort_random<T: Val>(r: &mut Rng, nan: bool, size: usize) -> Vec<String> {
    let k = r.range(2, 12) as usize;
    let pal = Palette::<T>::random(r, k);
    let d = *r.pick(&[1, 2, 2, 3, 3, 4, 5, 9]);
    let n = r.below(size + 1);
    let mut codes: Vec<Vec<i64>> = (0..n).map(|_| (0..d).map(|_| r.pick(&pal.vals).0).collect()).collect();
    match r.below(4) {
        0 => codes.sort(),
        1 => {
            codes.sort();
            codes.reverse()
        }
        _ => {}
    }
    if nan && n > 0 && !pal.nans.is_empty() {
        for _ in 0..1 + r.below(2) {
            let (i, j) = (r.below(n), r.below(d));
            codes[i][j] = r.pick(&pal.nans).0;
        }
    }
    let pal = &pal;
    by_dim!(d, sort, [T], (&codes, pal); 1, 2, 3, 4, 5, 9)
}

/// Long lists, with one NaN somewhere or none.
fn many_nan<T: Val, const N: usize>(r: &mut Rng) -> Vec<String> {
    let pal = Palette::<T>::random(r, 9);
    let few = 1 + r.below(5);
    let base: Vec<Point<T, N>> = (0..few).map(|_| Point::from(std::array::from_fn(|_| r.pick(&pal.vals).1))).collect();
    let mut pts = expand(&base, &some_reps(r, few, true));
    if r.chance(1, 2) {
        r.shuffle(&mut pts);
    }
    let nans = if pal.nans.is_empty() { 0 } else { r.below(3).min(1) };
    let (at, on) = (*r.pick(&[0, pts.len() - 1, r.clone().below(pts.len()), r.clone().below(pts.len())]), r.below(N));
    if nans > 0 {
        pts[at][on] = r.pick(&pal.nans).1;
    }
    let same = |a: &[Point<T, N>], b: &[Point<T, N>]| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.coords.iter().zip(y.coords.iter()).all(|(c, d)| c.bits() == d.bits()))
    };
    let kept = pts.clone();
    let n = pts.len();
    let show = |v: &str, declined: bool, untouched: bool| {
        format!("{{\"op\":\"many\",\"v\":\"{v}\",\"ty\":\"{}\",\"d\":{N},\"n\":{n},\"nans\":{nans},\"declined\":{declined},\"untouched\":{untouched}}}", T::NAME)
    };
    let ctx = format!("lex_sort variants {} {N} of {n} points, {nans} NaN at {at}, axis {on}", T::NAME);
    let mut out = vec![];
    out.push(match call(&ctx, || lex_sort(&pts).is_none()) {
        Ok(x) => show("copy", x, same(&pts, &kept)),
        Err(m) => fail("L02", "lex_sort", &m),
    });
    out.push(match call(&ctx, || lex_sort_ref(&pts).is_none()) {
        Ok(x) => show("ref", x, same(&pts, &kept)),
        Err(m) => fail("L02", "lex_sort_ref", &m),
    });
    let mut own = pts.clone();
    out.push(match call(&ctx, || !lex_sort_in_place(&mut own)) {
        Ok(x) => show("inplace", x, same(&own, &kept)),
        Err(m) => fail("L02", "lex_sort_in_place", &m),
    });
    out
}
fn sort_many_nan<T: Val>(r: &mut Rng) -> Vec<String> {
    let d = *r.pick(&[1, 2, 3, 4]);
    by_dim!(d, many_nan, [T], (r); 1, 2, 3, 4)
}

fn is_nan<T: Val>(r: &mut Rng) -> String {
    let pal = Palette::<T>::random(r, 30);
    let all: Vec<(i64, T)> = pal.vals.iter().chain(&pal.nans).copied().collect();
    match call(&format!("is_nan {}", T::NAME), || all.iter().map(|x| IsNan::is_nan(x.1)).collect::<Vec<bool>>()) {
        Ok(v) => format!("{{\"op\":\"isnan\",\"ty\":\"{}\",\"c\":{},\"r\":{}}}", T::NAME, arr(all.iter().map(|x| x.0)), arr(v)),
        Err(m) => fail("L02", "is_nan", &m),
    }
}

macro_rules! each_type {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k % 14 {
            0 => $f::<f32>($($a),*), 1 => $f::<f64>($($a),*), 2 => $f::<u8>($($a),*), 3 => $f::<u16>($($a),*),
            4 => $f::<u32>($($a),*), 5 => $f::<u64>($($a),*), 6 => $f::<u128>($($a),*), 7 => $f::<usize>($($a),*),
            8 => $f::<i8>($($a),*), 9 => $f::<i16>($($a),*), 10 => $f::<i32>($($a),*), 11 => $f::<i64>($($a),*),
            12 => $f::<i128>($($a),*), _ => $f::<isize>($($a),*),
        }
    };
}

fn hull_nan<T>(r: &mut Rng, nan: bool) -> String
where
    T: Val + AsPrimitive<T> + NumAssign + RealField + Bounded + Copy,
    f64: AsPrimitive<T>,
    usize: AsPrimitive<T>,
    T: AsPrimitive<isize>,
{
    let pal = Palette::<T>::new((-6..=6).map(|x| AsPrimitive::<T>::as_(x as f64)).collect());
    let n = 3 + r.below(12);
    let mut codes: Vec<Vec<i64>> = (0..n).map(|_| vec![r.pick(&pal.vals).0, r.pick(&pal.vals).0]).collect();
    // three points that are not on one line
    codes[0] = vec![0, 0];
    codes[1] = vec![8, 2];
    codes[2] = vec![2, 8];
    r.shuffle(&mut codes);
    if r.chance(1, 12) {
        // many copies, the NaN in one of them
        let reps = some_reps(r, n, true);
        let all: Vec<Point<T, 2>> = codes.iter().map(|p| Point::from([pal.val(p[0]), pal.val(p[1])])).collect();
        let mut all = expand(&all, &reps);
        let (i, j) = (r.below(all.len()), r.below(2));
        if nan {
            all[i][j] = r.pick(&pal.nans).1;
        }
        let ctx = format!("graham_scan {} of {} points, NaN {nan} at {i}", T::NAME, all.len());
        let kept = all.clone();
        let kept = |v: &[Point<T, 2>]| v.iter().zip(&kept).all(|(x, y)| x.coords.iter().zip(y.coords.iter()).all(|(c, d)| c.bits() == d.bits()));
        return match call(&ctx, || graham_scan::<T, T>(&all, false, None)) {
            Ok(h) => format!(
                "{{\"op\":\"many\",\"v\":\"hull\",\"ty\":\"{}\",\"d\":2,\"n\":{},\"nans\":{},\"declined\":{},\"untouched\":{}}}",
                T::NAME,
                all.len(),
                nan as u8,
                h.is_none(),
                kept(&all)
            ),
            Err(m) => fail("L02", "graham_scan", &m),
        };
    }
    if nan {
        let (i, j) = (r.below(n), r.below(2));
        codes[i][j] = r.pick(&pal.nans).0;
    }
    let pts: Vec<Point<T, 2>> = codes.iter().map(|p| Point::from([pal.val(p[0]), pal.val(p[1])])).collect();
    let ctx = format!("graham_scan {} {:?}", T::NAME, pts);
    match call(&ctx, || graham_scan::<T, T>(&pts, false, None)) {
        Ok(h) => {
            let after: Vec<Vec<i64>> = pts.iter().map(|p| p.coords.iter().map(|c| pal.of(*c)).collect()).collect();
            format!(
                "{{\"op\":\"hull\",\"ty\":\"{}\",\"pts\":{},\"declined\":{},\"after\":{}}}",
                T::NAME,
                arr2(&codes),
                h.is_none(),
                arr2(&after)
            )
        }
        Err(m) => fail("L02", "graham_scan", &m),
    }
}

// ---------------------------------------------------------------- voxels and means
/// Where lattice point k lies: (k + off) * unit, unit a power of two unless `odd`.
#[derive(Clone, Copy)]
struct Place {
    unit: f64,
    off: i64,
    /// With `(m, gap)`: m lattice points in a row, then a jump to the next multiple of the gap.
    island: Option<(i64, i64)>,
}
trait Real: Scalar + Copy + NumAssign + AsPrimitive<f64> + 'static {
    const NAME: &'static str;
    fn of(v: f64) -> Self;
}
impl Real for f32 {
    const NAME: &'static str = "f32";
    fn of(v: f64) -> f32 {
        v as f32
    }
}
impl Real for f64 {
    const NAME: &'static str = "f64";
    fn of(v: f64) -> f64 {
        v
    }
}
impl Place {
    fn to<T: Real>(&self, k: i64) -> T {
        let k = match self.island {
            Some((m, gap)) => k.div_euclid(m) * gap + k.rem_euclid(m),
            None => k,
        };
        T::of((k + self.off) as f64 * self.unit)
    }
    fn back<T: Real>(&self, v: T, quant: i64) -> i64 {
        let mut x = v.as_() / self.unit - self.off as f64;
        if let Some((m, gap)) = self.island {
            let isle = (x / gap as f64).floor();
            x = x - isle * gap as f64 + isle * m as f64;
        }
        let x = (x * quant as f64).round();
        if x.abs() < 1e9 {
            x as i64
        } else {
            OFF
        }
    }
    fn show(&self) -> String {
        format!("unit {:e} off {} islands {:?}", self.unit, self.off, self.island)
    }
}
fn place_pt<T: Real, const N: usize>(p: &[i64], e: &Place) -> Point<T, N> {
    Point::from(std::array::from_fn(|i| e.to(p[i])))
}
fn place_back<T: Real, const N: usize>(v: &[Point<T, N>], e: &Place, quant: i64) -> String {
    arr2(&v.iter().map(|p| p.coords.iter().map(|c| e.back(*c, quant)).collect()).collect::<Vec<_>>())
}

#[allow(clippy::too_many_arguments)]
fn voxel<T, O, const N: usize>(r: &mut Rng, pts: &[Vec<i64>], reps: &[i64], s: i64, e: &Place, quant: i64, tol: i64) -> String
where
    T: Real + AsPrimitive<O>,
    O: Real + AsPrimitive<isize> + ComplexField + Copy,
    usize: AsPrimitive<T>,
{
    let v: Vec<Point<T, N>> = expand(&pts.iter().map(|p| place_pt(p, e)).collect::<Vec<_>>(), reps);
    let mut w = v.clone();
    r.shuffle(&mut w);
    let size = O::of(s as f64 * e.unit);
    let ctx = format!("downsample_point_cloud_voxel {} {} {N} {} size {s} {} times {}", T::NAME, O::NAME, e.show(), arr2(pts), arr(reps));
    match call(&ctx, || (downsample_point_cloud_voxel::<T, O, N>(&v, size), downsample_point_cloud_voxel::<T, O, N>(&w, size))) {
        Ok((a, b)) => format!(
            "{{\"op\":\"voxel\",\"ty\":\"{}/{}\",\"pts\":{},\"reps\":{},\"s\":{s},\"res\":{},\"res2\":{},\"quant\":{quant},\"tol\":{tol},\"exact\":{}}}",
            T::NAME,
            O::NAME,
            arr2(pts),
            arr(reps),
            place_back(&a, e, quant),
            place_back(&b, e, quant),
            e.unit.log2().fract() == 0.0
        ),
        Err(m) => fail("D01", "voxel", &m),
    }
}

/// Every voxel of a box occupied, each by points in the same places.
fn full_box<T, O, const N: usize>(r: &mut Rng) -> String
where
    T: Real + AsPrimitive<O>,
    O: Real + AsPrimitive<isize> + ComplexField + Copy,
    usize: AsPrimitive<T>,
{
    let most = [0, 70_000, 270, 42, 16][N];
    let sides: Vec<i64> = (0..N).map(|_| if r.chance(1, 2) { most } else { r.range(1, most) }).collect();
    let from: Vec<i64> = sides.iter().map(|s| -r.range(0, *s)).collect();
    let s = r.range(2, 40);
    let offs: Vec<Vec<i64>> = (0..r.range(1, 3)).map(|_| (0..N).map(|_| r.range(0, s - 1)).collect()).collect();
    let unit = 2f64.powi(r.range(-20, 20) as i32);
    let mut cells: Vec<Vec<i64>> = vec![vec![]];
    for (n, lo) in sides.iter().zip(&from) {
        cells = cells.into_iter().flat_map(|q| (0..*n).map(move |k| [q.clone(), vec![lo + k]].concat())).collect();
    }
    let mut v: Vec<Point<T, N>> =
        cells.iter().flat_map(|c| offs.iter().map(move |o| Point::from(std::array::from_fn(|i| T::of((c[i] * s + o[i]) as f64 * unit))))).collect();
    if r.chance(3, 4) {
        r.shuffle(&mut v);
    }
    let ctx = format!("downsample_point_cloud_voxel {} {} {N} size {s} unit {unit:e}, at {offs:?} in every voxel from {from:?} of {sides:?}", T::NAME, O::NAME);
    match call(&ctx, || downsample_point_cloud_voxel::<T, O, N>(&v, O::of(s as f64 * unit))) {
        Err(m) => fail("D01", "voxel", &m),
        Ok(out) => {
            // the mean of single-precision numbers, off by a few of their last bits
            let far = sides.iter().max().unwrap() * s;
            let tol = if std::mem::size_of::<T>() == 4 { 1 + 60 * far / (1 << 21) } else { 1 };
            let mut seen = std::collections::HashSet::new();
            let (mut lo, mut hi, mut dlo, mut dhi) = ([OFF; N], [-OFF; N], [OFF; N], [-OFF; N]);
            for p in &out {
                let at: [i64; N] = std::array::from_fn(|i| {
                    let x = (AsPrimitive::<f64>::as_(p[i]) / unit * 60.0).round();
                    if x.abs() < 1e9 { x as i64 } else { OFF * 10 }
                });
                let cell = at.map(|x| x.div_euclid(60 * s));
                for i in 0..N {
                    lo[i] = lo[i].min(cell[i]);
                    hi[i] = hi[i].max(cell[i]);
                    dlo[i] = dlo[i].min(at[i] - cell[i] * 60 * s);
                    dhi[i] = dhi[i].max(at[i] - cell[i] * 60 * s);
                }
                seen.insert(cell);
            }
            format!(
                "{{\"op\":\"box\",\"ty\":\"{}/{}\",\"sides\":{},\"from\":{},\"s\":{s},\"offs\":{},\"count\":{},\"distinct\":{},\"lo\":{},\"hi\":{},\"dlo\":{},\"dhi\":{},\"tol\":{tol}}}",
                T::NAME,
                O::NAME,
                arr(&sides),
                arr(&from),
                arr2(&offs),
                out.len(),
                seen.len(),
                arr(lo),
                arr(hi),
                arr(dlo),
                arr(dhi)
            )
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn voxel_any(k: usize, r: &mut Rng, d: usize, pts: &[Vec<i64>], reps: &[i64], s: i64, e: &Place, quant: i64, tol: i64) -> String {
    match k % 4 {
        0 => by_dim!(d, voxel, [f32, f32], (r, pts, reps, s, e, quant, tol); 1, 2, 3, 4, 9),
        1 => by_dim!(d, voxel, [f64, f64], (r, pts, reps, s, e, quant, tol); 1, 2, 3, 4, 9),
        2 => by_dim!(d, voxel, [f32, f64], (r, pts, reps, s, e, quant, tol); 1, 2, 3, 4, 9),
        _ => by_dim!(d, voxel, [f64, f32], (r, pts, reps, s, e, quant, tol); 1, 2, 3, 4, 9),
    }
}

/// Integer coordinates: sums and counts fit the type, quotients are truncated.
trait Whole: Scalar + Copy + NumAssign + AsPrimitive<i64> + AsPrimitive<f64> + AsPrimitive<f32> {
    const NAME: &'static str;
    const TOP: i64;
    const SIGNED: bool;
    fn of(v: i64) -> Self;
}
macro_rules! whole {
    ($($t:ty, $top:expr);*) => {$(
        impl Whole for $t {
            const NAME: &'static str = stringify!($t);
            const TOP: i64 = $top;
            const SIGNED: bool = <$t>::MIN != 0;
            fn of(v: i64) -> $t {
                v as $t
            }
        }
    )*};
}
whole!(i8, 127; i16, 32767; i32, 2_000_000_000; i64, 2_000_000_000; u8, 255; u16, 65535; u32, 2_000_000_000; u64, 2_000_000_000);

fn whole_cloud<T: Whole, const N: usize>(r: &mut Rng, size: usize, per: i64) -> (Vec<Vec<i64>>, Vec<Point<T, N>>) {
    // few enough points for the type to hold their number and their sum
    let size = *r.pick(&[size.min(10), 70, 140, 400]);
    let n = r.below(size.min((T::TOP / 2) as usize) + 1);
    let reach = ((T::TOP - per) / n.max(1) as i64).min(*r.pick(&[3, 50, 1000, 100_000])).max(0);
    let low = if T::SIGNED { -reach } else { 0 };
    let pts: Vec<Vec<i64>> = (0..n).map(|_| (0..N).map(|_| r.range(low, reach)).collect()).collect();
    let v = pts.iter().map(|p| Point::from(std::array::from_fn(|a| T::of(p[a])))).collect();
    (pts, v)
}
fn whole_mean<T, const N: usize>(r: &mut Rng, size: usize) -> String
where
    T: Whole,
    usize: AsPrimitive<T>,
{
    let (pts, v) = whole_cloud::<T, N>(r, size, 0);
    let ctx = format!("calculate_point_cloud_center {} {N} {}", T::NAME, arr2(&pts));
    match call(&ctx, || calculate_point_cloud_center(&v)) {
        Ok(c) => format!(
            "{{\"op\":\"imean\",\"ty\":\"{}\",\"pts\":{},\"r\":{}}}",
            T::NAME,
            arr2(&pts),
            arr(c.coords.iter().map(|x| AsPrimitive::<i64>::as_(*x).clamp(-OFF * 20, OFF * 20)))
        ),
        Err(m) => fail("M01", "mean", &m),
    }
}
fn whole_voxel<T, O, const N: usize>(r: &mut Rng, size: usize) -> String
where
    T: Whole + AsPrimitive<O>,
    O: Real + AsPrimitive<isize> + ComplexField + Copy,
    usize: AsPrimitive<T>,
{
    let s = *r.pick(&[1, 2, 3, 10, 49, 64, 100]);
    let (pts, v) = whole_cloud::<T, N>(r, size, 0);
    let ctx = format!("downsample_point_cloud_voxel {} {} {N} size {s} {}", T::NAME, O::NAME, arr2(&pts));
    match call(&ctx, || downsample_point_cloud_voxel::<T, O, N>(&v, O::of(s as f64))) {
        Ok(a) => format!(
            "{{\"op\":\"ivoxel\",\"ty\":\"{}/{}\",\"pts\":{},\"s\":{s},\"res\":{}}}",
            T::NAME,
            O::NAME,
            arr2(&pts),
            arr2(&a.iter().map(|p| p.coords.iter().map(|x| AsPrimitive::<i64>::as_(*x).clamp(-OFF * 20, OFF * 20)).collect()).collect::<Vec<_>>())
        ),
        Err(m) => fail("D01", "voxel", &m),
    }
}
macro_rules! whole_types {
    ($r:expr, $f:ident, [$($o:ty),*], ($($a:expr),*)) => {{
        let d = 1 + $r.below(4);
        match $r.below(8) {
            0 => by_dim!(d, $f, [i8 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            1 => by_dim!(d, $f, [i16 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            2 => by_dim!(d, $f, [u8 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            3 => by_dim!(d, $f, [u16 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            4 => by_dim!(d, $f, [u32 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            5 => by_dim!(d, $f, [u64 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            6 => by_dim!(d, $f, [i64 $(, $o)*], ($($a),*); 1, 2, 3, 4),
            _ => by_dim!(d, $f, [i32 $(, $o)*], ($($a),*); 1, 2, 3, 4),
        }
    }};
}

/// Points on voxel borders and next to them, by the smallest step of the type where there is one.
fn borders(r: &mut Rng) -> String {
    if r.chance(1, 2) { borders_in::<f32>(r) } else { borders_in::<f64>(r) }
}
fn borders_in<T>(r: &mut Rng) -> String
where
    T: Real + AsPrimitive<T> + AsPrimitive<isize> + ComplexField + num_traits::Float,
    usize: AsPrimitive<T>,
{
    let (s, x) = (*r.pick(&[1i64, 3, 7, 10, 25, 41, 47, 49, 64, 98, 100]), r.range(-30, 30) as i32);
    let unit = T::of(2f64.powi(x));
    let size = T::of(s as f64) * unit;
    // a cell k and the side: 0 on its lower border, 1 just above, -1 just below (in cell k - 1)
    let n = 1 + r.below(6);
    let half = T::of(0.5);
    let mut cells: Vec<(i64, i64)> = (0..n).map(|_| (if r.chance(1, 2) { r.range(-2, 2) } else { r.range(-1000, 1000) }, r.range(-1, 1))).collect();
    cells.dedup();
    let at = |(k, side): (i64, i64)| -> T {
        let b = T::of((k * s) as f64) * unit;
        match side {
            0 => b,
            _ if k == 0 => T::of(side as f64) * *[T::of(1e-15) * unit, T::of(1e-20) * unit, T::of(1e-9) * unit].get((s % 3) as usize).unwrap(),
            // far enough for the quotient to be on the same side
            _ => b + T::of(side as f64) * T::of((k.abs() * s) as f64) * unit * T::epsilon() * (T::of(8.0) + half),
        }
    };
    let v: Vec<Point<T, 1>> = cells.iter().map(|c| Point::from([at(*c)])).collect();
    let ctx = format!("downsample_point_cloud_voxel {} 1 size {s} * 2^{x} {:?}", <T as Real>::NAME, v);
    match call(&ctx, || downsample_point_cloud_voxel::<T, T, 1>(&v, size)) {
        Ok(a) => format!(
            "{{\"op\":\"borders\",\"ty\":\"{}\",\"s\":{s},\"exp\":{x},\"cells\":{},\"count\":{}}}",
            <T as Real>::NAME,
            arr2(&cells.iter().map(|c| vec![c.0, c.1]).collect::<Vec<_>>()),
            a.len()
        ),
        Err(m) => fail("D01", "voxel", &m),
    }
}

fn voxel_random(r: &mut Rng, size: usize) -> String {
    if r.chance(1, 8) {
        return if r.chance(1, 2) { whole_types!(r, whole_voxel, [f64], (r, size)) } else { whole_types!(r, whole_voxel, [f32], (r, size)) };
    }
    if r.chance(1, 8) {
        return borders(r);
    }
    let k = r.below(4);
    let d = *r.pick(&[1, 1, 2, 2, 2, 3, 3, 3, 4, 9]);
    let single = k != 1;
    let n = r.below(size.min(400) + 1);
    let free = |r: &mut Rng, reach: i64, n: usize| -> Vec<Vec<i64>> {
        let c: Vec<i64> = (0..d).map(|_| r.range(-reach, reach)).collect();
        let tight = r.chance(1, 2);
        (0..n)
            .map(|_| {
                (0..d)
                    .map(|a| if tight { (c[a] + r.range(-3, 3)).clamp(-reach, reach) } else { r.range(-reach, reach) })
                    .collect()
            })
            .collect()
    };
    if r.chance(1, 12) {
        // many points in few voxels
        let (s, reach) = (r.range(1, 40), *r.pick(&[3, 20]));
        let n = 1 + r.below(8);
        let pts = free(r, reach, n);
        let reps = some_reps(r, n, true);
        let unit = 2f64.powi(r.range(-20, 20) as i32);
        return voxel_any(k, r, d, &pts, &reps, s, &Place { unit, off: 0, island: None }, 1 << 18, 2);
    }
    if r.chance(1, 6) {
        // voxels far apart
        let s = 1 << r.below(5);
        let single = r.chance(1, 3);
        let m = if single { s } else { s * r.range(1, 3) };
        let gap = s * (1 << *r.pick(&[8, 15, 16, 24, 31, 32, 33, 40]));
        let reach = m * r.range(1, 6);
        let n = n.min(30);
        let mut pts = free(r, reach, n);
        if single {
            // on the corner of each island
            pts.iter_mut().for_each(|p| p.iter_mut().for_each(|x| *x = x.div_euclid(m) * m));
        }
        let unit = 2f64.powi(r.range(-20, 20) as i32);
        let ones = vec![1; n];
        return voxel_any(if single { k } else { 1 }, r, d, &pts, &ones, s, &Place { unit, off: 0, island: Some((m, gap)) }, 20, 2);
    }
    match r.below(4) {
        // exact powers of two, any scale, offset by whole voxels
        0 | 1 => {
            let s = r.range(1, 40);
            let reach = *r.pick(&[3, 20, 300, 2000]);
            let pts = free(r, reach, n);
            let off = if single { 0 } else { s * r.range(-(1 << 35), 1 << 35) };
            let x = if single { r.range(-40, 40) } else { r.range(-200, 200) } as i32;
            voxel_any(k, r, d, &pts, &vec![1; pts.len()], s, &Place { unit: 2f64.powi(x), off, island: None }, 1000, 2)
        }
        // large coordinates, means exact because every count up to 6 divides 60
        2 => {
            let s = *r.pick(&[60, 90, 120, 600, 50]);
            let reach = 1 << 14;
            let n = n.min(40);
            let mut pts: Vec<Vec<i64>> = free(r, reach / 60, n).iter().map(|p| p.iter().map(|x| x * 60).collect()).collect();
            let mut per: HashMap<Vec<i64>, usize> = HashMap::new();
            pts.retain(|p| {
                let c = per.entry(p.iter().map(|x| x.div_euclid(s)).collect()).or_default();
                *c += 1;
                *c <= 6
            });
            let off = s * r.range(-1000, 1000);
            let unit = 2f64.powi(r.range(-20, 20) as i32);
            voxel_any(k, r, d, &pts, &vec![1; pts.len()], s, &Place { unit, off, island: None }, 1, 0)
        }
        // scales that are no power of two; the points keep away from the voxel boundaries
        _ => {
            let s = r.range(2, 40);
            let reach = *r.pick(&[5, 50, 900]);
            let mut pts = free(r, reach, n);
            for p in pts.iter_mut() {
                for x in p.iter_mut() {
                    if x.rem_euclid(s) == 0 {
                        *x += 1;
                    }
                }
            }
            pts.truncate(40);
            let unit = *r.pick(&[0.1, 1.0 / 3.0, 0.7, 1e-6, 12345.678]);
            voxel_any(k, r, d, &pts, &vec![1; pts.len()], s, &Place { unit, off: 0, island: None }, 1000, 20)
        }
    }
}

fn mean<T, const N: usize>(pts: &[Vec<i64>], reps: &[i64], e: &Place, quant: i64, tol: i64) -> String
where
    T: Real + Zero,
    usize: AsPrimitive<T>,
{
    let v: Vec<Point<T, N>> = expand(&pts.iter().map(|p| place_pt(p, e)).collect::<Vec<_>>(), reps);
    let ctx = format!("calculate_point_cloud_center {} {N} {} {} times {}", T::NAME, e.show(), arr2(pts), arr(reps));
    match call(&ctx, || calculate_point_cloud_center(&v)) {
        Ok(c) => format!(
            "{{\"op\":\"mean\",\"ty\":\"{}\",\"pts\":{},\"reps\":{},\"r\":{},\"quant\":{quant},\"tol\":{tol}}}",
            T::NAME,
            arr2(pts),
            arr(reps),
            arr(c.coords.iter().map(|x| e.back(*x, quant)))
        ),
        Err(m) => fail("M01", "mean", &m),
    }
}

fn mean_random(r: &mut Rng, size: usize) -> String {
    if r.chance(1, 5) {
        return whole_types!(r, whole_mean, [], (r, size));
    }
    let d = *r.pick(&[1, 2, 2, 3, 3, 4, 5, 9]);
    let heavy = r.chance(1, 20);
    let n = if heavy { 1 + r.below(8) } else { r.below(size + 1) };
    let reps = some_reps(r, n, heavy);
    let single = r.chance(1, 2);
    let reach = if heavy { 20 } else { *r.pick(&[1, 20, 1000]) };
    let bias = r.range(-reach, reach);
    let pts: Vec<Vec<i64>> = (0..n).map(|_| (0..d).map(|_| (r.range(-reach, reach) + bias).clamp(-1000, 1000)).collect()).collect();
    let unit = if !heavy && r.chance(1, 4) { 0.1 } else { 2f64.powi(if single { r.range(-60, 60) } else { r.range(-500, 500) } as i32) };
    let off = if heavy || n == 0 || unit == 0.1 { 0 } else if single { r.range(-500, 500) } else { r.range(-(1 << 30), 1 << 30) };
    let quant = if heavy { 1 << 18 } else if n > 200 { 100 } else { 1000 };
    // sums of multiples of a power of two are exact; otherwise allow for the rounding of the sum
    let tol = if unit == 0.1 && single { 2 + n as i64 / 8 } else { 2 };
    let e = Place { unit, off, island: None };
    if single {
        by_dim!(d, mean, [f32], (&pts, &reps, &e, quant, tol); 1, 2, 3, 4, 5, 9)
    } else {
        by_dim!(d, mean, [f64], (&pts, &reps, &e, quant, tol); 1, 2, 3, 4, 5, 9)
    }
}

// ---------------------------------------------------------------- rigid motions
fn moved<T, R, const N: usize>(rot: R, name: &str, m: &[Vec<i64>], w: i64, t: &[i64], pts: &[Vec<i64>], reps: &[i64], e: &Place, quant: i64) -> String
where
    T: Real + RealField,
    R: AbstractRotation<T, N>,
{
    let base: Vec<Point<T, N>> = pts.iter().map(|p| place_pt(p, e)).collect();
    let v = expand(&base, reps);
    // one for each run of equal points, if all of the run are equal
    let runs = |out: &[Point<T, N>]| -> Vec<Point<T, N>> {
        let mut at = 0;
        let bad = Point::from([T::of(f64::NAN); N]);
        reps.iter()
            .filter_map(|k| {
                let run = out.get(at..at + *k as usize)?;
                at += *k as usize;
                Some(if run.iter().all(|p| *p == run[0]) { run[0] } else { bad })
            })
            .collect()
    };
    let tr = SVector::<T, N>::from_fn(|i, _| e.to(t[i]));
    let iso = Isometry::<T, R, N>::from_parts(Translation::from(tr), rot);
    let ctx = format!("transform_point_cloud {} {name} {N} {m:?}/{w} {t:?} {} times {}", T::NAME, arr2(pts), arr(reps));
    match call(&ctx, || transform_point_cloud(&v, iso)) {
        Ok(out) => format!(
            "{{\"op\":\"move\",\"ty\":\"{}/{name}\",\"m\":{},\"w\":{w},\"t\":{},\"pts\":{},\"reps\":{},\"n\":{},\"r\":{},\"after\":{},\"quant\":{quant},\"tol\":1}}",
            T::NAME,
            arr2(m),
            arr(t),
            arr2(pts),
            arr(reps),
            out.len(),
            place_back(&runs(&out), e, quant),
            place_back(&runs(&v), e, 1)
        ),
        Err(msg) => fail("M02", "move", &msg),
    }
}

fn move3<T: Real + RealField>(h: &[i64], t: &[i64], pts: &[Vec<i64>], reps: &[i64], e: &Place, as_matrix: bool) -> String {
    let [a, b, c, d] = [h[0], h[1], h[2], h[3]];
    let w = a * a + b * b + c * c + d * d;
    let m = vec![
        vec![a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
        vec![2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
        vec![2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d],
    ];
    if as_matrix {
        let mat = Matrix3::from_fn(|i, j| T::of(m[i][j] as f64 / w as f64));
        moved::<T, _, 3>(Rotation3::from_matrix_unchecked(mat), "Rotation3", &m, w, t, pts, reps, e, 100)
    } else {
        let n = (w as f64).sqrt();
        let q = Quaternion::new(T::of(a as f64 / n), T::of(b as f64 / n), T::of(c as f64 / n), T::of(d as f64 / n));
        moved::<T, _, 3>(Unit::new_unchecked(q), "UnitQuaternion", &m, w, t, pts, reps, e, 100)
    }
}

fn move2<T: Real + RealField>(z: &[i64], t: &[i64], pts: &[Vec<i64>], reps: &[i64], e: &Place, as_matrix: bool) -> String {
    let (c, s, w) = (z[0] * z[0] - z[1] * z[1], 2 * z[0] * z[1], z[0] * z[0] + z[1] * z[1]);
    let m = vec![vec![c, -s], vec![s, c]];
    if as_matrix {
        let mat = Matrix2::from_fn(|i, j| T::of(m[i][j] as f64 / w as f64));
        moved::<T, _, 2>(Rotation2::from_matrix_unchecked(mat), "Rotation2", &m, w, t, pts, reps, e, 100)
    } else {
        let u = UnitComplex::from_cos_sin_unchecked(T::of(c as f64 / w as f64), T::of(s as f64 / w as f64));
        moved::<T, _, 2>(u, "UnitComplex", &m, w, t, pts, reps, e, 100)
    }
}

/// Quarter turns in any number of dimensions.
fn move_n<T: Real + RealField, const N: usize>(r: &mut Rng, size: usize) -> String {
    let mut m: Vec<Vec<i64>> = (0..N).map(|i| (0..N).map(|j| (i == j) as i64).collect()).collect();
    for _ in 0..if N > 1 { r.below(2 * N) } else { 0 } {
        let i = r.below(N);
        let j = (i + 1 + r.below(N - 1)) % N;
        m.swap(i, j);
        m[i].iter_mut().for_each(|x| *x = -*x);
    }
    let reach = *r.pick(&[2, 30, 500]);
    let n = r.below(size + 1);
    let reps = some_reps(r, n, false);
    let pts: Vec<Vec<i64>> = (0..n).map(|_| (0..N).map(|_| r.range(-reach, reach)).collect()).collect();
    let t: Vec<i64> = (0..N).map(|_| if r.chance(1, 4) { 0 } else { r.range(-reach, reach) }).collect();
    let e = Place { unit: 2f64.powi(r.range(-30, 30) as i32), off: 0, island: None };
    let mat = nalgebra::SMatrix::<T, N, N>::from_fn(|i, j| T::of(m[i][j] as f64));
    moved::<T, _, N>(nalgebra::Rotation::from_matrix_unchecked(mat), "Rotation", &m, 1, &t, &pts, &reps, &e, 100)
}

fn move_random(r: &mut Rng, size: usize, quat: Option<&[i64]>) -> String {
    if quat.is_none() && r.chance(1, 8) {
        let d = *r.pick(&[1, 4, 5, 7]);
        return if r.chance(1, 2) { by_dim!(d, move_n, [f32], (r, size); 1, 4, 5, 7) } else { by_dim!(d, move_n, [f64], (r, size); 1, 4, 5, 7) };
    }
    let three = quat.is_some() || r.chance(1, 2);
    let d = if three { 3 } else { 2 };
    let reach = *r.pick(&[2, 30, 500]);
    let heavy = r.chance(1, 30);
    let n = if heavy { 1 + r.below(6) } else { r.below(size + 1) };
    let reps = some_reps(r, n, heavy);
    let pts: Vec<Vec<i64>> = (0..n).map(|_| (0..d).map(|_| r.range(-reach, reach)).collect()).collect();
    let t: Vec<i64> = (0..d).map(|_| if r.chance(1, 4) { 0 } else { r.range(-reach, reach) }).collect();
    let single = r.chance(1, 2);
    let e = Place { unit: 2f64.powi(if single { r.range(-30, 30) } else { r.range(-200, 200) } as i32), off: 0, island: None };
    let as_matrix = r.chance(1, 2);
    if three {
        let h: Vec<i64> = match quat {
            Some(h) => h.to_vec(),
            None => loop {
                let h: Vec<i64> = (0..4).map(|_| r.range(-4, 4)).collect();
                if h.iter().any(|x| *x != 0) {
                    break h;
                }
            },
        };
        if single {
            move3::<f32>(&h, &t, &pts, &reps, &e, as_matrix)
        } else {
            move3::<f64>(&h, &t, &pts, &reps, &e, as_matrix)
        }
    } else {
        let z = loop {
            let z = [r.range(-6, 6), r.range(-6, 6)];
            if z != [0, 0] {
                break z;
            }
        };
        if single {
            move2::<f32>(&z, &t, &pts, &reps, &e, as_matrix)
        } else {
            move2::<f64>(&z, &t, &pts, &reps, &e, as_matrix)
        }
    }
}

// ---------------------------------------------------------------- generation
trait Sample: rand::distributions::uniform::SampleUniform + PartialOrd + Scalar + Copy {
    const NAME: &'static str;
    fn key(self) -> i128;
    fn range(r: &mut Rng) -> (Self, Self);
}
macro_rules! int_sample {
    ($($t:ty),*) => {$(
        impl Sample for $t {
            const NAME: &'static str = stringify!($t);
            fn key(self) -> i128 { self as i128 }
            fn range(r: &mut Rng) -> (Self, Self) {
                let a = r.next() as $t;
                let b = if r.chance(1, 4) { a } else if r.chance(1, 3) { a.saturating_add(3) } else { r.next() as $t };
                (a.min(b), a.max(b))
            }
        }
    )*};
}
int_sample!(u8, i32, u64, i64);
macro_rules! float_sample {
    ($t:ty, $i:ty) => {
        impl Sample for $t {
            const NAME: &'static str = stringify!($t);
            fn key(self) -> i128 {
                if self == 0.0 {
                    return 0;
                }
                let b = self.to_bits() as $i;
                (if b < 0 { <$i>::MIN - b } else { b }) as i128
            }
            fn range(r: &mut Rng) -> (Self, Self) {
                let scale = (10.0 as $t).powi(r.range(-9, 9) as i32);
                let a = (r.unit() as $t * 2.0 - 1.0) * scale;
                let b = if r.chance(1, 4) {
                    a
                } else if r.chance(1, 4) {
                    a + a.abs() * <$t>::EPSILON * 3.0
                } else if r.chance(1, 4) {
                    0.0
                } else {
                    (r.unit() as $t * 2.0 - 1.0) * scale
                };
                if a <= b { (a, b) } else { (b, a) }
            }
        }
    };
}
float_sample!(f32, i32);
float_sample!(f64, i64);

fn key3(k: i128) -> String {
    format!("[{},{},{}]", k >> 48, (k >> 24) & 0xff_ffff, k & 0xff_ffff)
}
fn keys<T: Sample, const N: usize>(v: &[Point<T, N>]) -> String {
    arr(v.iter().map(|p| arr(p.coords.iter().map(|c| key3(c.key())))))
}

fn generate<T: Sample + Send + Sync, const N: usize>(r: &mut Rng, n: usize, child: bool, seed: u64) -> String {
    let state = r.0;
    let rg: [(T, T); N] = std::array::from_fn(|_| T::range(r));
    let make = move || generate_point_cloud::<T, N>(n, std::array::from_fn(|i| rg[i].0..=rg[i].1));
    let ctx = format!("generate_point_cloud {} {N} {n} {:?}", T::NAME, rg);
    let res = call(&ctx, || {
        let a = make();
        let b = make();
        let elsewhere = if child {
            let o = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["gen", &format!("ty={}", T::NAME), &format!("d={N}"), &format!("n={n}"), &format!("state={state}")])
                .arg(format!("seed={seed}"))
                .output()
                .unwrap();
            String::from_utf8(o.stdout).unwrap().trim().to_string()
        } else {
            std::thread::scope(|s| s.spawn(|| keys(&make())).join()).map_err(|_| ()).unwrap()
        };
        (a, b, elsewhere)
    });
    match res {
        Ok((a, b, e)) => format!(
            "{{\"op\":\"gen\",\"ty\":\"{}\",\"n\":{n},\"lo\":{},\"hi\":{},\"vals\":{},\"again\":{},\"elsewhere\":{e}}}",
            T::NAME,
            arr(rg.iter().map(|x| key3(x.0.key()))),
            arr(rg.iter().map(|x| key3(x.1.key()))),
            keys(&a),
            keys(&b)
        ),
        Err(m) => fail("M03", "gen", &m),
    }
}

/// A large cloud, by its size, its extremes and digests of its contents.
fn generate_many<T: Sample + Send + Sync, const N: usize>(r: &mut Rng, n: usize) -> String {
    let rg: [(T, T); N] = std::array::from_fn(|_| T::range(r));
    let make = move || generate_point_cloud::<T, N>(n, std::array::from_fn(|i| rg[i].0..=rg[i].1));
    let ctx = format!("generate_point_cloud {} {N} {n} {:?}", T::NAME, rg);
    let digest = |v: &[Point<T, N>]| -> String {
        let mut h = Rng(v.len() as u64);
        v.iter().flat_map(|p| p.coords.iter()).for_each(|c| h.0 = (h.0 ^ c.key() as u64).rotate_left(23).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        format!("\"{:016x}\"", h.next())
    };
    match call(&ctx, || {
        let (a, b) = (make(), make());
        let c = std::thread::scope(|s| s.spawn(make).join()).map_err(|_| ()).unwrap();
        let first: Vec<Point<T, N>> = generate_point_cloud::<T, N>(n / 2, std::array::from_fn(|i| rg[i].0..=rg[i].1));
        (a, b, c, first.len())
    }) {
        Ok((a, b, c, half)) => {
            let ends = |best: fn(i128, i128) -> i128| arr((0..N).map(|i| key3(a.iter().map(|p| p[i].key()).reduce(best).unwrap_or(0))));
            format!(
                "{{\"op\":\"genmany\",\"ty\":\"{}\",\"n\":{n},\"count\":{},\"half\":{half},\"lo\":{},\"hi\":{},\"min\":{},\"max\":{},\"digest\":{},\"again\":{},\"elsewhere\":{}}}",
                T::NAME,
                a.len(),
                arr(rg.iter().map(|x| key3(x.0.key()))),
                arr(rg.iter().map(|x| key3(x.1.key()))),
                ends(i128::min),
                ends(i128::max),
                digest(&a),
                digest(&b),
                digest(&c)
            )
        }
        Err(m) => fail("M03", "gen", &m),
    }
}

fn generate_only<T: Sample, const N: usize>(r: &mut Rng, n: usize) -> String {
    let rg: [(T, T); N] = std::array::from_fn(|_| T::range(r));
    keys(&generate_point_cloud::<T, N>(n, std::array::from_fn(|i| rg[i].0..=rg[i].1)))
}

macro_rules! sample_types {
    ($ty:expr, $d:expr, $f:ident($($a:expr),*)) => {
        match $ty {
            "f32" => by_dim!($d, $f, [f32], ($($a),*); 1, 2, 3, 4, 9),
            "f64" => by_dim!($d, $f, [f64], ($($a),*); 1, 2, 3, 4, 9),
            "u8" => by_dim!($d, $f, [u8], ($($a),*); 1, 2, 3, 4, 9),
            "i32" => by_dim!($d, $f, [i32], ($($a),*); 1, 2, 3, 4, 9),
            "u64" => by_dim!($d, $f, [u64], ($($a),*); 1, 2, 3, 4, 9),
            _ => by_dim!($d, $f, [i64], ($($a),*); 1, 2, 3, 4, 9),
        }
    };
}

fn random_event(r: &mut Rng, focus: &str, i: u64, size: usize) -> Vec<String> {
    match focus {
        "N01" => {
            let d = *r.pick(&[1, 2, 2, 3, 3, 4, 5, 6, 7, 9]);
            let ty = *r.pick(&["f32", "f64", "i32", "i64"]);
            let reach = *r.pick(&[1, 1, 2, 10, 300]);
            let n = r.below(size + 1);
            let pts: Vec<Vec<i64>> = (0..n).map(|_| (0..d).map(|_| r.range(-reach, reach)).collect()).collect();
            let q: Vec<i64> = (0..d).map(|_| r.range(-reach - 1, reach + 1)).collect();
            let e = dist_embedding(r, ty, reach + 1, d);
            let heavy = n < 30 && r.chance(1, 12);
            let reps = some_reps(r, n, heavy);
            vec![near_any(ty, d, &pts, &reps, &q, &e)]
        }
        "L01" if i % 40 == 7 => each_type!(if r.chance(1, 2) { r.below(2) } else { r.below(14) }, sort_heavy(r)),
        "L01" => each_type!(if r.chance(1, 2) { r.below(2) } else { r.below(14) }, sort_random(r, false, size)),
        "L02" if i % 60 == 7 => each_type!(if r.chance(3, 4) { r.below(2) } else { r.below(14) }, sort_many_nan(r)),
        "L02" => match i % 4 {
            0 => vec![each_type!(r.below(14), is_nan(r)), is_nan::<f32>(r), is_nan::<f64>(r)],
            1 => {
                let nan = r.chance(2, 3);
                vec![if r.chance(1, 2) { hull_nan::<f32>(r, nan) } else { hull_nan::<f64>(r, nan) }]
            }
            _ => each_type!(if r.chance(3, 4) { r.below(2) } else { r.below(14) }, sort_random(r, true, size)),
        },
        "D01" if i % 100 == 51 => {
            let d = 1 + r.below(4);
            vec![match r.below(4) {
                0 => by_dim!(d, full_box, [f32, f32], (r); 1, 2, 3, 4),
                1 => by_dim!(d, full_box, [f64, f64], (r); 1, 2, 3, 4),
                2 => by_dim!(d, full_box, [f32, f64], (r); 1, 2, 3, 4),
                _ => by_dim!(d, full_box, [f64, f32], (r); 1, 2, 3, 4),
            }]
        }
        "D01" => vec![voxel_random(r, size)],
        "M01" => vec![mean_random(r, size)],
        "M02" => vec![move_random(r, size, None)],
        _ => {
            let ty = *r.pick(&["f32", "f64", "f32", "f64", "u8", "i32", "u64", "i64"]);
            let d = *r.pick(&[1, 2, 3, 4, 1, 2, 3, 4, 9]);
            if i % 100 == 9 {
                let n = *r.pick(&[256, 1025, 4097, 33_000, 65_536, 70_001]);
                return vec![sample_types!(ty, d, generate_many(r, n))];
            }
            let n = r.below(size + 1);
            let seed = 0;
            vec![sample_types!(ty, d, generate(r, n, i % 40 == 0, seed))]
        }
    }
}

fn scripted(r: &mut Rng, focus: &str, i: usize, j: &J) -> Vec<String> {
    match j.get("op").str() {
        "near" => {
            let pts = j.get("pts").points();
            let q = j.get("q").ints();
            let ty = ["f32", "f64", "i32", "i64"][i % 4];
            let e = dist_embedding(r, ty, 8, q.len());
            vec![near_any(ty, q.len(), &pts, &vec![1; pts.len()], &q, &e)]
        }
        "sort" => {
            let codes = j.get("pts").points();
            let d = codes.first().map(|p| p.len()).unwrap_or(2);
            fn go<T: Val>(codes: &[Vec<i64>], sp: [usize; 3], d: usize) -> Vec<String> {
                let s = T::specials();
                let pal = &Palette::<T>::new(sp.iter().map(|i| s[*i]).collect());
                by_dim!(d, sort, [T], (codes, pal); 1, 2, 3)
            }
            // codes 0 and 1 are the two zeros, code 2 is above them
            let above = [7, 8, 9, 13][i % 4];
            if codes.iter().flatten().any(|c| *c >= 1_000_000) == (focus == "L01") && i % 7 != 0 {
                return vec![];
            }
            if i % 2 == 0 {
                go::<f32>(&codes, [5, 6, above], d)
            } else {
                go::<f64>(&codes, [5, 6, above], d)
            }
        }
        "voxel" => {
            let pts = j.get("pts").points();
            let d = pts.first().map(|p| p.len()).unwrap_or(2);
            let e = Place { unit: [1.0, 0.5, 1024.0][i % 3], off: 0, island: None };
            if focus == "M01" {
                return vec![if i % 2 == 0 {
                    by_dim!(d, mean, [f32], (&pts, &vec![1; pts.len()], &e, 60, 0); 1, 2, 3)
                } else {
                    by_dim!(d, mean, [f64], (&pts, &vec![1; pts.len()], &e, 60, 0); 1, 2, 3)
                }];
            }
            vec![voxel_any(i, r, d, &pts, &vec![1; pts.len()], j.get("s").int(), &e, 60, 0)]
        }
        _ => vec![move_random(r, 6, Some(&j.get("h").ints()))],
    }
}

fn main() {
    let a = Args::parse();
    if a.mode == "gen" {
        let mut r = Rng(a.num("state", 0));
        let (n, d) = (a.num("n", 0) as usize, a.num("d", 1) as usize);
        println!("{}", sample_types!(a.get("ty"), d, generate_only(&mut r, n)));
        return;
    }
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 20), move || {
        let mut sink = Sink::new(&out);
        let focus = a.get("focus").to_string();
        let mut r = Rng::new(a.seed(), &focus);
        let mut ev: Vec<String> = Vec::new();
        let mut flush = |ev: &mut Vec<String>, at: usize| {
            if ev.len() >= at && !ev.is_empty() {
                sink.line(&format!("{{\"ev\":[{}]}}", ev.join(",")));
                ev.clear();
            }
        };
        if !a.get("scripts").is_empty() {
            for (i, line) in std::fs::read_to_string(a.get("scripts")).unwrap().lines().enumerate() {
                ev.extend(scripted(&mut r, &focus, i, &J::parse(line)));
                flush(&mut ev, 20);
            }
            flush(&mut ev, 1);
        }
        let top = a.num("top", 300) as usize;
        for i in 0..a.num("random", 0) {
            let size = match i % 50 {
                0 if i > 0 => top,
                1..=3 => top / 5,
                4..=15 => 40,
                _ => 8,
            };
            ev.extend(random_event(&mut r, &focus, i, size));
            flush(&mut ev, if size > 40 { 1 } else { 10 });
        }
        flush(&mut ev, 1);
    });
}
