//! Rasterised lines in one to five dimensions, both precisions and every output type.

use harness::*;
use mapping_algorithms::lines::plot_bresenham_line;

macro_rules! plot {
    ($f:ty, $t:ty, $n:tt; $s:expr, $e:expr) => {{
        let (s, e) = ($s, $e);
        api::line::<$f, $t, $n>(s, e).unwrap_or_else(|| plot_bresenham_line::<$f, $t, $n>(s, e))
    }};
}
use nalgebra::{Point, RealField, Scalar};
use num_traits::AsPrimitive;
use std::fmt::Debug;

trait Prec: Lat + RealField + AsPrimitive<usize> + Debug {
    fn of(v: f64) -> Self;
    fn wide(self) -> f64;
    const WHOLE: i64;
}
impl Prec for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn wide(self) -> f64 {
        self as f64
    }
    const WHOLE: i64 = 1 << 24;
}
impl Prec for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn wide(self) -> f64 {
        self
    }
    const WHOLE: i64 = 1 << 53;
}

/// An output type whose values can be written as fixed-point numbers.
trait Output: Lat + Scalar + Copy {
    const SIGNED: bool;
    const VALUE_BITS: u32;
    fn limbs(self) -> Vec<i64>;
}
const LIMB: i128 = 1 << 24;
fn limbs_int(mut v: i128) -> Vec<i64> {
    let mut out = vec![0i64];
    for _ in 0..4 {
        out.push(v.rem_euclid(LIMB) as i64);
        v = v.div_euclid(LIMB);
    }
    out.push(v as i64);
    out.reverse();
    out
}
fn limbs_float(v: f64) -> Vec<i64> {
    if !v.is_finite() || v.abs() > 1e30 {
        return vec![OFF];
    }
    let whole = v.floor();
    let frac = (v - whole) * LIMB as f64;
    if frac.fract() != 0.0 {
        return vec![OFF];
    }
    let mut l = limbs_int(whole as i128);
    l[5] = frac as i64;
    l
}
macro_rules! out_int { ($($t:ty, $s:expr, $b:expr;)*) => {$(
    impl Output for $t {
        const SIGNED: bool = $s;
        const VALUE_BITS: u32 = $b;
        fn limbs(self) -> Vec<i64> { limbs_int(self as i128) }
    }
)*}; }
out_int!(i8, true, 7; i16, true, 15; i32, true, 31; i64, true, 63; isize, true, 63; u8, false, 8; u16, false, 16; u32, false, 32; u64, false, 64; usize, false, 64;);
impl Output for f32 {
    const SIGNED: bool = true;
    const VALUE_BITS: u32 = 0;
    fn limbs(self) -> Vec<i64> {
        limbs_float(self as f64)
    }
}
impl Output for f64 {
    const SIGNED: bool = true;
    const VALUE_BITS: u32 = 0;
    fn limbs(self) -> Vec<i64> {
        limbs_float(self)
    }
}

fn fail(p: &str, m: &str, ctx: &str) -> String {
    format!("{{\"op\":\"fail\",\"p\":\"{p}\",\"what\":\"{m}\",\"of\":\"{ctx}\"}}")
}

fn pt<F: Prec, const N: usize>(v: &[i64], e: &Emb) -> Point<F, N> {
    Point::from(std::array::from_fn(|a| F::to(v[a], e)))
}
fn cells<T: Output, const N: usize>(v: &[Point<T, N>], e: &Emb) -> Vec<Vec<i64>> {
    v.iter().map(|p| p.coords.iter().map(|c| c.back(e)).collect()).collect()
}

/// A whole-number line; `e` only carries an offset.
fn whole<F, T, const N: usize>(p: &str, s: &[i64], t: &[i64], e: &Emb, want: Option<&[Vec<i64>]>, windows: &[(usize, usize)]) -> Vec<String>
where
    F: Prec + AsPrimitive<T>,
    usize: AsPrimitive<F>,
    T: Output,
{
    let ctx = format!("plot_bresenham_line {} {} {N} {} {}", F::NAME, T::NAME, arr(s), arr(t)) + &format!(" offset {}", e.off);
    match call(&ctx, || plot!(F, T, N; pt(s, e), pt(t, e))) {
        Ok(v) => {
            let head = |from: usize, c: &[Vec<i64>]| {
                format!(
                    "{{\"op\":\"line\",\"prec\":\"{}\",\"out\":\"{}\",\"off\":\"{}\",\"s\":{},\"e\":{},\"count\":{},\"from\":{from},\"cells\":{}}}",
                    F::NAME,
                    T::NAME,
                    e.off,
                    arr(s),
                    arr(t),
                    v.len(),
                    arr2(c)
                )
            };
            if let Some(w) = want {
                return vec![
                    format!("{{\"op\":\"model\",\"prec\":\"{}\",\"s\":{},\"e\":{},\"cells\":{},\"want\":{}}}", F::NAME, arr(s), arr(t), arr2(&cells(&v, e)), arr2(w)),
                    head(0, &cells(&v, e)),
                ];
            }
            if windows.is_empty() {
                return vec![head(0, &cells(&v, e))];
            }
            windows
                .iter()
                .map(|(a, n)| {
                    let a = (*a).min(v.len());
                    let b = (a + n).min(v.len());
                    head(a, &cells(&v[a..b], e))
                })
                .collect()
        }
        Err(m) => vec![fail(p, &m, &ctx)],
    }
}

/// Converted cells against the cells in the coordinate type itself.
fn conv<F, T, const N: usize>(s: [f64; N], t: [f64; N]) -> String
where
    F: Prec + Output + AsPrimitive<T> + AsPrimitive<F>,
    usize: AsPrimitive<F>,
    T: Output,
{
    let (s, t): (Point<F, N>, Point<F, N>) = (Point::from(s.map(F::of)), Point::from(t.map(F::of)));
    let ctx = format!("plot_bresenham_line {} {} {N} {:?} {:?}", F::NAME, T::NAME, s.coords, t.coords);
    match call(&ctx, || (plot!(F, F, N; s, t), plot!(F, T, N; s, t))) {
        Ok((f, o)) => {
            let show = |v: Vec<Vec<Vec<i64>>>| arr(v.iter().map(|p| arr2(p)));
            format!(
                "{{\"op\":\"conv\",\"prec\":\"{}\",\"out\":\"{}\",\"signed\":{},\"bits\":{},\"f\":{},\"t\":{}}}",
                F::NAME,
                T::NAME,
                T::SIGNED,
                T::VALUE_BITS,
                show(f.iter().map(|p| p.coords.iter().map(|c| c.limbs()).collect()).collect()),
                show(o.iter().map(|p| p.coords.iter().map(|c| c.limbs()).collect()).collect())
            )
        }
        Err(m) => fail("B03", &m, &ctx),
    }
}

fn frac<F, const N: usize>(r: &mut Rng) -> String
where
    F: Prec + AsPrimitive<F>,
    usize: AsPrimitive<F>,
{
    let unit = 1i64 << r.range(0, 10);
    let reach = *r.pick(&[1, 3, 12, 100]) * unit;
    let e = Emb::ID;
    let f = |k: i64| F::to(k, &e) / F::to(unit, &e);
    let (s, t): ([i64; N], [i64; N]) = (std::array::from_fn(|_| r.range(-reach, reach)), std::array::from_fn(|_| r.range(-reach, reach)));
    let ps: Point<F, N> = Point::from(s.map(f));
    let pe: Point<F, N> = Point::from(t.map(f));
    let ctx = format!("plot_bresenham_line {} {N} {:?} {:?}", F::NAME, ps.coords, pe.coords);
    match call(&ctx, || plot!(F, F, N; ps, pe)) {
        Ok(v) => format!(
            "{{\"op\":\"frac\",\"prec\":\"{}\",\"unit\":{unit},\"s\":{},\"e\":{},\"deltas\":{},\"count\":{},\"last\":{}}}",
            F::NAME,
            arr(s),
            arr(t),
            arr((0..N).map(|a| (t[a] - s[a]).abs())),
            v.len(),
            v.last() == Some(&pe)
        ),
        Err(m) => fail("B01", &m, &ctx),
    }
}

fn same<const N: usize>(r: &mut Rng, size: i64) -> String {
    let (s, t) = ends(r, N, size);
    let e = Emb::ID;
    let ctx = format!("plot_bresenham_line both precisions or shifted {} {}", arr(&s), arr(&t));
    let out = if r.chance(1, 2) {
        let e = Emb::new(0, *r.pick(&[0, 1000, -1_000_000, (1 << 24) - size, -(1 << 24) + size]));
        call(&ctx, || (plot!(f32, f64, N; pt(&s, &e), pt(&t, &e)), plot!(f64, f64, N; pt(&s, &e), pt(&t, &e))))
            .map(|(a, b)| ("single and double precision agree", cells(&a, &e), cells(&b, &e)))
    } else if r.chance(1, 2) {
        let o = Emb::new(0, r.range(-(1 << 24) + size, (1 << 24) - size));
        call(&ctx, || (plot!(f32, f32, N; pt(&s, &e), pt(&t, &e)), plot!(f32, f32, N; pt(&s, &o), pt(&t, &o))))
            .map(|(a, b)| ("moves with the endpoints", cells(&a, &e), cells(&b, &o)))
    } else {
        let o = Emb::new(0, r.range(-(1 << 53) + size, (1 << 53) - size));
        call(&ctx, || (plot!(f64, f64, N; pt(&s, &e), pt(&t, &e)), plot!(f64, f64, N; pt(&s, &o), pt(&t, &o))))
            .map(|(a, b)| ("moves with the endpoints", cells(&a, &e), cells(&b, &o)))
    };
    match out {
        Ok((w, a, b)) => format!("{{\"op\":\"same\",\"what\":\"{w}\",\"s\":{},\"e\":{},\"a\":{},\"b\":{}}}", arr(&s), arr(&t), arr2(&a), arr2(&b)),
        Err(m) => fail("B03", &m, &ctx),
    }
}

/// Whole-number endpoints within -size..=size.
fn ends(r: &mut Rng, n: usize, size: i64) -> (Vec<i64>, Vec<i64>) {
    let h = size / 2;
    let s: Vec<i64> = (0..n).map(|_| r.range(-h, h)).collect();
    let d = r.range(0, h);
    let mut t: Vec<i64> = match r.below(6) {
        0 => (0..n).map(|_| d * r.range(-1, 1)).collect(),
        1 => (0..n).map(|_| d / (1 + r.range(0, 5)) * r.range(-1, 1)).collect(),
        2 => (0..n).map(|_| (d - r.range(0, 2).min(d)) * (1 - 2 * r.range(0, 1))).collect(),
        3 => (0..n).map(|_| r.range(-2, 2)).collect(),
        _ => (0..n).map(|_| r.range(-h, h)).collect(),
    };
    if r.chance(1, 2) {
        // one long axis
        let a = r.below(n);
        t[a] = d * (1 - 2 * r.range(0, 1));
    }
    let t = (0..n).map(|a| s[a] + t[a]).collect();
    (s, t)
}

fn line_n<const N: usize>(r: &mut Rng, p: &str, size: i64) -> Vec<String> {
    let (s, t) = ends(r, N, size);
    let far = |r: &mut Rng, m: i64| if r.chance(1, 2) { Emb::ID } else { Emb::new(0, *r.pick(&[m - 2 * size, -m + 2 * size, 1000, -5000])) };
    let w: &[(usize, usize)] = &[];
    match r.below(7) {
        0 => { let e = far(r, f32::WHOLE); whole::<f32, f32, N>(p, &s, &t, &e, None, w) }
        1 => { let e = far(r, f32::WHOLE); whole::<f32, i32, N>(p, &s, &t, &e, None, w) }
        2 => { let e = far(r, f32::WHOLE); whole::<f32, f64, N>(p, &s, &t, &e, None, w) }
        3 => { let e = far(r, f64::WHOLE); whole::<f64, f64, N>(p, &s, &t, &e, None, w) }
        4 => { let e = far(r, f64::WHOLE); whole::<f64, i64, N>(p, &s, &t, &e, None, w) }
        5 => { let e = far(r, f32::WHOLE); whole::<f64, f32, N>(p, &s, &t, &e, None, w) }
        _ => { let e = Emb::new(0, 2 * size); whole::<f64, u32, N>(p, &s, &t, &e, None, w) }
    }
}

fn conv_n<const N: usize>(r: &mut Rng) -> String {
    let single = r.chance(1, 2);
    // both fit a single precision number with a fraction, or are far out
    let spot = |r: &mut Rng| -> f64 {
        let b = *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 70]);
        let base = match r.below(4) {
            0 => 0.0,
            1 => 2f64.powi(b),
            2 => -2f64.powi(b),
            _ => r.range(-100, 100) as f64,
        };
        if base.abs() < 1000.0 {
            base + r.range(-4 * 64, 4 * 64) as f64 / 64.0
        } else {
            base + r.range(-4 * 16, 4 * 16) as f64 / 16.0
        }
    };
    let s: [f64; N] = std::array::from_fn(|_| spot(r));
    let t: [f64; N] = s.map(|x| x + r.range(-20 * 32, 20 * 32) as f64 / 32.0);
    macro_rules! go { ($i:expr; $($k:literal $o:ty),*) => {
        match $i {
            $($k => if single { conv::<f32, $o, N>(s.map(|x| x as f32 as f64), t.map(|x| x as f32 as f64)) } else { conv::<f64, $o, N>(s, t) },)*
            _ => conv::<f32, f64, N>(s, t),
        }
    } }
    go!(r.below(11); 0 i8, 1 i16, 2 i32, 3 i64, 4 isize, 5 u8, 6 u16, 7 u32, 8 u64, 9 usize)
}

fn long<const N: usize>(r: &mut Rng, p: &str, single: bool) -> Vec<String> {
    let d = r.range(1 << 23, (1 << 24) - 1);
    let mut t: Vec<i64> = (0..N)
        .map(|_| match r.below(4) {
            0 => d - r.range(1, 50),
            1 => d / 2 + r.range(-50, 50),
            2 => d * 2 / 3 + r.range(-50, 50),
            _ => r.range(0, d),
        })
        .collect();
    for x in t.iter_mut() {
        *x = (*x).min(d) * (1 - 2 * r.range(0, 1));
    }
    let a = r.below(N);
    t[a] = d * (1 - 2 * r.range(0, 1));
    let s = vec![0; N];
    let mut w: Vec<(usize, usize)> = (0..4).map(|_| (r.below(d as usize), 150)).collect();
    w.push((0, 50));
    w.push((d as usize - 149, 400));
    if single {
        whole::<f32, f32, N>(p, &s, &t, &Emb::ID, None, &w)
    } else {
        whole::<f64, i32, N>(p, &s, &t, &Emb::ID, None, &w)
    }
}

macro_rules! by_n { ($n:expr, $f:ident, $($a:expr),*) => { match $n { 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*), 5 => $f::<5>($($a),*), _ => $f::<8>($($a),*) } } }

fn main() {
    let a = Args::parse();
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 60), move || {
        let mut sink = Sink::new(&out);
        let focus = a.get("focus").to_string();
        let mut r = Rng::new(a.seed(), &focus);
        let mut ev: Vec<String> = Vec::new();
        let mut flush = |ev: &mut Vec<String>, at: usize| {
            if ev.len() >= at && !ev.is_empty() {
                sink.line(&format!("{{\"ev\":[{}]}}", ev.join(",")));
                ev.clear();
            }
        };
        if !a.get("scripts").is_empty() {
            for line in std::fs::read_to_string(a.get("scripts")).unwrap().lines() {
                let j = J::parse(line);
                let (t, want) = (j.get("e").ints(), j.get("cells").points());
                let o = Emb::new(0, if r.chance(1, 2) { 0 } else { r.range(-100_000, 100_000) });
                let s = vec![0; t.len()];
                let w: &[(usize, usize)] = &[];
                macro_rules! go { ($n:literal) => {
                    if r.chance(1, 2) { whole::<f32, i32, $n>(&focus, &s, &t, &o, Some(&want), w) } else { whole::<f64, f64, $n>(&focus, &s, &t, &o, Some(&want), w) }
                } }
                ev.extend(match t.len() {
                    1 => go!(1),
                    2 => go!(2),
                    3 => go!(3),
                    _ => go!(4),
                });
                flush(&mut ev, 40);
            }
            flush(&mut ev, 1);
        }
        for i in 0..a.num("long", 0) {
            let single = i % 3 != 2;
            ev.extend(if i % 2 == 0 { long::<2>(&mut r, &focus, single) } else { long::<3>(&mut r, &focus, single) });
            flush(&mut ev, 1);
        }
        for i in 0..a.num("random", 0) {
            let n = *r.pick(&[1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 8]);
            let size = match i % 100 {
                0 => 6000,
                1..=4 => 800,
                5..=30 => 100,
                _ => 24,
            };
            match focus.as_str() {
                "B01" if r.chance(1, 3) => ev.push(if r.chance(1, 2) { by_n!(n, frac_f32, &mut r) } else { by_n!(n, frac_f64, &mut r) }),
                "B03" if r.chance(1, 2) => ev.push(by_n!(n, conv_n, &mut r)),
                "B03" => ev.push(by_n!(n, same, &mut r, size)),
                p => ev.extend(by_n!(n, line_n, &mut r, p, size)),
            }
            flush(&mut ev, if size > 100 { 1 } else { 15 });
        }
        flush(&mut ev, 1);
    });
}

fn frac_f32<const N: usize>(r: &mut Rng) -> String {
    frac::<f32, N>(r)
}
fn frac_f64<const N: usize>(r: &mut Rng) -> String {
    frac::<f64, N>(r)
}
