//! Convex hulls: Graham scan and Jarvis march over every point type and both precisions.

use harness::*;
use mapping_algorithms::{
    polygons::{graham_scan, jarvis_march},
    types::IsNan,
};
use nalgebra::{ComplexField, Point2, Scalar};
use num_traits::{real::Real, AsPrimitive, NumAssign};
use std::fmt::Debug;

trait Coord<O: 'static + Copy>: Lat + AsPrimitive<O> + Debug + IsNan + NumAssign + PartialOrd + Scalar {}
impl<O: 'static + Copy, T: Lat + AsPrimitive<O> + Debug + IsNan + NumAssign + PartialOrd + Scalar> Coord<O> for T {}
trait Prec: AsPrimitive<isize> + ComplexField + Copy + PartialOrd + Real {
    const NAME: &'static str;
    fn of(v: f64) -> Self;
}
impl Prec for f32 {
    const NAME: &'static str = "f32";
    fn of(v: f64) -> f32 {
        v as f32
    }
}
impl Prec for f64 {
    const NAME: &'static str = "f64";
    fn of(v: f64) -> f64 {
        v
    }
}

#[derive(Clone)]
struct Job {
    tag: String,
    jarvis: bool,
    sorted: bool,
    vox: i64,
    pts: Vec<Vec<i64>>,
    /// How often each point occurs in a row.
    reps: Vec<i64>,
    emb: Emb,
}

fn run<T: Coord<O>, O: Prec>(j: &Job) -> String
where
    usize: AsPrimitive<T>,
{
    let e = &j.emb;
    let v: Vec<Point2<T>> = expand(&j.pts.iter().map(|p| Point2::new(T::to(p[0], e), T::to(p[1], e))).collect::<Vec<_>>(), &j.reps);
    let vox = (j.vox != 0).then(|| O::of(j.vox as f64 * 2f64.powi(e.exp)));
    let name = if j.jarvis { "jarvis" } else { "graham" };
    let ctx = format!("{name} {}/{} sorted={} vox={} {} {} times {}", T::NAME, O::NAME, j.sorted, j.vox, e.show(), arr2(&j.pts), arr(&j.reps));
    match call(&ctx, || api::hull(j.jarvis, &v, j.sorted, vox).unwrap_or_else(|| if j.jarvis { jarvis_march::<O, T>(&v, vox) } else { graham_scan::<O, T>(&v, j.sorted, vox) })) {
        Ok(h) => {
            let some = h.is_some();
            let h: Vec<Vec<i64>> = h.unwrap_or_default().iter().map(|p| vec![p.x.back(e), p.y.back(e)]).collect();
            format!(
                "{{\"op\":\"hull\",\"tag\":\"{}\",\"alg\":\"{name}\",\"ty\":\"{}/{}\",\"emb\":{},\"sorted\":{},\"vox\":{},\"pts\":{},\"reps\":{},\"some\":{some},\"h\":{}}}",
                j.tag,
                T::NAME,
                O::NAME,
                e.show(),
                j.sorted,
                j.vox,
                arr2(&j.pts),
                arr(&j.reps),
                arr2(&h)
            )
        }
        Err(m) => format!(
            "{{\"op\":\"fail\",\"p\":\"{}\",\"in\":\"{name}\",\"ty\":\"{}/{}\",\"emb\":{},\"pts\":{},\"what\":\"{m}\"}}",
            j.tag,
            T::NAME,
            O::NAME,
            e.show(),
            arr2(&j.pts)
        ),
    }
}

const TYPES: [&str; 12] = ["f32", "f64", "i32", "i64", "i8", "i16", "isize", "u8", "u16", "u32", "u64", "usize"];

fn dispatch(ty: &str, single: bool, j: &Job) -> String {
    macro_rules! go {
        ($($t:ident)*) => { match ty { $(stringify!($t) => if single { run::<$t, f32>(j) } else { run::<$t, f64>(j) },)* _ => unreachable!() } };
    }
    go!(f32 f64 i32 i64 i8 i16 isize u8 u16 u32 u64 usize)
}

/// Lowest and highest lattice value times 2^exp the type holds, as i128.
fn limits(ty: &str) -> (i128, i128) {
    macro_rules! go { ($($t:ident)*) => { match ty { $(stringify!($t) => ($t::MIN as i128, $t::MAX as i128),)* _ => (0, 0) } }; }
    go!(i32 i64 i8 i16 isize u8 u16 u32 u64 usize)
}

/// The largest reach (coordinates within -reach..=reach) for a type and precision.
fn max_reach(ty: &str, single: bool) -> i64 {
    let t = match ty {
        "i8" | "u8" => 127,
        "f32" => 2047,
        _ => 16000,
    };
    if single {
        t.min(2047)
    } else {
        t
    }
}

/// An embedding under which all coordinates fit the type and all determinants are exact.
/// `step`: offsets are multiples of it.
fn embedding(r: &mut Rng, ty: &str, single: bool, reach: i64, step: i64) -> Emb {
    if ty == "f32" || ty == "f64" {
        if r.chance(1, 3) {
            return Emb { neg_zero: r.chance(1, 2), ..Emb::ID };
        }
        let big = ty == "f64" && !single;
        let exp = if big { r.range(-200, 200) } else { r.range(-40, 30) } as i32;
        let room = if ty == "f32" { 1i64 << 22 } else { 1i64 << 48 };
        // with a sign change among the coordinates they are converted one by one
        let off = if r.chance(1, 2) { 0 } else { (r.range(-room, room) / step) * step };
        let off = if off != 0 && off.abs() <= reach { 0 } else { off };
        return Emb { exp, off, neg_zero: r.chance(1, 2) };
    }
    let (lo, hi) = limits(ty);
    // largest exponent so that the whole span fits
    let mut max_exp = 0;
    while max_exp < 40 && ((2 * reach as i128 + 2) << (max_exp + 1)) <= hi - lo {
        max_exp += 1;
    }
    let exp = r.range(0, max_exp) as i32;
    let at_low = (-((-lo) >> exp)) as i64 + reach; // smallest lattice value at the type's minimum
    let at_high = (hi >> exp) as i64 - reach;
    let zero = if lo < 0 { 0i64 } else { reach };
    let off = match r.below(5) {
        0 => zero,
        1 => at_low,
        2 => at_high,
        3 => at_low + r.range(0, 3),
        _ => at_high - r.range(0, 3),
    };
    let off = off.clamp(at_low, at_high.max(at_low));
    let off = if step > 1 { zero + ((off - zero) / step) * step } else { off };
    Emb { exp, off, neg_zero: false }
}

fn points(r: &mut Rng, reach: i64, size: usize) -> Vec<Vec<i64>> {
    let n = r.below(size + 1);
    let g = |r: &mut Rng| vec![r.range(-reach, reach), r.range(-reach, reach)];
    let mut v: Vec<Vec<i64>> = match r.below(10) {
        0 => {
            // on one line, perhaps with one point off it
            let (dx, dy) = *r.pick(&[(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 3)]);
            let lim = reach / 4;
            let mut v: Vec<Vec<i64>> = (0..n).map(|_| r.range(-lim.max(1).min(reach / 3), lim.max(1).min(reach / 3))).map(|t| vec![t * dx, t * dy]).collect();
            if r.chance(1, 2) && n > 0 {
                let i = r.below(n);
                v[i] = g(r);
            }
            v
        }
        1 => {
            // the boundary of a box, full of straight stretches
            let (w, h) = (r.range(1, reach), r.range(1, reach));
            (0..n)
                .map(|_| match r.below(4) {
                    0 => vec![-w, r.range(-h, h)],
                    1 => vec![w, r.range(-h, h)],
                    2 => vec![r.range(-w, w), -h],
                    _ => vec![r.range(-w, w), h],
                })
                .collect()
        }
        2 => (0..n)
            .map(|_| {
                let a = r.unit() * std::f64::consts::TAU;
                vec![(reach as f64 * a.cos()).round() as i64, (reach as f64 * a.sin()).round() as i64]
            })
            .collect(),
        3 => {
            // a parabola: every point is a corner
            let k = (reach as f64).sqrt() as i64;
            let flip = r.chance(1, 2);
            (0..n).map(|_| r.range(-k, k)).map(|t| if flip { vec![t, t * t] } else { vec![t * t, t] }).collect()
        }
        4 => {
            // a triangle with midpoints and inner points
            let c = [g(r), g(r), g(r)];
            let mut v: Vec<Vec<i64>> = (0..n)
                .map(|_| {
                    let (a, b) = (r.below(3), r.below(3));
                    vec![(c[a][0] + c[b][0]).div_euclid(2), (c[a][1] + c[b][1]).div_euclid(2)]
                })
                .collect();
            v.extend(c.iter().cloned());
            v
        }
        5 => {
            let m = reach.min(2);
            (0..n).map(|_| vec![r.range(-m, m), r.range(-m, m)]).collect()
        }
        _ => (0..n).map(|_| g(r)).collect(),
    };
    for _ in 0..v.len() / 6 {
        let (i, j) = (r.below(v.len()), r.below(v.len()));
        v[i] = v[j].clone();
    }
    r.shuffle(&mut v);
    v
}

/// A cloud of multiples of 60 with at most six points in any voxel.
fn voxel_cloud(r: &mut Rng, reach: i64, size: usize, vox: i64) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = points(r, reach / 60, size).iter().map(|p| vec![p[0] * 60, p[1] * 60]).collect();
    let mut per = std::collections::HashMap::new();
    v.retain(|p| {
        let c = per.entry((p[0].div_euclid(vox), p[1].div_euclid(vox))).or_insert(0);
        *c += 1;
        *c <= 6
    });
    v
}

/// Arbitrary floating point clouds: only termination and membership are specified.
fn rough<O: Prec>(r: &mut Rng, size: usize, jarvis: bool) -> String
where
    O: Coord<O> + Lat,
    usize: AsPrimitive<O>,
{
    let n = r.below(size + 1);
    let kind = r.below(6);
    let base = r.unit() * 10.0 - 5.0;
    let val = |r: &mut Rng| -> f64 {
        match kind {
            0 => r.unit() * 2.0 - 1.0,
            1 => base + r.range(-3, 3) as f64 * 1e-16,
            2 => (r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-300, 300) as i32),
            3 => r.range(-5, 5) as f64 * 0.1,
            4 => base * r.range(-4, 4) as f64,
            _ => (r.unit() - 0.5) * 1.7e308,
        }
    };
    let (a, b) = (val(r), val(r));
    let line = r.chance(1, 3);
    let pts: Vec<Point2<O>> = (0..n)
        .map(|_| {
            if line {
                let t = r.unit();
                Point2::new(O::of(a * t), O::of(b * t + r.range(-1, 1) as f64 * 1e-17))
            } else {
                Point2::new(O::of(val(r)), O::of(val(r)))
            }
        })
        .filter(|p: &Point2<O>| p.coords.iter().all(|c| ComplexField::is_finite(c)))
        .collect();
    let name = if jarvis { "jarvis" } else { "graham" };
    let ctx = format!("{name} {} arbitrary {:?}", <O as Prec>::NAME, pts);
    match call(&ctx, || api::hull(jarvis, &pts, false, None::<O>).unwrap_or_else(|| if jarvis { jarvis_march::<O, O>(&pts, None) } else { graham_scan::<O, O>(&pts, false, None) })) {
        Ok(h) => {
            let some = h.is_some();
            let idx: Vec<i64> =
                h.unwrap_or_default().iter().map(|v| pts.iter().position(|p| p == v).map(|i| i as i64 + 1).unwrap_or(-1)).collect();
            format!(
                "{{\"op\":\"rough\",\"tag\":\"H02\",\"n\":{},\"some\":{some},\"h\":{},\"pts\":\"{:?}\"}}",
                pts.len(),
                arr(idx),
                pts.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()
            )
        }
        Err(m) => format!("{{\"op\":\"fail\",\"p\":\"H02\",\"in\":\"{name}\",\"what\":\"{m}\"}}"),
    }
}

/// All points of a stretch of a parabola: every one is a corner of the hull.
fn parabola<T: Coord<f64>>(r: &mut Rng, focus: &str, jarvis: bool) -> String
where
    usize: AsPrimitive<T>,
    T: AsPrimitive<f64>,
{
    let n = if jarvis { *r.pick(&[3, 257, 300, 700]) } else { *r.pick(&[3, 257, 1100, 5000, 33_000, 66_000]) };
    let lo = -r.range(n / 3, n - n / 3);
    let hi = lo + n - 1;
    let e = Emb::ID;
    let mut v: Vec<Point2<T>> = (lo..=hi).map(|t| Point2::new(T::to(t, &e), T::to(t * t, &e))).collect();
    let sorted = !jarvis && focus == "H03" && r.chance(1, 2);
    let inner = r.chance(1, 2);
    if inner {
        // and points just inside
        v = (lo..=hi)
            .flat_map(|t| {
                let some = if t > lo && t < hi && n > 3 { r.range(0, 2) } else { 0 };
                (0..=some).map(|k| Point2::new(T::to(t, &e), T::to(t * t + k, &e))).collect::<Vec<_>>()
            })
            .collect();
    }
    // a few points in the same places of a voxel instead of each, their mean a whole number
    let side = r.range(3, 9);
    let mean = Point2::new(r.range(0, side - 2).max(r.range(0, 1)), r.range(0, side - 2).max(1));
    let vox = (focus == "H03" && hi * hi < 10_000_000 && r.chance(1, 2)).then_some(side as f64);
    if vox.is_some() {
        let per = *r.pick(&[1, 3, (6000 / n).max(2), (12_000 / n).max(3)]);
        let offs: Vec<(i64, i64)> = (0..per)
            .map(|i| match i % 2 {
                1 if mean.x > 0 && mean.y > 0 => (mean.x - 1, mean.y + 1),
                _ if i + 1 < per && i % 2 == 0 && mean.x > 0 && mean.y > 0 => (mean.x + 1, mean.y - 1),
                _ => (mean.x, mean.y),
            })
            .collect();
        v = v
            .iter()
            .flat_map(|p| offs.iter().map(|o| Point2::new(T::to(p.x.back(&e) * side + o.0, &e), T::to(p.y.back(&e) * side + o.1, &e))).collect::<Vec<_>>())
            .collect();
    }
    if !sorted && r.chance(3, 4) {
        r.shuffle(&mut v);
    }
    let name = if jarvis { "jarvis" } else { "graham" };
    let ctx = format!("{name} {} parabola {lo}..{hi} sorted={sorted} inner={inner} voxels {vox:?}", T::NAME);
    match call(&ctx, || api::hull(jarvis, &v, sorted, vox).unwrap_or_else(|| if jarvis { jarvis_march::<f64, T>(&v, vox) } else { graham_scan::<f64, T>(&v, sorted, vox) })) {
        Ok(h) => {
            let h: Vec<i64> = h
                .unwrap_or_default()
                .iter()
                .map(|p| match vox {
                    None => {
                        let t = p.x.back(&e);
                        if p.y == T::to(t * t, &e) { t } else { OFF }
                    }
                    Some(_) => {
                        let t = p.x.back(&e).div_euclid(side);
                        if *p == Point2::new(T::to(t * side + mean.x, &e), T::to(t * t * side + mean.y, &e)) { t } else { OFF }
                    }
                })
                .collect();
            format!("{{\"op\":\"parabola\",\"tag\":\"{focus}\",\"alg\":\"{name}\",\"ty\":\"{}\",\"sorted\":{sorted},\"voxels\":{},\"lo\":{lo},\"hi\":{hi},\"h\":{}}}", T::NAME, vox.is_some(), arr(h))
        }
        Err(m) => format!("{{\"op\":\"fail\",\"p\":\"{focus}\",\"in\":\"{name}\",\"what\":\"{m}\"}}"),
    }
}

fn random_event(r: &mut Rng, focus: &str, i: u64, size: usize) -> String {
    let single = r.chance(1, 2);
    if size > 100 && i % 3 == 0 || i == 50 || focus == "H03" && i % 80 == 51 {
        let jarvis = match focus {
            "H01" => false,
            "H02" => true,
            _ => r.chance(1, 3),
        };
        return match r.below(if focus == "H04" { 4 } else if focus == "H03" { 3 } else { 2 }) {
            0 => parabola::<f64>(r, focus, jarvis),
            1 => parabola::<i64>(r, focus, jarvis),
            2 => parabola::<i32>(r, focus, jarvis),
            _ => parabola::<isize>(r, focus, jarvis),
        };
    }
    match focus {
        "H03" => {
            let ty = *r.pick(&["f32", "f64", "f64", "f32", "i32", "i64", "u32"]);
            let jarvis = r.chance(1, 2);
            if r.chance(1, 4) && !jarvis {
                let reach = *r.pick(&[2, 20, max_reach(ty, single)]);
                let mut pts = points(r, reach, size);
                pts.sort();
                let emb = embedding(r, ty, single, reach, 1);
                return dispatch(ty, single, &Job { tag: focus.into(), jarvis, sorted: true, vox: 0, reps: vec![1; pts.len()], pts, emb });
            }
            let reach = *r.pick(&[120, 300, 1200, 1920]);
            let vox = *r.pick(&[60, 100, 120, 180, 500, 64]);
            let mut pts = voxel_cloud(r, reach, size, vox);
            let mut emb = if ty.starts_with('f') { embedding(r, ty, single, reach, vox) } else { Emb::new(r.range(0, 3) as i32, if ty == "u32" { 32 * vox * 60 } else { 0 }) };
            if ty.starts_with('f') {
                // floor(x / size) must be exact in both types
                emb.off = if r.chance(1, 2) { 0 } else { vox * r.range(-100, 100) };
                if emb.off.abs() <= reach {
                    emb.off = 0;
                }
            }
            let sorted = !jarvis && r.chance(1, 2);
            if sorted {
                pts.sort();
            }
            dispatch(ty, single, &Job { tag: focus.into(), jarvis, sorted, vox, reps: vec![1; pts.len()], pts, emb })
        }
        "H02" if i % 4 == 0 => {
            if single {
                rough::<f32>(r, size, true)
            } else {
                rough::<f64>(r, size, true)
            }
        }
        _ => {
            let ty = match focus {
                "H04" => *r.pick(&TYPES),
                _ => *r.pick(&TYPES[..4]),
            };
            let jarvis = match focus {
                "H01" => false,
                "H02" => true,
                _ => r.chance(1, 2),
            };
            let top = max_reach(ty, single);
            let reach = (*r.pick(&[1, 2, 3, 6, 30, 127, 1000, top, top])).min(top);
            let emb = embedding(r, ty, single, reach, 1);
            let pts = points(r, reach, size);
            let heavy = pts.len() < 12 && r.chance(1, 15);
            let reps = some_reps(r, pts.len(), heavy);
            dispatch(ty, single, &Job { tag: focus.into(), jarvis, sorted: false, vox: 0, reps, pts, emb })
        }
    }
}

fn main() {
    let a = Args::parse();
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 20), move || {
        let mut sink = Sink::new(&out);
        let focus = a.get("focus").to_string();
        let mut r = Rng::new(a.seed(), &focus);
        let mut ev: Vec<String> = Vec::new();
        let mut flush = |ev: &mut Vec<String>, at: usize| {
            if ev.len() >= at && !ev.is_empty() {
                sink.line(&format!("{{\"ev\":[{}]}}", ev.join(",")));
                ev.clear();
            }
        };
        if !a.get("scripts").is_empty() {
            for (i, line) in std::fs::read_to_string(a.get("scripts")).unwrap().lines().enumerate() {
                let mut pts = J::parse(line).get("pts").points();
                let single = r.chance(1, 2);
                let ty = if focus == "H04" { TYPES[i % 12] } else { TYPES[i % 4] };
                let jarvis = match focus.as_str() {
                    "H01" => false,
                    "H02" => true,
                    _ => (i / 12) % 2 == 0,
                };
                let sorted = focus == "H03" && !jarvis;
                if !sorted {
                    r.shuffle(&mut pts);
                }
                let emb = embedding(&mut r, ty, single, 4, 1);
                ev.push(dispatch(ty, single, &Job { tag: focus.clone(), jarvis, sorted, vox: 0, reps: vec![1; pts.len()], pts, emb }));
                flush(&mut ev, 20);
            }
            flush(&mut ev, 1);
        }
        let top = a.num("top", 300) as usize;
        for i in 0..a.num("random", 0) {
            let size = match i % 100 {
                0 if i > 0 => top,
                1..=4 => top / 5,
                5..=30 => 30,
                _ => 9,
            };
            ev.push(random_event(&mut r, &focus, i / 100 + i, size));
            flush(&mut ev, if size > 30 { 1 } else { 15 });
        }
        flush(&mut ev, 1);
    });
}
