//! Point-in-polygon queries (single and batch), cuts along chords, and polygon extents.

use harness::*;
use mapping_algorithms::polygons::{are_multiple_points_in_polygon, calculate_polygon_extents, is_single_point_in_polygon};
use nalgebra::{Point, Point2, RealField};
use num_traits::{AsPrimitive, Bounded};

trait Prec: Lat + Bounded + Copy + RealField {
    fn of(v: f64) -> Self;
    fn bits(self) -> u64;
    fn specials() -> Vec<Self>;
    fn next(self, up: bool) -> Self;
}
macro_rules! prec {
    ($t:ident, $u:ty) => {
        impl Prec for $t {
            fn of(v: f64) -> $t {
                v as $t
            }
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn specials() -> Vec<$t> {
                let tiny = $t::from_bits(1);
                vec![$t::MIN, $t::MAX, -$t::MAX / 2.0, -1.0, -tiny, -0.0, 0.0, tiny, $t::MIN_POSITIVE, 0.1, 1.0, 1.0 + $t::EPSILON, 1e30]
            }
            fn next(self, up: bool) -> $t {
                if self == 0.0 {
                    let t = $t::from_bits(1);
                    return if up { t } else { -t };
                }
                let b = self.to_bits();
                $t::from_bits(if (self > 0.0) == up { b + 1 } else { b - 1 })
            }
        }
    };
}
prec!(f32, u32);
prec!(f64, u64);

fn inside<T: Prec>(q: &Point2<T>, polygon: &[Point2<T>]) -> bool
where
    f32: AsPrimitive<T>,
{
    api::inside(q, polygon).unwrap_or_else(|| is_single_point_in_polygon(q, polygon))
}
fn inside_all<T: Prec>(qs: &[Point2<T>], polygon: &[Point2<T>]) -> Option<Vec<bool>>
where
    f32: AsPrimitive<T>,
{
    api::inside_all(qs, polygon).unwrap_or_else(|| are_multiple_points_in_polygon(qs, polygon))
}

fn fail(p: &str, op: &str, m: &str, ctx: &str) -> String {
    format!("{{\"op\":\"fail\",\"p\":\"{p}\",\"in\":\"{op}\",\"what\":\"{m}\",\"of\":\"{ctx}\"}}")
}

fn pts<T: Prec>(v: &[Vec<i64>], e: &Emb) -> Vec<Point2<T>> {
    v.iter().map(|p| Point2::new(T::to(p[0], e), T::to(p[1], e))).collect()
}

/// An embedding in which the crossing arithmetic separates all lattice points.
fn embedding<T: Prec>(r: &mut Rng, reach: i64) -> Emb {
    let room = (if T::BITS == 24 { 1i64 << 19 } else { 1 << 48 }) / reach;
    let exp = if T::BITS == 24 { r.range(-30, 30) } else { r.range(-200, 200) } as i32;
    let off = if r.chance(1, 2) { 0 } else { r.range(-room, room) };
    match r.below(3) {
        0 => Emb { neg_zero: r.chance(1, 2), ..Emb::ID },
        _ => Emb { exp, off, neg_zero: r.chance(1, 2) },
    }
}

// ---------------------------------------------------------------- polygons on the lattice
fn polygon(r: &mut Rng, reach: i64, size: usize) -> Vec<Vec<i64>> {
    let n = r.below(size + 1);
    let g = |r: &mut Rng| vec![r.range(-reach, reach), r.range(-reach, reach)];
    let mut v: Vec<Vec<i64>> = match r.below(8) {
        7 => {
            // narrow teeth one above the other or side by side, so that some rays meet every edge
            let upright = r.chance(1, 2);
            let far = reach.max(2);
            (0..n)
                .map(|i| {
                    let k = (i as i64 * 2 * far) / n.max(1) as i64 - far;
                    let x = if i % 2 == 0 { -far } else { far };
                    if upright {
                        vec![k, x]
                    } else {
                        vec![x, k]
                    }
                })
                .collect()
        }
        0 | 1 => (0..n).map(|_| g(r)).collect(),
        2 => {
            // star-shaped: sorted by angle, radii vary
            let mut a: Vec<f64> = (0..n).map(|_| r.unit() * std::f64::consts::TAU).collect();
            a.sort_by(|x, y| x.partial_cmp(y).unwrap());
            a.iter()
                .map(|t| {
                    let rad = reach as f64 * (0.2 + 0.8 * r.unit());
                    vec![(rad * t.cos()) as i64, (rad * t.sin()) as i64]
                })
                .collect()
        }
        3 => {
            // rectilinear: only one coordinate changes from vertex to vertex
            let mut p = g(r);
            (0..n)
                .map(|i| {
                    p[i % 2] = r.range(-reach, reach);
                    p.clone()
                })
                .collect()
        }
        4 => {
            // a comb or a wall of steps
            (0..n).map(|i| vec![r.range(-2, 2) + (i as i64 - n as i64 / 2) * (reach / (n as i64 + 1)).max(1), if i % 2 == 0 { -reach / 2 } else { r.range(0, reach) }]).collect()
        }
        5 => {
            let m = reach.min(2);
            (0..n).map(|_| vec![r.range(-m, m), r.range(-m, m)]).collect()
        }
        _ => {
            // convex and closed explicitly, in either orientation
            let mut v: Vec<Vec<i64>> = (0..n)
                .map(|i| {
                    let t = i as f64 / n as f64 * std::f64::consts::TAU;
                    vec![(reach as f64 * t.cos()).round() as i64, (reach as f64 * t.sin()).round() as i64]
                })
                .collect();
            if n > 0 && r.chance(1, 2) {
                v.push(v[0].clone());
            }
            if r.chance(1, 2) {
                v.reverse();
            }
            v
        }
    };
    if !v.is_empty() && r.chance(1, 3) {
        for _ in 0..1 + v.len() / 8 {
            // repeated vertices, in place and elsewhere
            let (i, j) = (r.below(v.len()), r.below(v.len()));
            if r.chance(1, 2) {
                v.insert(i, v[i].clone());
            } else {
                v[i] = v[j].clone();
            }
        }
    }
    v
}

fn probes(r: &mut Rng, poly: &[Vec<i64>], reach: i64, n: usize) -> Vec<Vec<i64>> {
    (0..n)
        .map(|_| {
            if poly.is_empty() {
                return vec![r.range(-reach, reach), r.range(-reach, reach)];
            }
            let (a, b, c) = (r.pick(poly).clone(), r.pick(poly).clone(), r.below(poly.len()));
            let (d, e) = (&poly[c], &poly[(c + 1) % poly.len()]);
            match r.below(8) {
                0 => a,
                1 => vec![a[0], b[1]],
                2 => vec![r.range(-reach, reach), a[1]],
                3 => vec![(d[0] + e[0]).div_euclid(2), (d[1] + e[1]).div_euclid(2)],
                4 => vec![(d[0] + e[0]).div_euclid(2) + r.range(-1, 1), (d[1] + e[1]).div_euclid(2) + r.range(-1, 1)],
                5 => vec![a[0] + r.range(-1, 1), a[1] + r.range(-1, 1)],
                6 => vec![(a[0] + b[0]).div_euclid(2), (a[1] + b[1]).div_euclid(2)],
                _ => vec![r.range(-reach - 1, reach + 1), r.range(-reach - 1, reach + 1)],
            }
        })
        .collect()
}

fn single<T: Prec>(poly: &[Vec<i64>], qs: &[Vec<i64>], e: &Emb) -> String
where
    f32: AsPrimitive<T>,
{
    let ctx = format!("is_single_point_in_polygon {} {} {} {}", T::NAME, e.show(), arr2(poly), arr2(qs));
    let v: Vec<Point2<T>> = pts(poly, e);
    let q: Vec<Point2<T>> = pts(qs, e);
    match call(&ctx, || q.iter().map(|p| inside(p, &v)).collect::<Vec<bool>>()) {
        Ok(a) => format!(
            "{{\"op\":\"single\",\"ty\":\"{}\",\"emb\":{},\"poly\":{},\"qs\":{},\"r\":{}}}",
            T::NAME,
            e.show(),
            arr2(poly),
            arr2(qs),
            arr(a)
        ),
        Err(m) => fail("P01", "single", &m, &ctx.replace('"', "'")),
    }
}

// ---------------------------------------------------------------- any coordinates
fn show<T: Prec>(v: &[Point2<T>]) -> String {
    format!("{:?}", v.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>())
}

/// Each of the points is asked for as often as `reps` says.
fn batch<T: Prec>(v: &[Point2<T>], q: &[Point2<T>], reps: &[i64]) -> String
where
    f32: AsPrimitive<T>,
{
    let ctx = format!("are_multiple_points_in_polygon {} {} {} times {}", T::NAME, v.len(), show(&v[..v.len().min(700)]), show(q));
    let all = expand(q, reps);
    match call(&ctx, || (q.iter().map(|p| inside(p, v)).collect::<Vec<bool>>(), inside_all(&all, v))) {
        Ok((one, b)) => {
            let some = b.is_some();
            let b = b.unwrap_or_default();
            let mut at = 0;
            let (mut every, mut any) = (vec![], vec![]);
            for k in reps {
                if let Some(run) = b.get(at..at + *k as usize) {
                    every.push(run.iter().all(|x| *x));
                    any.push(run.iter().any(|x| *x));
                }
                at += *k as usize;
            }
            format!(
                "{{\"op\":\"batch\",\"ty\":\"{}\",\"n\":{},\"poly\":\"{}\",\"qs\":\"{}\",\"reps\":{},\"one\":{},\"some\":{some},\"count\":{},\"every\":{},\"any\":{}}}",
                T::NAME,
                v.len(),
                show(&v[..v.len().min(700)]),
                show(q),
                arr(reps),
                arr(one),
                b.len(),
                arr(every),
                arr(any)
            )
        }
        Err(m) => fail("P02", "batch", &m, &ctx),
    }
}

fn cut<T: Prec>(v: &[Point2<T>], i: usize, j: usize, rot: usize, q: &[Point2<T>]) -> String
where
    f32: AsPrimitive<T>,
{
    let ctx = format!("is_single_point_in_polygon cut {} {} {i} {j} {}", T::NAME, show(v), show(q));
    let a: Vec<Point2<T>> = v[i..=j].to_vec();
    let b: Vec<Point2<T>> = v[j..].iter().chain(v[..=i].iter()).copied().collect();
    let mut rev = v.to_vec();
    rev.reverse();
    let mut rt = v.to_vec();
    rt.rotate_left(rot);
    match call(&ctx, || {
        let f = |w: &[Point2<T>]| q.iter().map(|p| inside(p, w)).collect::<Vec<bool>>();
        [f(v), f(&a), f(&b), f(&rev), f(&rt)]
    }) {
        Ok([w, a, b, rev, rot]) => format!(
            "{{\"op\":\"cut\",\"ty\":\"{}\",\"poly\":\"{}\",\"i\":{i},\"j\":{j},\"qs\":\"{}\",\"whole\":{},\"a\":{},\"b\":{},\"rev\":{},\"rot\":{}}}",
            T::NAME,
            show(v),
            show(q),
            arr(w),
            arr(a),
            arr(b),
            arr(rev),
            arr(rot)
        ),
        Err(m) => fail("P04", "cut", &m, &ctx),
    }
}

/// Points on and within an ulp or two of the edges, the vertices and the chord ij.
fn near_points<T: Prec>(r: &mut Rng, v: &[Point2<T>], chord: Option<(usize, usize)>, n: usize) -> Vec<Point2<T>> {
    if v.is_empty() {
        return vec![Point2::new(T::of(r.unit()), T::of(r.unit())); n];
    }
    let wiggle = |r: &mut Rng, x: T| (0..r.below(3)).fold(x, |x, _| x.next(r.0 % 2 == 0));
    (0..n)
        .map(|_| {
            let c = r.below(v.len());
            let (a, b) = match chord {
                Some((i, j)) if r.chance(1, 2) => (v[i], v[j]),
                _ => (v[c], v[(c + 1) % v.len()]),
            };
            match r.below(7) {
                0 => a,
                1 => Point2::new(wiggle(r, a.x), wiggle(r, a.y)),
                2 => Point2::new(a.x, v[r.below(v.len())].y),
                3 => Point2::new(T::of(r.unit() * 2.0 - 1.0), a.y),
                _ => {
                    let t = T::of(r.unit());
                    let p = Point2::new(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t);
                    if r.chance(1, 2) {
                        p
                    } else {
                        Point2::new(wiggle(r, p.x), wiggle(r, p.y))
                    }
                }
            }
        })
        .collect()
}

/// Points strictly on the chord of a lattice polygon, and elsewhere.
fn border<T: Prec>(r: &mut Rng, size: usize) -> String
where
    f32: AsPrimitive<T>,
{
    let reach = *r.pick(&[2, 5, 12, 100]);
    let mut v: Vec<Vec<i64>> = polygon(r, reach, size);
    while v.len() < 4 {
        v.push(vec![r.range(-reach, reach), r.range(-reach, reach)]);
    }
    let i = r.below(v.len() - 2);
    let j = i + 2 + r.below(v.len() - 2 - i);
    v.iter_mut().for_each(|p| p.iter_mut().for_each(|x| *x *= 12));
    let k = 1 + r.below(6);
    let mut qs: Vec<Vec<i64>> = vec![];
    for (m, n) in [(1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (5, 6), (1, 12)] {
        qs.push((0..2).map(|c| v[i][c] + (v[j][c] - v[i][c]) * m / n).collect());
    }
    qs.extend(probes(r, &v, reach * 12, k));
    let e = embedding::<T>(r, reach * 12);
    let w: Vec<Point2<T>> = pts(&v, &e);
    let q: Vec<Point2<T>> = pts(&qs, &e);
    let a = w[i..=j].to_vec();
    let b: Vec<Point2<T>> = w[j..].iter().chain(w[..=i].iter()).copied().collect();
    let ctx = format!("is_single_point_in_polygon border {} {} {} {i} {j} {}", T::NAME, e.show().replace('"', "'"), arr2(&v), arr2(&qs));
    match call(&ctx, || {
        let f = |w: &[Point2<T>]| q.iter().map(|p| inside(p, w)).collect::<Vec<bool>>();
        [f(&w), f(&a), f(&b)]
    }) {
        Ok([w, a, b]) => format!(
            "{{\"op\":\"border\",\"ty\":\"{}\",\"emb\":{},\"poly\":{},\"i\":{},\"j\":{},\"qs\":{},\"whole\":{},\"a\":{},\"b\":{}}}",
            T::NAME,
            e.show(),
            arr2(&v),
            i + 1,
            j + 1,
            arr2(&qs),
            arr(w),
            arr(a),
            arr(b)
        ),
        Err(m) => fail("P04", "border", &m, &ctx),
    }
}

fn any_polygon<T: Prec>(r: &mut Rng, size: usize) -> Vec<Point2<T>> {
    let scale = match r.below(4) {
        0 => 10f64.powi(r.range(-15, 15) as i32),
        _ => 1.0,
    };
    let reach = *r.pick(&[3, 50, 1000]);
    let mut v: Vec<Point2<T>> = if r.chance(1, 3) {
        // decimal fractions
        polygon(r, reach, size).iter().map(|p| Point2::new(T::of(p[0] as f64 * 0.1), T::of(p[1] as f64 * 0.1))).collect()
    } else {
        let shape = polygon(r, reach, size);
        shape
            .iter()
            .map(|p| {
                Point2::new(
                    T::of((p[0] as f64 + r.unit()) / reach as f64 * scale),
                    T::of((p[1] as f64 + r.unit()) / reach as f64 * scale),
                )
            })
            .collect()
    };
    if v.len() > 3 && r.chance(1, 4) {
        // level and upright edges
        let i = r.below(v.len() - 1);
        v[i + 1].y = v[i].y;
        let i = r.below(v.len() - 1);
        v[i + 1].x = v[i].x;
    }
    v
}

// ---------------------------------------------------------------- extents
fn extents<T: Prec, const N: usize>(r: &mut Rng, size: usize) -> String {
    let mut vals: Vec<T> = if r.chance(1, 3) { T::specials() } else { vec![] };
    for _ in 0..6 {
        vals.push(T::of((r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-20, 20) as i32)));
    }
    if r.chance(1, 3) {
        // all of one sign
        let s = T::of(if r.chance(1, 2) { 1.0 } else { -1.0 });
        vals = vals.iter().map(|v| v.abs() * s).collect();
    }
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vals.dedup_by(|a, b| a == b);
    let rank = |x: T| vals.iter().position(|v| *v == x).map(|i| i as i64).unwrap_or(OFF);
    let n = r.below(size + 1);
    let mut idx: Vec<Vec<usize>> = (0..n).map(|_| (0..N).map(|_| r.below(vals.len())).collect()).collect();
    match r.below(5) {
        0 => idx.sort(),
        1 => {
            idx.sort();
            idx.reverse()
        }
        _ => {}
    }
    let heavy = n < 12 && r.chance(1, 20);
    let reps = some_reps(r, n, heavy);
    let v: Vec<Point<T, N>> = expand(&idx.iter().map(|p| Point::from(std::array::from_fn(|a| vals[p[a]]))).collect::<Vec<_>>(), &reps);
    let ranks: Vec<Vec<i64>> = idx.iter().map(|p| p.iter().map(|i| *i as i64).collect()).collect();
    let ctx = format!("calculate_polygon_extents {} {N} {} {:?}", T::NAME, v.len(), &v[..v.len().min(500)]);
    match call(&ctx, || calculate_polygon_extents(&v)) {
        Ok(x) => {
            let some = x.is_some();
            let ext: Vec<Vec<i64>> = x.iter().flat_map(|x| x.iter().map(|i| vec![rank(*i.start()), rank(*i.end())])).collect();
            format!(
                "{{\"op\":\"extents\",\"ty\":\"{}\",\"poly\":{},\"reps\":{},\"some\":{some},\"ext\":{},\"values\":\"{:?}\"}}",
                T::NAME,
                arr2(&ranks),
                arr(&reps),
                arr2(&ext),
                vals
            )
        }
        Err(m) => fail("P03", "extents", &m, &ctx),
    }
}

fn event<T: Prec>(r: &mut Rng, focus: &str, size: usize, script: Option<&(Vec<Vec<i64>>, i64)>) -> String
where
    f32: AsPrimitive<T>,
{
    match focus {
        "P01" => {
            if let Some((poly, hi)) = script {
                let qs: Vec<Vec<i64>> = (-1..=hi + 1).flat_map(|x| (-1..=hi + 1).map(move |y| vec![x, y])).collect();
                let e = embedding::<T>(r, 10);
                return single::<T>(poly, &qs, &e);
            }
            if size > 100 && r.chance(1, 2) {
                // hundreds of crossings on one ray
                let n = *r.pick(&[130, 257, 300, 513, 700, 2500, 7000, 20_000]);
                let upright = r.chance(3, 4);
                let poly: Vec<Vec<i64>> = (0..n)
                    .map(|i| {
                        let (k, x) = (i - n / 2, if i % 2 == 0 { -9 } else { 9 });
                        if upright { vec![k, x] } else { vec![x, k] }
                    })
                    .collect();
                let qs: Vec<Vec<i64>> = (0..if n > 1000 { 5 } else { 12 }).map(|i| if upright { vec![-n / 2 + r.range(-2, 2) + if i % 3 == 0 { n / 4 } else { 0 }, r.range(-9, 9)] } else { vec![r.range(-9, 9), r.range(-n / 2, n / 2)] }).collect();
                let e = embedding::<T>(r, n as i64);
                return single::<T>(&poly, &qs, &e);
            }
            let top = if T::BITS == 24 { 500 } else { 4000 };
            let reach = *r.pick(&[2, 5, 12, 100, 500, top]);
            let poly = polygon(r, reach, size);
            let k = 4 + r.below(12);
            let qs = probes(r, &poly, reach, k);
            let e = embedding::<T>(r, reach);
            single::<T>(&poly, &qs, &e)
        }
        "P03" => match r.below(6) {
            0 => extents::<T, 1>(r, size),
            1 => extents::<T, 2>(r, size),
            2 => extents::<T, 3>(r, size),
            3 => extents::<T, 4>(r, size),
            4 => extents::<T, 6>(r, size),
            _ => extents::<T, 9>(r, size),
        },
        _ => {
            let v: Vec<Point2<T>> = match script {
                Some((poly, _)) => {
                    let e = embedding::<T>(r, 10);
                    pts(poly, &e)
                }
                None => any_polygon(r, size),
            };
            if focus == "P02" {
                let k = r.below(12);
                let q = near_points(r, &v, None, k);
                let heavy = r.chance(1, 20);
                let reps = some_reps(r, k, heavy);
                if v.len() < 12 && r.chance(1, 25) {
                    // many equal vertices in a row
                    let reps = some_reps(r, v.len(), true);
                    let v = expand(&v, &reps);
                    return batch(&v, &q[..k.min(3)], &vec![1; k.min(3)]);
                }
                batch(&v, &q, &reps)
            } else {
                if script.is_none() && r.chance(1, 3) {
                    return border::<T>(r, size.min(60));
                }
                if v.len() < 2 {
                    return event::<T>(r, focus, size.max(4), None);
                }
                let i = r.below(v.len() - 1);
                let j = i + 1 + r.below(v.len() - 1 - i);
                let k = 2 + r.below(12);
                let q = near_points(r, &v, Some((i, j)), k);
                let rot = r.below(v.len());
                cut(&v, i, j, rot, &q)
            }
        }
    }
}

fn main() {
    let a = Args::parse();
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 20), move || {
        let mut sink = Sink::new(&out);
        let focus = a.get("focus").to_string();
        let mut r = Rng::new(a.seed(), &focus);
        let mut ev: Vec<String> = Vec::new();
        let mut flush = |ev: &mut Vec<String>, at: usize| {
            if ev.len() >= at && !ev.is_empty() {
                sink.line(&format!("{{\"ev\":[{}]}}", ev.join(",")));
                ev.clear();
            }
        };
        if !a.get("scripts").is_empty() {
            for line in std::fs::read_to_string(a.get("scripts")).unwrap().lines() {
                let j = J::parse(line);
                let s = (j.get("poly").points(), j.get("hi").int());
                ev.push(if r.chance(1, 2) { event::<f32>(&mut r, &focus, 9, Some(&s)) } else { event::<f64>(&mut r, &focus, 9, Some(&s)) });
                flush(&mut ev, 20);
            }
            flush(&mut ev, 1);
        }
        let top = a.num("top", 300) as usize;
        for i in 0..a.num("random", 0) {
            let size = match i % 100 {
                0 if i > 0 => top,
                1..=4 => top / 5,
                5..=30 => 30,
                _ => 9,
            };
            ev.push(if r.chance(1, 2) { event::<f32>(&mut r, &focus, size, None) } else { event::<f64>(&mut r, &focus, size, None) });
            flush(&mut ev, if size > 30 { 1 } else { 15 });
        }
        flush(&mut ev, 1);
    });
}
