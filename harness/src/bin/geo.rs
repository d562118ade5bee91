//! Distances and bearings on the sphere.  Positions are integers in units of 2^-15 degree.

use harness::*;
use mapping_algorithms::geo::{calculate_haversine_distance, calculate_sphere_bearing};
use nalgebra::{Point2, RealField};
use num_traits::Float;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

const UNIT: f64 = 32768.0;
const DEG: i64 = 32768;

trait Prec: Float + RealField {
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn wide(self) -> f64;
    fn turn() -> Self;
}
impl Prec for f32 {
    const NAME: &'static str = "f32";
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn wide(self) -> f64 {
        self as f64
    }
    fn turn() -> f32 {
        std::f32::consts::TAU
    }
}
impl Prec for f64 {
    const NAME: &'static str = "f64";
    fn of(v: f64) -> f64 {
        v
    }
    fn wide(self) -> f64 {
        self
    }
    fn turn() -> f64 {
        TAU
    }
}

type Pos = (i64, i64);

fn pt<T: Prec>(p: Pos) -> Point2<T> {
    Point2::new(T::of(p.0 as f64 / UNIT), T::of(p.1 as f64 / UNIT))
}
fn int(v: f64) -> i64 {
    if v.is_nan() || v.abs() > OFF as f64 * 20.0 {
        OFF * 20
    } else {
        v.round() as i64
    }
}
/// In units of 2^-46, as two digits of 24 bits.
fn fine(v: f64) -> String {
    let n = if v.is_nan() || v.abs() > 2.0 { 0 } else { (v * 70368744177664.0).round() as i64 };
    format!("[{},{}]", n >> 24, n & 0xff_ffff)
}
fn fail(p: &str, m: &str, ctx: &str) -> String {
    format!("{{\"op\":\"fail\",\"p\":\"{p}\",\"what\":\"{m}\",\"of\":\"{ctx}\"}}")
}
fn show(p: Pos) -> String {
    format!("[{},{}]", p.0, p.1)
}

fn dist<T: Prec>(a: Pos, b: Pos, radius: f64) -> Result<T, String> {
    let ctx = format!("calculate_haversine_distance {} {:?} {:?} radius {radius}", T::NAME, a, b);
    call(&ctx, || api::distance(pt(a), pt(b), T::of(radius)).unwrap_or_else(|| calculate_haversine_distance::<T>(pt(a), pt(b), T::of(radius)))).map_err(|m| fail("G01", &m, &ctx))
}
/// Quarter turns, rest in radians, below a full turn, and the number itself.
fn bear<T: Prec>(a: Pos, b: Pos) -> Result<(i64, i64, bool, f64), String> {
    let ctx = format!("calculate_sphere_bearing {} {:?} {:?}", T::NAME, a, b);
    let v = call(&ctx, || api::bearing(pt(a), pt(b)).unwrap_or_else(|| calculate_sphere_bearing::<T>(pt(a), pt(b)))).map_err(|m| fail("G02", &m, &ctx))?;
    let w = v.wide();
    let q = if w.is_nan() { 9.0 } else { (w / FRAC_PI_2).floor() };
    Ok((int(q), int((w - q * FRAC_PI_2) * 8388608.0), v < T::turn(), w))
}

fn dist_event<T: Prec>(a: Pos, b: Pos, radius: f64) -> String {
    match dist::<T>(a, b, radius) {
        Err(e) => e,
        Ok(d) => format!(
            "{{\"op\":\"dist\",\"prec\":\"{}\",\"a\":{},\"b\":{},\"radius\":\"{radius}\",\"half\":{},\"fine\":{},\"zero\":{},\"neg\":{}}}",
            T::NAME,
            show(a),
            show(b),
            int(d.wide() / T::of(radius).wide() / 2.0 * 8388608.0),
            fine(d.wide() / T::of(radius).wide() / 2.0),
            d.wide() == 0.0,
            d.wide() < 0.0
        ),
    }
}
fn bear_event<T: Prec>(a: Pos, b: Pos) -> String {
    match bear::<T>(a, b) {
        Err(e) => e,
        Ok((q, r, below, w)) => {
            let rest = fine(w - q as f64 * FRAC_PI_2);
            format!("{{\"op\":\"bear\",\"prec\":\"{}\",\"a\":{},\"b\":{},\"q\":{q},\"r\":{r},\"fine\":{rest},\"below\":{below}}}", T::NAME, show(a), show(b))
        }
    }
}
/// Two numbers scaled so that the larger one is about 2^28.
fn rel<T: Prec>(what: &str, x: f64, y: f64, radius: f64, of: &str) -> String {
    let s = 2f64.powi(28) / x.abs().max(y.abs());
    let s = if s.is_finite() { s } else { 1.0 };
    let half = int(x / T::of(radius).wide() / 2.0 * 8388608.0);
    format!(
        "{{\"op\":\"rel\",\"prec\":\"{}\",\"what\":\"{what}\",\"half\":{half},\"x\":{},\"y\":{},\"of\":\"{of}\"}}",
        T::NAME,
        int(x * s),
        int(y * s)
    )
}

const RADII: [f64; 8] = [1.0, 6371.0, 6_371_000.0, 3958.8, 0.001, 1.0e7, 2.0, 1737.4];

fn position(r: &mut Rng) -> Pos {
    let lat = match r.below(6) {
        0 => r.range(-6, 6) * 15 * DEG,
        1 => *r.pick(&[90 * DEG, -90 * DEG, 0, 1, -1, 90 * DEG - 1]),
        _ => r.range(-90 * DEG, 90 * DEG),
    };
    let lon = match r.below(6) {
        0 => r.range(-12, 12) * 15 * DEG,
        1 => *r.pick(&[180 * DEG, -180 * DEG, 0, 180 * DEG - 1, -180 * DEG + 1]),
        _ => r.range(-180 * DEG, 180 * DEG),
    };
    (lat, lon)
}
fn other(r: &mut Rng, a: Pos) -> Pos {
    let near = |r: &mut Rng, m: i64| ((a.0 + r.range(-m, m)).clamp(-90 * DEG, 90 * DEG), a.1 + r.range(-m, m));
    let b = match r.below(9) {
        0 => a,
        1 => near(r, 3),
        2 => near(r, DEG),
        3 => near(r, 10 * DEG),
        4 => (-a.0, a.1 + 180 * DEG),
        5 => {
            let m = *r.pick(&[1, 100, DEG]);
            let n = near(r, m);
            (-n.0, n.1 + 180 * DEG)
        }
        6 => (a.0, position(r).1),
        7 => (position(r).0, a.1),
        _ => position(r),
    };
    // longitudes beyond the date line and whole turns, exact in both precisions
    let turns = if r.chance(1, 4) { r.range(-1, 1) } else { 0 };
    let lon = b.1 + turns * 360 * DEG;
    if lon.abs() < 1 << 24 {
        (b.0, lon)
    } else {
        (b.0, b.1 - b.1.signum() * 360 * DEG)
    }
}

fn g01<T: Prec>(r: &mut Rng) -> Vec<String> {
    let a = position(r);
    let b = other(r, a);
    let radius = *r.pick(&RADII);
    let mut out = vec![];
    let go = |r: &mut Rng, out: &mut Vec<String>| -> Result<(), String> {
        match r.below(8) {
            0..=3 => out.push(dist_event::<T>(a, b, radius)),
            4 => {
                let of = format!("{a:?} {b:?}");
                let (ab, ba) = (dist::<T>(a, b, radius)?.wide(), dist::<T>(b, a, radius)?.wide());
                out.push(rel::<T>("the same in both directions", ab, ba, radius, &of));
                let other = *r.pick(&RADII);
                let scaled = dist::<T>(a, b, other)?.wide() / T::of(other).wide() * T::of(radius).wide();
                out.push(rel::<T>("proportional to the radius", ab, scaled, radius, &of));
            }
            5 => {
                // along a meridian, in any proportion, up to 150 degrees; possibly across a pole
                let span = *r.pick(&[4, 1000, DEG, 20 * DEG, 150 * DEG]);
                let lat = r.range(-90 * DEG, 90 * DEG - span.min(170 * DEG));
                let u = r.range(1, span);
                let m = r.range(0, u);
                let at = |d: i64| (lat + d, a.1);
                let radius = *r.pick(&RADII);
                let (ab, bc, ac) = (dist::<T>(at(0), at(m), radius)?, dist::<T>(at(m), at(u), radius)?, dist::<T>(at(0), at(u), radius)?);
                let of = format!("{:?} {:?} {:?}", at(0), at(m), at(u));
                out.push(rel::<T>("additive along a meridian", ab.wide() + bc.wide(), ac.wide(), radius, &of));
                let s = (1i64 << 28) / u;
                let angle = ac.wide() / T::of(radius).wide() * 180.0 / PI * UNIT;
                out.push(format!(
                    "{{\"op\":\"meridian\",\"prec\":\"{}\",\"a\":{},\"u\":{u},\"s\":{s},\"m\":{}}}",
                    T::NAME,
                    show(at(0)),
                    int(angle * s as f64)
                ));
            }
            6 => {
                let lat = r.range(-60 * DEG, 60 * DEG);
                let u = *r.pick(&[1, 7, 100, 2000]) + r.range(0, 3);
                let s = (1i64 << 23) / u;
                let p = (lat, a.1);
                let d = dist::<T>(p, (lat, a.1 + if a.1 > 0 { -u } else { u }), radius)?;
                let angle = d.wide() / T::of(radius).wide() * 180.0 / PI * UNIT;
                out.push(format!(
                    "{{\"op\":\"parallel\",\"prec\":\"{}\",\"lat\":{lat},\"lon\":{},\"u\":{u},\"s\":{s},\"m\":{}}}",
                    T::NAME,
                    a.1,
                    int(angle * s as f64)
                ));
                out.push(dist_event::<T>(p, (lat, a.1 + if a.1 > 0 { -u } else { u }), radius));
            }
            _ => {
                let c = if r.chance(1, 2) { other(r, b) } else { other(r, a) };
                let half = |p: Pos, q: Pos| dist::<T>(p, q, radius).map(|d| int(d.wide() / T::of(radius).wide() / 2.0 * 8388608.0));
                out.push(format!(
                    "{{\"op\":\"detour\",\"prec\":\"{}\",\"a\":{},\"b\":{},\"c\":{},\"ab\":{},\"bc\":{},\"ac\":{}}}",
                    T::NAME,
                    show(a),
                    show(b),
                    show(c),
                    half(a, b)?,
                    half(b, c)?,
                    half(a, c)?
                ));
            }
        }
        Ok(())
    };
    if let Err(e) = go(r, &mut out) {
        out.push(e);
    }
    out
}

fn g02<T: Prec>(r: &mut Rng) -> Vec<String> {
    let mut a = position(r);
    while a.0.abs() > 89 * DEG {
        a = position(r);
    }
    let one = |r: &mut Rng| -> Result<String, String> {
        let head = |op: &str, q: i64, rest: i64, below: bool| format!("{{\"op\":\"{op}\",\"prec\":\"{}\",\"q\":{q},\"r\":{rest},\"below\":{below}", T::NAME);
        Ok(match r.below(8) {
            0..=3 => bear_event::<T>(a, other(r, a)),
            4 | 5 => {
                // a neighbour
                let single = T::NAME == "f32";
                let lat = r.range(-60 * DEG, 60 * DEG);
                let m = if single { *r.pick(&[DEG / 4, DEG / 10]) } else { *r.pick(&[3, 100, DEG / 50]) };
                let mut d = (r.range(-m, m), r.range(-m, m));
                if d.0.abs() + d.1.abs() < m / 2 + 1 {
                    d = *r.pick(&[(m, 1), (-m, -1), (1, m), (-1, -m), (m, 0), (0, m), (0, -m)]);
                }
                let a = (lat, a.1.clamp(-170 * DEG, 170 * DEG));
                let b = (lat + d.0, a.1 + d.1);
                let (q, rest, below, w) = bear::<T>(a, b)?;
                // magnifies the flat map's heading, which is small, for the comparison
                let k = (1i64 << 22) / (d.0.abs() + d.1.abs());
                head("nearbear", q, rest, below) + &format!(",\"fine\":{},\"a\":{},\"b\":{},\"k\":{k}}}", fine(w - q as f64 * FRAC_PI_2), show(a), show(b))
            }
            6 => {
                let u = r.range(DEG, 80 * DEG);
                let (p, b, want) = match r.below(4) {
                    0 => ((a.0.min(0), a.1), (a.0.min(0) + u, a.1), 0),
                    1 => ((0, a.1), (0, a.1 + u), 1),
                    2 => ((a.0.max(0), a.1), (a.0.max(0) - u, a.1), 2),
                    _ => ((0, a.1), (0, a.1 - u), 3),
                };
                let (q, rest, below, w) = bear::<T>(p, b)?;
                let d = (w - want as f64 * FRAC_PI_2).abs();
                let d = d.min(TAU - d);
                let dev = int(d * if T::NAME == "f32" { 1e6 } else { 1e12 });
                head("cardinal", q, rest, below) + &format!(",\"a\":{},\"b\":{},\"want\":{want},\"dev\":{dev}}}", show(p), show(b))
            }
            _ => {
                let lat = r.range(-80 * DEG, 80 * DEG);
                let d = r.range(5 * DEG, 170 * DEG);
                let p = (r.range(-80 * DEG, 80 * DEG), r.range(-180 * DEG, 180 * DEG));
                let ((q1, r1, _, _), (q2, r2, _, _)) = (bear::<T>(p, (lat, p.1 + d))?, bear::<T>(p, (lat, p.1 - d))?);
                // not near the antipode
                if (lat + p.0).abs() < 10 * DEG && d > 165 * DEG {
                    return Ok(bear_event::<T>(p, (lat, p.1 + d)));
                }
                format!(
                    "{{\"op\":\"mirror\",\"prec\":\"{}\",\"a\":{},\"lat\":{lat},\"d\":{d},\"q1\":{q1},\"r1\":{r1},\"q2\":{q2},\"r2\":{r2}}}",
                    T::NAME,
                    show(p)
                )
            }
        })
    };
    vec![one(r).unwrap_or_else(|e| e)]
}

fn main() {
    let a = Args::parse();
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 20), move || {
        let mut sink = Sink::new(&out);
        let focus = a.get("focus").to_string();
        let mut r = Rng::new(a.seed(), &focus);
        let mut ev: Vec<String> = Vec::new();
        let mut flush = |ev: &mut Vec<String>, at: usize| {
            if ev.len() >= at && !ev.is_empty() {
                sink.line(&format!("{{\"ev\":[{}]}}", ev.join(",")));
                ev.clear();
            }
        };
        if !a.get("scripts").is_empty() {
            for line in std::fs::read_to_string(a.get("scripts")).unwrap().lines() {
                let p: Vec<Pos> = J::parse(line).get("path").points().iter().map(|v| (v[0], v[1])).collect();
                let radius = *r.pick(&RADII);
                for w in p.windows(2) {
                    let single = r.chance(1, 2);
                    ev.push(match (focus.as_str(), single) {
                        ("G01", true) => dist_event::<f32>(w[0], w[1], radius),
                        ("G01", false) => dist_event::<f64>(w[0], w[1], radius),
                        (_, true) => bear_event::<f32>(w[0], w[1]),
                        (_, false) => bear_event::<f64>(w[0], w[1]),
                    });
                }
                flush(&mut ev, 20);
            }
            flush(&mut ev, 1);
        }
        for _ in 0..a.num("random", 0) {
            let single = r.chance(1, 2);
            ev.extend(match (focus.as_str(), single) {
                ("G01", true) => g01::<f32>(&mut r),
                ("G01", false) => g01::<f64>(&mut r),
                (_, true) => g02::<f32>(&mut r),
                (_, false) => g02::<f64>(&mut r),
            });
            flush(&mut ev, 15);
        }
        flush(&mut ev, 1);
    });
}
