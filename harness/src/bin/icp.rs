//! Registration: requests, iterations, whole runs, the alignment step, configuration builders.
//!
//! Cloud coordinates are integers (fixed-point units); the unit is 2^exp.

use harness::*;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::{icp, icp_iteration, ICPConfiguration, ICPConfigurationBuilder, ICPError};
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{Isometry, Point, Rotation2, Rotation3, SMatrix, SVector, UnitComplex, UnitQuaternion, Vector3};

const BIG: i64 = OFF;

trait Num: Copy {
    const EPS: Self;
    fn of(v: f64) -> Self;
    fn wide(self) -> f64;
    fn order(self) -> i64;
    fn above(self) -> Self;
}
macro_rules! num {
    ($t:ident, $i:ty) => {
        impl Num for $t {
            const EPS: $t = $t::EPSILON;
            fn of(v: f64) -> $t {
                v as $t
            }
            fn wide(self) -> f64 {
                self as f64
            }
            /// Integers in the order of the numbers, both zeros equal.
            fn order(self) -> i64 {
                let b = self.to_bits() as $i;
                (if b < 0 { <$i>::MIN.wrapping_sub(b) } else { b }) as i64
            }
            fn above(self) -> $t {
                if self == 0.0 {
                    return $t::from_bits(1);
                }
                let b = self.to_bits();
                $t::from_bits(if self > 0.0 { b + 1 } else { b - 1 })
            }
        }
    };
}
num!(f32, i32);
num!(f64, i64);

/// A number as limbs that compare like it.
fn code<T: Num>(v: T) -> String {
    let b = v.order();
    format!("[{},{},{}]", b >> 48, (b >> 24) & 0xff_ffff, b & 0xff_ffff)
}
fn fx(v: f64, exp: i32) -> i64 {
    let w = v * 2f64.powi(-exp);
    if w.is_nan() || w.abs() >= BIG as f64 {
        BIG
    } else {
        w.round() as i64
    }
}
fn fine(v: f64) -> i64 {
    fx(v, -22)
}
/// A squared length as two limbs.
fn square(v: f64, exp: i32) -> String {
    let w = v * 2f64.powi(-2 * exp);
    if w.is_nan() || w.abs() >= 2f64.powi(54) {
        return format!("[{},0]", 1 << 30);
    }
    let i = w.round() as i64;
    format!("[{},{}]", i >> 24, i & 0xff_ffff)
}
fn fail(p: &str, m: &str, ctx: &str) -> String {
    format!("{{\"op\":\"fail\",\"p\":\"{p}\",\"what\":\"{m}\",\"of\":\"{}\"}}", ctx.chars().filter(|c| *c != '"').take(1500).collect::<String>())
}

/// Clouds of `d` dimensions with coordinates within `reach`, multiples of `step`.
fn cloud(r: &mut Rng, d: usize, n: usize, reach: i64, kind: usize) -> Vec<Vec<i64>> {
    let step = (reach / 64).max(1);
    let g = |r: &mut Rng| -> Vec<i64> { (0..d).map(|_| r.range(-64, 64) * step + if reach >= 1 << 14 { r.range(-99, 99) } else { 0 }).collect() };
    let mut v: Vec<Vec<i64>> = (0..n).map(|_| g(r)).collect();
    match kind {
        1 => {
            // a plane
            let (x, c) = (r.below(d), r.range(-64, 64) * step);
            v.iter_mut().for_each(|p| p[x] = c);
        }
        2 => {
            // a line
            let (o, u) = (g(r), (0..d).map(|_| r.range(-8, 8)).collect::<Vec<_>>());
            v.iter_mut().for_each(|p| {
                let k = r.range(-4, 4) * step;
                *p = (0..d).map(|i| o[i] / 4 + k * u[i] / 4).collect()
            });
        }
        3 => v.iter_mut().for_each(|p| p.iter_mut().for_each(|x| *x = x.signum() * reach / 2)),
        4 => {
            let o = g(r);
            v.iter_mut().for_each(|p| *p = o.clone());
        }
        5 => {
            // a lattice: many equal distances
            v.iter_mut().for_each(|p| p.iter_mut().for_each(|x| *x = r.range(-3, 3) * reach / 4));
        }
        _ => {}
    }
    if n > 1 && r.chance(1, 6) {
        let (i, j) = (r.below(n), r.below(n));
        v[i] = v[j].clone();
    }
    v
}
fn any_kind(r: &mut Rng) -> usize {
    if r.chance(1, 2) {
        0
    } else {
        r.below(6)
    }
}
fn centre(a: &[Vec<i64>]) -> Vec<i64> {
    (0..a[0].len()).map(|c| a.iter().map(|p| p[c]).sum::<i64>() / a.len() as i64).collect()
}
fn spread(a: &[Vec<i64>]) -> i64 {
    let m = centre(a);
    a.iter().map(|p| p.iter().zip(&m).map(|(x, y)| (x - y).abs()).sum::<i64>()).max().unwrap_or(0)
}

/// Pairs of targets for some of the points, whose distances from them are almost but not quite the same.
fn rivals(r: &mut Rng, a: &[Vec<i64>], reach: i64) -> Vec<Vec<i64>> {
    let mut out = vec![];
    let some = 1 + r.below(4.min(a.len()));
    for p in a.iter().take(some) {
        let size = (reach >> r.range(0, 6)).max(4);
        let u: Vec<i64> = p.iter().map(|_| r.range(-size, size)).collect();
        let want: i64 = u.iter().map(|x| x * x).sum();
        let mut best = (i64::MAX, u.clone());
        for _ in 0..300 {
            let mut v: Vec<i64> = p.iter().map(|_| r.range(-size, size)).collect();
            let k = r.below(v.len());
            let rest = want - v.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, x)| x * x).sum::<i64>();
            if rest < 0 {
                continue;
            }
            v[k] = (rest as f64).sqrt() as i64 + r.range(0, 1);
            let off = (v.iter().map(|x| x * x).sum::<i64>() - want).abs();
            if off > 0 && off < best.0 {
                best = (off, v);
            }
        }
        for v in [u, best.1] {
            out.push(p.iter().zip(&v).map(|(x, y)| (x + y).clamp(-2 * reach, 2 * reach)).collect());
        }
    }
    r.shuffle(&mut out);
    out
}

/// Points along a closed curve and a turned, coarser copy: a registration of many small steps.
fn crawl(r: &mut Rng, d: usize) -> (Vec<Vec<i64>>, Vec<Vec<i64>>) {
    let ratio = *r.pick(&[1.1, 1.3, 2.0, 4.0]);
    let angle = 0.2 + 0.3 * r.unit();
    let lift = r.range(0, 1500) as f64;
    let at = |i: usize, of: usize| -> [f64; 3] {
        let t = i as f64 / of as f64 * std::f64::consts::TAU;
        [4000.0 * ratio * t.cos(), 4000.0 * t.sin(), lift * (2.0 * t).sin()]
    };
    let (s, c) = angle.sin_cos();
    let (n, m) = (16 + r.below(25), 60 + r.below(80));
    let cut = |v: [f64; 3]| -> Vec<i64> { v.iter().take(d).map(|x| x.round() as i64).collect() };
    let b = (0..m).map(|i| cut(at(i, m))).collect();
    let a = (0..n)
        .map(|i| {
            let [x, y, z] = at(i, n);
            cut([c * x - s * y + 120.0, s * x + c * y + 80.0, z])
        })
        .collect();
    (a, b)
}

/// A rotation matrix about a random or lattice axis.
fn turn(r: &mut Rng, d: usize, angle: f64) -> Vec<Vec<f64>> {
    if d == 2 {
        let (s, c) = angle.sin_cos();
        return vec![vec![c, -s], vec![s, c]];
    }
    let ax = match r.below(4) {
        0 => Vector3::new(1.0, 0.0, 0.0),
        1 => Vector3::new(0.0, 1.0, 0.0),
        2 => Vector3::new(0.0, 0.0, 1.0),
        _ => Vector3::new(r.unit() - 0.5, r.unit() - 0.5, r.unit() - 0.5).normalize(),
    };
    let m = Rotation3::new(ax * angle);
    (0..3).map(|i| (0..3).map(|j| m[(i, j)]).collect()).collect()
}
fn apply(m: &[Vec<f64>], p: &[f64]) -> Vec<f64> {
    m.iter().map(|row| row.iter().zip(p).map(|(a, b)| a * b).sum()).collect()
}

macro_rules! dim {
    ($m:ident, $t:ident, $n:literal, $rot:ident, $mat:ident) => {
        mod $m {
            use super::*;
            type T = $t;
            const NAME: &str = stringify!($t);
            type P = Point<T, $n>;
            type Iso = Isometry<T, $rot<T>, $n>;
            type Outcome = Result<(usize, T, Iso), &'static str>;

            fn pt(v: &[i64], exp: i32) -> P {
                P::from(SVector::<T, $n>::from_fn(|i, _| T::of(v[i] as f64 * 2f64.powi(exp))))
            }
            fn pts(v: &[Vec<i64>], exp: i32) -> Vec<P> {
                v.iter().map(|p| pt(p, exp)).collect()
            }
            /// The first of each run of equal points; not a number if they are not equal.
            fn firsts(v: &[P], reps: &[i64]) -> Vec<P> {
                let mut at = 0;
                reps.iter()
                    .map(|k| {
                        let run = v.get(at..at + *k as usize).unwrap_or(&[]);
                        at += *k as usize;
                        match run.first() {
                            Some(p) if run.iter().all(|q| q == p) => *p,
                            _ => P::from(SVector::<T, $n>::repeat(T::NAN)),
                        }
                    })
                    .collect()
            }
            /// How often to repeat each of n points; in single precision sums over many points are too rough.
            fn weights(r: &mut Rng, n: usize, heavy: bool) -> Vec<i64> {
                loop {
                    let w = some_reps(r, n, heavy);
                    if NAME == "f64" || w.iter().sum::<i64>() < 700 {
                        return w;
                    }
                }
            }
            /// Two such lists, for clouds that a search without a tree still compares in good time.
            fn both(r: &mut Rng, n: usize, m: usize, heavy: bool, far: bool) -> (Vec<i64>, Vec<i64>) {
                loop {
                    let (a, b) = (weights(r, n, heavy), weights(r, m, far));
                    if a.iter().sum::<i64>() * b.iter().sum::<i64>() < 500_000 {
                        return (a, b);
                    }
                }
            }
            fn wide(p: &P) -> Vec<f64> {
                p.iter().map(|x| x.wide()).collect()
            }
            fn back(v: &[P], exp: i32) -> Vec<Vec<i64>> {
                v.iter().map(|p| p.iter().map(|x| fx(x.wide(), exp)).collect()).collect()
            }
            fn iso(m: &[Vec<f64>], t: &[f64]) -> Iso {
                let m = SMatrix::<T, $n, $n>::from_fn(|i, j| T::of(m[i][j]));
                let t = SVector::<T, $n>::from_fn(|i, _| T::of(t[i]));
                Isometry::from_parts(t.into(), $rot::from_rotation_matrix(&$mat::from_matrix_unchecked(m)))
            }
            fn rows(i: &Iso) -> Vec<Vec<i64>> {
                let m = i.rotation.to_rotation_matrix();
                (0..$n).map(|r| (0..$n).map(|c| fine(m[(r, c)].wide())).collect()).collect()
            }
            fn shift(i: &Iso, exp: i32) -> Vec<i64> {
                i.translation.vector.iter().map(|x| fx(x.wide(), exp)).collect()
            }
            /// Everything in a motion, exactly.
            fn exact(i: &Iso) -> String {
                let m = i.rotation.to_rotation_matrix();
                let all: Vec<String> = m.matrix().iter().chain(i.translation.vector.iter()).map(|x| code(*x)).collect();
                format!("[{}]", all.join(","))
            }
            fn flaw(e: &ICPError<T, $n>) -> &'static str {
                match e {
                    ICPError::SourcePointCloudEmpty => "SourceEmpty",
                    ICPError::TargetPointCloudEmpty => "TargetEmpty",
                    ICPError::NoNearestNeighbour => "NoNeighbour",
                    ICPError::IterationNumIsZero => "IterationsZero",
                    ICPError::MSEIntervalThreshold => "Interval",
                    ICPError::MSEAbsoluteThreshold => "Absolute",
                    ICPError::IterationDidNotConverge(_) => "Iteration",
                    ICPError::AlrogithmDidNotConverge => "exhausted",
                }
            }
            fn run(p: &str, a: &[P], b: &[P], c: ICPConfiguration<T>, ctx: &str) -> Result<Outcome, String> {
                call(ctx, || api::register(a, b, &c).unwrap_or_else(|| icp::<T, $n>(a, b, c)).map(|s| (s.iteration_num, s.mse, s.transform)).map_err(|e| flaw(&e))).map_err(|m| fail(p, &m, ctx))
            }
            fn verdict(o: &Outcome) -> &'static str {
                match o {
                    Ok(_) => "converged",
                    Err(e) => e,
                }
            }

            #[derive(Clone, Copy, Debug)]
            pub struct Conf {
                kd: bool,
                budget: usize,
                abs: Option<T>,
                int: T,
            }
            impl Conf {
                fn tiny(kd: bool, budget: usize) -> Conf {
                    Conf { kd, budget, abs: None, int: T::EPS * 2.0 }
                }
                fn build(&self) -> ICPConfiguration<T> {
                    ICPConfiguration::builder()
                        .with_kd_tree(self.kd)
                        .with_max_iterations(self.budget)
                        .with_absolute_mse_threshold(self.abs)
                        .with_mse_interval_threshold(self.int)
                        .build()
                }
                fn abs_code(&self) -> String {
                    self.abs.map(|x| format!("[{}]", code(x))).unwrap_or("[]".into())
                }
            }

            struct Step {
                ok: bool,
                err: T,
                gap: T,
                before: Vec<P>,
                motion: Iso,
                means: Option<(P, P)>,
                after: Vec<P>,
            }
            /// Single iterations by hand until one ends the registration or `count` are done.
            fn by_hand(p: &str, a: &[P], b: &[P], start: Iso, c: &Conf, count: usize, ctx: &str) -> Result<Vec<Step>, String> {
                let conf = c.build();
                let mut out = vec![];
                call(ctx, || {
                    let tree = if c.kd { Some(KDTree::from(b)) } else { None };
                    let mut motion = start;
                    let mut moved: Vec<P> = a.iter().map(|x| motion.transform_point(x)).collect();
                    let mut mse = T::MAX;
                    for _ in 0..count {
                        let before = moved.clone();
                        let prev = mse;
                        let r = icp_iteration::<T, $n>(a, &mut moved, b, tree.as_ref(), &mut motion, &mut mse, &conf);
                        let (ok, err, means) = match r {
                            Ok(e) => (true, e, None),
                            Err(ICPError::IterationDidNotConverge(m)) => (false, mse, Some(m)),
                            Err(_) => panic!("an iteration reports another error"),
                        };
                        out.push(Step { ok, err, gap: (prev - err).abs(), before, motion, means, after: moved.clone() });
                        if ok {
                            break;
                        }
                    }
                })
                .map_err(|m| fail(p, &m, ctx))?;
                Ok(out)
            }

            // ------------------------------------------------------------ I03, I04: iterations
            pub fn iterations(r: &mut Rng, p: &str) -> Vec<String> {
                let heavy = r.chance(1, 10);
                let close = !heavy && r.chance(1, 6);
                let reach = if heavy {
                    if NAME == "f32" { 1i64 << 12 } else { 1 << 14 }
                } else if close {
                    if NAME == "f32" { 1i64 << 10 } else { 1 << 18 }
                } else {
                    *r.pick(&[1i64 << 14, 1 << 17, 1 << 19])
                };
                let exp = r.range(-30, 4) as i32;
                let (n, m) = if heavy { (1 + r.below(6), 1 + r.below(6)) } else { (1 + r.below(14), 1 + r.below(14)) };
                let kind = any_kind(r);
                let a = cloud(r, $n, n, reach, kind);
                let b = if close {
                    rivals(r, &a, reach)
                } else if r.chance(1, 2) {
                    let kind = any_kind(r);
                    cloud(r, $n, m, reach, kind)
                } else {
                    // a moved, possibly mirrored, possibly disturbed copy
                    let m = match r.below(3) {
                        0 => turn(r, $n, 0.3),
                        1 => turn(r, $n, 3.0),
                        _ => turn(r, $n, std::f64::consts::PI),
                    };
                    let mirror = r.chance(1, 3);
                    let mut c: Vec<Vec<i64>> = a
                        .iter()
                        .map(|p| {
                            let mut q: Vec<f64> = p.iter().map(|x| *x as f64).collect();
                            if mirror {
                                q[0] = -q[0];
                            }
                            apply(&m, &q).iter().map(|x| ((x * 0.7) as i64).clamp(-reach, reach)).collect()
                        })
                        .collect();
                    if r.chance(1, 2) {
                        let i = r.below(c.len());
                        c[i][0] += reach / 3;
                    }
                    r.shuffle(&mut c);
                    c
                };
                let start = match if close { 0 } else { r.below(3) } {
                    0 => Iso::identity(),
                    1 => {
                        let m = turn(r, $n, 0.2);
                        iso(&m, &[0.1 * reach as f64 * 2f64.powi(exp); $n])
                    }
                    _ => {
                        let ang = r.unit() * 6.3;
                        let m = turn(r, $n, ang);
                        let t: Vec<f64> = (0..$n).map(|_| (r.unit() - 0.5) * reach as f64 * 2f64.powi(exp)).collect();
                        iso(&m, &t)
                    }
                };
                let kd = r.chance(1, 2);
                let far = heavy && r.chance(1, 2);
                let (wa, wb) = both(r, a.len(), b.len(), heavy, far);
                let (ta, tb) = (expand(&pts(&a, exp), &wa), expand(&pts(&b, exp), &wb));
                let ctx = format!("icp_iteration {} {}D kd {kd} unit 2^{exp} {a:?} times {wa:?} {b:?} times {wb:?} start {start:?}", NAME, $n);
                let count = 1 + r.below(4);
                let steps = match by_hand(p, &ta, &tb, start, &Conf::tiny(kd, 20), count, &ctx) {
                    Ok(s) => s,
                    Err(e) => return vec![e],
                };
                steps
                    .iter()
                    .enumerate()
                    .map(|(i, s)| {
                        let means = match &s.means {
                            Some((x, y)) => format!(",\"ma\":{},\"mb\":{}", arr(&back(&[*x], exp)[0]), arr(&back(&[*y], exp)[0])),
                            None => String::new(),
                        };
                        format!(
                            "{{\"op\":\"iter\",\"prec\":\"{}\",\"d\":{},\"kd\":{kd},\"exp\":{exp},\"mag\":{},\"exact\":{},\"a\":{},\"w\":{},\"b\":{},\"p\":{},\"x\":{},\"rot\":{},\"t\":{},\"ok\":{}{means},\"err\":{}}}",
                            NAME,
                            $n,
                            4 * reach,
                            close && i == 0,
                            arr2(&a),
                            arr(&wa),
                            arr2(&b),
                            arr2(&back(&firsts(&s.before, &wa), exp)),
                            arr2(&back(&firsts(&s.after, &wa), exp)),
                            arr2(&rows(&s.motion)),
                            arr(&shift(&s.motion, exp)),
                            s.ok,
                            square(s.err.wide(), exp)
                        )
                    })
                    .collect()
            }

            // ------------------------------------------------------------ I02: whole runs
            pub fn runs(r: &mut Rng, p: &str) -> Vec<String> {
                let reach = *r.pick(&[1i64 << 14, 1 << 17, 1 << 19]);
                let exp = r.range(-16, 0) as i32;
                let (n, m) = (1 + r.below(30), 1 + r.below(30));
                let (k1, k2) = (any_kind(r), any_kind(r));
                let slow = r.chance(1, 12);
                let (reach, (a, b)) = if slow {
                    (1i64 << 15, crawl(r, $n))
                } else {
                    (reach, (cloud(r, $n, n, reach, k1), cloud(r, $n, m, reach, k2)))
                };
                let (n, m) = (a.len(), b.len());
                let most = if slow { 150 } else { 30 };
                let heavy = !slow && r.chance(1, 15);
                let far = heavy && r.chance(1, 2);
                let (wa, wb) = both(r, n, m, heavy, far);
                let (ta, tb) = (expand(&pts(&a, exp), &wa), expand(&pts(&b, exp), &wb));
                let n = ta.len();
                let kd = r.chance(1, 2);
                let go = |r: &mut Rng| -> Result<String, String> {
                    let what = format!("icp {} {}D kd {kd} unit 2^{exp} {a:?} times {wa:?} {b:?} times {wb:?}", NAME, $n);
                    let first = by_hand(p, &ta, &tb, Iso::identity(), &Conf::tiny(kd, most), most, &what)?;
                    // thresholds at, just above and between the errors and gaps that occur
                    let at = |r: &mut Rng, v: T| -> T {
                        match r.below(4) {
                            0 => v,
                            1 => v.above(),
                            2 => v * 1.5,
                            _ => v * 0.75,
                        }
                    };
                    let usable = |v: T| v > T::EPS && v < 1e30;
                    let i = r.below(first.len());
                    let j = r.below(first.len());
                    let mut c = Conf::tiny(kd, 1 + r.below(first.len() + 3));
                    let whole = slow && r.chance(2, 3);
                    if whole {
                        c.budget = (first.len() + r.below(3)).saturating_sub(r.below(3)).max(1);
                    }
                    if !whole && r.chance(1, 2) {
                        let v = at(r, first[i].err);
                        if usable(v) {
                            c.abs = Some(v);
                        }
                    }
                    if whole {
                    } else if r.chance(2, 3) {
                        let v = at(r, first[j.max(1).min(first.len() - 1)].gap);
                        if usable(v) {
                            c.int = v;
                        }
                    } else if r.chance(1, 2) {
                        c.int = 0.01;
                    }
                    if !whole && r.chance(1, 3) {
                        c.budget = *r.pick(&[1, i + 1, i + 2, j + 1, j.max(1)]);
                    } else if first.last().unwrap().ok && r.chance(1, 3) {
                        // more than it takes
                        c.budget = *r.pick(&[first.len(), 255, 256, 300, 70_000, usize::MAX]).max(&first.len());
                    }
                    let ctx = format!("{what} {c:?}");
                    let steps = by_hand(p, &ta, &tb, Iso::identity(), &c, c.budget, &ctx)?;
                    let o = run(p, &ta, &tb, c.build(), &ctx)?;
                    let last = steps.last().unwrap();
                    let report = match &o {
                        Ok((k, e, m)) => format!("\"k\":{k},\"err\":{},\"motion\":{}", code(*e), exact(m)),
                        Err(_) => "\"k\":0".into(),
                    };
                    let st: Vec<String> = steps.iter().map(|s| format!("{{\"ok\":{},\"err\":{},\"gap\":{}}}", s.ok, code(s.err), code(s.gap))).collect();
                    let fixed: Vec<String> = steps.iter().map(|s| square(s.err.wide(), exp)).collect();
                    Ok(format!(
                        "{{\"op\":\"run\",\"prec\":\"{}\",\"d\":{},\"n\":{n},\"spread\":{},\"mag\":{},\"exp\":{exp},\"conf\":\"{c:?}\",\"budget\":{},\"abs\":{},\"int\":{},\"steps\":[{}],\"fixed\":[{}],\"verdict\":\"{}\",{report},\"byhand\":{},\"a\":\"{}\",\"b\":\"{}\"}}",
                        NAME,
                        $n,
                        spread(&a),
                        4 * reach,
                        c.budget.min(2_000_000_000),
                        c.abs_code(),
                        code(c.int),
                        st.join(","),
                        fixed.join(","),
                        verdict(&o),
                        exact(&last.motion),
                        arr2(&a),
                        arr2(&b)
                    ))
                };
                vec![go(r).unwrap_or_else(|e| e)]
            }

            // ------------------------------------------------------------ I05: recovery
            pub fn recover(r: &mut Rng, p: &str) -> Vec<String> {
                let reach = *r.pick(&[1i64 << 14, 1 << 17, 1 << 19]);
                let exp = if reach == 1 << 14 { -9 } else { -13 } - if r.chance(1, 2) { 0 } else if NAME == "f32" { r.range(0, 20) } else { r.range(0, 150) } as i32;
                let n = 1 + r.below(24);
                let kind = *r.pick(&[0, 0, 0, 1, 2, 5]);
                let a = cloud(r, $n, n, reach, kind);
                let mut angle = r.unit();
                let mut size = reach as f64 / 8.0;
                let axis = r.clone();
                let unit = 2f64.powi(exp);
                let dir: Vec<f64> = (0..$n).map(|_| r.unit() - 0.5).collect();
                let near = |x: &[f64], y: &[f64]| -> f64 { x.iter().zip(y).map(|(a, b)| (a - b) * (a - b)).sum() };
                let (mut image, mut motion) = (vec![], (vec![], vec![]));
                for _ in 0..12 {
                    let m = turn(&mut axis.clone(), $n, angle);
                    let c: Vec<f64> = centre(&a).iter().map(|x| *x as f64).collect();
                    let t: Vec<f64> = (0..$n).map(|i| c[i] - apply(&m, &c)[i] + dir[i] * size).collect();
                    image = a
                        .iter()
                        .map(|p| {
                            let q: Vec<f64> = p.iter().map(|x| *x as f64).collect();
                            apply(&m, &q).iter().zip(&t).map(|(x, y)| x + y).collect::<Vec<f64>>()
                        })
                        .collect();
                    motion = (m, t);
                    let good = a.iter().enumerate().all(|(i, p)| {
                        let q: Vec<f64> = p.iter().map(|x| *x as f64).collect();
                        (0..n).all(|j| a[j] == a[i] || near(&q, &image[j]) > near(&q, &image[i]))
                    });
                    if good {
                        break;
                    }
                    angle *= 0.5;
                    size *= 0.5;
                }
                let mut order: Vec<usize> = (0..n).collect();
                r.shuffle(&mut order);
                let heavy = NAME == "f64" && r.chance(1, 10);
                let far = heavy && r.chance(1, 2);
                let (wa, wb) = both(r, n, n, heavy, far);
                let ta = expand(&pts(&a, exp), &wa);
                let tb: Vec<P> = order.iter().map(|i| P::from(SVector::<T, $n>::from_fn(|c, _| T::of(image[*i][c] * unit)))).collect();
                let b = back(&tb, exp);
                let tb = expand(&tb, &wb);
                // where the image of each point is, the first of equal ones
                let at: Vec<usize> = (0..n).map(|i| b.iter().position(|q| *q == b[order.iter().position(|o| *o == i).unwrap()]).unwrap() + 1).collect();
                let mut c = Conf { kd: r.chance(1, 2), budget: 20, abs: None, int: 0.01 };
                match r.below(4) {
                    0 => c.budget = 2,
                    1 => c.abs = Some(0.01),
                    2 => c.int = 0.001,
                    _ => {}
                }
                let ctx = format!("icp {} {}D {c:?} unit 2^{exp} {a:?} times {wa:?} moved by {motion:?} in order {order:?} times {wb:?}", NAME, $n);
                let o = match run(p, &ta, &tb, c.build(), &ctx) {
                    Ok(o) => o,
                    Err(e) => return vec![e],
                };
                let (x, err) = match &o {
                    Ok((_, e, m)) => (back(&pts(&a, exp).iter().map(|q| m.transform_point(q)).collect::<Vec<_>>(), exp), e.wide()),
                    Err(_) => (vec![], 0.0),
                };
                vec![format!(
                    "{{\"op\":\"recover\",\"prec\":\"{}\",\"d\":{},\"n\":{},\"mag\":{},\"exp\":{exp},\"conf\":\"{c:?}\",\"a\":{},\"b\":{},\"image\":{},\"verdict\":\"{}\",\"x\":{},\"err\":{}}}",
                    NAME,
                    $n,
                    ta.len(),
                    2 * reach,
                    arr2(&a),
                    arr2(&b),
                    arr(&at),
                    verdict(&o),
                    arr2(&x),
                    square(err, exp)
                )]
            }

            // ------------------------------------------------------------ I06: with and without the tree
            pub fn tree(r: &mut Rng, p: &str) -> Vec<String> {
                let reach = *r.pick(&[1i64 << 14, 1 << 17, 1 << 19]);
                let exp = if r.chance(1, 2) { r.range(-16, 0) } else if NAME == "f32" { r.range(-34, 4) } else { r.range(-90, 20) } as i32;
                let (n, m) = (1 + r.below(16), 1 + r.below(24));
                let (k1, k2) = (any_kind(r), any_kind(r));
                // distances that are almost equal, in coordinates for which they are computed without rounding
                let close = r.chance(1, 4);
                let reach = if !close { reach } else if NAME == "f32" { 1i64 << 10 } else { 1 << 21 };
                let a = cloud(r, $n, n, reach, k1);
                let b = if close { rivals(r, &a, reach) } else { cloud(r, $n, m, reach, k2) };
                let heavy = !close && r.chance(1, 12);
                let (wa, wb) = both(r, a.len(), b.len(), heavy, heavy);
                let (ta, mut tb) = (expand(&pts(&a, exp), &wa), expand(&pts(&b, exp), &wb));
                let mut c = Conf::tiny(false, 1 + r.below(12));
                if r.chance(1, 2) {
                    c.int = 0.01;
                }
                if r.chance(1, 4) {
                    c.abs = Some(T::of(r.unit() * 10.0 + 0.01));
                }
                if close {
                    c = Conf { budget: 1, abs: Some(1e30), ..c };
                }
                let ctx = format!("icp {} {}D {c:?} unit 2^{exp} {a:?} times {wa:?} {b:?} times {wb:?}", NAME, $n);
                if !close && r.chance(1, 5) {
                    // targets that cannot be indexed
                    for _ in 0..1 + r.below(3) {
                        let i = r.below(tb.len());
                        tb[i][r.below($n)] = T::NAN;
                    }
                    return vec![match run(p, &ta, &tb, c.build(), &ctx) {
                        Ok(o) => format!("{{\"op\":\"nan\",\"prec\":\"{}\",\"verdict\":\"{}\"}}", NAME, verdict(&o)),
                        Err(e) => e,
                    }];
                }
                let go = || -> Result<String, String> {
                    let steps = by_hand(p, &ta, &tb, Iso::identity(), &c, c.budget, &ctx)?;
                    let show = |o: &Outcome| match o {
                        Ok((k, e, m)) => format!("[\"converged\",\"{k}\",\"{}\",\"{}\"]", code(*e), exact(m)),
                        Err(e) => format!("[\"{e}\"]"),
                    };
                    let off = run(p, &ta, &tb, c.build(), &ctx)?;
                    let on = run(p, &ta, &tb, Conf { kd: true, ..c }.build(), &ctx)?;
                    let ps: Vec<String> = steps.iter().map(|s| arr2(&back(&firsts(&s.before, &wa), exp))).collect();
                    Ok(format!(
                        "{{\"op\":\"tree\",\"prec\":\"{}\",\"d\":{},\"exact\":{close},\"mag\":{},\"exp\":{exp},\"conf\":\"{c:?}\",\"b\":{},\"ps\":[{}],\"off\":{},\"on\":{}}}",
                        NAME,
                        $n,
                        4 * reach,
                        arr2(&b),
                        ps.join(","),
                        show(&off),
                        show(&on)
                    ))
                };
                vec![go().unwrap_or_else(|e| e)]
            }

            /// Among all points of a large grid, in any order.
            pub fn dense(r: &mut Rng, p: &str) -> Vec<String> {
                let sides: Vec<i64> = match ($n, r.below(4)) {
                    (2, 0) => vec![r.range(200, 300), r.range(180, 240)],
                    (2, 1) => vec![r.range(1000, 4000), r.range(1, 4)],
                    (2, _) => vec![r.range(20, 120), r.range(20, 120)],
                    (_, 0) => vec![r.range(30, 42), r.range(30, 41), r.range(30, 40)],
                    (_, 1) => vec![r.range(1, 3), r.range(500, 2000), r.range(1, 3)],
                    _ => vec![r.range(8, 24), r.range(8, 24), r.range(8, 24)],
                };
                let gap = 1i64 << 9;
                let exp = r.range(-20, 2) as i32;
                let mut b: Vec<Vec<i64>> = vec![vec![]];
                for s in &sides {
                    b = b.into_iter().flat_map(|q| (0..*s).map(move |k| [q.clone(), vec![k * gap]].concat())).collect();
                }
                r.shuffle(&mut b);
                let by: Vec<i64> = sides.iter().map(|_| r.range(-gap / 5, gap / 5)).collect();
                let n = if r.chance(1, 3) { 1 } else { 1 + r.below(16) };
                let a: Vec<Vec<i64>> = (0..n)
                    .map(|_| sides.iter().zip(&by).map(|(s, x)| r.range(-1, *s) * gap + x + r.range(-gap / 10, gap / 10)).collect())
                    .collect();
                let (ta, tb) = (pts(&a, exp), pts(&b, exp));
                let c = Conf { kd: false, budget: 1 + r.below(4), abs: if r.chance(1, 4) { Some(1e30) } else { None }, int: if r.chance(1, 2) { 0.01 } else { T::EPS * 2.0 } };
                let ctx = format!("icp {} {}D {c:?} unit 2^{exp} {a:?} to a shuffled grid of {sides:?} points {gap} units apart", NAME, $n);
                let go = || -> Result<String, String> {
                    let steps = by_hand(p, &ta, &tb, Iso::identity(), &c, c.budget, &ctx)?;
                    let show = |o: &Outcome| match o {
                        Ok((k, e, m)) => format!("[\"converged\",\"{k}\",\"{}\",\"{}\"]", code(*e), exact(m)),
                        Err(e) => format!("[\"{e}\"]"),
                    };
                    let off = run(p, &ta, &tb, c.build(), &ctx)?;
                    let on = run(p, &ta, &tb, Conf { kd: true, ..c }.build(), &ctx)?;
                    let ps: Vec<String> = steps.iter().map(|s| arr2(&back(&s.before, exp))).collect();
                    let plain = steps.len() == 1 && n == 1 && by.iter().all(|x| x.abs() < gap / 8);
                    Ok(format!(
                        "{{\"op\":\"dense\",\"prec\":\"{}\",\"d\":{},\"exp\":{exp},\"conf\":\"{c:?}\",\"sides\":{},\"gap\":{gap},\"plain\":{plain},\"ps\":[{}],\"off\":{},\"on\":{}}}",
                        NAME,
                        $n,
                        arr(&sides),
                        ps.join(","),
                        show(&off),
                        show(&on)
                    ))
                };
                vec![go().unwrap_or_else(|e| e)]
            }

            // ------------------------------------------------------------ I07: the alignment step
            pub fn align(r: &mut Rng, p: &str) -> Vec<String> {
                let reach = *r.pick(&[1i64 << 14, 1 << 17, 1 << 19]);
                let exp = match r.below(3) {
                    0 => r.range(-40, 20) as i32,
                    _ if NAME == "f32" => r.range(-58, 36) as i32,
                    _ => r.range(-400, 400) as i32,
                };
                let unit = 2f64.powi(exp);
                let n = 1 + r.below(10);
                let kind = any_kind(r);
                let a = cloud(r, $n, n, reach, kind);
                let pi = std::f64::consts::PI;
                let old = match r.below(3) {
                    0 => Iso::identity(),
                    _ => {
                        let ang = *r.pick(&[0.0, 0.7, pi, -pi / 2.0, 2.5]);
                        let m = turn(r, $n, ang);
                        let t: Vec<f64> = (0..$n).map(|_| (r.unit() - 0.5) * reach as f64 * unit).collect();
                        iso(&m, &t)
                    }
                };
                let ta = pts(&a, exp);
                let tp: Vec<P> = ta.iter().map(|x| old.transform_point(x)).collect();
                // what the points are paired with
                let ang = match r.below(4) {
                    0 => *r.pick(&[pi, -pi, pi / 2.0, -pi / 2.0, 0.0]),
                    1 => pi + (r.unit() - 0.5) * 1e-5,
                    _ => (r.unit() - 0.5) * 6.4,
                };
                let m = turn(r, $n, ang);
                let t: Vec<f64> = (0..$n).map(|_| (r.unit() - 0.5) * reach as f64 * unit).collect();
                let (mirror, noise) = (r.chance(1, 3), if r.chance(1, 2) { 0.0 } else { reach as f64 * unit / 2.0 });
                let tc: Vec<P> = tp
                    .iter()
                    .map(|q| {
                        let mut w = wide(q);
                        if mirror {
                            w[0] = -w[0];
                        }
                        let v = apply(&m, &w);
                        P::from(SVector::<T, $n>::from_fn(|i, _| T::of((v[i] + t[i] + noise * (r.unit() - 0.5)) * 0.9)))
                    })
                    .collect();
                let mean = |v: &[P]| -> P {
                    P::from(SVector::<T, $n>::from_fn(|i, _| T::of(v.iter().map(|q| q[i].wide()).sum::<f64>() / v.len() as f64)))
                };
                let (ma, mb) = (mean(&tp), mean(&tc));
                let cov = tp.iter().zip(&tc).fold(SMatrix::<T, $n, $n>::zeros(), |h, (x, y)| h + (y - mb) * (x - ma).transpose());
                let ctx = format!("update_transform {} {}D {old:?} {ma:?} {mb:?} {cov:?}", NAME, $n);
                let new = match call(&ctx, || <IsometryAbstractor<T, $n> as AbstractIsometry<T, $n>>::update_transform(&old, ma, mb, &cov)) {
                    Ok(n) => n,
                    Err(m) => return vec![fail(p, &m, &ctx)],
                };
                let x: Vec<P> = ta.iter().map(|q| new.transform_point(q)).collect();
                vec![format!(
                    "{{\"op\":\"align\",\"prec\":\"{}\",\"d\":{},\"mag\":{},\"exp\":{exp},\"mirror\":{mirror},\"a\":{},\"c\":{},\"x\":{},\"rot\":{},\"t\":{}}}",
                    NAME,
                    $n,
                    4 * reach,
                    arr2(&a),
                    arr2(&back(&tc, exp)),
                    arr2(&back(&x, exp)),
                    arr2(&rows(&new)),
                    arr(&shift(&new, exp))
                )]
            }

            // ------------------------------------------------------------ I09: any clouds at all
            pub fn any(r: &mut Rng, p: &str) -> Vec<String> {
                let odd = [T::NAN, T::INFINITY, -T::INFINITY, T::MAX, -T::MAX, 1e30, 0.0, -0.0, T::MIN_POSITIVE, 1.0];
                let num = |r: &mut Rng| match r.below(8) {
                    0 => *r.pick(&odd),
                    1 => T::of((r.unit() - 0.5) * 1e25),
                    2 => r.range(-3, 3) as T,
                    _ => T::of((r.unit() - 0.5) * 20.0),
                };
                let (n, m) = (1 + r.below(8), 1 + r.below(8));
                let calm = r.chance(1, 2);
                let plain = |r: &mut Rng| r.range(-3, 3) as T;
                let a: Vec<P> = (0..n).map(|_| P::from(SVector::<T, $n>::from_fn(|_, _| if calm { plain(r) } else { num(r) }))).collect();
                let mut b: Vec<P> = (0..m).map(|_| P::from(SVector::<T, $n>::from_fn(|_, _| if calm { plain(r) } else { num(r) }))).collect();
                let kd = r.chance(1, 2);
                if kd {
                    // targets that can be indexed
                    b.iter_mut().for_each(|q| q.iter_mut().for_each(|x| if x.is_nan() { *x = 2.0 }));
                }
                let c = Conf { kd, budget: 1 + r.below(25), abs: if r.chance(1, 3) { Some(0.5) } else { None }, int: if r.chance(1, 2) { T::EPS * 2.0 } else { 0.01 } };
                let ctx = format!("icp {} {}D {c:?} {a:?} {b:?}", NAME, $n);
                vec![match run(p, &a, &b, c.build(), &ctx) {
                    Ok(o) => format!("{{\"op\":\"any\",\"prec\":\"{}\",\"verdict\":\"{}\",\"of\":\"{ctx}\"}}", NAME, verdict(&o)),
                    Err(e) => e,
                }]
            }

            // ------------------------------------------------------------ I01: requests
            pub fn request(r: &mut Rng, p: &str, na: usize, nb: usize, iters: usize, int: i64, abs: Option<i64>) -> String {
                let eps = T::EPS;
                let of = |r: &mut Rng, c: i64| -> T {
                    match c {
                        0 => *r.pick(&[T::NAN, -T::NAN]),
                        1 => -T::INFINITY,
                        2 => *r.pick(&[-1.0, -T::EPS, -1e-40 as T, -T::MAX]),
                        3 => *r.pick(&[-0.0, 0.0]),
                        4 => *r.pick(&[T::from_bits(1), T::MIN_POSITIVE, eps / 2.0]),
                        5 => T::from_bits(eps.to_bits() - 1),
                        6 => eps,
                        7 => eps.above(),
                        8 => *r.pick(&[0.01, 1.0, 1000.0]),
                        _ => T::INFINITY,
                    }
                };
                let int = of(r, int);
                let abs = abs.map(|c| of(r, c));
                let c = Conf { kd: r.chance(1, 2), budget: iters, abs, int };
                let kind = any_kind(r);
                let (a, b) = (pts(&cloud(r, $n, na, 1 << 14, kind), -8), pts(&cloud(r, $n, nb, 1 << 14, 0), -8));
                let ctx = format!("icp {} {}D {c:?} {a:?} {b:?}", NAME, $n);
                let show = |v: T| format!("{{\"nan\":{},\"code\":{}}}", v.is_nan(), if v.is_nan() { code(0.0 as T) } else { code(v) });
                match run(p, &a, &b, c.build(), &ctx) {
                    Err(e) => e,
                    Ok(o) => format!(
                        "{{\"op\":\"req\",\"prec\":\"{}\",\"d\":{},\"conf\":\"{c:?}\",\"na\":{na},\"nb\":{nb},\"iters\":{iters},\"int\":{},\"abs\":{},\"eps\":{},\"verdict\":\"{}\"}}",
                        NAME,
                        $n,
                        show(int),
                        abs.map(|v| format!("[{}]", show(v))).unwrap_or("[]".into()),
                        code(eps),
                        verdict(&o)
                    ),
                }
            }

            // ------------------------------------------------------------ behaviours of the model
            pub fn model(r: &mut Rng, p: &str, j: &J) -> String {
                let (a, b) = (j.get("a").points(), j.get("b").points());
                let exp = r.range(-5, 3) as i32;
                let unit = 2f64.powi(exp);
                let half = |k: &str| j.get(k).int() as f64 / 2.0 * unit * unit;
                let abs = half("abs");
                let c = Conf {
                    kd: r.chance(1, 2),
                    budget: j.get("budget").int() as usize,
                    abs: if abs > 0.0 { Some(T::of(abs)) } else { None },
                    int: T::of(half("int")),
                };
                let off: Vec<i64> = (0..$n).map(|_| if NAME == "f32" { r.range(-50, 50) } else { r.range(-5000, 5000) }).collect();
                let lift = |v: &[Vec<i64>]| -> Vec<P> {
                    v.iter().map(|q| P::from(SVector::<T, $n>::from_fn(|i, _| T::of((q[i] + off[i]) as f64 * unit)))).collect()
                };
                let (ta, tb) = (lift(&a), lift(&b));
                let ctx = format!("icp {} {}D {c:?} unit 2^{exp} offset {off:?} {a:?} {b:?}", NAME, $n);
                let images = |m: &Iso| -> Vec<Vec<i64>> {
                    ta.iter()
                        .map(|q| {
                            let w = m.transform_point(q);
                            (0..$n).map(|i| fx((w[i].wide() - off[i] as f64 * unit) * 64.0, exp)).collect()
                        })
                        .collect()
                };
                let go = || -> Result<String, String> {
                    let steps = by_hand(p, &ta, &tb, Iso::identity(), &c, c.budget, &ctx)?;
                    let o = run(p, &ta, &tb, c.build(), &ctx)?;
                    let scaled = |e: T| {
                        let w = e.wide() / unit / unit * 16.0;
                        if w.abs() < 1e9 {
                            w.round() as i64
                        } else {
                            BIG * 20
                        }
                    };
                    let (k, fin, err) = match &o {
                        Ok((k, e, m)) => (*k, images(m), scaled(*e)),
                        Err(_) => (0, vec![], 0),
                    };
                    Ok(format!(
                        "{{\"op\":\"model\",\"prec\":\"{}\",\"d\":{},\"tree\":{},\"conf\":\"{c:?}\",\"a\":{},\"b\":{},\"want\":{{\"verdict\":\"{}\",\"k\":{},\"errs\":{},\"final\":{}}},\"verdict\":\"{}\",\"k\":{k},\"err\":{err},\"errs\":{},\"byhand\":{},\"final\":{}}}",
                        NAME,
                        $n,
                        c.kd,
                        arr2(&a),
                        arr2(&b),
                        j.get("verdict").str(),
                        j.get("k").int(),
                        arr(&j.get("errs").ints()),
                        arr2(&j.get("final").points()),
                        verdict(&o),
                        arr(steps.iter().map(|s| scaled(s.err))),
                        arr2(&images(&steps.last().unwrap().motion)),
                        arr2(&fin)
                    ))
                };
                go().unwrap_or_else(|e| e)
            }

            // ------------------------------------------------------------ I08: configuration builders
            pub fn builder(r: &mut Rng, p: &str, ops: &J) -> String {
                // a world with many different iterations, the same for every session of this type
                let mut w = Rng::new(7, "builder world");
                let ctx = format!("ICPConfiguration builder {} {}D", NAME, $n);
                let mut go = |_: &mut Rng| -> Result<String, String> {
                    static WORLD: std::sync::OnceLock<(Vec<P>, Vec<P>)> = std::sync::OnceLock::new();
                    let live = |a: &[P], b: &[P]| by_hand(p, a, b, Iso::identity(), &Conf::tiny(false, 60), 60, &ctx);
                    if WORLD.get().is_none() {
                        let (mut best, mut most) = ((vec![], vec![]), 0);
                        for _ in 0..60 {
                            // rough lines, one far along the other
                            let mut line = |n: i64, by: i64| -> Vec<P> {
                                let v: Vec<Vec<i64>> = (0..n).map(|i| (0..$n).map(|c| (if c == 0 { (i + by) * 2048 } else { 0 }) + w.range(-1500, 1500)).collect()).collect();
                                pts(&v, -7)
                            };
                            let (a, b) = (line(30, 0), line(30, 21));
                            let lively = 1 + live(&a, &b)?.iter().take_while(|x| x.gap > 0.05).count();
                            if lively > most {
                                (best, most) = ((a, b), lively);
                            }
                            if lively > 25 {
                                break;
                            }
                        }
                        let _ = WORLD.set(best);
                    }
                    let (ta, tb) = WORLD.get().unwrap();
                    let base = live(ta, tb)?;
                    let len = base.len();
                    // option values: numbers 1.. of the script
                    let budgets = [1, 2, 3, 5, 9, 25, 300, 70_000, (1 << 32) + 2, usize::MAX];
                    let e = |i: usize| base[i.min(len - 1)].err * 1.0001;
                    let g = |i: usize| base[i.min(len - 1)].gap.max(0.01 / i as T) * 1.0001;
                    let absolutes = [e(0), e(1), e(3), e(6)];
                    let intervals = [g(1), g(2), g(4), g(7)];
                    let mut nan = tb.clone();
                    nan[3][0] = T::NAN;
                    let mut builders: Vec<ICPConfigurationBuilder<T>> = vec![];
                    let mut configs: Vec<ICPConfiguration<T>> = vec![];
                    let mut show: Vec<String> = vec![];
                    for op in ops.arr() {
                        let from = op.get("of").int() as usize;
                        let v = op.get("v").int();
                        let kind = op.get("kind").str();
                        let mut value = "[]".to_string();
                        call(&ctx, || match kind {
                            "new" => builders.push(ICPConfiguration::builder()),
                            "kd" => builders.push(builders[from - 1].with_kd_tree(v == 1)),
                            "budget" => {
                                value = format!("[{}]", budgets[v as usize - 1].min(2_000_000_000));
                                builders.push(builders[from - 1].with_max_iterations(budgets[v as usize - 1]))
                            }
                            "abs" => {
                                let x = if v == 0 { None } else { Some(absolutes[v as usize - 1]) };
                                value = x.map(|x| format!("[{}]", code(x))).unwrap_or("[]".into());
                                builders.push(builders[from - 1].with_absolute_mse_threshold(x))
                            }
                            "int" => {
                                value = code(intervals[v as usize - 1]);
                                builders.push(builders[from - 1].with_mse_interval_threshold(intervals[v as usize - 1]))
                            }
                            "copy" => builders.push(builders[from - 1].clone()),
                            _ => configs.push(builders[from - 1].build()),
                        })
                        .map_err(|m| fail(p, &m, &ctx))?;
                        show.push(format!("{{\"kind\":\"{kind}\",\"of\":{from},\"v\":{v},\"value\":{value}}}"));
                    }
                    let mut seen: Vec<String> = vec![];
                    let informative = format!("{:?}", ICPConfiguration::<T>::builder().with_max_iterations(3).build())
                        != format!("{:?}", ICPConfiguration::<T>::builder().with_max_iterations(7).build());
                    let mut observe = |c: &ICPConfiguration<T>| -> Result<String, String> {
                        let o = run(p, ta, tb, c.clone(), &ctx)?;
                        // with NaN targets: may only be refused when they are indexed
                        let n = call(&ctx, || api::register::<T, $rot<T>, $n>(ta, &nan, c).unwrap_or_else(|| icp::<T, $n>(ta, &nan, c.clone())).is_ok());
                        let d = format!("{c:?}");
                        let id = seen.iter().position(|s| *s == d).unwrap_or_else(|| {
                            seen.push(d);
                            seen.len() - 1
                        });
                        let (k, err) = match &o {
                            Ok((k, e, _)) => (*k, code(*e)),
                            Err(_) => (0, "[]".into()),
                        };
                        Ok(format!("{{\"verdict\":\"{}\",\"k\":{k},\"err\":{err},\"nan\":{},\"text\":{id}}}", verdict(&o), n.is_ok()))
                    };
                    let by: Vec<String> = builders.iter().map(|b| observe(&b.build())).collect::<Result<_, _>>()?;
                    let cs: Vec<String> = configs.iter().map(|c| observe(c)).collect::<Result<_, _>>()?;
                    let st: Vec<String> = base.iter().map(|s| format!("{{\"err\":{},\"gap\":{}}}", code(s.err), code(s.gap))).collect();
                    Ok(format!(
                        "{{\"op\":\"builder\",\"prec\":\"{}\",\"d\":{},\"steps\":[{}],\"default\":{},\"ops\":[{}],\"informative\":{informative},\"builders\":[{}],\"configs\":[{}]}}",
                        NAME,
                        $n,
                        st.join(","),
                        code(T::of(0.01f32 as f64)),
                        show.join(","),
                        by.join(","),
                        cs.join(",")
                    ))
                };
                go(r).unwrap_or_else(|e| e)
            }
        }
    };
}
dim!(s2, f32, 2, UnitComplex, Rotation2);
dim!(s3, f32, 3, UnitQuaternion, Rotation3);
dim!(d2, f64, 2, UnitComplex, Rotation2);
dim!(d3, f64, 3, UnitQuaternion, Rotation3);

macro_rules! each {
    ($r:expr, $f:ident ( $($a:expr),* )) => {{
        let which = $r.below(4);
        match which {
            0 => s2::$f($($a),*),
            1 => s3::$f($($a),*),
            2 => d2::$f($($a),*),
            _ => d3::$f($($a),*),
        }
    }};
}

fn main() {
    let a = Args::parse();
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 20), move || {
        let mut sink = Sink::new(&out);
        let focus = a.get("focus").to_string();
        let p = focus.as_str();
        let mut r = Rng::new(a.seed(), &focus);
        let mut ev: Vec<String> = Vec::new();
        let mut flush = |ev: &mut Vec<String>, at: usize| {
            if ev.len() >= at && !ev.is_empty() {
                sink.line(&format!("{{\"ev\":[{}]}}", ev.join(",")));
                ev.clear();
            }
        };
        if !a.get("scripts").is_empty() {
            for line in std::fs::read_to_string(a.get("scripts")).unwrap().lines() {
                let j = J::parse(line);
                if *j.get("ops") != J::Null {
                    ev.push(each!(r, builder(&mut r, p, j.get("ops"))));
                } else if *j.get("iters") != J::Null {
                    let (na, nb, it, int) = (j.get("na").int() as usize, j.get("nb").int() as usize, j.get("iters").int() as usize, j.get("int").int());
                    let abs = j.get("abs").ints().first().copied();
                    for k in 0..4 {
                        ev.push(match k {
                            0 => s2::request(&mut r, p, na, nb, it, int, abs),
                            1 => s3::request(&mut r, p, na, nb, it, int, abs),
                            2 => d2::request(&mut r, p, na, nb, it, int, abs),
                            _ => d3::request(&mut r, p, na, nb, it, int, abs),
                        });
                    }
                } else {
                    let d = j.get("a").points()[0].len();
                    ev.push(match (d, r.chance(1, 2)) {
                        (2, true) => s2::model(&mut r, p, &j),
                        (2, false) => d2::model(&mut r, p, &j),
                        (_, true) => s3::model(&mut r, p, &j),
                        (_, false) => d3::model(&mut r, p, &j),
                    });
                }
                flush(&mut ev, 10);
            }
            flush(&mut ev, 1);
        }
        for _ in 0..a.num("random", 0) {
            let e = match p {
                "I01" => {
                    let (na, nb, it, int) = (r.below(4), r.below(4), r.below(3), r.range(5, 9));
                    let abs = if r.chance(1, 2) { Some(r.range(5, 9)) } else { None };
                    vec![each!(r, request(&mut r, p, na, nb, it, int, abs))]
                }
                "I02" => each!(r, runs(&mut r, p)),
                "I03" => each!(r, iterations(&mut r, p)),
                "I04" => {
                    if r.chance(1, 3) {
                        each!(r, runs(&mut r, p))
                    } else {
                        each!(r, iterations(&mut r, p))
                    }
                }
                "I05" => each!(r, recover(&mut r, p)),
                "I06" => {
                    if r.chance(1, 60) {
                        each!(r, dense(&mut r, p))
                    } else {
                        each!(r, tree(&mut r, p))
                    }
                }
                "I07" => each!(r, align(&mut r, p)),
                "I09" => each!(r, any(&mut r, p)),
                _ => vec![],
            };
            ev.extend(e);
            flush(&mut ev, 4);
        }
        flush(&mut ev, 1);
    });
}
