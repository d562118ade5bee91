//! Sessions with `kd_tree::KDTree`: replays scripts from the specification and random histories.

use harness::embed::dist_embedding;
use harness::*;
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::{Point, Scalar};
use num_traits::{NumOps, Zero};

trait Coord: Lat + Default + NumOps + PartialOrd + Scalar + Zero {}
impl<T: Lat + Default + NumOps + PartialOrd + Scalar + Zero> Coord for T {}

fn pt<T: Coord, const N: usize>(p: &[i64], e: &Emb) -> Point<T, N> {
    Point::from(std::array::from_fn(|i| T::to(p[i], e)))
}
fn unpt<T: Coord, const N: usize>(p: &Point<T, N>, e: &Emb) -> Vec<i64> {
    p.coords.iter().map(|c| c.back(e)).collect()
}

#[derive(Clone, Debug)]
struct Edit {
    a: Vec<i64>,
    b: Vec<i64>,
    c: Vec<i64>,
    s: Vec<i64>,
}
impl Edit {
    fn apply(&self, p: &[i64]) -> Vec<i64> {
        (0..p.len())
            .map(|i| self.a[i] * p[i] + self.b[i] + if p[i] > self.c[i] { self.s[i] } else { 0 })
            .collect()
    }
}

#[derive(Clone, Debug)]
enum Op {
    New(usize),
    Build(usize, Vec<Vec<i64>>),
    Ins(usize, Vec<i64>),
    Near(usize, Vec<i64>),
    Trav(usize),
    Clone(usize, usize),
    Mut(usize, Edit),
    /// A tree of every point of a box in some order, with the corners inserted again, and queries around it.
    Grid(usize, Vec<i64>, u64, Vec<Vec<i64>>),
}

fn run<T: Coord, const N: usize>(ops: &[Op], e: &Emb) -> String {
    let mut trees: [KDTree<T, N>; 4] = std::array::from_fn(|_| KDTree::default());
    let mut ev: Vec<String> = Vec::new();
    let trav = |t: &KDTree<T, N>| {
        let mut seen = Vec::new();
        t.traverse_tree(|p| seen.push(unpt(p, e)));
        seen
    };
    for (i, op) in ops.iter().enumerate() {
        let ctx = format!("kd {} {} {} op {}: {:?} of {:?}", T::NAME, N, e.show(), i, op, short(ops));
        let (name, prop) = match op {
            Op::New(_) => ("new", "K02"),
            Op::Build(..) => ("build", "K02"),
            Op::Ins(..) => ("ins", "K02"),
            Op::Near(..) => ("near", "K01"),
            Op::Trav(_) => ("trav", "K02"),
            Op::Clone(..) => ("clone", "K03"),
            Op::Mut(..) => ("mut", "K03"),
            Op::Grid(..) => ("grid", "K01"),
        };
        let r = call(&ctx, || match op {
            Op::New(h) => {
                trees[*h] = KDTree::default();
                format!("\"h\":{h},\"n\":{},\"e\":{}", trees[*h].len(), trees[*h].is_empty())
            }
            Op::Build(h, pts) => {
                let v: Vec<Point<T, N>> = pts.iter().map(|p| pt(p, e)).collect();
                trees[*h] = KDTree::from(v.as_slice());
                format!("\"h\":{h},\"pts\":{},\"n\":{},\"e\":{}", arr2(pts), trees[*h].len(), trees[*h].is_empty())
            }
            Op::Ins(h, p) => {
                trees[*h].insert(pt(p, e));
                format!("\"h\":{h},\"p\":{},\"n\":{},\"e\":{}", arr(p), trees[*h].len(), trees[*h].is_empty())
            }
            Op::Near(h, q) => {
                let r: Vec<Vec<i64>> = trees[*h].nearest(&pt(q, e)).iter().map(|p| unpt(p, e)).collect();
                format!("\"h\":{h},\"q\":{},\"r\":{}", arr(q), arr2(&r))
            }
            Op::Trav(h) => {
                let seen = trav(&trees[*h]);
                format!("\"h\":{h},\"seen\":{},\"n\":{},\"e\":{}", arr2(&seen), trees[*h].len(), trees[*h].is_empty())
            }
            Op::Clone(h, g) => {
                trees[*g] = trees[*h].clone();
                let seen = trav(&trees[*g]);
                format!(
                    "\"h\":{h},\"g\":{g},\"seen\":{},\"n\":{},\"e\":{}",
                    arr2(&seen),
                    trees[*g].len(),
                    trees[*g].is_empty()
                )
            }
            Op::Mut(h, ed) => {
                // the other zero is written, where there are two
                let other = Emb { neg_zero: !e.neg_zero, ..*e };
                let (mut seen, mut left, mut kept) = (Vec::new(), Vec::new(), Vec::new());
                let text = |p: &Point<T, N>| format!("\"{:?}\"", p.coords.iter().collect::<Vec<_>>());
                trees[*h].traverse_tree_mut(|p| {
                    let old = unpt(p, e);
                    *p = pt(&ed.apply(&old), &other);
                    left.push(text(p));
                    seen.push(old);
                });
                trees[*h].traverse_tree(|p| kept.push(text(p)));
                format!(
                    "\"h\":{h},\"edit\":{{\"a\":{},\"b\":{},\"c\":{},\"s\":{}}},\"seen\":{},\"left\":{},\"kept\":{},\"n\":{},\"e\":{}",
                    arr(&ed.a),
                    arr(&ed.b),
                    arr(&ed.c),
                    arr(&ed.s),
                    arr2(&seen),
                    arr(left),
                    arr(kept),
                    trees[*h].len(),
                    trees[*h].is_empty()
                )
            }
            Op::Grid(h, side, seed, qs) => {
                let total: i64 = side.iter().product();
                let at = |k: i64| {
                    let mut k = k;
                    side.iter()
                        .map(|s| {
                            let c = k % s;
                            k /= s;
                            c
                        })
                        .collect::<Vec<i64>>()
                };
                let mut order: Vec<i64> = (0..total).collect();
                Rng(*seed).shuffle(&mut order);
                let half = total as usize / 2;
                let v: Vec<Point<T, N>> = order[..half].iter().map(|k| pt(&at(*k), e)).collect();
                let mut t = KDTree::from(v.as_slice());
                order[half..].iter().for_each(|k| t.insert(pt(&at(*k), e)));
                [0, total - 1, order[0], order[half]].iter().for_each(|k| t.insert(pt(&at(*k), e)));
                let (mut visits, mut seen) = (0, std::collections::HashSet::new());
                t.traverse_tree(|p| {
                    visits += 1;
                    seen.insert(unpt(p, e));
                });
                let rs: Vec<Vec<i64>> = qs.iter().map(|q| t.nearest(&pt(q, e)).map(|p| unpt(&p, e)).unwrap_or_default()).collect();
                let (n, distinct) = (t.len(), seen.len());
                trees[*h] = t;
                format!("\"h\":{h},\"side\":{},\"qs\":{},\"rs\":{},\"visits\":{visits},\"distinct\":{distinct},\"n\":{n}", arr(side), arr2(qs), arr2(&rs))
            }
        });
        match r {
            Ok(s) => ev.push(format!("{{\"op\":\"{name}\",{s}}}")),
            Err(m) => {
                ev.push(format!("{{\"op\":\"fail\",\"p\":\"{prop}\",\"in\":\"{name}\",\"what\":\"{m}\"}}"));
                break;
            }
        }
    }
    format!("{{\"ty\":\"{}\",\"d\":{},\"emb\":{},\"ev\":[{}]}}", T::NAME, N, e.show(), ev.join(","))
}

fn short(ops: &[Op]) -> String {
    let s = format!("{ops:?}");
    s.chars().take(2000).collect()
}

fn dispatch(ty: &str, d: usize, ops: &[Op], e: &Emb) -> String {
    macro_rules! go {
        ($($t:ty),*; $($n:literal),*) => { go!(@ [$($t),*] [$($n),*]) };
        (@ [$($t:ty),*] $ns:tt) => { match ty { $(stringify!($t) => go!(# $t, $ns),)* _ => unreachable!() } };
        (# $t:ty, [$($n:literal),*]) => { match d { $($n => run::<$t, $n>(ops, e),)* _ => unreachable!() } };
    }
    go!(f32, f64, i32, i64; 1, 2, 3, 4, 5, 6, 7, 9)
}

fn random_session(r: &mut Rng, focus: &str, size: usize) -> (usize, i64, Vec<Op>) {
    let d = *r.pick(&[1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6, 7, 9]);
    let reach = *r.pick(&[1, 1, 2, 4, 10, 100, 400]);
    let style = r.below(6);
    let step = r.range(1, 3);
    let mut count = 0i64;
    let mut gen = |r: &mut Rng| -> Vec<i64> {
        count += 1;
        let p: Vec<i64> = match style {
            0 => (0..d).map(|i| if i == 0 { (count * step) % (2 * reach + 1) - reach } else { r.range(-reach, reach) }).collect(),
            1 => (0..d).map(|i| if i == d - 1 { reach - (count % (2 * reach + 1)) } else { r.range(-1, 1) }).collect(),
            2 => {
                let c = r.range(-2, 2) * reach / 2;
                (0..d).map(|_| (c + r.range(-2, 2)).clamp(-reach, reach)).collect()
            }
            3 => {
                let v = r.range(-reach, reach);
                (0..d).map(|i| if r.chance(1, 4) { r.range(-reach, reach) } else if i % 2 == 0 { v } else { -v }).collect()
            }
            _ => (0..d).map(|_| r.range(-reach, reach)).collect(),
        };
        p
    };
    let mut ops = Vec::new();
    let mut known: Vec<Vec<i64>> = Vec::new();
    let muts = focus == "K03";
    let mut wild = [false; 4];
    let mut edits = 0;
    let near = |r: &mut Rng, known: &Vec<Vec<i64>>| -> Vec<i64> {
        if !known.is_empty() && r.chance(1, 2) {
            let k = known[r.below(known.len())].clone();
            k.iter().map(|x| (x + r.range(-1, 1)).clamp(-reach - 1, reach + 1)).collect()
        } else {
            (0..d).map(|_| r.range(-reach - 1, reach + 1)).collect()
        }
    };
    if size > 60 || r.chance(1, 3) {
        let n = if size > 60 { size } else { r.below(size + 1) };
        let pts: Vec<Vec<i64>> = (0..n).map(|_| gen(r)).collect();
        known.extend(pts.iter().cloned());
        ops.push(Op::Build(1, pts));
    } else if r.chance(1, 5) {
        ops.push(Op::New(1));
    }
    let steps = if size > 60 { 40 } else { 3 * size + 4 };
    for _ in 0..steps {
        let h = if muts || focus == "all" || r.chance(1, 6) { 1 + r.below(3) } else { 1 };
        match r.below(if muts { 14 } else { 11 }) {
            0..=3 if !wild[h] => {
                let p = if !known.is_empty() && r.chance(1, 4) { known[r.below(known.len())].clone() } else { gen(r) };
                known.push(p.clone());
                ops.push(Op::Ins(h, p));
            }
            4..=7 if !wild[h] => ops.push(Op::Near(h, near(r, &known))),
            8 => ops.push(Op::Trav(h)),
            9 if size <= 60 || r.chance(1, 8) => {
                let g = 1 + r.below(3);
                if g != h {
                    wild[g] = wild[h];
                    ops.push(Op::Clone(h, g));
                }
            }
            10 if size <= 60 && r.chance(1, 3) && !muts => {
                let n = r.below(size + 1);
                let pts: Vec<Vec<i64>> = (0..n).map(|_| gen(r)).collect();
                ops.push(Op::Build(h, pts));
            }
            11..=13 if edits < 3 && reach <= 100 => {
                edits += 1;
                let bad = r.chance(1, 4);
                let v = |r: &mut Rng, lo, hi| -> Vec<i64> { (0..d).map(|_| r.range(lo, hi)).collect() };
                let mut ed = if r.chance(1, 4) {
                    Edit { a: v(r, 1, 1), b: v(r, 0, 0), c: v(r, 0, 0), s: v(r, 0, 0) }
                } else {
                    Edit { a: v(r, 1, 2), b: v(r, -2, 2), c: v(r, -reach, reach), s: v(r, 0, 3) }
                };
                if bad {
                    let i = r.below(d);
                    ed.a[i] = r.range(-1, 0);
                    wild[h] = true;
                }
                ops.push(Op::Mut(h, ed));
                ops.push(Op::Trav(h));
            }
            _ => {}
        }
    }
    for h in 1..=3 {
        if h == 1 || size <= 60 {
            ops.push(Op::Trav(h));
        }
        if !wild[h] {
            for _ in 0..3 {
                ops.push(Op::Near(h, near(r, &known)));
            }
        }
    }
    // edits at most multiply by 2 and add 5, three times
    (d, if edits > 0 { reach * 8 + 80 } else { reach + 1 }, ops)
}

/// Points along a diagonal, in order: a tree nearly as deep as it is large; queries around it.
fn ridge(r: &mut Rng) -> (usize, i64, Vec<Op>) {
    let d = *r.pick(&[2, 3, 3, 5, 6]);
    let n = r.range(130, 420);
    let top = if d > 3 { 9000 } else { 12000 };
    let step = top / n;
    let slopes: Vec<i64> = (0..d).map(|_| r.range(1, step.max(1)) * if r.chance(1, 4) { -1 } else { 1 }).collect();
    let wide = r.range(0, 2);
    let at = |r: &mut Rng, i: i64, w: i64| -> Vec<i64> { slopes.iter().map(|s| (i * s + r.range(-w, w)).clamp(-top, top)).collect() };
    let pts: Vec<Vec<i64>> = (0..n).map(|i| { let w = wide * step; at(r, i, w) }).collect();
    let mut ops = vec![Op::Build(1, pts.clone())];
    for _ in 0..50 {
        let i = r.range(0, n - 1);
        let w = *r.pick(&[1, step, 10 * step, 40 * step]);
        ops.push(Op::Near(1, at(r, i, w)));
    }
    for _ in 0..6 {
        ops.push(Op::Ins(1, pts[r.below(pts.len())].clone()));
    }
    ops.push(Op::Trav(1));
    (d, top + 2, ops)
}

fn main() {
    let a = Args::parse();
    let out = a.get("out").to_string();
    start(&out.clone(), a.num("limit", 20), move || {
        let mut sink = Sink::new(&out);
        let seed = a.seed();
        let focus = a.get("focus").to_string();
        let mut r = Rng::new(seed, &focus);
        let types = ["f32", "f64", "i32", "i64"];

        // Scripts from the specification: insertions, then queries from everywhere, then every point again.
        if !a.get("scripts").is_empty() {
            for (i, line) in std::fs::read_to_string(a.get("scripts")).unwrap().lines().enumerate() {
                let j = J::parse(line);
                let d = j.get("d").int() as usize;
                let (lo, hi) = (j.get("lo").int(), j.get("hi").int());
                let ins = j.get("ins").points();
                let mut ops = Vec::new();
                if i % 2 == 0 {
                    ops.push(Op::Build(1, ins.clone()));
                } else {
                    ops.extend(ins.iter().map(|p| Op::Ins(1, p.clone())));
                }
                let mut q = vec![lo; d];
                loop {
                    ops.push(Op::Near(1, q.clone()));
                    let mut k = 0;
                    while k < d {
                        q[k] += 1;
                        if q[k] <= hi {
                            break;
                        }
                        q[k] = lo;
                        k += 1;
                    }
                    if k == d {
                        break;
                    }
                }
                ops.extend(ins.iter().map(|p| Op::Ins(1, p.clone())));
                ops.push(Op::Trav(1));
                let ty = types[(i / 2) % 4];
                let e = dist_embedding(&mut r, ty, hi + 1, d);
                sink.line(&dispatch(ty, d, &ops, &e));
            }
        }

        for i in 0..a.num("grids", 0) {
            let sides: [&[i64]; 4] = [&[70_000], &[300, 240], &[42, 41, 40], &[17, 16, 16, 16]];
            let side: Vec<i64> = if i < 4 { sides[i as usize].to_vec() } else { (0..1 + r.below(4)).map(|_| r.range(1, 12)).collect() };
            let d = side.len();
            let qs: Vec<Vec<i64>> = (0..60).map(|_| side.iter().map(|s| r.range(-3, s + 3)).collect()).collect();
            let reach = side.iter().max().unwrap() + 4;
            let ty = if reach > 500 { ["f64", "i64"][r.below(2)] } else { types[r.below(4)] };
            let e = if reach > 500 { Emb::ID } else { dist_embedding(&mut r, ty, reach, d) };
            sink.line(&dispatch(ty, d, &[Op::Grid(1, side, r.next(), qs)], &e));
        }

        for i in 0..a.num("random", 0) {
            let size = match i % 100 {
                0 if i > 0 => r.range(600, 1500) as usize,
                1..=4 => r.range(61, 300) as usize,
                5..=20 => r.range(13, 60) as usize,
                _ => r.range(0, 12) as usize,
            };
            let (d, reach, ops) = if i % 60 == 59 && focus != "K03" { ridge(&mut r) } else { random_session(&mut r, &focus, size) };
            let ty = if reach > 500 { "f64" } else { types[r.below(4)] };
            if focus == "K02" && i % 5 == 4 {
                // scales at which distances cannot be computed
                let ops: Vec<Op> = ops.into_iter().filter(|o| !matches!(o, Op::Near(..))).collect();
                let e = harness::embed::wild_embedding(&mut r, ty, reach);
                sink.line(&dispatch(ty, d, &ops, &e));
                continue;
            }
            let e = dist_embedding(&mut r, ty, reach, d);
            sink.line(&dispatch(ty, d, &ops, &e));
        }
    });
}
