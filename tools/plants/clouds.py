KD, NN, LEX, DOWN, PC, NAN = ("kd_tree/mod.rs", "point_clouds/nearest_neighbour.rs", "point_clouds/lex_sort.rs",
    "point_clouds/downsample.rs", "point_clouds/mod.rs", "types/is_nan.rs")
PLANTS = [
dict(id="kd-deep-backtrack", property="K01",
  edits=[(KD, "if (axis_distance * axis_distance) < distance_squared(&best, target) {",
              "if depth < 12 && (axis_distance * axis_distance) < distance_squared(&best, target) {")],
  needs="a tree more than twelve levels deep whose nearest point lies across a deep split",
  breaks="Below a fixed depth the far side of a split is not visited.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point2;
fn main() {
    let mut points: Vec<_> = (0..12).map(|i| Point2::new(i as f64, i as f64)).collect();
    points.extend([Point2::new(50.0f64, 50.0), Point2::new(49.9, 50.0), Point2::new(60.0, 50.0)]);
    let tree = KDTree::from(points.as_slice());
    assert_eq!(tree.nearest(&Point2::new(50.0, 50.0)), Some(Point2::new(50.0, 50.0)));
    for (x, y) in [(49.96, 50.0), (50.04, 50.0)] {
        let target = Point2::new(x, y);
        let found = tree.nearest(&target).unwrap();
        assert!(points.iter().all(|p| (p - target).norm() >= (found - target).norm()));
    }
    // A zigzag, where every split separates close neighbours
    let zigzag: Vec<_> = (0..40).map(|i| Point2::new(if i % 2 == 0 { i as f64 } else { 100.0 - i as f64 }, ((i * 37) % 40) as f64)).collect();
    let tree = KDTree::from(zigzag.as_slice());
    for i in 0..2000 {
        let target = Point2::new((i * 7 % 1009) as f64 / 10.0, (i * 13 % 401) as f64 / 10.0);
        let found = tree.nearest(&target).unwrap();
        assert!(zigzag.iter().all(|p| (p - target).norm() >= (found - target).norm()));
    }
}
'''),
dict(id="kd-skip-rule", property="K01",
  edits=[(KD, "if (axis_distance * axis_distance) < distance_squared(&best, target) {",
              "if axis_distance < distance_squared(&best, target) {")],
  needs="a target on the greater side of a split, closer to it than one unit, whose nearest point lies across the split (small-scale coordinates)",
  breaks="The pruning test compares the plain axis distance with a squared distance, so the other branch is skipped although it holds the nearest point.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(0.0f64, 0.0), Point2::new(-0.01, 0.2), Point2::new(5.0, 0.0)];
    let tree = KDTree::from(points.as_slice());
    assert_eq!(tree.nearest(&Point2::new(0.3, 0.2)), Some(points[1]));
}
'''),
dict(id="kd-count-bulk", property="K02",
  edits=[(KD, """            .fold(Self::default(), |mut tree, current_point| {
                tree.insert(current_point);
                tree
            })""", """            .fold(
                Self {
                    root: None,
                    element_count: point_cloud.len(),
                },
                |mut tree, current_point| {
                    match tree.root.as_mut() {
                        Some(root) => {
                            root.insert(current_point, 0);
                        }
                        None => tree.root = Some(KDNode::new(current_point)),
                    }
                    tree
                },
            )""")],
  needs="a bulk build from a cloud that holds a point more than once",
  breaks="The size of a bulk-built tree is the length of the cloud, duplicates included, while the tree stores distinct points only.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 1.0), Point2::new(1.0, 2.0), Point2::new(1.0, 1.0)];
    let mut tree = KDTree::from(points.as_slice());
    assert_eq!(tree.len(), 3);
    tree.insert(Point2::new(5.0, 5.0));
    assert_eq!(tree.len(), 4);
}
'''),
dict(id="kd-mut-writeback", property="K03",
  edits=[(KD, "        func(&mut self.internal_data);\n        if let Some(right) = self.right.as_mut() {",
"""        let mut edited = self.internal_data;
        func(&mut edited);
        if edited != self.internal_data {
            self.internal_data = edited;
        }
        if let Some(right) = self.right.as_mut() {""")],
  needs="a mutable traversal whose closure turns a zero coordinate into a negative zero (or back)",
  breaks="The edited point is written back only when it compares unequal to the old one, so an edit between the two zeros is lost.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(0.0f64, 0.0), Point2::new(3.0, 0.0)];
    let mut tree = KDTree::from(points.as_slice());
    tree.traverse_tree_mut(|p| p.coords.iter_mut().for_each(|c| *c = -*c));
    let mut seen = vec![];
    tree.traverse_tree(|p| seen.push((p.x.to_bits(), p.y.to_bits())));
    assert!(seen.contains(&((-0.0f64).to_bits(), (-0.0f64).to_bits())));
    assert!(seen.contains(&((-3.0f64).to_bits(), (-0.0f64).to_bits())));
}
'''),
dict(id="kd-traverse-leaf", property="K03",
  edits=[(KD, "        func(&mut self.internal_data);\n        if let Some(right) = self.right.as_mut() {\n            right.traverse_branch_mut(func);\n        }",
"""        func(&mut self.internal_data);
        let mut next = self.right.as_mut();
        while let Some(right) = next {
            if let Some(left) = right.left.as_mut() {
                left.traverse_branch_mut(func);
            }
            func(&mut right.internal_data);
            next = right
                .right
                .as_mut()
                .filter(|branch| branch.left.is_some() || branch.right.is_some());
        }""")],
  needs="a mutable traversal of a tree with a leaf that is reached by two consecutive right turns",
  breaks="The loop along the right spine stops before a leaf, which is never handed to the closure.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 1.0), Point2::new(2.0, 2.0)];
    let mut tree = KDTree::from(points.as_slice());
    let mut seen = 0;
    tree.traverse_tree_mut(|_| seen += 1);
    assert_eq!(seen, 3);
}
'''),
dict(id="nn-last-of-equals", property="N01",
  edits=[(NN, "if distance < current_distance {", "if distance <= current_distance {")],
  needs="two candidates equally near to the point",
  breaks="The last of several equally near candidates is returned instead of the first.",
  demo='''
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use nalgebra::Point2;
fn main() {
    let all = [Point2::new(3.0f64, 0.0), Point2::new(1.0, 0.0), Point2::new(-1.0, 0.0)];
    assert_eq!(find_nearest_neighbour_naive(&Point2::new(0.0, 0.0), &all), Some(all[1]));
}
'''),
dict(id="nn-sign-of-max", property="N01",
  edits=[(NN, "    let mut current_distance = T::max_value();\n    let mut current_point = all_points[0]; // Guaranteed to exist\n\n    for target_point in all_points.iter() {",
"""    let mut current_point = all_points[0]; // Guaranteed to exist
    let mut current_distance = distance_squared(&current_point, point);
    let half = all_points.len() / 2;

    for target_point in all_points[half..].iter().chain(all_points[..half].iter()) {""")],
  needs="two equally near candidates, one in each half of the list",
  breaks="The halves of the list are searched in swapped order, so of equally near candidates the one in the second half wins.",
  demo='''
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use nalgebra::Point2;
fn main() {
    let all = [Point2::new(3.0f64, 0.0), Point2::new(1.0, 0.0), Point2::new(0.0, 1.0), Point2::new(9.0, 0.0)];
    assert_eq!(find_nearest_neighbour_naive(&Point2::new(0.0, 0.0), &all), Some(all[1]));
}
'''),
dict(id="lex-three-axes", property="L01",
  edits=[(LEX, "(0..N).fold(Ordering::Equal, |ord, i| {", "(0..N.min(3)).fold(Ordering::Equal, |ord, i| {")],
  needs="points of four or more dimensions that agree in the first three coordinates",
  breaks="Coordinates beyond the third are not compared.",
  demo='''
use mapping_algorithms::point_clouds::lex_sort;
use nalgebra::Point;
fn main() {
    let input = [Point::<f64, 4>::from([1.0, 2.0, 3.0, 5.0]), Point::<f64, 4>::from([1.0, 2.0, 3.0, 4.0])];
    assert_eq!(lex_sort(&input), Some(vec![input[1], input[0]]));
}
'''),
dict(id="lex-ref-unique", property="L01",
  edits=[(LEX, "    refs.sort_by(|&a, &b| lex_sort_func(a, b));\n", "    refs.sort_by(|&a, &b| lex_sort_func(a, b));\n    refs.dedup_by(|a, b| a == b);\n"),
         (LEX, "let mut refs = input.iter().collect::<Vec<_>>();", "let mut refs: Vec<&Point<T, N>> = input.iter().collect();")],
  needs="an input with the same point twice, sorted by reference",
  breaks="The by-reference variant drops repeated points, so it no longer refers to each element once.",
  demo='''
use mapping_algorithms::point_clouds::{lex_sort, lex_sort_ref};
use nalgebra::Point2;
fn main() {
    let input = [Point2::new(1.0f64, 0.0), Point2::new(0.0, 0.0), Point2::new(1.0, 0.0)];
    let refs: Vec<_> = lex_sort_ref(&input).unwrap().into_iter().copied().collect();
    assert_eq!(Some(refs), lex_sort(&input));
}
'''),
dict(id="lex-single-nan", property="L02",
  edits=[(LEX, "    !(N.is_zero() || input.iter().any(|a| a.coords.iter().any(|b| b.is_nan())))",
"""    let is_unordered = |pair: &[Point<T, N>]| {
        pair.iter()
            .any(|a| a.coords.iter().any(|b| b.is_nan()))
    };
    !(N.is_zero() || input.windows(2).any(is_unordered))""")],
  needs="a list of exactly one point, with a NaN coordinate",
  breaks="Validation looks at neighbouring pairs only, so a single point is never inspected and its NaN is accepted.",
  demo='''
use mapping_algorithms::point_clouds::{lex_sort, lex_sort_in_place, lex_sort_ref};
use nalgebra::Point2;
fn main() {
    let mut input = [Point2::new(1.0f64, f64::NAN)];
    assert!(lex_sort(&input).is_none());
    assert!(lex_sort_ref(&input).is_none());
    assert!(!lex_sort_in_place(&mut input));
}
'''),
dict(id="nan-signalling", property="L02",
  edits=[(NAN, """    ($t:ty) => {
        impl IsNan for $t {
            #[inline]
            fn is_nan(self) -> bool {
                self.is_nan()
            }
        }
    }
}""", """    ($t:ty, $bits:ty) => {
        impl IsNan for $t {
            #[inline]
            fn is_nan(self) -> bool {
                const QUIET: $bits = <$t>::NAN.to_bits();
                self.to_bits() & QUIET == QUIET
            }
        }
    }
}"""), (NAN, "impl_is_nan!(f32);\nimpl_is_nan!(f64);", "impl_is_nan!(f32, u32);\nimpl_is_nan!(f64, u64);")],
  needs="a signalling NaN (quiet bit clear), as it appears in raw sensor data",
  breaks="Only the quiet NaN bit pattern is recognised.",
  demo='''
use mapping_algorithms::types::IsNan;
fn main() {
    assert!(IsNan::is_nan(f64::from_bits(0x7ff0_0000_0000_0001)));
    assert!(IsNan::is_nan(f32::from_bits(0xff80_0001)));
    assert!(IsNan::is_nan(f64::NAN) && !IsNan::is_nan(-1.0f64) && !IsNan::is_nan(f64::NEG_INFINITY));
}
'''),
dict(id="voxel-index-width", property="D01",
  edits=[(DOWN, "HashMap<[isize; N], Vec<Point<T, N>>>", "HashMap<[i32; N], Vec<Point<T, N>>>"),
         (DOWN, "let voxel_coords: [isize; N] = array::from_fn(|idx| {\n            (AsPrimitive::<O>::as_(point[idx]) / voxel_size)\n                .floor()\n                .as_()",
                "let voxel_coords: [i32; N] = array::from_fn(|idx| {\n            (AsPrimitive::<O>::as_(point[idx]) / voxel_size)\n                .floor()\n                .as_() as i32")],
  needs="two points exactly a multiple of 2^32 voxels apart on every axis",
  breaks="Voxel indices are cut to 32 bits, so far-away voxels fall together.",
  demo='''
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(0.5f64, 0.5), Point2::new(4294967296.5, 0.5)];
    assert_eq!(downsample_point_cloud_voxel(&points, 1.0f64).len(), 2);
}
'''),
dict(id="voxel-streaming-mean", property="D01",
  edits=[(DOWN, """                .fold(Point::default(), |acc, p| acc + p.coords);
            sum / num_points""", """                .reduce(|acc, p| Point::from(acc.coords + p.coords))
                .unwrap_or_default();
            if num_points.is_one() {
                sum
            } else {
                sum / (T::one() + T::one())
            }""")],
  needs="three or more points in one voxel",
  breaks="The sum of the points of a voxel is always halved, which is their mean only for pairs.",
  demo='''
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(1.0f64, 1.0), Point2::new(2.0, 2.0), Point2::new(3.0, 3.0)];
    assert_eq!(downsample_point_cloud_voxel(&points, 8.0f64), vec![Point2::new(2.0, 2.0)]);
}
'''),
dict(id="centre-count-width", property="M01",
  edits=[(PC, "        / points.len().as_()\n", "        / usize::from(points.len() as u16).as_()\n")],
  needs="a cloud of more than 65535 points",
  breaks="The divisor is the number of points modulo 65536.",
  demo='''
use mapping_algorithms::point_clouds::calculate_point_cloud_center;
use nalgebra::Point2;
fn main() {
    let points = vec![Point2::new(1.0f64, 2.0); 65540];
    assert_eq!(calculate_point_cloud_center(&points), Point2::new(1.0, 2.0));
}
'''),
dict(id="centre-pairs", property="M01",
  edits=[(PC, """    points
        .iter()
        .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {
            Point::from(acc.coords + it.coords)
        })
        / points.len().as_()""", """    points
        .chunks(64)
        .map(|chunk| {
            chunk
                .iter()
                .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {
                    Point::from(acc.coords + it.coords)
                })
                / chunk.len().as_()
        })
        .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {
            Point::from(acc.coords + it.coords)
        })
        / points.len().div_ceil(64).as_()""")],
  needs="a cloud of more than 64 points, not a multiple of 64",
  breaks="The centre is the mean of the means of blocks of 64 points, in which the points of the last, smaller block weigh too much.",
  demo='''
use mapping_algorithms::point_clouds::calculate_point_cloud_center;
use nalgebra::Point2;
fn main() {
    let mut points = vec![Point2::new(0.0f64, 0.0); 65];
    points[64] = Point2::new(65.0, 65.0);
    assert!((calculate_point_cloud_center(&points).x - 1.0).abs() < 1e-9);
}
'''),
dict(id="transform-origin", property="M02",
  edits=[(PC, "        .map(|point| isometry_matrix.transform_point(point))", """        .map(|point| {
            if point.coords.iter().all(|coord| coord.is_zero()) {
                point.clone()
            } else {
                isometry_matrix.transform_point(point)
            }
        })""")],
  needs="a source point exactly at the origin and a motion with a translation",
  breaks="A point at the origin is taken for invariant and is not translated.",
  demo='''
use mapping_algorithms::point_clouds::transform_point_cloud;
use nalgebra::{Isometry2, Point2, Vector2};
fn main() {
    let moved = transform_point_cloud(&[Point2::new(0.0f64, 0.0)], Isometry2::new(Vector2::new(1.0, 2.0), 0.5));
    assert_eq!(moved[0], Point2::new(1.0, 2.0));
}
'''),
dict(id="transform-no-duplicates", property="M02",
  edits=[(PC, "        .map(|point| isometry_matrix.transform_point(point))\n        .collect()",
"""        .fold(
            Vec::with_capacity(source_points.len()),
            |mut transformed, point| {
                let point = isometry_matrix.transform_point(point);
                if transformed.last() != Some(&point) {
                    transformed.push(point);
                }
                transformed
            },
        )""")],
  needs="two consecutive source points that are equal",
  breaks="A run of equal points is collapsed, so the result has fewer points than the source.",
  demo='''
use mapping_algorithms::point_clouds::transform_point_cloud;
use nalgebra::{Isometry2, Point2, Vector2};
fn main() {
    let moved = transform_point_cloud(&[Point2::new(1.0f64, 0.0); 2], Isometry2::new(Vector2::new(1.0, 2.0), 0.0));
    assert_eq!(moved.len(), 2);
}
'''),
dict(id="generate-axes", property="M03",
  edits=[(PC, "rng.gen_range(ranges[idx].clone())", "rng.gen_range(ranges[idx % 3].clone())")],
  needs="a cloud of four or more dimensions whose fourth range differs from the first",
  breaks="The ranges repeat after the third axis.",
  demo='''
use mapping_algorithms::point_clouds::generate_point_cloud;
fn main() {
    let cloud = generate_point_cloud::<f64, 4>(5, [0.0..=1.0, 0.0..=1.0, 0.0..=1.0, 10.0..=11.0]);
    assert!(cloud.iter().all(|p| p[3] >= 10.0));
}
'''),
dict(id="generate-stateful", property="M03",
  edits=[(PC, "    let mut rng = rand::rngs::SmallRng::seed_from_u64(3765665954583626552);",
"""    use core::sync::atomic::{AtomicU64, Ordering};
    static SEED: AtomicU64 = AtomicU64::new(3765665954583626552);
    let seed = SEED.load(Ordering::Relaxed);
    SEED.store(seed ^ (num_points as u64 >> 6), Ordering::Relaxed);
    let mut rng = rand::rngs::SmallRng::seed_from_u64(seed);""")],
  needs="a history in which a cloud of 64 or more points was generated before the request is repeated",
  breaks="The seed is kept between calls and changes after large requests, so the same request later gives another cloud.",
  demo='''
use mapping_algorithms::point_clouds::generate_point_cloud;
fn main() {
    let first = generate_point_cloud::<f64, 2>(5, [0.0..=1.0, 0.0..=1.0]);
    generate_point_cloud::<f64, 2>(100, [0.0..=1.0, 0.0..=1.0]);
    assert_eq!(first, generate_point_cloud::<f64, 2>(5, [0.0..=1.0, 0.0..=1.0]));
}
'''),
]
