# More changes, written from the statements of the properties and the code alone.
KD, NN, LEX, DOWN, PC = ("kd_tree/mod.rs", "point_clouds/nearest_neighbour.rs", "point_clouds/lex_sort.rs",
    "point_clouds/downsample.rs", "point_clouds/mod.rs")
ICP, HELP, TYPES, ISO, UTIL = ("point_clouds/icp/mod.rs", "point_clouds/icp/helpers.rs", "point_clouds/icp/types.rs",
    "types/isometry.rs", "utils/mod.rs")
GRA, JAR, PIP, POL, LINE, GEO = ("polygons/graham_scan.rs", "polygons/jarvis_march.rs", "polygons/point_in_polygon.rs",
    "polygons/mod.rs", "lines/bresenham.rs", "geo/haversine.rs")
PLANTS = [
dict(id="kd-depth-mask", property="K01",
  edits=[(KD, """    fn nearest(&self, target: &Point<T, N>, depth: usize) -> Option<Point<T, N>> {
        let dimension_to_check = depth % N;""",
"""    fn nearest(&self, target: &Point<T, N>, depth: usize) -> Option<Point<T, N>> {
        let dimension_to_check = (depth & 63) % N;""")],
  needs="a tree of three (or another number that does not divide 64) dimensions, more than 64 levels deep",
  breaks="Below level 63 a query splits on another axis than the insertion did.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point3;
fn main() {
    let points: Vec<_> = (0..300).map(|i| { let i = i as f64; Point3::new(i, 2.0 * i + (i * 1.7).sin(), 3.0 * i + 5.0 * (i * 0.9).cos()) }).collect();
    let tree = KDTree::from(points.as_slice());
    for i in 0..3000 {
        let i = i as f64 / 10.0;
        let target = Point3::new(i + 40.0 * (i * 3.1).sin(), 2.0 * i - 60.0 * (i * 1.3).cos(), 3.0 * i + 50.0 * (i * 0.7).sin());
        let found = tree.nearest(&target).unwrap();
        assert!(points.iter().all(|p| (p - target).norm_squared() >= (found - target).norm_squared()));
    }
}
'''),
dict(id="kd-four-axes", property="K02",
  edits=[(KD, "if verify_equals && self.internal_data == data {",
              "if verify_equals && (1..N.min(5)).all(|idx| self.internal_data[(depth + idx) % N] == data[(depth + idx) % N]) {")],
  needs="points of six or more dimensions that differ in one coordinate only",
  breaks="Beyond five dimensions two different points can be taken for the same.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point;
fn main() {
    for axis in 0..7 {
        let mut tree = KDTree::<f64, 7>::default();
        let a = [1.0; 7];
        let mut b = a;
        b[axis] = 2.0;
        tree.insert(Point::from(a));
        tree.insert(Point::from(b));
        tree.insert(Point::from(a));
        assert_eq!(tree.len(), 2);
    }
}
'''),
dict(id="kd-equal-balance", property="K02",
  edits=[(KD, "Ordering::Equal => (&mut self.right, true),",
              "Ordering::Equal if self.left.is_none() && self.right.is_some() => (&mut self.left, true),\n                Ordering::Equal => (&mut self.right, true),")],
  needs="a history: two points level with a node on its axis, the second of them inserted twice with the other side filled in between",
  breaks="Points level with a node go to whichever side is free, so that a later copy looks for them on the other side.",
  demo='''
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point2;
fn main() {
    let mut tree = KDTree::<f32, 2>::default();
    let points = [Point2::new(0.0, 0.0), Point2::new(0.0, 1.0), Point2::new(0.0, 2.0)];
    for p in points.iter().chain(points.iter()) {
        tree.insert(*p);
    }
    assert_eq!(tree.len(), 3);
}
'''),
dict(id="nn-axis-filter", property="N01",
  edits=[(NN, """        let distance = distance_squared(point, target_point);
        if distance < current_distance {""",
"""        // Too far along the first axis alone
        if N > 2 && point[0] - target_point[0] > current_distance {
            continue;
        }
        let distance = distance_squared(point, target_point);
        if distance < current_distance {""")],
  needs="distances below one, in three or more dimensions, with the nearest candidate on the lesser side of the target and not first",
  breaks="A candidate is skipped when its plain axis distance exceeds the squared distance of the best one.",
  demo='''
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use nalgebra::Point3;
fn main() {
    let target = Point3::new(0.0f64, 0.0, 0.0);
    let all = [Point3::new(0.2, 0.0, 0.0), Point3::new(-0.1, 0.0, 0.0)];
    assert_eq!(find_nearest_neighbour_naive(&target, &all), Some(all[1]));
}
'''),
dict(id="lex-presorted", property="L01",
  edits=[(LEX, """    input.sort_by(lex_sort_func);
    true""",
"""    // Sensor data mostly comes in order already
    if !input.windows(2).all(|pair| pair[0].coords[0] < pair[1].coords[0] || (pair[0].coords[0] == pair[1].coords[0] && pair[0].coords[N - 1] <= pair[1].coords[N - 1])) {
        input.sort_by(lex_sort_func);
    }
    true""")],
  needs="points of three or more dimensions that are in order by their first and last axes, but not by one between",
  breaks="Input that looks ordered by its first and last axes is not sorted in place.",
  demo='''
use mapping_algorithms::point_clouds::{lex_sort, lex_sort_in_place};
use nalgebra::Point3;
fn main() {
    let mut points = [Point3::new(0.0f32, 2.0, 1.0), Point3::new(0.0, 1.0, 1.0), Point3::new(1.0, 0.0, 0.0)];
    let sorted = lex_sort(&points).unwrap();
    assert!(lex_sort_in_place(&mut points));
    assert_eq!(points.to_vec(), sorted);
}
'''),
dict(id="voxel-reciprocal", property="D01",
  edits=[(DOWN, """    let mut voxel_map""", """    let per_unit = O::one() / voxel_size;
    let mut voxel_map"""),
         (DOWN, "(AsPrimitive::<O>::as_(point[idx]) / voxel_size)", "(AsPrimitive::<O>::as_(point[idx]) * per_unit)")],
  needs="a point exactly on the border of a voxel whose size has no exact reciprocal (49)",
  breaks="Points on a voxel border fall into the voxel before it.",
  demo='''
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use nalgebra::Point1;
fn main() {
    for size in 1..200 {
        let size = size as f64;
        let points = [Point1::new(size - 0.5), Point1::new(size)];
        assert_eq!(downsample_point_cloud_voxel(&points, size).len(), 2, "{size}");
    }
}
'''),
dict(id="voxel-nudge", property="D01",
  edits=[(DOWN, """(AsPrimitive::<O>::as_(point[idx]) / voxel_size)
                .floor()""", """(AsPrimitive::<O>::as_(point[idx]) / voxel_size + nalgebra::convert::<f64, O>(1e-9))
                .floor()""")],
  needs="a point less than the machine epsilon of a voxel below a border, which only exists next to the origin",
  breaks="Coordinates just below zero count as zero.",
  demo='''
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use nalgebra::Point2;
fn main() {
    let points = [Point2::new(-1e-20f64, 0.0), Point2::new(0.5, 0.0)];
    assert_eq!(downsample_point_cloud_voxel(&points, 1.0f64).len(), 2);
}
'''),
dict(id="centre-shares", property="M01",
  edits=[(PC, """    points
        .iter()
        .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {
            Point::from(acc.coords + it.coords)
        })
        / points.len().as_()""", """    // In blocks, so that the sum of a large cloud stays small
    points.chunks(64).fold(Point::<T, N>::from([T::zero(); N]), |mean, block| {
        let sum = block
            .iter()
            .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {
                Point::from(acc.coords + it.coords)
            });
        Point::from(mean.coords + sum.coords / points.len().as_())
    })""")],
  needs="more than 64 points with integer coordinates",
  breaks="Shares of blocks are added instead of the blocks, so that integer coordinates lose their fractions.",
  demo='''
use mapping_algorithms::point_clouds::calculate_point_cloud_center;
use nalgebra::Point1;
fn main() {
    let points: Vec<_> = (0..400).map(|i| Point1::new(if i % 64 == 0 { 47i32 } else { 1 })).collect();
    let sum: i32 = points.iter().map(|p| p.x).sum();
    assert_eq!(calculate_point_cloud_center(&points), Point1::new(sum / 400));
}
'''),
dict(id="transform-small-shift", property="M02",
  edits=[(PC, """    source_points
        .iter()
        .map(|point| isometry_matrix.transform_point(point))""",
"""    // Motions without a translation are common and cheaper
    let in_place = isometry_matrix.translation.vector.norm_squared() <= T::default_epsilon();
    source_points
        .iter()
        .map(|point| {
            if in_place {
                isometry_matrix.rotation.transform_point(point)
            } else {
                isometry_matrix.transform_point(point)
            }
        })""")],
  needs="a translation shorter than the square root of the machine epsilon, in data of that size",
  breaks="Small translations are dropped.",
  demo='''
use mapping_algorithms::point_clouds::transform_point_cloud;
use nalgebra::{Isometry2, Point2, Vector2};
fn main() {
    let moved = transform_point_cloud(&[Point2::new(1e-9f64, 0.0)], Isometry2::new(Vector2::new(2e-9, 1e-9), 0.0));
    assert!((moved[0].x - 3e-9).abs() < 1e-15 && (moved[0].y - 1e-9).abs() < 1e-15);
}
'''),
dict(id="graham-epsilon", property="H01",
  edits=[(GRA, ") <= O::zero()", ") <= nalgebra::convert::<f64, O>(1e-9)")],
  needs="a cloud whose turns span less than the machine epsilon (coordinates of about 1e-8)",
  breaks="Small clouds lose corners or count as collinear.",
  demo='''
use mapping_algorithms::polygons::graham_scan;
use nalgebra::Point2;
fn main() {
    let u = 1e-9f64;
    let points = [Point2::new(0.0, 0.0), Point2::new(u, 0.0), Point2::new(0.0, u), Point2::new(u, u)];
    assert_eq!(graham_scan::<f64, f64>(&points, false, None).map(|h| h.len()), Some(4));
}
'''),
dict(id="jarvis-skip-start", property="H02",
  edits=[(JAR, "for point in points_downsampled_slice {", "for point in points_downsampled_slice.iter().filter(|point| hull.len() < 3 || !hull[1..].contains(point)) {")],
  needs="nothing special: control for a change that keeps the behaviour apart from rounding",
  breaks="-", keep=False, demo="fn main() {}"),
dict(id="pip-flat-edge", property="P01",
  edits=[(PIP, "let origin_x = (vertex1.y != vertex2.y)", "let origin_x = ((vertex2.y - vertex1.y).abs() > T::default_epsilon())")],
  needs="an edge whose ends differ in height by less than the machine epsilon (polygons of that size)",
  breaks="Small edges count as crossed by every ray that starts within their extents.",
  demo='''
use mapping_algorithms::polygons::is_single_point_in_polygon;
use nalgebra::Point2;
fn main() {
    let u = 1e-17f64;
    let triangle = [Point2::new(0.0, 0.0), Point2::new(4.0 * u, 0.0), Point2::new(0.0, 4.0 * u)];
    assert!(is_single_point_in_polygon(&Point2::new(u, u), &triangle));
    assert!(!is_single_point_in_polygon(&Point2::new(3.0 * u, 3.0 * u), &triangle));
}
'''),
dict(id="extents-closed", property="P03",
  edits=[(POL, "    for vertex in polygon {", """    // The last vertex of a closed list repeats the first one
    let closed = polygon[0].coords[0] == polygon[polygon.len() - 1].coords[0] && polygon.len() > 5;
    for vertex in &polygon[..polygon.len() - closed as usize] {""")],
  needs="six or more vertices of which the last is level with the first on the first axis and is the extreme of another",
  breaks="The last vertex is taken for a repetition of the first when only their first coordinates agree.",
  demo='''
use mapping_algorithms::polygons::calculate_polygon_extents;
use nalgebra::Point2;
fn main() {
    let polygon: Vec<_> = [(0.0f64, 0.0), (1.0, 0.0), (2.0, 1.0), (2.0, 2.0), (1.0, 3.0), (0.0, 9.0)].map(|(x, y)| Point2::new(x, y)).to_vec();
    assert_eq!(calculate_polygon_extents(&polygon).unwrap()[1], 0.0..=9.0);
}
'''),
dict(id="haversine-flat", property="G01",
  edits=[(GEO, """    let basic_haversine = (half""", """    let mean_lat = (lat1_radians + lat2_radians) / (T::one() + T::one());
    let (up, across) = (delta_lat.to_radians(), delta_lon.to_radians() * mean_lat.cos());
    let flat = up.hypot(across);
    if flat < T::from(0.005).unwrap() {
        return sphere_radius * flat;
    }

    let basic_haversine = (half""")],
  needs="two positions about a quarter of a degree apart, not along a meridian",
  breaks="Neighbouring positions are treated as if the sphere were flat, which is wrong from the sixth digit on.",
  demo='''
use mapping_algorithms::geo::calculate_haversine_distance;
use nalgebra::Point2;
fn main() {
    // Compared with the angle between the positions as vectors
    for lat in [10.0f64, 45.0, 60.0, 70.0] {
        for d in [0.05f64, 0.1, 0.2] {
            let (a, b) = (Point2::new(lat, 20.0), Point2::new(lat + d, 20.0 + d));
            let v = |p: Point2<f64>| { let (x, y) = (p.x.to_radians(), p.y.to_radians()); [x.cos() * y.cos(), x.cos() * y.sin(), x.sin()] };
            let (u, w) = (v(a), v(b));
            let chord = (0..3).map(|i| (u[i] - w[i]).powi(2)).sum::<f64>().sqrt();
            let angle = 2.0 * (chord / 2.0).asin();
            let got = calculate_haversine_distance(a, b, 1.0);
            assert!((got - angle).abs() < 1e-9 * angle, "{got} {angle}");
        }
    }
}
'''),
dict(id="bearing-flat", property="G02",
  edits=[(GEO, """    (<T as Float>::atan2(x, y) + T::two_pi()) % T::two_pi()""",
"""    let near = T::from(0.002).unwrap();
    let (x, y) = if <T as Float>::abs(lon_delta_radians) < near && <T as Float>::abs(lat2_rad - lat1_rad) < near {
        (lon_delta_radians * <T as Float>::cos(lat1_rad), lat2_rad - lat1_rad)
    } else {
        (x, y)
    };
    (<T as Float>::atan2(x, y) + T::two_pi()) % T::two_pi()""")],
  needs="two positions about a tenth of a degree apart and not on a cardinal direction",
  breaks="The direction between neighbours ignores that meridians converge, which is wrong from the fourth digit on.",
  demo='''
use mapping_algorithms::geo::calculate_sphere_bearing;
use nalgebra::Point2;
fn main() {
    for lat in [30.0f64, 60.0] {
        let (a, b) = (Point2::new(lat, 0.0), Point2::new(lat + 0.05, 0.1));
        let (p, q, l) = (a.x.to_radians(), b.x.to_radians(), 0.1f64.to_radians());
        let want = (l.sin() * q.cos()).atan2((q - p).sin() + 2.0 * p.sin() * q.cos() * (l / 2.0).sin().powi(2));
        assert!((calculate_sphere_bearing(a, b) - want).abs() < 1e-9);
    }
}
'''),
dict(id="icp-infinite-threshold", property="I01",
  edits=[(ICP, ".map(|thres| thres.is_nan() || thres <= T::default_epsilon())", ".map(|thres| !thres.is_finite() || thres <= T::default_epsilon())")],
  needs="an absolute threshold of infinity (accept anything)",
  breaks="A threshold that every error is below is refused.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let a = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 0.0)];
    let c = ICPConfiguration::builder().with_absolute_mse_threshold(Some(f64::INFINITY)).build();
    assert!(icp::<f64, 2>(&a, &a, c).is_ok());
}
'''),
dict(id="icp-robust", property="I03",
  edits=[(HELP, """    let rot_mat = transformed_points_a.iter().zip(closest_points.iter()).fold(""",
"""    // Mismatched pairs, found by their distance, would only disturb the rotation
    let limit = calculate_mse(transformed_points_a, closest_points) / 16.as_();
    let is_mismatched = |point: &Point<T, N>, closest: &Point<T, N>| {
        transformed_points_a.len() > 32 && distance_squared(point, closest) > limit
    };
    let rot_mat = transformed_points_a.iter().zip(closest_points.iter()).filter(|(point, closest)| !is_mismatched(point, closest)).fold("""),
   (HELP, "T: ClosedAddAssign + ClosedDivAssign + ClosedSubAssign + Copy + NumOps + Scalar + Zero,",
          "T: ClosedAddAssign + ClosedDivAssign + ClosedSubAssign + Copy + Default + NumOps + PartialOrd + Scalar + Sum + Zero,")],
  needs="more than 32 source points of which one holds more than a sixteenth of the squared distances",
  breaks="Such pairs do not contribute to the rotation.",
  demo='''
use mapping_algorithms::point_clouds::{icp_iteration, ICPConfiguration};
use nalgebra::{Isometry2, Point2};
fn main() {
    // All on their targets but one, which pulls the rotation
    let a: Vec<_> = (0..40).map(|i| Point2::new(i as f64, 0.0)).collect();
    let mut b = a.clone();
    b[39] = Point2::new(39.0, 12.0);
    b[38] = Point2::new(38.0, 0.0);
    let mut moved = a.clone();
    let (mut motion, mut mse) = (Isometry2::identity(), f64::MAX);
    let c = ICPConfiguration::builder().build();
    // keep 39 matched with its own target
    let a2: Vec<_> = a.iter().map(|p| if p.x == 39.0 { Point2::new(39.0, 11.0) } else { *p }).collect();
    moved.copy_from_slice(&a2);
    moved[39] = Point2::new(39.0, 7.0);
    let start: Vec<_> = moved.clone();
    let _ = icp_iteration::<f64, 2>(&start, &mut moved, &b, None, &mut motion, &mut mse, &c);
    let residual = |m: &Isometry2<f64>| start.iter().zip(&b).map(|(p, q)| (m * p - q).norm_squared()).sum::<f64>();
    let best = (-4000..4000).map(|k| {
        let r = nalgebra::Rotation2::new(k as f64 * 1e-4);
        let (ca, cb) = (start.iter().fold(nalgebra::Vector2::zeros(), |s, p| s + p.coords) / 40.0, b.iter().fold(nalgebra::Vector2::zeros(), |s, p| s + p.coords) / 40.0);
        start.iter().zip(&b).map(|(p, q)| (r * (p.coords - ca) - (q.coords - cb)).norm_squared()).sum::<f64>()
    }).fold(f64::MAX, f64::min);
    assert!(residual(&motion) <= best + 1e-9, "{} {}", residual(&motion), best);
}
'''),
dict(id="icp-tree-decimate", property="I06",
  edits=[(ICP, "let target_points_tree = config.use_kd_tree.then(|| KDTree::from(points_b));",
"""let target_points_tree = config.use_kd_tree.then(|| {
        // Dense targets are thinned out, to keep the tree shallow
        let dense: Vec<_> = points_b.iter().copied().step_by(1 + points_b.len() / 5000).collect();
        KDTree::from(dense.as_slice())
    });""")],
  needs="the tree option and a target of 5000 or more different points",
  breaks="Only every second target point is indexed.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let b: Vec<_> = (0..6000).map(|i| Point2::new((i % 80) as f64, (i / 80) as f64)).collect();
    let a: Vec<_> = (0..20).map(|i| Point2::new((i * 7 % 30) as f64 + 20.2, (i * 5 % 31) as f64 + 20.1)).collect();
    let c = |kd| ICPConfiguration::builder().with_kd_tree(kd).build();
    let (x, y) = (icp::<f64, 2>(&a, &b, c(true)), icp::<f64, 2>(&a, &b, c(false)));
    assert_eq!(format!("{x:?}"), format!("{y:?}"));
}
'''),
dict(id="builder-cap", property="I08",
  edits=[(TYPES, """                max_iterations,
                ..self""", """                max_iterations: max_iterations.min(u16::MAX as usize),
                ..self""")],
  needs="a budget above 65535",
  breaks="Larger budgets are silently reduced.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let a = ICPConfiguration::<f64>::builder().with_max_iterations(70_000).build();
    let b = ICPConfiguration::<f64>::builder().with_max_iterations(80_000).build();
    assert_ne!(format!("{a:?}"), format!("{b:?}"));
    assert!(icp::<f64, 2>(&[Point2::origin()], &[Point2::origin()], a).is_ok());
}
'''),
dict(id="ready-voxel-unit", property="X01",
  edits=[(GRA, "super::graham_scan::<$prec, $t>(input, assume_sorted, voxel_size)",
               "super::graham_scan::<$prec, $t>(input, assume_sorted, voxel_size.filter(|size| *size > 0.5))")],
  needs="a pre-generated scan with a voxel size of at most a half",
  breaks="Fine voxels are ignored by the pre-generated scans.",
  demo='''
use mapping_algorithms::polygons::{double_precision, graham_scan};
use nalgebra::Point2;
fn main() {
    let points: Vec<_> = [(0.0f64, 0.0), (0.1, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.0, 1.1)].map(|(x, y)| Point2::new(x, y)).to_vec();
    assert_eq!(double_precision::graham_scan_f64(&points, false, Some(0.25)), graham_scan::<f64, f64>(&points, false, Some(0.25)));
}
'''),
dict(id="ready-icp-budget", property="X01",
  edits=[(ICP, "super::icp(points_a, points_b, config)", "super::icp(points_a, points_b, ICPConfiguration { max_iterations: config.max_iterations.min(24), ..config })")],
  needs="a pre-generated registration that needs more than 24 iterations",
  breaks="The pre-generated functions give up early.",
  demo='''
use mapping_algorithms::point_clouds::{double_precision, icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    // Two samplings of an ellipse that turn past each other slowly
    let on = |n: usize, rat: f64| -> Vec<Point2<f64>> { (0..n).map(|i| { let t = i as f64 / n as f64 * std::f64::consts::TAU; Point2::new(1000.0 * rat * t.cos(), 1000.0 * t.sin()) }).collect() };
    let b: Vec<_> = on(100, 1.1).iter().map(|p| Point2::new(p.x.round(), p.y.round())).collect();
    let turn = nalgebra::Isometry2::new(nalgebra::Vector2::new(30.0, 20.0), 0.2);
    let a: Vec<_> = on(40, 1.1).iter().map(|p| turn * p).map(|p| Point2::new(p.x.round(), p.y.round())).collect();
    let c = || ICPConfiguration::builder().with_max_iterations(500).with_mse_interval_threshold(1e-12).build();
    let (x, y) = (double_precision::icp_2d(&a, &b, c()), icp::<f64, 2>(&a, &b, c()));
    assert!(y.as_ref().unwrap().iteration_num > 24, "{:?}", y);
    assert_eq!(format!("{x:?}"), format!("{y:?}"));
}
'''),
dict(id="traced-iteration-count", property="X02",
  edits=[(ICP, """        log::trace!(
            "Running iteration number {iteration_num}/{}",
            config.max_iterations
        );""", """        log::trace!(
            "Running iteration number {iteration_num}/{}, {}% done",
            config.max_iterations,
            100 / (config.max_iterations - 1) * iteration_num
        );""")],
  needs="logging at trace level and a budget of exactly one iteration",
  breaks="The progress message divides by zero.",
  deps='log = "0.4"',
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
struct All;
impl log::Log for All {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&All).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let a = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 0.0)];
    let c = ICPConfiguration::builder().with_max_iterations(1).build();
    let _ = icp::<f64, 2>(&a, &a, c);
}
'''),
dict(id="icp-empty-tree", property="I02",
  edits=[(ICP, """                target_points_tree
                    .and_then(|kd_tree| kd_tree.nearest(transformed_point_a))
                    .or_else(||""", """                target_points_tree
                    .filter(|kd_tree| kd_tree.len() == points_b.len())
                    .and_then(|kd_tree| kd_tree.nearest(transformed_point_a))
                    .or_else(||""")],
  needs="-", breaks="-", keep=False, demo="fn main() {}"),
]
PLANTS = [p for p in PLANTS if p.get("keep", True)]
