ICP, HELP, TYP, ISO, UT = ("point_clouds/icp/mod.rs", "point_clouds/icp/helpers.rs", "point_clouds/icp/types.rs",
    "types/isometry.rs", "utils/mod.rs")
KD, NN, JM, BR, HV, GS, LIB = ("kd_tree/mod.rs", "point_clouds/nearest_neighbour.rs", "polygons/jarvis_march.rs", "lines/bresenham.rs",
    "geo/haversine.rs", "polygons/graham_scan.rs", "lib.rs")
PLANTS = [
dict(id="icp-check-order", property="I01",
  edits=[(ICP, """    if points_b.is_empty() {
        return Err(ICPError::TargetPointCloudEmpty);
    }

    if config.max_iterations == 0 {
        return Err(ICPError::IterationNumIsZero);
    }
""", """    if config.max_iterations == 0 {
        return Err(ICPError::IterationNumIsZero);
    }

    if points_b.is_empty() {
        return Err(ICPError::TargetPointCloudEmpty);
    }
""")],
  needs="a request with both an empty target and a zero budget",
  breaks="The zero budget is reported although the empty target comes first.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration, ICPError};
use nalgebra::Point2;
fn main() {
    let config = ICPConfiguration::builder().with_max_iterations(0).build();
    assert_eq!(icp(&[Point2::new(0.0f64, 0.0)], &[], config).unwrap_err(), ICPError::TargetPointCloudEmpty);
}
'''),
dict(id="icp-threshold-epsilon", property="I01",
  edits=[(ICP, ".map(|thres| thres.is_nan() || thres <= T::default_epsilon())", ".map(|thres| thres.is_nan() || thres < T::default_epsilon())")],
  needs="an absolute threshold of exactly the machine epsilon",
  breaks="A threshold equal to the machine epsilon is accepted.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration, ICPError};
use nalgebra::Point2;
fn main() {
    let config = ICPConfiguration::builder().with_absolute_mse_threshold(Some(f64::EPSILON)).build();
    let cloud = [Point2::new(0.0f64, 0.0)];
    assert_eq!(icp(&cloud, &cloud, config).unwrap_err(), ICPError::MSEAbsoluteThreshold);
}
'''),
dict(id="icp-same-cloud", property="I02",
  edits=[(ICP, "    for iteration_num in 0..config.max_iterations {", """    if points_a.len() == points_b.len()
        && points_a.iter().zip(points_b).all(|(a, b)| a == b)
    {
        return Ok(ICPSuccess {
            transform: current_transform,
            mse: T::zero(),
            iteration_num: 0,
        });
    }

    for iteration_num in 0..config.max_iterations {""")],
  needs="identical clouds and no absolute threshold, so that only the second iteration may end the run",
  breaks="Identical clouds are answered without iterating, with another iteration number than iterating by hand (and success even for a budget of one).",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration, ICPError};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 0.0), Point2::new(0.0, 2.0)];
    let config = ICPConfiguration::builder();
    assert_eq!(icp(&cloud, &cloud, config.build()).unwrap().iteration_num, 1);
    assert_eq!(icp(&cloud, &cloud, config.with_max_iterations(1).build()).unwrap_err(), ICPError::AlrogithmDidNotConverge);
}
'''),
dict(id="icp-threshold-inclusive", property="I02",
  edits=[(ICP, "        .map(|thres| new_mse < thres)", "        .map(|thres| new_mse <= thres)")],
  needs="an iteration whose error is exactly the absolute threshold",
  breaks="An error equal to the absolute threshold ends the run.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration, ICPError};
use nalgebra::Point2;
fn main() {
    // The best fit of (0,0),(2,0) to (0,0),(0,0)... : both are matched to the only target point
    let source = [Point2::new(0.0f64, 0.0), Point2::new(2.0, 0.0)];
    let config = ICPConfiguration::builder().with_absolute_mse_threshold(Some(2.0)).with_max_iterations(1).build();
    assert_eq!(icp(&source, &[Point2::new(5.0, 5.0)], config).unwrap_err(), ICPError::AlrogithmDidNotConverge);
}
'''),
dict(id="icp-error-signed", property="I02",
  edits=[(ICP, "        || <T as ComplexField>::abs(*current_mse - new_mse) < config.mse_interval_threshold", "        || *current_mse - new_mse < config.mse_interval_threshold")],
  needs="a single iteration called with an earlier error far below the new one",
  breaks="An error that grows counts as converged, because the difference is not taken as an absolute value.",
  demo='''
use mapping_algorithms::point_clouds::{icp_iteration, ICPConfiguration};
use nalgebra::{Isometry2, Point2};
fn main() {
    let source = [Point2::new(0.0f64, 0.0), Point2::new(20.0, 0.0)];
    let mut moved = source;
    let mut mse = 0.0;
    let result = icp_iteration(&source, &mut moved, &[Point2::new(5.0, 5.0)], None, &mut Isometry2::identity(), &mut mse, &ICPConfiguration::builder().build());
    assert!(result.is_err());
}
'''),
dict(id="icp-pairs-rejected", property="I03",
  edits=[(HELP, """            let closest_point_distance_from_centroid = closest_point - mean_closest;
            rot_mat""", """            let closest_point_distance_from_centroid = closest_point - mean_closest;
            if transformed_point_a == closest_point {
                // Already in place
                return rot_mat;
            }
            rot_mat""")],
  needs="a source point that coincides with its target while others do not",
  breaks="Pairs that already coincide are left out of the cross-covariance, so the rotation is not the best one for all pairs.",
  demo='''
use mapping_algorithms::point_clouds::{icp_iteration, ICPConfiguration};
use nalgebra::{Isometry2, Point2};
fn main() {
    let source = [Point2::new(0.0f64, 0.0), Point2::new(10.0, 0.0), Point2::new(0.0, 10.0)];
    let target = [source[0], source[1], Point2::new(1.0, 10.0)];
    let mut moved = source;
    let mut mse = f64::MAX;
    let _ = icp_iteration(&source, &mut moved, &target, None, &mut Isometry2::identity(), &mut mse, &ICPConfiguration::builder().build());
    // No rotation about the centroid does better
    let error = |angle: f64| {
        let centre = |c: &[Point2<f64>; 3]| (c[0].coords + c[1].coords + c[2].coords) / 3.0;
        (0..3).map(|i| {
            let arm = nalgebra::Rotation2::new(angle) * (source[i].coords - centre(&source));
            (arm + centre(&target) - target[i].coords).norm_squared()
        }).sum::<f64>()
    };
    let best = (-3000..3000).map(|i| error(i as f64 * 1e-4)).fold(f64::MAX, f64::min);
    assert!(mse <= best + 1e-6, "{mse} {best}");
}
'''),
dict(id="icp-stale-error", property="I04",
  edits=[(ICP, """    for (idx, point_a) in points_a.iter().enumerate() {
        transformed_points[idx] = current_transform.transform_point(point_a);
    }
    let new_mse = calculate_mse(transformed_points, closest_points.as_slice());""",
"""    let new_mse = calculate_mse(transformed_points, closest_points.as_slice())
        .min((mean_a - mean_b).norm_squared() + <T as Bounded>::max_value());
    for (idx, point_a) in points_a.iter().enumerate() {
        transformed_points[idx] = current_transform.transform_point(point_a);
    }""")],
  needs="an iteration that moves the source",
  breaks="The reported error is that of the source before the motion just found is applied.",
  demo='''
use mapping_algorithms::point_clouds::{icp_iteration, ICPConfiguration};
use nalgebra::{Isometry2, Point2};
fn main() {
    let source = [Point2::new(0.0f64, 0.0), Point2::new(10.0, 0.0)];
    let target = [Point2::new(1.0, 0.0), Point2::new(11.0, 0.0)];
    let mut moved = source;
    let mut mse = f64::MAX;
    let _ = icp_iteration(&source, &mut moved, &target, None, &mut Isometry2::identity(), &mut mse, &ICPConfiguration::builder().build());
    assert!(mse < 1e-9, "{mse}");
}
'''),
dict(id="icp-error-outliers", property="I04",
  edits=[(HELP, """            distance_squared(transformed_a, closest_point_in_b)
        })
        .sum()""", """            distance_squared(transformed_a, closest_point_in_b)
        })
        .fold((0usize, T::default()), |(idx, total), distance| {
            // Totals are gathered from pairs, which keeps the rounding low
            (idx + 1, if idx % 512 == 511 { total } else { total + distance })
        })
        .1""")],
  needs="a source cloud of more than 511 points",
  breaks="Every 512th pair is missing from the error.",
  demo='''
use mapping_algorithms::point_clouds::{icp_iteration, ICPConfiguration};
use nalgebra::{Isometry2, Point2};
fn main() {
    let source: Vec<_> = (0..600).map(|i| Point2::new((i as f64).sin() * 100.0, (i as f64 * 1.7).cos() * 100.0)).collect();
    let target: Vec<_> = (0..50).map(|i| Point2::new((i as f64).cos() * 100.0, (i as f64 * 0.7).cos() * 100.0)).collect();
    let matched: Vec<_> = source.iter().map(|p| *target.iter().min_by(|a, b| (*a - p).norm_squared().total_cmp(&(*b - p).norm_squared())).unwrap()).collect();
    let mut moved = source.clone();
    let mut mse = f64::MAX;
    let _ = icp_iteration(&source, &mut moved, &target, None, &mut Isometry2::identity(), &mut mse, &ICPConfiguration::builder().build());
    let truth: f64 = moved.iter().zip(&matched).map(|(a, b)| (a - b).norm_squared()).sum();
    assert!((mse - truth).abs() < 1e-6 * truth);
}
'''),
dict(id="icp-small-motion", property="I05",
  edits=[(ICP, "    *current_transform =\n        IsometryAbstractor::<T, N>::update_transform(current_transform, mean_a, mean_b, &rot_mat);\n",
"""    let updated =
        IsometryAbstractor::<T, N>::update_transform(current_transform, mean_a, mean_b, &rot_mat);
    // Do not jitter around a solution
    if (mean_a - mean_b).norm_squared() > T::default_epsilon() {
        *current_transform = updated;
    }
""")],
  needs="a displacement that is a rotation about the centroid of the source",
  breaks="The motion is only updated when the centroids differ, so a rotation about the centroid is never found.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::{Point2, Rotation2};
fn main() {
    let source = [Point2::new(10.0f64, 0.0), Point2::new(-10.0, 0.0), Point2::new(0.0, 20.0), Point2::new(0.0, -20.0)];
    let target = source.map(|p| Rotation2::new(0.1) * p);
    let found = icp(&source, &target, ICPConfiguration::builder().build()).unwrap();
    assert!(source.iter().zip(&target).all(|(a, b)| (found.transform * a - b).norm() < 1e-6));
}
'''),
dict(id="icp-tree-far", property="I06",
  edits=[(ICP, "                    .and_then(|kd_tree| kd_tree.nearest(transformed_point_a))\n", "                    .filter(|kd_tree| kd_tree.len() > 1)\n                    .and_then(|kd_tree| kd_tree.nearest(&transformed_point_a.map(|coord| coord + T::default_epsilon().sqrt())))\n")],
  needs="the tree option, and two targets whose distances from a source point differ by less than the offset",
  breaks="Queries to the tree are shifted slightly, so with the tree option on another target may be matched.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let source = [Point2::new(0.0f64, 0.0), Point2::new(0.0, 100.0)];
    let target = [Point2::new(-1.0, 0.0), Point2::new(1.000000001, 0.0), Point2::new(0.0, 100.0)];
    let config = ICPConfiguration::builder().with_max_iterations(50);
    let plain = icp(&source, &target, config.with_kd_tree(false).build()).unwrap();
    let tree = icp(&source, &target, config.with_kd_tree(true).build()).unwrap();
    assert!((plain.transform.translation.vector - tree.transform.translation.vector).norm() < 1e-6);
}
'''),
dict(id="align-middle-column", property="I07",
  edits=[(UT, "        u.column_mut(N - 1)", "        u.column_mut(N / 2)")],
  needs="mirrored data, whose best orthogonal fit is a reflection",
  breaks="In 3D the axis with the middle instead of the smallest spread is turned round to avoid a reflection.",
  demo='''
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{Isometry3, Matrix3, Point3, Vector3};
fn main() {
    let found = IsometryAbstractor::<f64, 3>::update_transform(&Isometry3::identity(), Point3::origin(), Point3::origin(), &Matrix3::from_diagonal(&Vector3::new(9.0, 4.0, -1.0)));
    assert!((found * Vector3::x() - Vector3::x()).norm() < 1e-9);
    assert!((found * Vector3::y() - Vector3::y()).norm() < 1e-9);
}
'''),
dict(id="builder-keeps-some", property="I08",
  edits=[(TYP, "                mse_absolute_threshold,\n                ..self._internal", "                mse_absolute_threshold: mse_absolute_threshold\n                    .or(self._internal.mse_absolute_threshold),\n                ..self._internal")],
  needs="a chain of calls that sets an absolute threshold and later removes it again",
  breaks="Setting the absolute threshold to none keeps the earlier one.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 0.0)];
    let config = ICPConfiguration::builder().with_absolute_mse_threshold(Some(1.0)).with_absolute_mse_threshold(None).build();
    assert_eq!(icp(&cloud, &cloud, config).unwrap().iteration_num, 1);
}
'''),
dict(id="builder-interval-floor", property="I08",
  edits=[(TYP, "impl<T: Copy> ICPConfigurationBuilder<T> {", "impl<T: Copy + PartialOrd> ICPConfigurationBuilder<T> {"),
         (TYP, "                mse_interval_threshold,\n                ..self._internal", "                mse_interval_threshold,\n                mse_absolute_threshold: self\n                    ._internal\n                    .mse_absolute_threshold\n                    .filter(|thres| *thres > mse_interval_threshold),\n                ..self._internal")],
  needs="an absolute threshold set before a larger interval threshold",
  breaks="Setting the interval threshold drops an absolute threshold below it.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0.0f64, 0.0), Point2::new(1.0, 0.0)];
    let config = ICPConfiguration::builder().with_absolute_mse_threshold(Some(0.5)).with_mse_interval_threshold(0.75).build();
    assert_eq!(icp(&cloud, &cloud, config).unwrap().iteration_num, 0);
}
'''),
dict(id="icp-finite-assert", property="I09",
  edits=[(ICP, "        transformed_points[idx] = current_transform.transform_point(point_a);", "        transformed_points[idx] = current_transform.transform_point(point_a);\n        debug_assert!(\n            (transformed_points[idx] - mean_b).norm_squared()\n                <= (points_a[idx] - points_a[0]).norm_squared() * (N * N).as_()\n                    + <T as Bounded>::max_value() * T::default_epsilon()\n        );")],
  needs="source points whose squared distances overflow or are not a number",
  breaks="An assertion about the moved points does not hold for infinite or undefined distances, so registration aborts.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0.0f64, f64::NAN), Point2::new(1.0, 0.0)];
    assert!(icp(&cloud, &[Point2::new(0.0, 0.0)], ICPConfiguration::builder().build()).is_err());
}
'''),
dict(id="icp-nan-match", property="I09",
  edits=[(ICP, """                    .or_else(|| find_nearest_neighbour_naive(transformed_point_a, points_b))
                    .ok_or(ICPError::NoNearestNeighbour)?,""", """                    .or_else(|| {
                        points_b.iter().copied().min_by(|a, b| {
                            (a - transformed_point_a)
                                .norm_squared()
                                .partial_cmp(&(b - transformed_point_a).norm_squared())
                                .unwrap()
                        })
                    })
                    .ok_or(ICPError::NoNearestNeighbour)?,"""), (ICP, "    point_clouds::find_nearest_neighbour_naive,\n", "")],
  needs="a NaN in either cloud with the tree option off",
  breaks="Candidates are compared with an unwrapped partial order, so a NaN distance aborts the registration.",
  demo='''
use mapping_algorithms::point_clouds::{icp, ICPConfiguration};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0.0f64, f64::NAN), Point2::new(1.0, 0.0)];
    assert!(icp(&[Point2::new(0.0, 0.0)], &cloud, ICPConfiguration::builder().build()).is_ok());
}
'''),
dict(id="ready-jarvis-precision", property="X01",
  edits=[(JM, "super::jarvis_march::<$prec, $t>(input, voxel_size)", "super::jarvis_march::<f32, $t>(input, voxel_size.map(|size| size as f32))")],
  needs="a double precision pre-generated march with coordinates that single precision cannot tell apart",
  breaks="The double precision variants calculate in single precision.",
  demo='''
use mapping_algorithms::polygons::{double_precision::jarvis_march_i64, jarvis_march};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0i64, 0), Point2::new(100_000_000, 99_999_999), Point2::new(200_000_000, 200_000_000), Point2::new(100_000_001, 100_000_003), Point2::new(50, 60)];
    assert_eq!(jarvis_march_i64(&cloud, None), jarvis_march::<f64, i64>(&cloud, None));
}
'''),
dict(id="ready-graham-flag", property="X01",
  edits=[(GS, "super::graham_scan::<$prec, $t>(input, assume_sorted, voxel_size)", "super::graham_scan::<$prec, $t>(input, assume_sorted || input.len() < 4, voxel_size)")],
  needs="a pre-generated scan of exactly three points that are not sorted",
  breaks="Three points are passed on as already sorted.",
  demo='''
use mapping_algorithms::polygons::{double_precision::graham_scan_f64, graham_scan};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(2.0, 0.0), Point2::new(0.0, 0.0), Point2::new(1.0, 3.0)];
    assert_eq!(graham_scan_f64(&cloud, false, None), graham_scan::<f64, f64>(&cloud, false, None));
}
'''),
dict(id="ready-line-via-isize", property="X01",
  edits=[(BR, "super::plot_bresenham_line::<$precision, $out, $nd>(start_point, end_point)", "super::plot_bresenham_line::<$precision, isize, $nd>(start_point, end_point)\n                        .into_iter()\n                        .map(|cell| cell.map(|element| element as $out))\n                        .collect()")],
  needs="an output type narrower than the coordinates (negative cells for an unsigned type), or fractional endpoints with a floating point output",
  breaks="Cells go through isize, which wraps where the direct conversion saturates and drops fractions.",
  demo='''
use mapping_algorithms::lines::{double_precision::plot_2d_u32_bresenham_line, plot_bresenham_line};
use nalgebra::Point2;
fn main() {
    let (a, b) = (Point2::new(-2.0, 0.0), Point2::new(2.0, 1.0));
    assert_eq!(plot_2d_u32_bresenham_line(a, b), plot_bresenham_line::<f64, u32, 2>(a, b));
}
'''),
dict(id="traced-first-candidate", property="X02",
  edits=[(NN, '    tracing::instrument("Find Closest Points", skip_all)', '    tracing::instrument("Find Closest Points", skip_all, fields(first = ?all_points[0]))')],
  needs="a build with tracing, a listener, and an empty candidate list",
  breaks="The span records the first candidate, which aborts for an empty list when somebody listens.",
  features=', features = ["tracing"]', deps='tracing = { version = "0.1.41", default-features = false }',
  demo='''
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use nalgebra::Point2;
use tracing::{span, Event, Metadata, Subscriber};
struct Listener;
impl Subscriber for Listener {
    fn enabled(&self, _: &Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id { span::Id::from_u64(1) }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
fn main() {
    tracing::dispatcher::set_global_default(tracing::Dispatch::new(Listener)).unwrap();
    assert_eq!(find_nearest_neighbour_naive::<f64, 2>(&Point2::new(0.0, 0.0), &[]), None);
}
'''),
dict(id="traced-transform", property="X02",
  edits=[("point_clouds/mod.rs", """    source_points
        .iter()
        .map(|point| isometry_matrix.transform_point(point))
        .collect()""", """    #[cfg(feature = "std")]
    let moved = source_points
        .iter()
        .map(|point| isometry_matrix.transform_point(point))
        .collect();
    #[cfg(not(feature = "std"))]
    let moved = source_points
        .iter()
        .map(|point| isometry_matrix.rotation.transform_point(&(point + isometry_matrix.translation.vector.clone())))
        .collect();
    moved""")],
  needs="a build without the standard library",
  breaks="Without the standard library points are translated before they are rotated.",
  features=', default-features = false',
  demo='''
use mapping_algorithms::point_clouds::transform_point_cloud;
use nalgebra::{Isometry2, Point2, Vector2};
fn main() {
    let moved = transform_point_cloud(&[Point2::new(0.0f64, 0.0)], Isometry2::new(Vector2::new(1.0, 2.0), 0.5));
    assert!((moved[0] - Point2::new(1.0, 2.0)).norm() < 1e-9);
}
'''),
dict(id="nostd-import", property="X02",
  edits=[(GS, "use core::fmt::Debug;\n", "use std::fmt::Debug;\n")],
  needs="a build without the standard library", breaks="The library does not build without the standard library.", compile=True,
  features=', default-features = false',
  demo='''
fn main() {}
'''),
]
