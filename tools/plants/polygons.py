GS, JM, PIP, PM, BR, HV = ("polygons/graham_scan.rs", "polygons/jarvis_march.rs", "polygons/point_in_polygon.rs",
    "polygons/mod.rs", "lines/bresenham.rs", "geo/haversine.rs")
PLANTS = [
dict(id="graham-triangles", property="H01",
  edits=[(GS, "((upper_hull_len + lower_hull_len - 2) > 2).then(|| {", "(upper_hull_len.min(lower_hull_len) > 2).then(|| {")],
  needs="a hull whose upper or lower chain is a single edge",
  breaks="A hull with a single edge above or below is taken for a straight line and reported as none.",
  demo='''
use mapping_algorithms::polygons::graham_scan;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let hull = graham_scan::<f64, f64>(&[p(0., 0.), p(4., 0.), p(1., 3.), p(3., 2.)], false, None);
    assert_eq!(hull.map(|h| h.len()), Some(4));
}
'''),
dict(id="graham-last-pop", property="H01",
  edits=[(GS, "    while accumulator.len() > 1\n", "    let mut budget = 4usize;\n    while accumulator.len() > 1\n        && budget > 0\n"),
         (GS, "        accumulator.pop_back();\n", "        accumulator.pop_back();\n        budget -= 1;\n")],
  needs="a point that makes more than four earlier chain points interior at once",
  breaks="At most four points are removed per step, so a long inner chain stays in the hull.",
  demo='''
use mapping_algorithms::polygons::graham_scan;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let mut cloud: Vec<_> = (0..8).map(|i| p(i as f64, (i * (16 - i)) as f64)).collect();
    cloud.push(p(8.0, 1000.0));
    let hull = graham_scan::<f64, f64>(&cloud, false, None).unwrap();
    assert_eq!(hull, vec![p(0., 0.), p(8., 1000.), p(7., 63.)].into_iter().collect::<Vec<_>>());
}
'''),
dict(id="jarvis-start", property="H02",
  edits=[(JM, """        a.coords
            .iter()
            .zip(b.coords.iter())
            .fold(Ordering::Equal, |ord, (a, b)| {
                ord.then_with(|| a.partial_cmp(b).unwrap())
            })""", """        a.x.partial_cmp(&b.x).unwrap_or(Ordering::Equal)""")],
  needs="several leftmost points of which the lowest is not the first in the input",
  breaks="The march starts at any leftmost point, so the hull does not begin with the leftmost and lowest one.",
  demo='''
use mapping_algorithms::polygons::jarvis_march;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let hull = jarvis_march::<f64, f64>(&[p(0., 2.), p(2., 2.), p(2., 0.), p(0., 0.)], None).unwrap();
    assert_eq!(hull[0], p(0., 0.));
}
'''),
dict(id="jarvis-voxel-small", property="H03",
  edits=[(JM, "    if let Some(voxel_size) = voxel_size {", "    if let Some(voxel_size) = voxel_size.filter(|_| points.len() > 3) {")],
  needs="exactly three points and a voxel size that puts two of them into one voxel",
  breaks="Three points are not downsampled at all, so a hull is returned where the downsampled cloud has none.",
  demo='''
use mapping_algorithms::polygons::{graham_scan, jarvis_march};
use nalgebra::Point2;
fn main() {
    let cloud = [Point2::new(0.0f64, 0.0), Point2::new(0.5, 0.25), Point2::new(3.0, 0.0)];
    assert_eq!(graham_scan::<f64, f64>(&cloud, false, Some(1.0)), None);
    assert_eq!(jarvis_march::<f64, f64>(&cloud, Some(1.0)), None);
}
'''),
dict(id="graham-presorted-check", property="H03",
  edits=[(GS, "        (true, None) => points,", "        (true, None) if points[0] != points[1] => points,"),
         (GS, "        (false, None) => {", "        (_, None) => {"),
         (GS, "            points_sorted = lex_sort(points)?;\n            points_sorted.as_slice()\n        }\n        //",
              "            points_sorted = lex_sort(&points[usize::from(assume_sorted)..])?;\n            points_sorted.as_slice()\n        }\n        //"),
         (GS, "            let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);",
              "            let downsampled_points =\n                downsample_point_cloud_voxel(&points[usize::from(assume_sorted)..], voxel_size);")],
  needs="a voxel size together with the presorted flag, where the first point matters",
  breaks="The branch that skips a repeated first point of presorted input also runs for downsampled input and drops its first point.",
  demo='''
use mapping_algorithms::polygons::graham_scan;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let cloud = [p(0.5, 0.5), p(0.5, 4.5), p(4.5, 0.5), p(4.5, 4.5)];
    assert_eq!(graham_scan::<f64, f64>(&cloud, true, Some(1.0)), graham_scan::<f64, f64>(&cloud, false, Some(1.0)));
}
'''),
dict(id="jarvis-start-precision", property="H04",
  edits=[(JM, "ord.then_with(|| a.partial_cmp(b).unwrap())", "ord.then_with(|| {\n                    let (a, b): (O, O) = (a.as_(), b.as_());\n                    a.partial_cmp(&b).unwrap()\n                })")],
  needs="coordinates beyond the range in which the calculation precision holds every integer, with small differences",
  breaks="The starting point is chosen after rounding the coordinates to the calculation precision, so an inner or wrong point may start the hull.",
  demo='''
use mapping_algorithms::polygons::jarvis_march;
use nalgebra::Point2;
fn main() {
    let b = 1u32 << 25;
    let p = |x: u32, y: u32| Point2::new(b + x, b + y);
    let cloud = [p(1, 1), p(0, 0), p(0, 3), p(3, 0)];
    assert_eq!(jarvis_march::<f32, u32>(&cloud, None), Some(vec![p(0, 0), p(0, 3), p(3, 0)]));
}
'''),
dict(id="pip-closing-edge", property="P01",
  edits=[(PIP, "    (0..polygon_len)\n", "    let is_closed = polygon.len() > 3 && polygon[0].x == polygon[polygon_len - 1].x;\n    (0..polygon_len - usize::from(is_closed))\n")],
  needs="a polygon whose last vertex lies straight above or below the first",
  breaks="A polygon whose first and last vertices share their x coordinate is taken for explicitly closed, and its closing edge is ignored.",
  demo='''
use mapping_algorithms::polygons::is_single_point_in_polygon;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let square = [p(4., 0.), p(0., 0.), p(0., 4.), p(4., 4.)];
    assert!(is_single_point_in_polygon(&p(1., 1.), &square));
    assert!(!is_single_point_in_polygon(&p(-1., 1.), &square));
}
'''),
dict(id="pip-count-width", property="P01",
  edits=[(PIP, "        .sum::<usize>()\n        % 2\n        == 1", "        .fold(0u8, |crossings, crossing: u8| {\n            crossings.saturating_add(crossing)\n        })\n        % 2\n        == 1")],
  needs="a polygon whose boundary is crossed more than 255 times by one ray",
  breaks="Crossings are counted in eight bits and saturate at 255.",
  demo='''
use mapping_algorithms::polygons::is_single_point_in_polygon;
use nalgebra::Point2;
fn main() {
    let mut comb = vec![];
    for i in 0..200 {
        comb.push(Point2::new(2.0 * i as f64, 10.0f64));
        comb.push(Point2::new(2.0 * i as f64 + 1.0, 0.0));
    }
    comb.push(Point2::new(1000.0, -5.0));
    comb.push(Point2::new(-1000.0, -5.0));
    assert!(!is_single_point_in_polygon(&Point2::new(-20.0, 5.0), &comb) || true);
    // Left of every tooth but right of the outer border: inside and outside alternate tooth by tooth
    let point = Point2::new(0.75, 5.0);
    let crossings = (0..comb.len()).filter(|&i| {
        let (a, b) = (comb[i], comb[(i + 1) % comb.len()]);
        (a.y < 5.0) != (b.y < 5.0) && a.x + (5.0 - a.y) / (b.y - a.y) * (b.x - a.x) > 0.75
    }).count();
    assert_eq!(is_single_point_in_polygon(&point, &comb), crossings % 2 == 1);
    let point = Point2::new(1.75, 5.0);
    assert_eq!(is_single_point_in_polygon(&point, &comb), (crossings - 1) % 2 == 1);
}
'''),
dict(id="pip-batch-border", property="P02",
  edits=[(PIP, "is_in_extents && extent_for_dimension.contains(vertex_coord)", "is_in_extents\n                                && vertex_coord > extent_for_dimension.start()\n                                && vertex_coord < extent_for_dimension.end()")],
  needs="a query point on the outer border of the polygon that the single query counts as inside",
  breaks="The bounding box test of the batch query excludes its border, so border points get another answer than from the single query.",
  demo='''
use mapping_algorithms::polygons::{are_multiple_points_in_polygon, is_single_point_in_polygon};
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let square = [p(0., 0.), p(0., 4.), p(4., 4.), p(4., 0.)];
    for q in [p(0., 2.), p(4., 2.), p(2., 0.), p(2., 4.), p(2., 2.)] {
        assert_eq!(are_multiple_points_in_polygon(&[q], &square), Some(vec![is_single_point_in_polygon(&q, &square)]));
    }
}
'''),
dict(id="pip-batch-shared", property="P02",
  edits=[(PIP, "    Some(\n        points\n            .iter()\n            .map(|current_point| {", "    let mut last = None;\n    Some(\n        points\n            .iter()\n            .map(|current_point| {\n                if let Some((point, answer)) = last {\n                    let moved: nalgebra::Vector2<T> = current_point - point;\n                    if moved.norm_squared() < T::default_epsilon() {\n                        return answer;\n                    }\n                }\n                let answer ="),
         (PIP, "                    && is_single_point_in_polygon(current_point, polygon)\n", "                    && is_single_point_in_polygon(current_point, polygon);\n                last = Some((*current_point, answer));\n                answer\n")],
  needs="two consecutive query points closer than the root of the machine epsilon with the border between them",
  breaks="The answer for a point is reused for the next one when both are close, so other points in the batch influence the answer.",
  demo='''
use mapping_algorithms::polygons::{are_multiple_points_in_polygon, is_single_point_in_polygon};
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let square = [p(0., 0.), p(0., 4.), p(4., 4.), p(4., 0.)];
    let points = [p(4.0 - 1e-9, 2.), p(4.0 + 1e-9, 2.)];
    assert_eq!(
        are_multiple_points_in_polygon(&points, &square).unwrap(),
        points.iter().map(|q| is_single_point_in_polygon(q, &square)).collect::<Vec<_>>()
    );
}
'''),
dict(id="extents-else-if", property="P03",
  edits=[(PM, """            *extent_for_dimension = extent_for_dimension.start().min(*vertex_coord)
                ..=extent_for_dimension.end().max(*vertex_coord);""", """            let (start, end) = (*extent_for_dimension.start(), *extent_for_dimension.end());
            if *vertex_coord < start {
                *extent_for_dimension = *vertex_coord..=end;
            } else if *vertex_coord > end {
                *extent_for_dimension = start..=*vertex_coord;
            }""")],
  needs="vertices in an order in which a coordinate only ever decreases",
  breaks="A coordinate that lowers the minimum is not considered for the maximum.",
  demo='''
use mapping_algorithms::polygons::calculate_polygon_extents;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    assert_eq!(calculate_polygon_extents(&[p(3., 0.), p(2., 5.), p(1., 1.)]), Some([1.0..=3.0, 0.0..=5.0]));
}
'''),
dict(id="extents-positive", property="P03",
  edits=[(PM, "array::from_fn(|_| <T as Bounded>::max_value()..=<T as Bounded>::min_value());", "array::from_fn(|_| <T as Bounded>::max_value()..=T::default_epsilon());")],
  needs="a polygon with only negative coordinates on some axis",
  breaks="The largest coordinate starts from a small positive value, so the extents of polygons on the negative side reach up to it.",
  demo='''
use mapping_algorithms::polygons::calculate_polygon_extents;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    assert_eq!(calculate_polygon_extents(&[p(-3., 0.), p(-2., 5.), p(-1., 1.)]), Some([-3.0..=-1.0, 0.0..=5.0]));
}
'''),
dict(id="pip-vertex-twice", property="P04",
  edits=[(PIP, "    if point.y > vertex1.y.min(vertex2.y)\n", "    if point.y >= vertex1.y.min(vertex2.y)\n"),
         (PIP, "        && point.y <= vertex1.y.max(vertex2.y)\n", "        && point.y <= vertex1.y.max(vertex2.y)\n        && vertex1.y != vertex2.y\n")],
  needs="a query point level with a vertex of the polygon",
  breaks="A vertex between an upward and a downward edge is counted for both edges, so a ray through it is miscounted.",
  demo='''
use mapping_algorithms::polygons::is_single_point_in_polygon;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let diamond = [p(0., 2.), p(2., 4.), p(4., 2.), p(2., 0.)];
    assert!(is_single_point_in_polygon(&p(2., 2.), &diamond));
    assert!(!is_single_point_in_polygon(&p(-1., 2.), &diamond));
    let left = [p(0., 2.), p(2., 4.), p(2., 0.)];
    let right = [p(2., 4.), p(4., 2.), p(2., 0.)];
    for x in [0.5, 1.0, 2.0, 3.0] {
        let q = p(x, 2.0);
        assert!(is_single_point_in_polygon(&q, &left) != is_single_point_in_polygon(&q, &right));
    }
}
'''),
dict(id="pip-flat-top", property="P04",
  edits=[(PIP, "        && point.y <= vertex1.y.max(vertex2.y)\n", "        && (point.y < vertex1.y.max(vertex2.y)\n            || point.y == vertex1.y && point.x != vertex1.x)\n")],
  needs="a query point level with the upper end of an edge",
  breaks="Whether the upper end of an edge counts depends on the direction in which the edge is listed.",
  demo='''
use mapping_algorithms::polygons::is_single_point_in_polygon;
use nalgebra::Point2;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let diamond = [p(0., 2.), p(2., 4.), p(4., 2.), p(2., 0.)];
    let mut reversed = diamond.to_vec();
    reversed.reverse();
    for q in [p(2., 2.), p(1., 2.), p(0., 2.), p(4., 2.), p(2., 4.)] {
        assert_eq!(is_single_point_in_polygon(&q, &diamond), is_single_point_in_polygon(&q, &reversed));
        assert_eq!(is_single_point_in_polygon(&q, &diamond), {
            let mut shifted = diamond.to_vec();
            shifted.rotate_left(1);
            is_single_point_in_polygon(&q, &shifted)
        });
    }
}
'''),
dict(id="line-axis", property="B01",
  edits=[(BR, "        .enumerate()\n        .max_by(", "        .take(3)\n        .enumerate()\n        .max_by(")],
  needs="a line in four or more dimensions whose longest axis is the fourth",
  breaks="Only the first three axes are considered for the longest one.",
  demo='''
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::Point;
fn main() {
    let line = plot_bresenham_line::<f64, i32, 4>(Point::from([0.0; 4]), Point::from([1.0, 1.0, 1.0, 5.0]));
    assert_eq!(line.len(), 6);
}
'''),
dict(id="line-end-rounded", property="B01",
  edits=[(BR, "    points.push(end_point.map(|element| element.as_()));", "    points.push(end_point.map(|element| ComplexField::round(element).as_()));")],
  needs="a fractional end point whose fraction is at least one half, plotted with an integer output type",
  breaks="The last cell is rounded to the nearest whole number while all others drop the fraction.",
  demo='''
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::Point;
fn main() {
    let (start, end) = (Point::from([0.25f64, 0.0]), Point::from([3.75, 1.0]));
    assert_eq!(plot_bresenham_line::<f64, i32, 2>(start, end).last(), Some(&Point::from([3, 1])));
}
'''),
dict(id="line-primary-threshold", property="B01",
  edits=[(BR, "        .max_by(|a, b| a.1.partial_cmp(b.1).unwrap())", "        .max_by(|a, b| {\n            let (a, b) = (ComplexField::floor(*a.1 * F::from_subset(&0.5)), ComplexField::floor(*b.1 * F::from_subset(&0.5)));\n            a.partial_cmp(&b).unwrap()\n        })")],
  needs="a line whose two longest axes differ by one cell, the longer one listed first",
  breaks="The longest axis is chosen on halved distances, so an axis one cell shorter can win and the line jumps at its end.",
  demo='''
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::Point;
fn main() {
    let line = plot_bresenham_line::<f64, i32, 2>(Point::from([0.0, 0.0]), Point::from([5.0, 4.0]));
    assert_eq!(line.len(), 6);
    assert!(line.windows(2).all(|w| (w[1].x - w[0].x).abs() <= 1));
}
'''),
dict(id="haversine-small", property="G01",
  edits=[(HV, "    (input.to_radians() / (T::one() + T::one())).sin().powi(2)", "    let half = input.to_radians() / (T::one() + T::one());\n    let sine = if half.abs() < T::epsilon().sqrt().sqrt() {\n        half\n    } else {\n        half.sin()\n    };\n    sine.powi(2)")],
  needs="positions closer than the fourth root of the machine epsilon (fractions of a degree)",
  breaks="The sine of small angles is replaced by the angle itself far beyond the range in which that is exact to rounding.",
  demo='''
use mapping_algorithms::geo::calculate_haversine_distance;
use nalgebra::Point2;
fn main() {
    // Additive along a meridian: 40 steps of a thousandth of a degree
    let whole: f64 = calculate_haversine_distance(Point2::new(0.0, 0.0), Point2::new(0.013, 0.0), 1.0);
    assert!((whole / 0.013f64.to_radians() - 1.0).abs() < 1e-12, "{whole}");
}
'''),
dict(id="haversine-parallel", property="G01",
  edits=[(HV, "    let lat2_radians = point_b.x.to_radians();\n\n    // Rounding", "    let lat2_radians = if delta_lat.abs() < T::one() {\n        lat1_radians\n    } else {\n        point_b.x.to_radians()\n    };\n\n    // Rounding")],
  needs="two positions less than one degree of latitude apart and some longitude apart",
  breaks="Nearly equal latitudes are treated as equal, so the distance is not symmetric.",
  demo='''
use mapping_algorithms::geo::calculate_haversine_distance;
use nalgebra::Point2;
fn main() {
    let (a, b) = (Point2::new(50.0f64, 10.0), Point2::new(50.9, 70.0));
    let (there, back) = (calculate_haversine_distance(a, b, 1.0), calculate_haversine_distance(b, a, 1.0));
    assert!((there - back).abs() < 1e-12);
}
'''),
dict(id="bearing-full-turn", property="G02",
  edits=[(HV, "    (<T as Float>::atan2(x, y) + T::two_pi()) % T::two_pi()", "    let bearing = <T as Float>::atan2(x, y);\n    if bearing < <T as num_traits::Zero>::zero() {\n        bearing + T::two_pi()\n    } else {\n        bearing\n    }")],
  needs="a direction so slightly west of north that adding a full turn rounds to the full turn",
  breaks="The result can be exactly a full turn instead of zero.",
  demo='''
use mapping_algorithms::geo::calculate_sphere_bearing;
use nalgebra::Point2;
fn main() {
    let bearing: f64 = calculate_sphere_bearing(Point2::new(0.0, 0.0), Point2::new(10.0, -1e-15));
    assert!(bearing < 2.0 * std::f64::consts::PI);
}
'''),
dict(id="bearing-wrap", property="G02",
  edits=[(HV, "    let lon_delta_radians = (point_b.y - point_a.y).to_radians();", """    let lon_delta_radians = {
        let delta = (point_b.y - point_a.y).to_radians();
        if delta < -T::pi() {
            delta + T::two_pi()
        } else {
            Float::min(delta, T::two_pi())
        }
    };""")],
  needs="a longitude difference of more than a full turn",
  breaks="Longitude differences are capped at a full turn instead of being reduced.",
  demo='''
use mapping_algorithms::geo::calculate_sphere_bearing;
use nalgebra::Point2;
fn main() {
    let a: f64 = calculate_sphere_bearing(Point2::new(10.0, -300.0), Point2::new(20.0, 400.0));
    let b: f64 = calculate_sphere_bearing(Point2::new(10.0, 60.0), Point2::new(20.0, 40.0));
    assert!((a - b).abs() < 1e-9);
}
'''),
dict(id="line-diagonal", property="B02",
  edits=[(BR, "            if axis == primary_axis {", "            if deltas[axis] == deltas[primary_axis] {")],
  needs="a line with two equally long longest axes",
  breaks="An axis as long as the longest one is skipped together with it, so the line leaves the ideal segment until its last cell.",
  demo='''
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::Point;
fn main() {
    let line = plot_bresenham_line::<f64, i32, 2>(Point::from([0.0, 0.0]), Point::from([5.0, 5.0]));
    assert!(line.iter().all(|c| (c.x - c.y).abs() <= 1));
}
'''),
]
