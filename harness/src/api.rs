//! The pre-generated functions, in place of the generic ones they stand for.
//!
//! When switched on, each of these answers for the type combinations that a pre-generated function
//! exists for (noting its name) and declines the others.

use mapping_algorithms::{geo, lines, point_clouds, polygons};
use nalgebra::{Point, Point2, Scalar};
use point_clouds::{ICPConfiguration, ICPResult};
use std::any::Any;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static CALLED: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());

pub fn switch(on: bool) {
    ON.store(on, Ordering::SeqCst);
}
fn on() -> bool {
    ON.load(Ordering::SeqCst)
}
fn note(name: &'static str) {
    CALLED.lock().unwrap().insert(name);
}
/// The names of the pre-generated functions that were called.
pub fn called() -> Vec<String> {
    CALLED.lock().unwrap().iter().map(|s| s.to_string()).collect()
}

/// The value as one of type `B`, which must be its type.
fn cast<A: Any, B: Any>(a: A) -> B {
    let mut a = Some(a);
    (&mut a as &mut dyn Any).downcast_mut::<Option<B>>().unwrap().take().unwrap()
}
fn is<A: Any, B: Any>() -> bool {
    std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>()
}

macro_rules! lines {
    ($s:ident, $e:ident, $f:ident, $t:ident, $n:ident: $($p:ident $prec:ty, $d:literal, $out:ty, $name:ident;)*) => {
        $(if is::<($f, $t), ($prec, $out)>() && $n == $d {
            note(concat!(stringify!($p), "::", stringify!($name)));
            return Some(cast(lines::$p::$name(cast($s), cast($e))));
        })*
    };
}
macro_rules! line_types {
    ($s:ident, $e:ident, $f:ident, $t:ident, $n:ident: $($p:ident $prec:ty;)*) => {
        $(lines!($s, $e, $f, $t, $n:
            $p $prec, 2, i32, plot_2d_i32_bresenham_line; $p $prec, 3, i32, plot_3d_i32_bresenham_line;
            $p $prec, 2, i64, plot_2d_i64_bresenham_line; $p $prec, 3, i64, plot_3d_i64_bresenham_line;
            $p $prec, 2, isize, plot_2d_isize_bresenham_line; $p $prec, 3, isize, plot_3d_isize_bresenham_line;
            $p $prec, 2, u32, plot_2d_u32_bresenham_line; $p $prec, 3, u32, plot_3d_u32_bresenham_line;
            $p $prec, 2, u64, plot_2d_u64_bresenham_line; $p $prec, 3, u64, plot_3d_u64_bresenham_line;
            $p $prec, 2, usize, plot_2d_usize_bresenham_line; $p $prec, 3, usize, plot_3d_usize_bresenham_line;
            $p $prec, 2, f32, plot_2d_f32_bresenham_line; $p $prec, 3, f32, plot_3d_f32_bresenham_line;
            $p $prec, 2, f64, plot_2d_f64_bresenham_line; $p $prec, 3, f64, plot_3d_f64_bresenham_line;
        );)*
    };
}
pub fn line<F: Scalar, T: Scalar, const N: usize>(s: Point<F, N>, e: Point<F, N>) -> Option<Vec<Point<T, N>>> {
    if on() {
        line_types!(s, e, F, T, N: single_precision f32; double_precision f64;);
    }
    None
}

macro_rules! hulls {
    ($input:ident, $sorted:ident, $voxel:ident, $jarvis:ident, $o:ident, $t:ident: $($p:ident $prec:ty: $($pt:ident $graham:ident $march:ident),*;)*) => {
        $($(if is::<($o, $t), ($prec, $pt)>() {
            let input: Vec<Point2<$pt>> = cast($input.to_vec());
            return Some(cast(if $jarvis {
                note(concat!(stringify!($p), "::", stringify!($march)));
                polygons::$p::$march(&input, cast($voxel))
            } else {
                note(concat!(stringify!($p), "::", stringify!($graham)));
                polygons::$p::$graham(&input, $sorted, cast($voxel))
            }));
        })*)*
    };
}
/// `sorted` only concerns the Graham scan.
pub fn hull<O: Scalar, T: Scalar>(jarvis: bool, input: &[Point2<T>], sorted: bool, voxel: Option<O>) -> Option<Option<Vec<Point2<T>>>> {
    if on() {
        macro_rules! all {
            ($p:ident $prec:ty) => {
                hulls!(input, sorted, voxel, jarvis, O, T: $p $prec:
                    u8 graham_scan_u8 jarvis_march_u8, u16 graham_scan_u16 jarvis_march_u16, u32 graham_scan_u32 jarvis_march_u32,
                    u64 graham_scan_u64 jarvis_march_u64, usize graham_scan_usize jarvis_march_usize,
                    i8 graham_scan_i8 jarvis_march_i8, i16 graham_scan_i16 jarvis_march_i16, i32 graham_scan_i32 jarvis_march_i32,
                    i64 graham_scan_i64 jarvis_march_i64, isize graham_scan_isize jarvis_march_isize,
                    f32 graham_scan_f32 jarvis_march_f32, f64 graham_scan_f64 jarvis_march_f64;);
            };
        }
        all!(single_precision f32);
        all!(double_precision f64);
    }
    None
}

macro_rules! both {
    ($t:ident: $name:ident, $f:expr, $g:expr) => {
        if on() && is::<$t, f32>() {
            note(concat!("single_precision::", stringify!($name)));
            return Some($f);
        }
        if on() && is::<$t, f64>() {
            note(concat!("double_precision::", stringify!($name)));
            return Some($g);
        }
    };
}
pub fn inside<T: Scalar>(q: &Point2<T>, polygon: &[Point2<T>]) -> Option<bool> {
    both!(T: is_single_point_in_polygon,
        polygons::single_precision::is_single_point_in_polygon(&cast(q.clone()), &cast::<_, Vec<Point2<f32>>>(polygon.to_vec())),
        polygons::double_precision::is_single_point_in_polygon(&cast(q.clone()), &cast::<_, Vec<Point2<f64>>>(polygon.to_vec())));
    None
}
pub fn inside_all<T: Scalar>(qs: &[Point2<T>], polygon: &[Point2<T>]) -> Option<Option<Vec<bool>>> {
    both!(T: are_multiple_points_in_polygon,
        polygons::single_precision::are_multiple_points_in_polygon(&cast::<_, Vec<Point2<f32>>>(qs.to_vec()), &cast::<_, Vec<Point2<f32>>>(polygon.to_vec())),
        polygons::double_precision::are_multiple_points_in_polygon(&cast::<_, Vec<Point2<f64>>>(qs.to_vec()), &cast::<_, Vec<Point2<f64>>>(polygon.to_vec())));
    None
}
pub fn distance<T: Scalar>(a: Point2<T>, b: Point2<T>, radius: T) -> Option<T> {
    both!(T: calculate_haversine_distance,
        cast(geo::single_precision::calculate_haversine_distance(cast(a), cast(b), cast(radius))),
        cast(geo::double_precision::calculate_haversine_distance(cast(a), cast(b), cast(radius))));
    None
}
pub fn bearing<T: Scalar>(a: Point2<T>, b: Point2<T>) -> Option<T> {
    both!(T: calculate_sphere_bearing,
        cast(geo::single_precision::calculate_sphere_bearing(cast(a), cast(b))),
        cast(geo::double_precision::calculate_sphere_bearing(cast(a), cast(b))));
    None
}

pub fn register<T: nalgebra::RealField + Copy + num_traits::Float, R: nalgebra::AbstractRotation<T, N> + 'static, const N: usize>(
    a: &[Point<T, N>],
    b: &[Point<T, N>],
    c: &ICPConfiguration<T>,
) -> Option<ICPResult<T, R, N>> {
    macro_rules! dim {
        ($p:ident $prec:ty, $d:literal, $name:ident) => {
            if on() && is::<T, $prec>() && N == $d {
                note(concat!(stringify!($p), "::", stringify!($name)));
                let (a, b): (Vec<Point<$prec, $d>>, Vec<Point<$prec, $d>>) = (cast(a.to_vec()), cast(b.to_vec()));
                return Some(cast(point_clouds::$p::$name(&a, &b, cast(c.clone()))));
            }
        };
    }
    dim!(single_precision f32, 2, icp_2d);
    dim!(single_precision f32, 3, icp_3d);
    dim!(double_precision f64, 2, icp_2d);
    dim!(double_precision f64, 3, icp_3d);
    None
}
