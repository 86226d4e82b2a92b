use transform::ptv_spec::*;
use reflection::ptv_spec::dot3;
use vector::Point2;
use common::INFINITY;

/// cotangent of half an angle in degrees
fn cot(fov: f32) -> f32 {
    let h = fov * (::std::f32::consts::PI / 360.);
    let (s, c) = (h.sin(), h.cos());
    assume(s > 0. && c > 0.);     // so for angles between 0 and 180 degrees
    c / s
}
struct View { fov: f32, k: f32, n: f32, f: f32, x0: f32, y0: f32, w: f32, h: f32, rx: u32, ry: u32 }
fn any_view() -> View {
    let (fov, n, d) = (real_in(1., 179.), pos(), pos());
    native_assume(fov > 5. && fov < 150. && n > 0.01 && n < 10. && d > 0.1 && d < 1000.);
    let (x0, y0, w, h) = (real(), real(), pos(), pos());
    native_assume(x0.abs() < 10. && y0.abs() < 10. && w > 0.1 && w < 20. && h > 0.1 && h < 20.);
    View { fov, k: cot(fov), n, f: n + d, x0, y0, w, h, rx: uint(1, 65536), ry: uint(1, 65536) }
}
fn camera(v: &View, c2w: Transform) -> PerspectiveCamera {
    PerspectiveCamera::new(c2w, Transform::perspective(v.fov, v.n, v.f), BBox2f { min: Point2f::new(v.x0, v.y0), max: Point2f::new(v.x0 + v.w, v.y0 + v.h) }, Point2::new(v.rx, v.ry))
}
pub fn h_c10_projection() {
    let v = any_view();
    let c = camera(&v, Transform::scale(1., 1., 1.));
    let (fx, fy) = (real(), real());
    native_assume(fx > -10. && fy > -10. && fx < v.rx as f32 + 10. && fy < v.ry as f32 + 10.);
    let r = c.generate_ray(&CameraSample { p_film: Point2f::new(fx, fy) });
    check(r.origin.x == 0. && r.origin.y == 0. && r.origin.z == 0., "starts at the camera");
    check(r.t_max == INFINITY, "unlimited extent");
    let d = r.direction;
    close(dot3(d, d), 1., "unit direction");
    check(d.z > 0., "the ray goes forwards");
    // the point of the ray at distance 1 along the axis, seen through the perspective transform
    let k = v.k;
    let (sx, sy) = (v.x0 + fx / v.rx as f32 * v.w, v.y0 + v.h - fy / v.ry as f32 * v.h);
    let s = 10. * (1. + sx.abs() + sy.abs()) * (1. + k);
    native_assume(sx.abs() < 50. && sy.abs() < 50.);
    close_s(k * d.x, sx * d.z, s, "projects onto the film's x, rightwards from the window's minimum");
    close_s(k * d.y, sy * d.z, s, "projects onto the film's y, downwards from the window's maximum");
}
/// what the projection of any point at depth z is, for `k` above
pub fn h_c10_perspective() {
    let (fov, n, d) = (real_in(1., 179.), pos(), pos());
    native_assume(fov > 5. && fov < 150. && n > 0.01 && n < 10. && d > 0.1 && d < 1000.);
    let k = cot(fov);
    let t = Transform::perspective(fov, n, n + d);
    let (x, y, z) = (real(), real(), pos());
    native_assume(x.abs() < 100. && y.abs() < 100. && z > 0.1);
    let p = t.apply(&Point3f::new(x, y, z));
    let s = 10. * (1. + k) * (1. + x.abs() + y.abs());
    close_s(p.x * z, k * x, s, "perspective x");
    close_s(p.y * z, k * y, s, "perspective y");
}
pub fn h_c10_world() {
    let v = any_view();
    let t = any_affine();
    let (a, b) = (camera(&v, Transform::scale(1., 1., 1.)), camera(&v, t));
    let (fx, fy) = (real(), real());
    native_assume(fx.abs() < 1e5 && fy.abs() < 1e5);
    let sample = CameraSample { p_film: Point2f::new(fx, fy) };
    let r = a.generate_ray(&sample);
    let q = b.generate_ray(&sample);
    let (o, d) = (t.apply(&Point3f::default()), t.apply(&r.direction));
    let s = 100.;
    close_s(q.origin.x, o.x, s, "starts at the camera's position (x)");
    close_s(q.origin.y, o.y, s, "starts at the camera's position (y)");
    close_s(q.origin.z, o.z, s, "starts at the camera's position (z)");
    close_s(q.direction.x, d.x, s, "direction taken to world space (x)");
    close_s(q.direction.y, d.y, s, "direction taken to world space (y)");
    close_s(q.direction.z, d.z, s, "direction taken to world space (z)");
    check(q.t_max == INFINITY, "unlimited extent in world space");
}
