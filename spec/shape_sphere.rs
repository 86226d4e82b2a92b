use transform::ptv_spec::*;
use reflection::BSDF;
use reflection::ptv_spec::dot3;
use common::ptv_spec::{quadratic_contract, quadratic_function};
use common::INFINITY;

struct Nothing {}
impl Material for Nothing { fn compute_scattering(&self, _: &Interaction) -> BSDF { panic!() } }
fn ball(center: Point3f, radius: f32) -> Sphere { Sphere::new(center, radius, Arc::new(Nothing {})) }
fn any_ball() -> (Sphere, Point3f, f32) {
    let (c, r) = (any_point(), pos());
    native_assume(c.x.abs() + c.y.abs() + c.z.abs() < 50. && r > 0.05 && r < 50.);
    (ball(c, r), c, r)
}
fn v(p: Point3f) -> Vector3f { Vector3f::new(p.x, p.y, p.z) }

/// a ray relative to the centre, and the signed distance function (squared) along it
fn any_ray(c: Point3f) -> (Ray, Vector3f, Vector3f) {
    let (o, d) = (any_vector(), any_vector());
    assume(dot3(d, d) > 0.);
    native_assume(dot3(d, d) > 0.01 && dot3(o, o) < 400.);
    let t_max = pos();
    (Ray { origin: c + Point3f::new(o.x, o.y, o.z), direction: d, t_max }, o, d)
}
fn f(o: Vector3f, d: Vector3f, r: f32, s: f32) -> f32 {
    let p = Vector3f::new(o.x + d.x * s, o.y + d.y * s, o.z + d.z * s);
    dot3(p, p) - r * r
}
/// f(s) = a (s - t0) (s - t1), and s is neither root: the ray is not on the sphere at s
fn no_hit_at(o: Vector3f, d: Vector3f, r: f32, s: f32, t0: f32, t1: f32) {
    let a = dot3(d, d);
    let scale = dot3(o, o) + a * s * s + r * r;
    native_assume(s.abs() < 100.);
    close_s(f(o, d, r, s), a * (s - t0) * (s - t1), scale, "distance function factored by the roots");
    check(!symbolic() || s != t0 && s != t1, "no earlier point of the ray is on the sphere");
    // natively: the ray does not change sides before the hit
    let f0 = f(o, d, r, 0.);
    check(symbolic() || f0 * f(o, d, r, s) >= -2e-3 * scale * scale, "the ray does not cross the sphere before the hit");
}
fn roots(o: Vector3f, d: Vector3f, r: f32) -> Option<(f32, f32)> {
    if emitted("no roots") > 0 { return None; }
    if emitted("roots") > 0 { return Some((event("roots", 0, 0), event("roots", 0, 1))); }
    let (a, b, c) = (dot3(d, d), 2. * dot3(d, o), dot3(o, o) - r * r);
    let k = b * b - 4. * a * c;
    if k < 0. { None } else { Some(((-b - k.sqrt()) / (2. * a), (-b + k.sqrt()) / (2. * a))) }
}
fn nearest(unlimited: bool) {
    let (b, c, r) = any_ball();
    let (mut ray, o, d) = any_ray(c);
    if unlimited { ray.t_max = INFINITY; }
    let a = dot3(d, d);
    let got = b.intersect(&ray).map(|x| x.1);
    let s = pos();
    match (got, roots(o, d, r)) {
        (Some(t), Some((t0, t1))) => {
            check(0. < t && t < ray.t_max, "hit parameter is within the ray");
            let scale = dot3(o, o) + a * t * t + r * r;
            close_s(f(o, d, r, t), a * (t - t0) * (t - t1), scale, "distance function factored by the roots (hit)");
            check(!symbolic() || t == t0 || t == t1, "hit is on the sphere");
            close_s(if symbolic() { 0. } else { f(o, d, r, t) }, 0., scale, "hit is on the sphere");
            assume(s < t);
            no_hit_at(o, d, r, s, t0, t1);
        }
        (None, Some((t0, t1))) => {
            assume(s < ray.t_max);
            no_hit_at(o, d, r, s, t0, t1);
        }
        (g, None) => {
            native_assume(false);
            check(g.is_none(), "a ray that misses the sphere has no hit");
            // no real root at all: 4 a f(s) = (2 a s + b)^2 - discriminant > 0
            let b = 2. * dot3(d, o);
            let k = b * b - 4. * a * (dot3(o, o) - r * r);
            check(!symbolic() || k < 0., "discriminant is negative");
            close_s(4. * a * f(o, d, r, s), (2. * a * s + b) * (2. * a * s + b) - k, a * (dot3(o, o) + a * s * s + r * r), "completed square: a ray without roots stays outside");
        }
    }
}
fn interaction_contract(_: &Sphere, _: &Ray, t: f32) -> (Interaction, f32) { (Interaction::default(), t) }
pub fn h_c12_nearest_limited() {
    stub(quadratic, quadratic_contract);
    stub(Sphere::compute_interaction, interaction_contract);
    nearest(false);
}
pub fn h_c12_nearest_unlimited() {
    stub(quadratic, quadratic_contract);
    stub(Sphere::compute_interaction, interaction_contract);
    nearest(true);
}
pub fn h_c12_boolean_agrees() {
    stub(quadratic, quadratic_function);
    let (b, c, _) = any_ball();
    let (ray, _, _) = any_ray(c);
    check(b.intersect_p(&ray) == b.intersect(&ray).is_some(), "boolean query agrees with the detailed one");
}
/// natively and exactly: a point chosen on the sphere first, then a ray towards it
pub fn h_c12_hit_through_point() {
    stub(quadratic, quadratic_contract);
    let (b, c, r) = any_ball();
    let q = any_vector();
    assume(dot3(q, q) < r * r);
    native_assume(dot3(q, q) < 0.9 * r * r);
    let (d, t) = (any_vector(), pos());
    assume(dot3(d, d) > 0.);
    native_assume(dot3(d, d) > 0.1 && dot3(d, d) < 100. && t < 50.);
    // a ray through a point inside, starting anywhere before it, unlimited: always hits
    let o = q - d * t;
    let ray = Ray { origin: c + Point3f::new(o.x, o.y, o.z), direction: d, t_max: INFINITY };
    close_s(f(o, d, r, t), dot3(q, q) - r * r, 1., "lemma: inside");
    let hit = b.intersect_p(&ray);
    if let Some((t0, t1)) = roots(o, d, r) {
        let a = dot3(d, d);
        close_s(f(o, d, r, t), a * (t - t0) * (t - t1), 1e3, "lemma: factored");
        check(!symbolic() || a * (t - t0) * (t - t1) < 0., "lemma: negative");
        check(!symbolic() || (t - t0) * (t - t1) < 0., "lemma: between the roots");
        check(!symbolic() || t < t1, "lemma: before the larger root");
    } else {
        let a = dot3(d, d);
        let k = if symbolic() { event("no roots", 0, 0) } else { 4. * dot3(d, o) * dot3(d, o) - 4. * a * (dot3(o, o) - r * r) };
        close_s((2. * a * t + 2. * dot3(d, o)) * (2. * a * t + 2. * dot3(d, o)) - 4. * a * f(o, d, r, t), k, 1e5, "lemma: discriminant");
        check(!symbolic() || (2. * a * t + 2. * dot3(d, o)) * (2. * a * t + 2. * dot3(d, o)) - 4. * a * f(o, d, r, t) > 0., "lemma: two roots");
        check(!symbolic() || k > 0., "lemma: positive discriminant");
    }
    check(hit, "a ray to a point inside the sphere hits it");
}
/// the reported point, its normal and frame; q is any point on the sphere
fn frame(q: Vector3f, r: f32) {
    let c = any_point();
    native_assume(c.x.abs() + c.y.abs() + c.z.abs() < 50.);
    let b = ball(c, r);
    let d = any_vector();
    let t = pos();
    native_assume(dot3(d, d) > 0.1 && dot3(d, d) < 100. && t < 20.);
    let o = Point3f::new(q.x - d.x * t, q.y - d.y * t, q.z - d.z * t);
    let ray = Ray { origin: o, direction: d, t_max: INFINITY };
    let (i, t2) = b.compute_interaction(&ray, t);
    check(t2 == t, "parameter is passed on");
    let s = 1. + c.x.abs() + c.y.abs() + c.z.abs() + r + t * d.length();
    close_s(i.p.x, c.x + q.x, s, "reported point x");
    close_s(i.p.y, c.y + q.y, s, "reported point y");
    close_s(i.p.z, c.z + q.z, s, "reported point z");
    close_s(i.n.x, q.x / r, s / r, "unit outward normal x");
    close_s(i.n.y, q.y / r, s / r, "unit outward normal y");
    close_s(i.n.z, q.z / r, s / r, "unit outward normal z");
    close(i.sn.x, i.n.x, "shading normal x");
    close(i.sn.y, i.n.y, "shading normal y");
    close(i.sn.z, i.n.z, "shading normal z");
    let n = Vector3f::from(i.n);
    close_s(dot3(n, i.dpdu), 0., r + i.dpdu.length(), "first tangent is perpendicular to the normal");
    close_s(dot3(n, i.dpdv), 0., r + i.dpdv.length(), "second tangent is perpendicular to the normal");
    check(dot3(i.dpdu, i.dpdu) > 0., "first tangent is not zero");
    check(dot3(i.dpdv, i.dpdv) > 0., "second tangent is not zero");
    close_s(dot3(i.dpdu, i.dpdv), 0., r * r * 40., "tangents are perpendicular to each other");
    // half a rounding unit, and room for f32 to differ from the exact point
    let (lo, hi) = (5e-8, 1e-4);
    let q = if symbolic() { q } else { v(ray.position(t)) };
    check(lo * q.x.abs() <= i.p_err.x && lo * q.y.abs() <= i.p_err.y && lo * q.z.abs() <= i.p_err.z, "error bound covers the rounding of the coordinates");
    let m = if symbolic() { 0. } else { r };
    check(i.p_err.x <= hi * (q.x.abs() + m) && i.p_err.y <= hi * (q.y.abs() + m) && i.p_err.z <= hi * (q.z.abs() + m), "error bound is small");
    let (phi, theta) = (i.uv.x, i.uv.y);
    check(0. <= phi && phi <= 2. * PI && 0. <= theta && theta <= PI, "surface coordinates are angles in range");
    close_s(r * theta.cos(), q.z, s, "second surface coordinate is the polar angle");
    // an angle is known only by its sine and cosine to the prover
    if !symbolic() && q.x * q.x + q.y * q.y > 0.1 * r * r {
        close_s(r * theta.sin() * phi.cos(), q.x, s, "first surface coordinate is the azimuth (x)");
        close_s(r * theta.sin() * phi.sin(), q.y, s, "first surface coordinate is the azimuth (y)");
    }
    close(i.wo.x, -d.x, "outgoing direction x");
    close(i.wo.y, -d.y, "outgoing direction y");
    close(i.wo.z, -d.z, "outgoing direction z");
    check(i.shape.is_none(), "shape is left unset");
}
pub fn h_c12_frame() {
    let q = any_vector();
    let r = pos();
    if symbolic() { assume(dot3(q, q) == r * r); } else { assume(q.length() > 0.1); }
    assume(q.x != 0. || q.y != 0.);
    native_assume(q.x * q.x + q.y * q.y > 1e-3);
    frame(q, if symbolic() { r } else { q.length() });
}
pub fn h_c12_frame_poles() {
    let r = pos();
    native_assume(r > 0.05 && r < 50.);
    let q = Vector3f::new(0., 0., if boolean() { r } else { -r });
    let c = any_point();
    // exactly along the axis, so that rounding keeps the point at the pole
    let b = ball(c, r);
    let ray = Ray { origin: Point3f::new(0., 0., q.z * 2.), direction: Vector3f::new(0., 0., -q.z), t_max: INFINITY };
    let (i, _) = b.compute_interaction(&ray, 1.);
    let n = Vector3f::from(i.n);
    close(i.n.z, q.z / r, "unit outward normal at a pole");
    close_s(dot3(n, i.dpdu), 0., 1., "first tangent is perpendicular to the normal at a pole");
    close_s(dot3(n, i.dpdv), 0., 1., "second tangent is perpendicular to the normal at a pole");
    check(dot3(i.dpdu, i.dpdu) > 0., "first tangent is not zero at a pole");
    check(dot3(i.dpdv, i.dpdv) > 0., "second tangent is not zero at a pole");
}
pub fn h_c12_bbox_area() {
    let (b, c, r) = any_ball();
    let x = b.bbox();
    let q = any_vector();
    assume(dot3(q, q) <= r * r);
    leq(q.x * q.x, r * r, "lemma x");
    leq(q.y * q.y, r * r, "lemma y");
    leq(q.z * q.z, r * r, "lemma z");
    let s = 1. + r + c.x.abs() + c.y.abs() + c.z.abs();
    leq_s(x.min.x, c.x + q.x, s, "box contains the sphere (x)");
    leq_s(x.min.y, c.y + q.y, s, "box contains the sphere (y)");
    leq_s(x.min.z, c.z + q.z, s, "box contains the sphere (z)");
    leq_s(c.x + q.x, x.max.x, s, "box contains the sphere (x)");
    leq_s(c.y + q.y, x.max.y, s, "box contains the sphere (y)");
    leq_s(c.z + q.z, x.max.z, s, "box contains the sphere (z)");
    close_s(x.max.x - x.min.x, 2. * r, s, "box is tight (x)");
    close_s(x.max.y - x.min.y, 2. * r, s, "box is tight (y)");
    close_s(x.max.z - x.min.z, 2. * r, s, "box is tight (z)");
    close(b.area(), 4. * PI * r * r, "area");
}
