use transform::ptv_spec::*;
use reflection::ptv_spec::any_unit;
use reflection::ptv_spec::dot3;
use vector::{Normal3f, Point3f};
use bbox::BBox3f;
use common::INFINITY;

/// A flat shape seen from the shaded point: the ray towards it meets it at distance t in a point with normal n, or not at all.
pub struct Panel { pub hit: bool, pub t: f32, pub n: Vector3f, pub area: f32, pub at: Point3f }
impl Shape for Panel {
    fn bbox(&self) -> BBox3f { panic!() }
    fn area(&self) -> f32 { self.area }
    fn intersect_p(&self, r: &Ray) -> bool { asked(r); self.hit }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> {
        asked(r);
        if self.hit { Some((Interaction { p: r.position(self.t), n: Normal3f::from(self.n), ..Default::default() }, self.t)) } else { None }
    }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, s: Point2f) -> Interaction { emit("sampled", &[s.x, s.y]); Interaction { p: self.at, n: Normal3f::from(self.n), ..Default::default() } }
}
fn asked(r: &Ray) { emit("asked", &[r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z, r.t_max]) }
/// C07's contract with the rounding offset neglected
pub fn via_spawn(i: &Interaction, d: Vector3f) -> Ray { Ray { origin: i.p, direction: d, t_max: INFINITY } }
pub fn no_offset() { stub(Interaction::spawn_ray, via_spawn); }

pub fn h_c19_density_of_direction() {
    reset_trace();
    no_offset();
    let (n, wi) = (any_unit(), any_unit());
    let s = Panel { hit: true, t: pos(), n, area: pos(), at: Point3f::default() };
    native_assume(s.t > 0.1 && s.t < 100. && s.area > 0.01);
    let i = Interaction { p: Point3f::new(real_in(-10., 10.), real_in(-10., 10.), real_in(-10., 10.)), ..Default::default() };
    let c = dot3(n, wi);
    native_assume(c.abs() > 0.05);
    let d = s.pdf(&i, wi);
    if c == 0. { check(d == 0., "no density for a shape seen edge-on"); return; }
    close_s(d * c.abs() * s.area, s.t * s.t, 100. * (1. + s.t * s.t), "density per solid angle of a point sampled uniformly on the surface");
    leq(0., d, "density is not negative");
    check(emitted("asked") > 0, "the shape is looked for");
    for k in 0..emitted("asked") {
        check(!symbolic() || (event("asked", k, 0) == i.p.x && event("asked", k, 1) == i.p.y && event("asked", k, 2) == i.p.z), "looked for from the shaded point");
        check(event("asked", k, 3) == wi.x && event("asked", k, 4) == wi.y && event("asked", k, 5) == wi.z, "looked for in the given direction");
        check(event("asked", k, 6) == INFINITY, "looked for at any distance");
    }
}
pub fn h_c19_density_of_miss() {
    reset_trace();
    no_offset();
    let wi = any_unit();
    let s = Panel { hit: false, t: 0., n: any_unit(), area: pos(), at: Point3f::default() };
    let i = Interaction { p: any_point(), ..Default::default() };
    check(s.pdf(&i, wi) == 0., "no density for directions that miss the shape");
}
pub fn h_c19_sample_for_a_point() {
    reset_trace();
    let s = Panel { hit: true, t: 1., n: any_unit(), area: pos(), at: any_point() };
    let (u, v) = (real_in(0., 1.), real_in(0., 1.));
    let r = s.sample_ref(&Interaction { p: any_point(), ..Default::default() }, Point2f::new(u, v));
    check(emitted("sampled") == 1 && event("sampled", 0, 0) == u && event("sampled", 0, 1) == v, "the sample is used");
    check(r.p.x == s.at.x && r.p.y == s.at.y && r.p.z == s.at.z, "the sampled point");
    check(r.n.x == s.n.x && r.n.y == s.n.y && r.n.z == s.n.z, "its normal");
}
pub fn h_c19_dark_by_default() {
    let s = Panel { hit: true, t: 1., n: any_unit(), area: pos(), at: any_point() };
    check(s.l(&Interaction::default(), any_vector()).is_black(), "a shape emits nothing unless it is a light");
}
