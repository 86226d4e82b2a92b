use transform::ptv_spec::*;
use shape::ptv_spec::{Panel, no_offset};

use spectrum::ptv_spec::any_spectrum;
use reflection::ptv_spec::{any_unit, dot3};
use bbox::ptv_spec::any_box;
use scene::Builder;
use common::INFINITY;
use vector::Normal3f;

fn same(a: Vector3f, b: Vector3f, label: &'static str) { close(a.x, b.x, label); close(a.y, b.y, label); close(a.z, b.z, label); }
fn at(p: Point3f) -> Vector3f { Vector3f::new(p.x, p.y, p.z) }

pub fn h_c19_distant() {
    let v = any_vector();
    assume(v.x != 0. || v.y != 0. || v.z != 0.);
    let len2 = dot3(v, v);
    native_assume(len2 > 1e-2 && len2 < 1e3);
    let l = any_spectrum();
    let light = DistantLight::new(l, v);
    check(light.is_delta(), "a distant light is a delta light");
    let i = Interaction { p: any_point(), ..Default::default() };
    check(light.pdf_li(&i, any_vector()) == 0., "no density for any chosen direction");
    let (w, r, pdf, _) = light.sample_li(&i, Point2f::new(real_in(0., 1.), real_in(0., 1.)));
    check(pdf == 1., "the direction has density one");
    same_colour(r, l, "its radiance is delivered");
    close(dot3(w, w), 1., "the direction is normalised");
    let k = len2.sqrt();
    close_s(w.x * k, v.x, k, "the direction is the light's (x)");
    close_s(w.y * k, v.y, k, "the direction is the light's (y)");
    close_s(w.z * k, v.z, k, "the direction is the light's (z)");
}
/// the shadow segment of a point in the scene ends outside the scene's bounding sphere
pub fn h_c19_distant_segment() {
    let w = any_unit();
    stub(Vector3f::normalize, via_unit);
    let mut light = DistantLight::new(any_spectrum(), w);
    let (b, _, e) = any_box();
    // any point of the box
    let (x, y, z) = (nonneg(), nonneg(), nonneg());
    assume(x <= e.x); assume(y <= e.y); assume(z <= e.z);
    native_assume(e.x < 1e3 && e.y < 1e3 && e.z < 1e3 && b.min.x.abs() < 1e3 && b.min.y.abs() < 1e3 && b.min.z.abs() < 1e3);
    light.pre_process(b);
    let p = Point3f::new(b.min.x + x, b.min.y + y, b.min.z + z);
    let i = Interaction { p, p_err: any_vector(), n: Normal3f::from(any_vector()), ..Default::default() };
    let (wi, _, _, vis) = light.sample_li(&i, Point2f::new(real_in(0., 1.), real_in(0., 1.)));
    check(vis.p0.p.x == p.x && vis.p0.p.y == p.y && vis.p0.p.z == p.z, "the segment starts at the shaded point");
    check(vis.p0.n.x == i.n.x && vis.p0.n.y == i.n.y && vis.p0.n.z == i.n.z, "with its normal");
    check(vis.p0.p_err.x == i.p_err.x && vis.p0.p_err.y == i.p_err.y && vis.p0.p_err.z == i.p_err.z, "and its error bound");
    let d = at(vis.p1.p) - at(p);
    // along the direction the light comes from
    let c = dot3(d, wi);
    let (hx, hy, hz) = (0.5 * e.x, 0.5 * e.y, 0.5 * e.z);
    let s = 1e1 * (1. + e.x + e.y + e.z + b.min.x.abs() + b.min.y.abs() + b.min.z.abs());
    same_s(d, wi * c, s, "the segment goes towards the light");
    // |p1 - centre|^2 >= radius^2, with p at (x - hx, ...) from the centre
    let r2 = hx * hx + hy * hy + hz * hz;
    let r = r2.sqrt();
    let q = Vector3f::new(x - hx, y - hy, z - hz);
    leq_s(dot3(q, q), r2, s * s, "lemma: the point is in the bounding sphere");
    let g = dot3(q, wi);
    let x = q - wi * g;
    close_s(dot3(q, q) - g * g, dot3(x, x), s * s, "lemma: Pythagoras");
    leq_s(g * g, dot3(q, q), s * s, "lemma: a part is not longer than the whole");
    leq_s(-r, g, s, "lemma: at most a radius against the direction");
    leq_s(2. * r, c, s, "the segment is as long as the scene is wide");
    let o = q + d;
    leq_s(r2, dot3(o, o), s * s, "the segment leaves the scene");
}
pub fn via_unit(v: &Vector3f) -> Vector3f { *v }
fn same_s(a: Vector3f, b: Vector3f, s: f32, label: &'static str) { close_s(a.x, b.x, s, label); close_s(a.y, b.y, s, label); close_s(a.z, b.z, s, label); }

/// An area light in front of the shaded point.
struct Set { light: AreaLight, l: Spectrum, i: Interaction, d: Vector3f, n: Vector3f, area: f32 }
fn any_set() -> Set {
    let (d, n) = (any_vector(), any_unit());
    let len2 = dot3(d, d);
    assume(len2 > 0.);
    native_assume(len2 > 1e-2 && len2 < 1e4);
    let i = Interaction { p: Point3f::new(real_in(-10., 10.), real_in(-10., 10.), real_in(-10., 10.)), p_err: Vector3f::new(0., 0., 0.), n: Normal3f::from(any_vector()), ..Default::default() };
    let l = any_spectrum();
    let area = pos();
    native_assume(area > 0.01);
    // the ray towards the sampled point meets the shape there (C13)
    let light = AreaLight::new(l, Panel { hit: true, t: len2.sqrt(), n, area, at: i.p + d });
    Set { light, l, i, d, n, area }
}
pub fn h_c19_area_sample() {
    reset_trace();
    no_offset();
    let s = any_set();
    let c = dot3(s.n, s.d);
    native_assume(c * c > 1e-2 * dot3(s.d, s.d));
    let (u, v) = (real_in(0., 1.), real_in(0., 1.));
    check(!s.light.is_delta(), "an area light is no delta light");
    let (wi, l, pdf, vis) = s.light.sample_li(&s.i, Point2f::new(u, v));
    check(emitted("sampled") == 1 && event("sampled", 0, 0) == u && event("sampled", 0, 1) == v, "a point of the shape is sampled");
    let k = dot3(s.d, s.d).sqrt();
    same_s(wi * k, s.d, 20. + k, "the direction goes to the sampled point");
    if c < 0. { same_colour(l, s.l, "full radiance on the front side"); } else { check(l.is_black(), "no radiance on the back side"); }
    if c != 0. {
        // k^2 / (|cos| area), cos = c / k
        close_s(pdf * c.abs() * s.area, k * k * k, 100. * (1. + k * k * k), "solid-angle density of the sampled point");
        close_s(s.light.pdf_li(&s.i, wi), pdf, 100. * pdf, "the density queried for the direction");
    }
    check(vis.p0.p.x == s.i.p.x && vis.p0.p.y == s.i.p.y && vis.p0.p.z == s.i.p.z, "the shadow segment starts at the shaded point");
    check(vis.p0.n.x == s.i.n.x && vis.p0.p_err.y == s.i.p_err.y, "as it was given");
    same_s(at(vis.p1.p) - at(s.i.p), s.d, 20. + k, "the shadow segment ends at the sampled point");
    check(vis.p1.n.x == s.n.x && vis.p1.n.y == s.n.y && vis.p1.n.z == s.n.z, "as it was sampled");
}
pub fn h_c19_area_front() {
    let l = any_spectrum();
    let light = AreaLight::new(l, Panel { hit: true, t: 1., n: any_unit(), area: pos(), at: any_point() });
    let (n, w) = (any_vector(), any_vector());
    let e = light.l(&Interaction { n: Normal3f::from(n), ..Default::default() }, w);
    if dot3(n, w) > 0. { same_colour(e, l, "emits on the side of the normal"); } else { check(e.is_black(), "emits nothing on the other side"); }
}
/// as a shape, an area light is its shape
pub fn h_c19_area_is_its_shape() {
    reset_trace();
    no_offset();
    let hit = boolean();
    let s = Panel { hit, t: pos(), n: any_unit(), area: pos(), at: any_point() };
    let (t, n, area, p) = (s.t, s.n, s.area, s.at);
    let x = AreaLight::new(any_spectrum(), s);
    check(x.area() == area, "its area");
    let r = Ray { origin: any_point(), direction: any_vector(), t_max: pos() };
    check(x.intersect_p(&r) == hit, "the boolean query");
    match x.intersect(&r) {
        Some((i, u)) => { check(hit && u == t, "the parameter of the hit"); check(i.n.x == n.x && i.n.y == n.y && i.n.z == n.z, "the hit"); }
        None => check(!hit, "the miss"),
    }
    for k in 0..emitted("asked") { check(event("asked", k, 0) == r.origin.x && event("asked", k, 4) == r.direction.y && event("asked", k, 6) == r.t_max, "asked about the ray"); }
    let (u, v) = (real_in(0., 1.), real_in(0., 1.));
    let q = x.sample(Point2f::new(u, v));
    check(q.p.x == p.x && q.p.y == p.y && q.p.z == p.z, "a sampled point");
    check(event("sampled", 0, 0) == u && event("sampled", 0, 1) == v, "for the sample");
}
/// Visibility: a container that answers by the ray it is asked about.
struct Wall { hit: bool }
impl Container for Wall {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, r: &Ray) -> bool { emit("p", &[r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z, r.t_max]); self.hit }
    fn intersect(&self, r: &Ray) -> Option<Interaction> { emit("p", &[r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z, r.t_max]); if self.hit { Some(Default::default()) } else { None } }
}
pub fn via_segment(a: &Interaction, b: &Interaction) -> Ray {
    emit("segment", &[a.p.x, a.p.y, a.p.z, b.p.x, b.p.y, b.p.z]);
    Ray { origin: a.p, direction: b.p - a.p, t_max: 0.5 }
}
pub fn h_c19_visibility() {
    reset_trace();
    let hit = boolean();
    let scene = Builder::new().construct(|_| Wall { hit });
    stub(Interaction::spawn_ray_to, via_segment);
    let (p, q) = (any_point(), any_point());
    let v = VisibilityTester { p0: Interaction { p, ..Default::default() }, p1: Interaction { p: q, ..Default::default() } };
    check(v.unoccluded(&scene) == !hit, "visible exactly when nothing is hit");
    check(emitted("p") == 1, "the scene is asked once");
    if symbolic() {
        check(emitted("segment") == 1 && event("segment", 0, 0) == p.x && event("segment", 0, 1) == p.y && event("segment", 0, 2) == p.z && event("segment", 0, 3) == q.x && event("segment", 0, 4) == q.y && event("segment", 0, 5) == q.z, "about the segment between the two hits");
        check(event("p", 0, 0) == p.x && event("p", 0, 3) == (q - p).x && event("p", 0, 4) == (q - p).y && event("p", 0, 5) == (q - p).z && event("p", 0, 6) == 0.5, "about that ray");
    } else { check(event("p", 0, 6) < 1., "the segment stops short of its end"); }
}
fn same_colour(a: Spectrum, b: Spectrum, label: &'static str) { close(a.r, b.r, label); close(a.g, b.g, label); close(a.b, b.b, label); }
pub fn tester(p0: Interaction, p1: Interaction) -> VisibilityTester { VisibilityTester { p0, p1 } }
