use transform::ptv_spec::*;
use bbox::ptv_spec::any_box;
use material::Material;
use spectrum::Spectrum;
use vector::{Vector3f, Point2f};
use std::slice::{Iter, IterMut};
use std::vec::IntoIter;
use light::VisibilityTester;

/// A light that records when it is told about the scene.
struct Lamp { id: f32, boxes: f32 }
impl Light for Lamp {
    fn is_delta(&self) -> bool { true }
    fn pre_process(&mut self, b: BBox3f) { self.boxes += 1.; emit("told", &[self.id, b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z]); }
    fn sample_li(&self, _: &Interaction, _: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { panic!() }
    fn pdf_li(&self, _: &Interaction, _: Vector3f) -> f32 { emit("light", &[self.id]); self.boxes }
}
/// A shape that says who it is.
struct Body { id: f32, b: BBox3f }
impl Shape for Body {
    fn bbox(&self) -> BBox3f { self.b }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _: &Ray) -> bool { emit("shape", &[self.id]); false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { emit("light", &[self.id]); 1. }
}
fn body(id: usize) -> Body { let (b, _, _) = any_box(); emit("box", &[b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z]); Body { id: id as f32, b } }
/// A container that keeps what it was given.
struct Keep { shapes: Box<[Arc<Shape>]> }
impl Container for Keep {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, r: &Ray) -> bool { for s in self.shapes.iter() { s.intersect_p(r); } emit("asked", &[]); false }
    fn intersect(&self, _: &Ray) -> Option<Interaction> { None }
}
/// how often `id` occurs among the first values of the events `name`
fn times(name: &'static str, id: usize) -> usize {
    let mut n = 0;
    for k in 0..emitted(name) { if event(name, k, 0) == id as f32 { n += 1; } }
    n
}
fn built(nl: usize, ns: usize, na: usize) { built_of(nl, ns, na, 10) }
fn built_of(nl: usize, ns: usize, na: usize, d: usize) {
    reset_trace();
    let mut b = Builder::new();
    // added in any order of kinds; lights 0.., shapes d.., area lights 2d..
    let areas_first = boolean();
    if areas_first { for i in 0..na { b.add_area_light(AreaLight::new(Spectrum::from(1.), body(2 * d + i))); } }
    for i in 0..nl { b.add_light(Lamp { id: i as f32, boxes: 0. }); }
    for i in 0..ns { b.add_shape(body(d + i)); }
    if !areas_first { for i in 0..na { b.add_area_light(AreaLight::new(Spectrum::from(1.), body(2 * d + i))); } }
    let s = b.construct(|x| { emit("container", &[x.len() as f32]); Keep { shapes: x } });
    check(emitted("container") == 1, "the container is made once");
    check(event("container", 0, 0) == (ns + na) as f32, "the container gets as many shapes as were added");
    check(emitted("told") == nl, "every light is preprocessed once");
    for i in 0..nl { check(times("told", i) == 1, "each light is preprocessed exactly once"); }
    for k in 0..emitted("told") { for j in 0..emitted("box") { for c in 0..3 {
        check(event("told", k, 1 + c) <= event("box", j, c), "the box lights are told encloses every shape (lower)");
        check(event("told", k, 4 + c) >= event("box", j, 3 + c), "the box lights are told encloses every shape (upper)");
    } } }
    s.intersect_p(&Ray { origin: Point3f::default(), direction: Vector3f::new(0., 0., 1.), t_max: 1. });
    check(emitted("asked") == 1, "the scene asks its container");
    check(emitted("shape") == ns + na, "the container has every shape once");
    for i in 0..ns { check(times("shape", d + i) == 1, "each shape is in the container once"); }
    for i in 0..na { check(times("shape", 2 * d + i) == 1, "each area light is in the container once"); }
    check(s.lights().len() == nl + na, "the scene has as many lights as were added");
    let i = Interaction::default();
    for l in s.lights().iter() { l.pdf_li(&i, Vector3f::default()); }
    for i in 0..nl { check(times("light", i) == 1, "each light is a light of the scene once"); }
    for i in 0..na { check(times("light", 2 * d + i) == 1, "each area light is a light of the scene once"); }
    // the lights that are shapes are the same objects
    let mut same = 0;
    for l in s.lights().iter() { for x in s.shapes.shapes.iter() { if ::common::same_addr(&**l, &**x) { same += 1; } } }
    check(same == na, "an area light is one object in both roles");
}
pub fn h_c15_shapes() { let n = choose(4); built(0, n, 0) }
pub fn h_c15_lights() { let (n, m) = (choose(3), choose(2)); built(n, m, 0) }
pub fn h_c15_area_lights() { let n = choose(3); built(0, 0, n) }
pub fn h_c15_mixed() { let (n, m, k) = (choose(2), choose(3), choose(2)); built(1 + n, m, 1 + k) }
// ---- lists of any length: the j-th light of the scene says j, and so does the j-th shape of the container
const MANY: u32 = 1000000;
fn f(n: usize) -> f32 { n as f32 }
fn n_lights() -> usize { uf_int("lights", &[], 0, MANY) as usize }
fn n_shapes() -> usize { uf_int("shapes", &[], 0, MANY) as usize }
fn n_areas() -> usize { uf_int("areas", &[], 0, MANY) as usize }
fn witness() -> usize { uf_int("witness", &[], 0, MANY) as usize }
struct Numbered { id: f32 }
impl Light for Numbered {
    fn is_delta(&self) -> bool { true }
    fn pre_process(&mut self, b: BBox3f) { emit("told", &[self.id, b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z]); }
    fn sample_li(&self, _: &Interaction, _: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { panic!() }
    fn pdf_li(&self, _: &Interaction, _: Vector3f) -> f32 { self.id }
}
/// a shape, or that of an area light: its numbers among the shapes and among the lights
struct Item { as_shape: f32, as_light: f32 }
impl Shape for Item {
    fn bbox(&self) -> BBox3f { box_of(self.as_light - f(n_lights())) }
    fn area(&self) -> f32 { self.as_shape }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { panic!() }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { self.as_light }
}
fn box_of(k: f32) -> BBox3f {
    let l = Point3f::new(uf("x", &[k]), uf("y", &[k]), uf("z", &[k]));
    BBox3f { min: l, max: Point3f::new(l.x + uf_nonneg("dx", &[k]), l.y + uf_nonneg("dy", &[k]), l.z + uf_nonneg("dz", &[k])) }
}
fn shapes_box() -> BBox3f { box_of(-1.) }
fn via_shapes_box(v: &[Arc<Shape>]) -> BBox3f { check(v.len() == n_shapes(), "the box is that of all shapes"); shapes_box() }
fn area_light(i: usize) -> Arc<AreaLight> { Arc::new(AreaLight::new(Spectrum::from(1.), Item { as_shape: f(n_shapes()) + f(i), as_light: f(n_lights()) + f(i) })) }
fn number_of(l: &Arc<Light>) -> f32 { l.pdf_li(&Interaction::default(), Vector3f::default()) }
fn within(b: &BBox3f, x: &[f32; 6]) -> bool { (x[0] <= b.min.x) & (x[1] <= b.min.y) & (x[2] <= b.min.z) & (b.max.x <= x[3]) & (b.max.y <= x[4]) & (b.max.z <= x[5]) }
fn corners(b: &BBox3f) -> [f32; 6] { [b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z] }
// the box of everything
fn any_boxes<'a>(iter: &mut Iter<'a, Arc<AreaLight>>, old_iter: &Iter<'a, Arc<AreaLight>>, bbox: &mut BBox3f) {
    *iter = iter_from(old_iter, size(0, MANY as usize));
    *bbox = BBox3f { min: Point3f::new(real(), real(), real()), max: Point3f::new(real(), real(), real()) };
}
fn boxes_so_far(iter: &Iter<Arc<AreaLight>>, old_iter: &Iter<Arc<AreaLight>>, bbox: &BBox3f) {
    decreases(iter.len());
    let b = corners(bbox);
    if n_shapes() > 0 { invariant(within(&shapes_box(), &b), "the box so far has every shape"); }
    if f(witness()) < f(old_iter.len()) - f(iter.len()) { invariant(within(&box_of(f(witness())), &b), "the box so far has every area light so far"); }
}
// lights are told about it
fn any_told<'a>(iter: &mut IterMut<'a, Arc<Light>>, old_iter: &IterMut<'a, Arc<Light>>) {
    *iter = iter_mut_from(old_iter, size(0, MANY as usize));
    reset_trace();
    emit("telling", &[]);
}
fn told_so_far(iter: &IterMut<Arc<Light>>, old_iter: &IterMut<Arc<Light>>) {
    decreases(iter.len());
    let n = f(old_iter.len()) - f(iter.len());
    if emitted("told") == 0 { invariant(!proving() | (n == 0.), "each light is preprocessed exactly once"); return; }
    invariant((emitted("told") == 1) & (event("told", 0, 0) == n - 1.), "each light is preprocessed exactly once");
    let b = [event("told", 0, 1), event("told", 0, 2), event("told", 0, 3), event("told", 0, 4), event("told", 0, 5), event("told", 0, 6)];
    if n_shapes() > 0 { invariant(within(&shapes_box(), &b), "the box lights are told encloses every shape"); }
    if witness() < n_areas() { invariant(within(&box_of(f(witness())), &b), "the box lights are told encloses every area light"); }
}
fn any_told_areas<'a>(iter: &mut IterMut<'a, Arc<AreaLight>>, old_iter: &IterMut<'a, Arc<AreaLight>>) { *iter = iter_mut_from(old_iter, size(0, MANY as usize)); }
fn told_areas_so_far(iter: &IterMut<Arc<AreaLight>>) { decreases(iter.len()); }
// area lights become lights and shapes
fn any_moved(iter: &mut IntoIter<Arc<AreaLight>>, old_iter: &IntoIter<Arc<AreaLight>>, this: &mut Builder) {
    let k = size(0, MANY as usize);
    *iter = into_iter_from(old_iter, k);
    *this = Builder {
        lights: sym_vec(n_lights() + k, |j| -> Arc<Light> { Arc::new(Numbered { id: f(j) }) }),
        shapes: sym_vec(n_shapes() + k, |j| -> Arc<Shape> { Arc::new(Item { as_shape: f(j), as_light: 0. }) }),
        area_lights: Vec::new(),
    };
    emit("moving", &[]);
}
fn moved_so_far(iter: &IntoIter<Arc<AreaLight>>, old_iter: &IntoIter<Arc<AreaLight>>, this: &Builder) {
    decreases(iter.len());
    let n = f(old_iter.len()) - f(iter.len());
    let (l, s) = (&this.lights, &this.shapes);
    invariant(f(l.len()) == f(n_lights()) + n, "the scene has as many lights as were added");
    invariant(f(s.len()) == f(n_shapes()) + n, "the container gets as many shapes as were added");
    let j = size(0, 2 * MANY as usize);
    if !proving() { return; }
    if j < l.len() { invariant(number_of(&l[j]) == f(j), "each light is a light of the scene once"); }
    if j < s.len() { invariant(s[j].area() == f(j), "each shape is in the container once"); }
    if (emitted("moving") == 1) & (n > 0.) { invariant(::common::same_addr(&*l[l.len() - 1], &*s[s.len() - 1]), "an area light is one object in both roles"); }
}
pub fn h_c15_many() {
    if !symbolic() {
        // rarely one of the lists is long
        let long = choose(400);
        let n = |k: usize| choose(if k == long { 700 } else { 12 });
        return built_of(n(0), n(1), n(2), 1000);
    }
    reset_trace();
    stub(BBox3f::bbox_of_shapes, via_shapes_box);
    loop_contract_named("scene::Builder::construct", 0, any_boxes, boxes_so_far);
    loop_contract_named("scene::Builder::construct", 1, any_told, told_so_far);
    loop_contract_named("scene::Builder::construct", 2, any_told_areas, told_areas_so_far);
    loop_contract_named("scene::Builder::construct", 3, any_moved, moved_so_far);
    let b = Builder {
        lights: sym_vec(n_lights(), |j| -> Arc<Light> { Arc::new(Numbered { id: f(j) }) }),
        shapes: sym_vec(n_shapes(), |j| -> Arc<Shape> { Arc::new(Item { as_shape: f(j), as_light: 0. }) }),
        area_lights: sym_vec(n_areas(), |i| area_light(i)),
    };
    let s = b.construct(|x| { emit("container", &[]); Keep { shapes: x } });
    check(emitted("container") == 1, "the container is made once");
    check(s.lights().len() == n_lights() + n_areas(), "the scene has as many lights as were added");
    check(s.shapes.shapes.len() == n_shapes() + n_areas(), "the container gets as many shapes as were added");
    let j = size(0, 2 * MANY as usize);
    if j < s.lights().len() { check(number_of(&s.lights()[j]) == f(j), "each light is a light of the scene once"); }
    if j < s.shapes.shapes.len() { check(s.shapes.shapes[j].area() == f(j), "each shape is in the container once"); }
}
/// adding to lists of any length
pub fn h_c15_add() {
    let m = if symbolic() { MANY as usize } else { 12 };
    let (nl, ns, na) = (size(0, m), size(0, m), size(0, m));
    let mut b = Builder {
        lights: sym_vec(nl, |j| -> Arc<Light> { Arc::new(Numbered { id: f(j) }) }),
        shapes: sym_vec(ns, |j| -> Arc<Shape> { Arc::new(Item { as_shape: f(j), as_light: 0. }) }),
        area_lights: sym_vec(na, |i| area_light(i)),
    };
    let what = choose(3);
    if what == 0 { b.add_light(Numbered { id: f(nl) }); }
    if what == 1 { b.add_shape(Item { as_shape: f(ns), as_light: 0. }); }
    if what == 2 { b.add_area_light(AreaLight::new(Spectrum::from(1.), Item { as_shape: f(n_shapes()) + f(na), as_light: 0. })); }
    check(b.lights.len() == nl + (what == 0) as usize, "a light is added to the lights");
    check(b.shapes.len() == ns + (what == 1) as usize, "a shape is added to the shapes");
    check(b.area_lights.len() == na + (what == 2) as usize, "an area light is added to the area lights");
    let j = size(0, m + 1);
    if j < b.lights.len() { check(number_of(&b.lights[j]) == f(j), "lights are kept as added"); }
    if j < b.shapes.len() { check(b.shapes[j].area() == f(j), "shapes are kept as added"); }
    if j < b.area_lights.len() { check(Shape::area(&*b.area_lights[j]) == f(n_shapes()) + f(j), "area lights are kept as added"); }
}
/// queries are the container's answers
struct Answer { hit: bool }
impl Container for Answer {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, r: &Ray) -> bool { emit("p", &[r.origin.x, r.direction.y, r.t_max]); self.hit }
    fn intersect(&self, r: &Ray) -> Option<Interaction> { emit("i", &[r.origin.x, r.direction.y, r.t_max]); if self.hit { Some(Interaction { p: r.origin, ..Default::default() }) } else { None } }
}
pub fn h_c15_queries() {
    reset_trace();
    let hit = boolean();
    let s = Builder::new().construct(|_| Answer { hit });
    let r = Ray { origin: any_point(), direction: any_vector(), t_max: pos() };
    check(s.intersect_p(&r) == hit, "the boolean query is the container's");
    check(emitted("p") == 1 && event("p", 0, 0) == r.origin.x && event("p", 0, 1) == r.direction.y && event("p", 0, 2) == r.t_max, "the container is asked about the ray");
    match s.intersect(&r) { Some(i) => check(hit && i.p.x == r.origin.x, "the hit is the container's"), None => check(!hit, "a miss is the container's") }
    check(s.lights().len() == 0, "no lights were added");
}
pub fn scene_of<C>(lights: Vec<Arc<Light>>, c: C) -> Scene<C> where C: Container { Scene::new(lights.into_boxed_slice(), c) }
