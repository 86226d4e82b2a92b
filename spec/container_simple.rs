use std::slice::Iter;
use material::Material;
use vector::{Vector3f, Point3f, Point2f};
use common::INFINITY;

/// A shape known by its number: a ray hits it at some parameter, or not at all.
pub struct Thing { pub k: f32 }
impl Shape for Thing {
    fn bbox(&self) -> BBox3f { BBox3f { min: Point3f::new(-100., -100., -100.), max: Point3f::new(100., 100., 100.) } }
    fn area(&self) -> f32 { self.k }
    fn intersect_p(&self, r: &Ray) -> bool { let h = is_hit(self.k) && at(self.k) < r.t_max; if h { emit("hit", &[self.k]); } h }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> { if is_hit(self.k) && at(self.k) < r.t_max { Some((here(self.k), at(self.k))) } else { None } }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
}
pub fn is_hit(k: f32) -> bool { uf_bool("hit", &[k]) }
pub fn at(k: f32) -> f32 { uf_nonneg("at", &[k]) }
pub fn here(k: f32) -> Interaction { Interaction { uv: Point2f::new(k, 1.), ..Default::default() } }
/// a hit of thing k, as a container reports it
pub fn hit_of(k: f32) -> Interaction { Interaction { uv: Point2f::new(k, 1.), shape: Some(Arc::new(Thing { k })), ..Default::default() } }
pub fn thing(k: usize) -> Arc<Shape> { Arc::new(Thing { k: k as f32 }) }
pub fn any_ray() -> Ray { Ray { origin: Point3f::new(0., 0., 0.), direction: Vector3f::new(1., 0.5, 0.25), t_max: real_or_inf() } }

/// an arbitrary one of the shapes: what holds for it holds for all of them
fn witness() -> f32 { uf_int("witness", &[], 0, 1000000) as f32 }
/// C11, C12, C13: a ray that misses the box of all shapes hits none of them
fn via_box(_: &BBox3f, r: &Ray) -> Option<(f32, f32)> {
    if boolean() { return Some((0., r.t_max)); }
    assume(!(is_hit(witness()) && at(witness()) < r.t_max));
    None
}
fn visited(iter: &Iter<Arc<Shape>>, old: &Iter<Arc<Shape>>) -> f32 { old.len() as f32 - iter.len() as f32 }
fn any_visits<'a>(iter: &mut Iter<'a, Arc<Shape>>, old_iter: &Iter<'a, Arc<Shape>>, ray: &mut Ray, old_ray: &Ray, interaction: &mut Option<Interaction>) {
    *iter = iter_from(old_iter, any_value());
    let k = any_value::<u32>() as f32;
    let found = boolean();
    *ray = Ray { origin: old_ray.origin, direction: old_ray.direction, t_max: if found { at(k) } else { old_ray.t_max } };
    *interaction = if found { Some(hit_of(k)) } else { None };
}
fn visits_so_far(iter: &Iter<Arc<Shape>>, old_iter: &Iter<Arc<Shape>>, ray: &Ray, old_ray: &Ray, interaction: &Option<Interaction>) {
    let n = visited(iter, old_iter);
    decreases(iter.len());
    same_line(ray, old_ray);
    match interaction {
        &None => invariant(ray.t_max == old_ray.t_max, "the ray is as long as before while nothing is hit"),
        &Some(ref i) => {
            let k = i.shape.as_ref().unwrap().area();
            invariant(k < n, "the shape that is hit was visited");
            invariant(is_hit(k) && at(k) < old_ray.t_max, "it is hit within the ray");
            invariant(i.uv.x == k, "the hit is that of the shape");
            invariant(ray.t_max == at(k), "the ray ends at the hit");
        }
    }
    let w = witness();
    if (w < n) & is_hit(w) & (at(w) < old_ray.t_max) { invariant(ray.t_max <= at(w), "no visited shape is hit before"); }
}
pub fn same_line(a: &Ray, b: &Ray) {
    invariant((a.origin.x == b.origin.x) & (a.origin.y == b.origin.y) & (a.origin.z == b.origin.z), "the ray starts where it did");
    invariant((a.direction.x == b.direction.x) & (a.direction.y == b.direction.y) & (a.direction.z == b.direction.z), "the ray goes where it did");
}
fn any_things() -> (Simple, usize) {
    let n = if symbolic() { size(0, 1000000) } else { size(0, 12) };
    let s = Simple { shapes: sym_vec(n, |k| thing(k)).into_boxed_slice(), bbox: Thing { k: 0. }.bbox() };
    (s, n)
}
fn any_one(n: usize) -> f32 { if symbolic() { assume(witness() < n as f32); witness() } else if n > 0 { size(0, n - 1) as f32 } else { -1. } }
/// The closest hit over any number of shapes.
pub fn h_c14_linear_closest() {
    stub(BBox3f::intersect, via_box);
    loop_contract(<Simple as Container>::intersect, 0, any_visits, visits_so_far);
    let (s, n) = any_things();
    let r = any_ray();
    let w = any_one(n);
    closest(s.intersect(&r), w, n, &r);
}
/// ensures: the closest hit of n things; `w` is one of them
fn closest(i: Option<Interaction>, w: f32, n: usize, r: &Ray) {
    let hit = w >= 0. && is_hit(w) && at(w) < r.t_max;
    match i {
        None => check(!hit, "a miss is reported only when no shape is hit within the ray"),
        Some(i) => {
            let k = i.shape.as_ref().unwrap().area();
            check(k >= 0. && k < n as f32, "the shape that is hit is one of those given");
            check(is_hit(k) && at(k) < r.t_max, "it is hit within the ray");
            check(i.uv.x == k && i.uv.y == 1., "the hit is that of the shape it carries");
            check(!hit || at(k) <= at(w), "no shape is hit before");
        }
    }
}
fn any_visits_p<'a>(iter: &mut Iter<'a, Arc<Shape>>, old_iter: &Iter<'a, Arc<Shape>>) { *iter = iter_from(old_iter, any_value()); reset_trace(); }
fn visits_so_far_p(iter: &Iter<Arc<Shape>>, old_iter: &Iter<Arc<Shape>>, ray: &Ray) {
    decreases(iter.len());
    let w = witness();
    if w < visited(iter, old_iter) { invariant(!(is_hit(w) && at(w) < ray.t_max), "no visited shape is hit"); }
    invariant(emitted("hit") == 0, "the search ends with the first hit");
}
pub fn h_c14_linear_any() {
    reset_trace();
    stub(BBox3f::intersect, via_box);
    loop_contract(<Simple as Container>::intersect_p, 0, any_visits_p, visits_so_far_p);
    let (s, n) = any_things();
    let r = any_ray();
    let w = any_one(n);
    if s.intersect_p(&r) {
        check(emitted("hit") == 1, "a hit is reported only when a shape is hit");
    } else {
        check(w < 0. || !(is_hit(w) && at(w) < r.t_max), "a miss is reported only when no shape is hit within the ray");
    }
}

// ------------------------------------------------------------------ construction
fn via_shapes_box(v: &[Arc<Shape>]) -> BBox3f { emit("boxed", &[v.len() as f32]); BBox3f { min: Point3f::new(1., 2., 3.), max: Point3f::new(4., 5., 6.) } }
pub fn is_shapes_box(b: &BBox3f) -> bool { b.min.x == 1. && b.min.y == 2. && b.min.z == 3. && b.max.x == 4. && b.max.y == 5. && b.max.z == 6. }
pub fn stub_shapes_box() { reset_trace(); stub(BBox3f::bbox_of_shapes, via_shapes_box); }
/// The box of a container is that of its shapes (C11), and it keeps every shape.
pub fn h_c14_linear_new() {
    stub_shapes_box();
    let n = size(0, if symbolic() { 1000000 } else { 12 });
    let v: Vec<Arc<Shape>> = sym_vec(n, |k| thing(k));
    let c = Simple::new(v.into_boxed_slice());
    let b = Container::bbox(&c);
    check(c.shapes.len() == n, "no shape is lost");
    let j = size(0, 1000000);
    if j < n && j < c.shapes.len() { check(c.shapes[j].area() == j as f32, "the shapes are kept"); }
    if symbolic() {
        check(emitted("boxed") == 1 && event("boxed", 0, 0) == n as f32, "the box is that of all shapes");
        check(is_shapes_box(&b), "the container has the box of its shapes");
    } else if n > 0 { check(b.min.x == -100. && b.max.z == 100., "the container has the box of its shapes"); }
}
