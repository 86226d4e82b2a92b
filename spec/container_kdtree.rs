use std::sync::atomic::{AtomicUsize, Ordering as At};
use material::Material;
use vector::{Vector3f, Point3f, Point2f};
use common::INFINITY;
use common::same_addr;
use container_simple::Simple;

/// A box that is hit where the ray enters it (or leaves it, from inside). All coordinates are small dyadic numbers: exact.
struct Block { b: BBox3f }
impl Block {
    fn at(&self, r: &Ray) -> Option<f32> {
        let (mut a, mut b) = (-INFINITY, INFINITY);
        for &k in [Axis::X, Axis::Y, Axis::Z].iter() {
            let (o, d, l, h) = (r.origin[k], r.direction[k], self.b.min[k], self.b.max[k]);
            if d == 0. { if o < l || o > h { return None; } continue; }
            let (x, y) = ((l - o) / d, (h - o) / d);
            let (x, y) = if x < y { (x, y) } else { (y, x) };
            if x > a { a = x; }
            if y < b { b = y; }
        }
        if a > b { return None; }
        let t = if a > 0. { a } else { b };
        if t > 0. && t < r.t_max { Some(t) } else { None }
    }
}
impl Shape for Block {
    fn bbox(&self) -> BBox3f { self.b }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, r: &Ray) -> bool { self.at(r).is_some() }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> { self.at(r).map(|t| (Interaction { p: r.position(t), ..Default::default() }, t)) }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
}
fn grid(n: i32) -> f32 { int(-n, n) as f32 * 0.5 }
fn corner(n: i32) -> Point3f { Point3f::new(grid(n), grid(n), grid(n)) }
fn slope() -> f32 { [0., -0., 1., -1., 2., -2., 0.5, -0.5][choose(8)] }
fn blocks(n: usize) -> Vec<Arc<Shape>> {
    let (wide, flat) = (int(2, 40), choose(4));
    let mut v: Vec<Arc<Shape>> = Vec::new();
    for _ in 0..n {
        let lo = corner(wide);
        let mut e = Vector3f::new(int(0, 3) as f32 * 0.5, int(0, 3) as f32 * 0.5, int(0, 3) as f32 * 0.5);
        if flat == 1 { e = Vector3f::new(0., e.y, e.z); }
        if flat == 2 { e = e * 4.; }
        v.push(Arc::new(Block { b: BBox3f { min: lo, max: lo + e } }));
    }
    v
}
fn shot(v: &[Arc<Shape>]) -> Ray {
    let d = Vector3f::new(slope(), slope(), slope());
    assume(d.x != 0. || d.y != 0. || d.z != 0.);
    // often from or through a face of a shape
    let o = corner(30);
    let o = if v.len() > 0 && boolean() { let b = v[choose(v.len())].bbox(); let q = Point3f::new(b.min.x, b.max.y, b.min.z); if boolean() { q } else { Point3f::new(q.x, o.y, o.z) } } else { o };
    let o = if boolean() { o } else { o - d * int(0, 20) as f32 };
    Ray { origin: o, direction: d, t_max: if boolean() { INFINITY } else { int(1, 60) as f32 * 0.5 } }
}
/// what an exhaustive search finds: the least parameter of a hit
fn nearest(v: &[Arc<Shape>], r: &Ray) -> Option<f32> {
    let mut best: Option<f32> = None;
    for s in v.iter() { if let Some((_, t)) = s.intersect(r) { if best.is_none() || t < best.unwrap() { best = Some(t); } } }
    best
}
fn agrees<C>(c: &C, v: &[Arc<Shape>], r: &Ray) where C: Container {
    let want = nearest(v, r);
    check(c.intersect_p(r) == want.is_some(), "the boolean query agrees with an exhaustive search");
    match (c.intersect(r), want) {
        (None, None) => check(true, "nothing is hit"),
        (Some(i), Some(t)) => {
            let q = r.position(t);
            check(i.p.x == q.x && i.p.y == q.y && i.p.z == q.z, "the closest hit is reported");
            let s = i.shape.unwrap();
            check(v.iter().any(|x| same_addr(&**x, &*s) && match x.intersect(r) { Some((_, a)) => a == t, None => false }), "the hit carries the shape that was hit there");
        }
        (Some(_), None) => check(false, "a hit is reported where there is none"),
        (None, Some(_)) => check(false, "a hit is missed"),
    }
}
/// BOUNDED: random scenes of up to 60 boxes, random depth limits, random rays, against an exhaustive search
pub fn h_c14_native_exhaustive() {
    let n = if choose(20) == 0 { 0 } else if choose(4) == 0 { size(0, 60) } else { size(9, 30) };
    let v = blocks(n);
    let d = if boolean() { None } else { Some(uint(0, 12)) };
    let t = KdTree::new(v.clone().into_boxed_slice(), d);
    let s = Simple::new(v.clone().into_boxed_slice());
    for _ in 0..10 {
        let r = shot(&v);
        agrees(&t, &v, &r);
        agrees(&s, &v, &r);
    }
}

// ------------------------------------------------------------------ traversal
use container_simple::ptv_spec::*;
use std::slice::Iter;
use vector::Point3f as P3;

const MANY: u32 = 1000000;
/// An arbitrary tree, in the terms of `build`'s contract (h_c14_build_*): node i is a split or a leaf with some of the shapes; every
/// subtree has a finite size; a shape with a point in the region of a split node is below or above the plane where the point is, on one
/// of the sides if the point is in the plane; the leaf whose region has the point has the shape.
fn f(i: usize) -> f32 { i as f32 }
fn plane(i: usize) -> f32 { uf("plane", &[f(i)]) }
fn above(i: usize) -> usize { uf_int("above", &[f(i)], 0, MANY) as usize }
fn item(i: usize, j: usize) -> f32 { uf_int("item", &[f(i), f(j)], 0, MANY) as f32 }
fn slot(i: usize) -> usize { uf_int("slot", &[f(i)], 0, MANY) as usize }
fn reach(i: usize) -> bool { uf_bool("reach", &[f(i)]) }
/// number of nodes of a subtree
fn weight(i: usize) -> f32 { 1. + uf_nonneg("weight", &[f(i)]) }
/// the witness: an arbitrary shape that is hit
fn wit() -> f32 { uf_int("witness", &[], 0, MANY) as f32 }
fn tau() -> f32 { at(wit()) }
fn shapes_given() -> f32 { uf_int("given", &[], 0, MANY) as f32 }
fn total() -> usize { uf_int("total", &[], 1, MANY) as usize }
struct Shot { o: [f32; 3], d: [f32; 3] }
fn shot_at() -> Shot { Shot { o: [uf("ox", &[]), uf("oy", &[]), uf("oz", &[])], d: [uf("dx", &[]), uf("dy", &[]), uf("dz", &[])] } }
/// the ray reaches the witness within its extent
fn wanted() -> bool { is_hit(wit()) & (tau() < extent()) }
fn extent() -> f32 { event("extent", 0, 0) }
fn node(i: usize) -> Node {
    let n = total();
    match uf_int("kind", &[f(i)], 0, 3) {
        0 => {
            let (k, a) = (uf_int("axis", &[f(i)], 0, 2), above(i));
            assume((i + 1 < n) & (a < n));
            assume(weight(i) >= 1. + weight(i + 1) + weight(a));
            let (axis, k) = if k == 0 { (Axis::X, 0) } else if k == 1 { (Axis::Y, 1) } else { (Axis::Z, 2) };
            let s = shot_at();
            let q = s.o[k] + tau() * s.d[k];
            if wanted() & reach(i) {
                assume((q >= plane(i)) | reach(i + 1));
                assume((q <= plane(i)) | reach(a));
                assume(reach(i + 1) | reach(a));
            }
            Node::Split(axis, plane(i), a)
        }
        1 => { assume(!(wanted() & reach(i))); Node::Empty }
        2 => { let k = item(i, 0); assume(k < shapes_given()); assume(!(wanted() & reach(i)) | (k == wit())); Node::Shape(Arc::new(Thing { k })) }
        _ => {
            let n = uf_int("count", &[f(i)], 0, MANY) as usize;
            assume(!(wanted() & reach(i)) | ((slot(i) < n) & (item(i, slot(i)) == wit())));
            Node::Shapes(sym_vec(n, move |j| { let k = item(i, j); assume(k < shapes_given()); let s: Arc<Shape> = Arc::new(Thing { k }); s }).into_boxed_slice())
        }
    }
}
fn any_tree(t_max: f32) -> (KdTree, Ray) {
    let s = shot_at();
    let r = Ray { origin: P3::new(s.o[0], s.o[1], s.o[2]), direction: Vector3f::new(s.d[0], s.d[1], s.d[2]), t_max };
    emit("extent", &[r.t_max]);
    assume(wit() < shapes_given());
    assume(tau() > 0.);
    assume(!wanted() | reach(0));
    (KdTree { bbox: Thing { k: 0. }.bbox(), nodes: sym_vec(total(), |i| node(i)) }, r)
}
/// C11, C12, C13: the interval of the box of all shapes has the parameter of every hit
fn via_box(_: &BBox3f, r: &Ray) -> Option<(f32, f32)> {
    if boolean() { assume(!wanted()); return None; }
    let (a, b) = (nonneg(), nonneg());
    assume(a <= b);
    assume(b <= r.t_max);
    assume(!wanted() | ((a <= tau()) & (tau() <= b)));
    Some((a, b))
}
#[derive(Clone, Copy)]
struct Todo { node: usize, t_min: f32, t_max: f32 }
/// nodes left to visit at the head of the loop, and what they weigh together
fn pending(k: usize) -> Todo {
    let x = Todo { node: uf_int("todo", &[f(k)], 0, MANY) as usize, t_min: uf("from", &[f(k)]), t_max: uf("to", &[f(k)]) };
    assume(x.node < total());
    assume(ordered(x.t_min, x.t_max));
    assume(piles(f(k) + 1.) == piles(f(k)) + weight(x.node));
    x
}
fn piles(k: f32) -> f32 { uf_nonneg("piles", &[k]) }
fn ordered(a: f32, b: f32) -> bool { (a <= b) & (b <= extent()) }
fn has(node: usize, a: f32, b: f32) -> bool { reach(node) & (a <= tau()) & (tau() <= b) }
/// at the head: number of nodes left, and the one of them that has the witness, if it is not the current one
fn head(k: usize) -> f32 { event("head", 0, k) }
fn any_walk(node_i: &mut usize, t_min__0: &mut f32, t_max__0: &mut f32, todos: &mut Vec<Todo>, ray: &mut Ray, old_ray: &Ray, interaction: &mut Option<Interaction>) {
    any_node(node_i, t_min__0, t_max__0, todos);
    any_hit(ray, old_ray, interaction);
}
fn any_node(node_i: &mut usize, t_min: &mut f32, t_max: &mut f32, todos: &mut Vec<Todo>) {
    let i = any_value::<u32>() as usize;
    // the cases are proved separately: the current node is a leaf, or splits along one of the axes
    let c = event("case", 0, 0);
    let (kind, axis) = (uf_int("kind", &[f(i)], 0, 3) as f32, uf_int("axis", &[f(i)], 0, 2) as f32);
    if c == 3. { assume(kind != 0.); } else { assume((kind == 0.) & (axis == c)); }
    *node_i = i;
    *t_min = real();
    *t_max = real();
    let m = size(0, 1000000);
    *todos = sym_vec(m, |k| pending(k));
    let p = size(0, 1000000);
    assume(p <= m);
    emit("head", &[f(m), f(p)]);
}
fn any_hit(ray: &mut Ray, old_ray: &Ray, interaction: &mut Option<Interaction>) {
    let k = any_value::<u32>() as f32;
    let found = boolean();
    *ray = Ray { origin: old_ray.origin, direction: old_ray.direction, t_max: if found { at(k) } else { extent() } };
    *interaction = if found { Some(hit_of(k)) } else { None };
}
fn consistent(ray: &Ray, interaction: &Option<Interaction>) {
    match interaction {
        &None => invariant(ray.t_max == extent(), "the ray is as long as before while nothing is hit"),
        &Some(ref i) => {
            let k = i.shape.as_ref().unwrap().area();
            invariant((k >= 0.) & (k < shapes_given()), "the shape that is hit is one of those given");
            invariant(is_hit(k) & (at(k) < extent()), "it is hit within the ray");
            invariant((i.uv.x == k) & (i.uv.y == 1.), "the hit is that of the shape");
            invariant(ray.t_max == at(k), "the ray ends at the hit");
        }
    }
}
/// the node that has the witness is yet to be visited, unless `done`
fn walk(node_i: usize, t_min: f32, t_max: f32, todos: &Vec<Todo>, done: bool) {
    invariant(node_i < total(), "the current node exists");
    invariant(ordered(t_min, t_max), "the interval of the current node is within the ray");
    let n = todos.len();
    let here = has(node_i, t_min, t_max);
    if emitted("head") == 0 {
        invariant(n == 0, "nothing is left for later at first");
        decreases_real(weight(node_i));
        invariant(!wanted() | done | here, "the root has every shape that is hit");
        return;
    }
    let (m, p) = (head(0), head(1) as usize);
    let old = pending(p);
    let later = (head(1) < m) & (head(1) < f(n)) & has(old.node, old.t_min, old.t_max);
    if f(n) == m + 1. {
        let x = todos[n - 1];
        invariant(x.node < total(), "nodes left for later exist");
        invariant(ordered(x.t_min, x.t_max), "their intervals are within the ray");
        decreases_real(weight(node_i) + weight(x.node) + piles(m));
        invariant(!wanted() | done | here | later | has(x.node, x.t_min, x.t_max), "the closest hit is found or yet to be visited");
    } else {
        invariant((f(n) == m) | (f(n) + 1. == m), "one node at most is taken up or left for later");
        decreases_real(weight(node_i) + piles(f(n)));
        invariant(!wanted() | done | here | later, "the closest hit is found or yet to be visited");
    }
    // the others are as they were
    let j = size(0, 1000000);
    if proving() && (j < n) & (f(j) < m) {
        let (x, y) = (todos[j], pending(j));
        invariant((x.node == y.node) & (x.t_min == y.t_min) & (x.t_max == y.t_max), "nodes left for later stay as they are");
    }
}
fn walk_so_far(node_i: &usize, t_min__0: &f32, t_max__0: &f32, todos: &Vec<Todo>, ray: &Ray, old_ray: &Ray, interaction: &Option<Interaction>) {
    same_line(ray, old_ray);
    consistent(ray, interaction);
    walk(*node_i, *t_min__0, *t_max__0, todos, ray.t_max <= tau());
}
fn any_leaf<'a>(iter: &mut Iter<'a, Arc<Shape>>, old_iter: &Iter<'a, Arc<Shape>>, ray: &mut Ray, old_ray: &Ray, interaction: &mut Option<Interaction>) {
    *iter = iter_from(old_iter, any_value());
    any_hit(ray, old_ray, interaction);
}
fn leaf_so_far(iter: &Iter<Arc<Shape>>, old_iter: &Iter<Arc<Shape>>, ray: &Ray, old_ray: &Ray, interaction: &Option<Interaction>, node_i: &usize) {
    decreases(iter.len());
    same_line(ray, old_ray);
    consistent(ray, interaction);
    invariant(ray.t_max <= old_ray.t_max, "the ray gets no longer");
    if wanted() & reach(*node_i) & (f(slot(*node_i)) + f(iter.len()) < f(old_iter.len())) { invariant(ray.t_max <= tau(), "no visited shape is hit before"); }
}
/// Whatever the tree: the closest hit.
fn tree_closest(case: usize, t_max: f32) {
    if !symbolic() { return one_scene(); }
    reset_trace();
    emit("case", &[f(case)]);
    stub(BBox3f::intersect, via_box);
    loop_contract(<KdTree as Container>::intersect, 0, any_walk, walk_so_far);
    if case == 3 { loop_contract(<KdTree as Container>::intersect, 1, any_leaf, leaf_so_far); }
    let (t, r) = any_tree(t_max);
    match t.intersect(&r) {
        None => check(!wanted(), "a miss is reported only when no shape is hit within the ray"),
        Some(i) => {
            let k = i.shape.as_ref().unwrap().area();
            check((k >= 0.) & (k < shapes_given()), "the shape that is hit is one of those given");
            check(is_hit(k) & (at(k) < extent()), "it is hit within the ray");
            check((i.uv.x == k) & (i.uv.y == 1.), "the hit is that of the shape it carries");
            check(!wanted() | (at(k) <= tau()), "no shape is hit before");
        }
    }
}
pub fn h_c14_tree_closest_x() { tree_closest(0, real()) }
pub fn h_c14_tree_closest_y() { tree_closest(1, real()) }
pub fn h_c14_tree_closest_z() { tree_closest(2, real()) }
pub fn h_c14_tree_closest_leaf() { tree_closest(3, real()) }
pub fn h_c14_tree_closest_unlimited_x() { tree_closest(0, INFINITY) }
pub fn h_c14_tree_closest_unlimited_y() { tree_closest(1, INFINITY) }
pub fn h_c14_tree_closest_unlimited_z() { tree_closest(2, INFINITY) }
pub fn h_c14_tree_closest_unlimited_leaf() { tree_closest(3, INFINITY) }
fn one_scene() {
    let n = size(0, 30);
    let v = blocks(n);
    let t = KdTree::new(v.clone().into_boxed_slice(), None);
    let r = shot(&v);
    agrees(&t, &v, &r);
}

// ---- the boolean query
fn any_walk_p(node_i: &mut usize, t_min__0: &mut f32, t_max__0: &mut f32, todos: &mut Vec<Todo>) { any_node(node_i, t_min__0, t_max__0, todos); }
fn walk_so_far_p(node_i: &usize, t_min__0: &f32, t_max__0: &f32, todos: &Vec<Todo>) {
    invariant(emitted("hit") == 0, "the search ends with the first hit");
    walk(*node_i, *t_min__0, *t_max__0, todos, false);
}
fn any_leaf_p<'a>(iter: &mut Iter<'a, Arc<Shape>>, old_iter: &Iter<'a, Arc<Shape>>) { *iter = iter_from(old_iter, any_value()); }
fn leaf_so_far_p(iter: &Iter<Arc<Shape>>, old_iter: &Iter<Arc<Shape>>, node_i: &usize) {
    decreases(iter.len());
    invariant(emitted("hit") == 0, "the search ends with the first hit");
    invariant(!(wanted() & reach(*node_i) & (f(slot(*node_i)) + f(iter.len()) < f(old_iter.len()))), "no visited shape is hit");
}
fn tree_any(case: usize, t_max: f32) {
    if !symbolic() { return one_scene(); }
    reset_trace();
    emit("case", &[f(case)]);
    stub(BBox3f::intersect, via_box);
    loop_contract(<KdTree as Container>::intersect_p, 0, any_walk_p, walk_so_far_p);
    if case == 3 { loop_contract(<KdTree as Container>::intersect_p, 1, any_leaf_p, leaf_so_far_p); }
    let (t, r) = any_tree(t_max);
    if t.intersect_p(&r) {
        check(emitted("hit") == 1, "a hit is reported only when a shape is hit within the ray");
    } else {
        check(!wanted(), "a miss is reported only when no shape is hit within the ray");
    }
}
pub fn h_c14_tree_any_x() { tree_any(0, real()) }
pub fn h_c14_tree_any_y() { tree_any(1, real()) }
pub fn h_c14_tree_any_z() { tree_any(2, real()) }
pub fn h_c14_tree_any_leaf() { tree_any(3, real()) }
pub fn h_c14_tree_any_unlimited_x() { tree_any(0, INFINITY) }
pub fn h_c14_tree_any_unlimited_y() { tree_any(1, INFINITY) }
pub fn h_c14_tree_any_unlimited_z() { tree_any(2, INFINITY) }
pub fn h_c14_tree_any_unlimited_leaf() { tree_any(3, INFINITY) }

// ------------------------------------------------------------------ construction
use std::ops::Range;
/// A shape in a box: number k.
struct Boxed { k: f32 }
fn low(k: f32, a: usize) -> f32 { if a == 0 { uf("low x", &[k]) } else if a == 1 { uf("low y", &[k]) } else { uf("low z", &[k]) } }
fn high(k: f32, a: usize) -> f32 { low(k, a) + if a == 0 { uf_nonneg("wide x", &[k]) } else if a == 1 { uf_nonneg("wide y", &[k]) } else { uf_nonneg("wide z", &[k]) } }
impl Shape for Boxed {
    fn bbox(&self) -> BBox3f { let k = self.k; BBox3f { min: P3::new(low(k, 0), low(k, 1), low(k, 2)), max: P3::new(high(k, 0), high(k, 1), high(k, 2)) } }
    fn area(&self) -> f32 { self.k }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { panic!() }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
}
fn boxed(k: f32) -> Arc<Shape> { Arc::new(Boxed { k }) }
struct BEdge { edge_type: BEdgeType, t: f32, shape: Arc<Shape> }
enum BEdgeType { Start, End }
fn arg(k: usize) -> f32 { event("args", 0, k) }
/// the edge the loop over the shapes makes: two for each
fn made(e: usize, a: usize) -> BEdge {
    let k = f(e / 2);
    if e % 2 == 0 { BEdge { edge_type: BEdgeType::Start, t: low(k, a), shape: boxed(k) } } else { BEdge { edge_type: BEdgeType::End, t: high(k, a), shape: boxed(k) } }
}
/// The loop over the axes: those that are left have no edges yet, and no split is found before the last that was tried.
fn any_axis(iter: &mut Range<i32>, axis: &mut Axis, best_axis__0: &mut Option<Axis>, best_edge__0: &mut Option<usize>, best_cost: &mut f32, edges: &mut [Vec<BEdge>; 3]) {
    *iter = int(0, 3)..3;
    let a = arg(1) as usize;
    *axis = axis_of(a);
    *best_axis__0 = None;
    *best_edge__0 = None;
    *best_cost = real();
    let (b, c) = (size(0, MANY as usize), size(0, MANY as usize));
    *edges = [if a == 0 { Vec::new() } else { filled(if a == 2 { b } else { c }, 0) }, if a == 1 { Vec::new() } else { filled(if a == 0 { b } else { c }, 1) }, if a == 2 { Vec::new() } else { filled(if a == 1 { b } else { c }, 2) }];
}
fn axes_so_far(iter: &Range<i32>, old_iter: &Range<i32>, axis: &Axis, best_axis__0: &Option<Axis>, best_edge__0: &Option<usize>, edges: &[Vec<BEdge>; 3]) {
    let i = iter.start;
    invariant(old_iter.start == 0 && old_iter.end == 3 && iter.end == 3 && (0 <= i) & (i <= 3), "three axes are tried");
    decreases_real(3. - i as f32);
    invariant(best_axis__0.is_none() && best_edge__0.is_none(), "no split yet");
    let a = *axis as usize;
    invariant((i == 3) | (edges[a].len() == 0), "no edges along the axis yet");
    invariant((i >= 2) | (edges[(a + 1) % 3].len() == 0), "no edges along the axis after it yet");
    invariant((i >= 1) | (edges[(a + 2) % 3].len() == 0), "no edges along the last axis yet");
}
fn axis_of(a: usize) -> Axis { if a == 0 { Axis::X } else if a == 1 { Axis::Y } else { Axis::Z } }
fn filled(n: usize, a: usize) -> Vec<BEdge> { sym_vec(n, move |e| made(e, a)) }
fn any_edges<'a>(iter: &mut Iter<'a, Arc<Shape>>, old_iter: &Iter<'a, Arc<Shape>>, edges: &mut [Vec<BEdge>; 3], old_edges: &[Vec<BEdge>; 3], axis: &Axis) {
    let k = size(0, MANY as usize);
    *iter = iter_from(old_iter, k);
    let a = *axis as usize;
    *edges = [if a == 0 { filled(2 * k, 0) } else { again(&old_edges[0]) }, if a == 1 { filled(2 * k, 1) } else { again(&old_edges[1]) }, if a == 2 { filled(2 * k, 2) } else { again(&old_edges[2]) }];
}
fn same_edge(e: &BEdge, j: usize, a: usize) -> bool {
    let k = f(j / 2);
    if j % 2 == 0 { match e.edge_type { BEdgeType::Start => (e.t == low(k, a)) & (e.shape.area() == k), _ => false } }
    else { match e.edge_type { BEdgeType::End => (e.t == high(k, a)) & (e.shape.area() == k), _ => false } }
}
fn edges_so_far(iter: &Iter<Arc<Shape>>, old_iter: &Iter<Arc<Shape>>, edges: &[Vec<BEdge>; 3], old_edges: &[Vec<BEdge>; 3], axis: &Axis) {
    decreases(iter.len());
    let (n, a) = (old_iter.len() - iter.len(), *axis as usize);
    invariant(f(edges[a].len()) == 2. * f(n), "every shape has two edges");
    for b in 0..3 { if b != a { invariant(edges[b].len() == old_edges[b].len(), "the edges along other axes stay"); } }
    let j = size(0, 2 * MANY as usize);
    if proving() && j < edges[a].len() { invariant(same_edge(&edges[a][j], j, a), "they are the start and the end of its box"); }
}
/// of the first i sorted edges, as many are ends (a permutation of the edges has as many ends as there are shapes)
fn ends(a: usize, i: f32) -> f32 { uf_nonneg("ends", &[f(a), i]) }
fn any_costs(iter: &mut Range<usize>, old_iter: &Range<usize>, n_below: &mut i32, n_above: &mut usize, best_cost: &mut f32, best_axis__0: &mut Option<Axis>, best_edge__0: &mut Option<usize>, axis: &Axis) {
    *iter = size(0, 2 * MANY as usize)..old_iter.end;
    *n_below = int(0, 2 * MANY as i32);
    *n_above = size(0, MANY as usize);
    *best_cost = real();
    let found = boolean();
    *best_axis__0 = if found { Some(*axis) } else { None };
    *best_edge__0 = if found { Some(size(0, 2 * MANY as usize)) } else { None };
}
fn costs_so_far(iter: &Range<usize>, old_iter: &Range<usize>, n_below: &i32, n_above: &usize, best_axis__0: &Option<Axis>, best_edge__0: &Option<usize>, axis: &Axis, edges: &[Vec<BEdge>; 3], node_bbox: &BBox3f) {
    let (i, n, a) = (iter.start, arg(0), *axis as usize);
    invariant((iter.end == old_iter.end) & (f(iter.end) == 2. * n), "every edge is tried");
    invariant(i <= iter.end, "and no more");
    decreases_real(2. * n - f(i));
    // what is counted
    if i == 0 { assume(ends(a, 0.) == 0.); }
    if !proving() && i < iter.end {
        let one = match edges[a][i].edge_type { BEdgeType::End => 1., _ => 0. };
        assume(ends(a, f(i) + 1.) == ends(a, f(i)) + one);
        assume(ends(a, f(i) + 1.) <= n);
    }
    invariant(f(*n_above) == n - ends(a, f(i)), "above are the shapes that have not ended");
    invariant((*n_below >= 0) & (*n_below as f32 <= f(i)), "below are the shapes that have started");
    match (best_axis__0, best_edge__0) {
        (&None, &None) => invariant(true, "no split yet"),
        (&Some(x), &Some(b)) => {
            invariant(x as usize == a, "the best split is along the axis that is tried");
            invariant(b < iter.end, "the best split is at an edge");
            if b < iter.end {
                let (t, l, h) = (edges[a][b].t, node_bbox.min[*axis], node_bbox.max[*axis]);
                invariant((l < t) & (t < h), "the best split is inside the node");
            }
        }
        _ => invariant(false, "a split has an axis and an edge"),
    }
}
/// the witness among those below and above, and its point
fn q(a: usize) -> f32 { if a == 0 { uf("qx", &[]) } else if a == 1 { uf("qy", &[]) } else { uf("qz", &[]) } }
fn me() -> usize { uf_int("me", &[], 0, MANY) as usize }
fn slot_below() -> usize { uf_int("slot below", &[], 0, MANY) as usize }
fn slot_above() -> usize { uf_int("slot above", &[], 0, MANY) as usize }
fn below(j: usize) -> f32 { let k = uf_int("below", &[f(j)], 0, MANY) as f32; assume(k < arg(0)); k }
fn upper(j: usize) -> f32 { let k = uf_int("upper", &[f(j)], 0, MANY) as f32; assume(k < arg(0)); k }
fn any_below<'a>(iter: &mut Iter<'a, BEdge>, old_iter: &Iter<'a, BEdge>, s_below: &mut Vec<Arc<Shape>>, best_edge: &usize) {
    *iter = iter_from(old_iter, size(0, 2 * MANY as usize));
    let m = size(0, MANY as usize);
    *s_below = sym_vec(m, |j| boxed(below(j)));
    emit("below", &[f(m)]);
    emit("edge", &[f(*best_edge)]);
}
fn below_so_far(iter: &Iter<BEdge>, old_iter: &Iter<BEdge>, s_below: &Vec<Arc<Shape>>) {
    decreases(iter.len());
    let (seen, at) = (f(old_iter.len()) - f(iter.len()), f(sorted_place(2 * me())));
    chosen(seen > at, s_below, "below", below, slot_below());
}
/// a list made of shapes that are given: `wanted` if the witness is to be in it
fn chosen(wanted: bool, v: &Vec<Arc<Shape>>, name: &'static str, old: fn(usize) -> f32, slot: usize) {
    let n = v.len();
    if emitted(name) == 0 { invariant(!wanted & (n == 0), "the list starts empty"); return; }
    let m = event(name, 0, 0);
    let kept = (f(slot) < m) & (old(slot) == f(me()));
    invariant((f(n) == m) | (f(n) == m + 1.), "the list only grows");
    if f(n) == m + 1. {
        let k = v[n - 1].area();
        invariant(!wanted | kept | (k == f(me())), "the list has every shape that has to be in it");
        invariant(k < arg(0), "the list has no other shapes");
    } else { invariant(!wanted | kept, "the list has every shape that has to be in it"); }
    let j = size(0, MANY as usize);
    if proving() && (j < n) & (f(j) < m) { invariant(v[j].area() == old(j), "the list keeps its shapes"); }
}
fn any_above<'a>(iter: &mut Iter<'a, BEdge>, old_iter: &Iter<'a, BEdge>, s_above: &mut Vec<Arc<Shape>>) {
    *iter = iter_from(old_iter, size(0, 2 * MANY as usize));
    let m = size(0, MANY as usize);
    *s_above = sym_vec(m, |j| boxed(upper(j)));
    emit("above", &[f(m)]);
}
fn above_so_far(iter: &Iter<BEdge>, old_iter: &Iter<BEdge>, s_above: &Vec<Arc<Shape>>, best_edge: &usize) {
    decreases(iter.len());
    let (seen, at) = (f(old_iter.len()) - f(iter.len()), f(sorted_place(2 * me() + 1)) - (f(*best_edge) + 1.));
    chosen((at >= 0.) & (seen > at), s_above, "above", upper, slot_above());
}
/// the contract of `build`, used for the subtrees
fn via_build(tree: &mut KdTree, shapes: Box<[Arc<Shape>]>, b: BBox3f, bad: u8, depth: u32) {
    let (upper, case) = (emitted("built") == 1, arg(2));
    let slot = if upper { slot_above() } else { slot_below() };
    let asked = case == 3. || case == if upper { 2. } else { 1. };
    let has = if asked && slot < shapes.len() && shapes[slot].area() == f(me()) { 1. } else { 0. };
    emit("built", &[f(tree.nodes.len()), has, b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z, bad as f32, depth as f32]);
    let j = size(0, MANY as usize);
    if case == 0. && j < shapes.len() { check(shapes[j].area() < arg(0), "subtrees have no other shapes"); }
    grow(&mut tree.nodes, size(1, MANY as usize));
}
fn any_region() -> BBox3f {
    let (x, y, z) = (real(), real(), real());
    let (a, b, c) = (nonneg(), nonneg(), nonneg());
    BBox3f { min: P3::new(x, y, z), max: P3::new(x + a, y + b, z + c) }
}
fn via_extent(_: &BBox3f) -> Axis { axis_of(arg(1) as usize) }
/// One node: the witness is in the leaf, or in the subtrees whose regions have its point.
fn construct(first: usize, case: usize) {
    if !symbolic() { return one_scene(); }
    reset_trace();
    linear();
    stub(KdTree::build, via_build);
    stub(BBox3f::max_extent, via_extent);
    loop_contract(KdTree::build, 0, any_axis, axes_so_far);
    loop_contract(KdTree::build, 1, any_edges, edges_so_far);
    loop_contract(KdTree::build, 2, any_costs, costs_so_far);
    loop_contract(KdTree::build, 3, any_below, below_so_far);
    loop_contract(KdTree::build, 4, any_above, above_so_far);
    let n = size(0, MANY as usize);
    emit("args", &[f(n), f(first), f(case)]);
    let start = size(0, MANY as usize);
    let mut tree = KdTree { bbox: Thing { k: 0. }.bbox(), nodes: sym_vec(start, |_| Node::Empty) };
    let r = any_region();
    let (bad, depth) = (uint(0, 2) as u8, any_value::<u32>());
    let (lo, hi) = ([r.min.x, r.min.y, r.min.z], [r.max.x, r.max.y, r.max.z]);
    let w = f(me());
    assume(w < f(n));
    for a in 0..3 { assume((lo[a] <= q(a)) & (q(a) <= hi[a]) & (low(w, a) <= q(a)) & (q(a) <= high(w, a))); }
    tree.build(sym_vec(n, |k| boxed(f(k))).into_boxed_slice(), r, bad, depth);
    let end = tree.nodes.len();
    match tree.nodes[start] {
        Node::Split(axis, t, up) => {
            check(depth > 0, "a leaf at the depth limit");
            check(emitted("built") == 2, "two subtrees");
            check(event("built", 0, 0) == f(start) + 1., "the lower subtree follows its parent");
            check(event("built", 1, 0) == f(up), "the upper subtree is where the split says");
            check(up < end, "the upper subtree exists");
            let a = axis as usize;
            check((lo[a] < t) & (t < hi[a]), "the node is split inside");
            if case == 0 { for k in 0..2 {
                for c in 0..3 {
                    check(event("built", k, 2 + c) == if k == 1 && c == a { t } else { lo[c] }, "regions of the subtrees (lower)");
                    check(event("built", k, 5 + c) == if k == 0 && c == a { t } else { hi[c] }, "regions of the subtrees (upper)");
                }
                check(event("built", k, 8) <= 2., "bad splits are counted up to three");
                check(event("built", k, 9) == depth as f32 - 1., "the depth limit goes down");
            } }
            let (b, s, e) = (event("edge", 0, 0) as usize, sorted_place(2 * me()), sorted_place(2 * me() + 1));
            let (in0, in1) = (event("built", 0, 1) == 1., event("built", 1, 1) == 1.);
            if case == 1 {
                sorted_pair(b, s);
                check((q(a) >= t) | in0, "a shape with a point below is below");
            }
            if case == 2 {
                sorted_pair(e, b);
                check((q(a) <= t) | in1, "a shape with a point above is above");
            }
            if case == 3 {
                sorted_pair(e, s);
                check(in0 | in1, "a shape with a point in the plane is below or above");
            }
        }
        Node::Empty => check(false, "no shape is lost in an empty leaf"),
        Node::Shape(ref s) => { check(s.area() == w, "a leaf has its shape"); leaf(end, start) }
        Node::Shapes(ref v) => { check(v.len() == n && v[me()].area() == w, "a leaf has all of its shapes"); leaf(end, start) }
    }
}
fn leaf(end: usize, start: usize) { check(emitted("built") == 0 && end == start + 1, "a leaf is one node"); }
pub fn h_c14_build_x() { construct(0, 0) }
pub fn h_c14_build_y() { construct(1, 0) }
pub fn h_c14_build_z() { construct(2, 0) }
pub fn h_c14_build_below_x() { construct(0, 1) }
pub fn h_c14_build_below_y() { construct(1, 1) }
pub fn h_c14_build_below_z() { construct(2, 1) }
pub fn h_c14_build_above_x() { construct(0, 2) }
pub fn h_c14_build_above_y() { construct(1, 2) }
pub fn h_c14_build_above_z() { construct(2, 2) }
pub fn h_c14_build_plane_x() { construct(0, 3) }
pub fn h_c14_build_plane_y() { construct(1, 3) }
pub fn h_c14_build_plane_z() { construct(2, 3) }
/// The whole tree is built from all shapes, in the region that is their box, from an empty list of nodes.
fn whole(max_depth: Option<u32>) {
    if !symbolic() { return one_scene(); }
    stub_shapes_box();
    stub(KdTree::build, via_whole);
    let n = size(0, MANY as usize);
    let t = KdTree::new(sym_vec(n, |k| boxed(f(k))).into_boxed_slice(), max_depth);
    check(is_shapes_box(&t.bbox) && is_shapes_box(&Container::bbox(&t)), "the tree has the box of its shapes");
    check(emitted("boxed") == 1 && event("boxed", 0, 0) == f(n), "the box is that of all shapes");
    check(emitted("whole") == 1 && event("whole", 0, 0) == f(n), "the tree is built from all shapes");
    check(t.nodes.len() > 0, "the tree has a root");
    if let Some(d) = max_depth { check(event("whole", 0, 1) == d as f32, "the depth limit is the one that is given"); }
}
fn via_whole(tree: &mut KdTree, shapes: Box<[Arc<Shape>]>, b: BBox3f, bad: u8, depth: u32) {
    check(tree.nodes.len() == 0, "the tree is built once");
    check(is_shapes_box(&b) && bad == 0, "the root's region is the box of the shapes");
    let j = size(0, MANY as usize);
    if j < shapes.len() { check(shapes[j].area() == f(j), "the tree is built from the shapes"); }
    emit("whole", &[f(shapes.len()), depth as f32]);
    tree.nodes = sym_vec(size(1, MANY as usize), |_| Node::Empty);
}
pub fn h_c14_whole() { whole(Some(any_value())) }
pub fn h_c14_whole_auto() { whole(None) }
