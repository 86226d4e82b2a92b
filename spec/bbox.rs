use transform::ptv_spec::*;
use material::Material;
use interaction::Interaction;
use common::INFINITY;
use std::slice::Iter;

/// any box: a corner and non-negative extents (every BBox3f with min <= max)
pub fn any_box() -> (BBox3f, Point3f, Vector3f) {
    let lo = any_point();
    let e = Vector3f::new(nonneg(), nonneg(), nonneg());
    (BBox3f { min: lo, max: lo + e }, lo, e)
}
fn pt(p: Point3f) -> [f32; 3] { [p.x, p.y, p.z] }
fn inside(b: &BBox3f, p: Point3f) -> bool {
    let (l, h, q) = (pt(b.min), pt(b.max), pt(p));
    l[0] <= q[0] && q[0] <= h[0] && l[1] <= q[1] && q[1] <= h[1] && l[2] <= q[2] && q[2] <= h[2]
}

pub fn h_c11_new() {
    let (a, b) = (any_point(), any_point());
    let x = BBox3f::new(a, b);
    check(inside(&x, a) && inside(&x, b), "box contains both points");
    let (l, h, p, q) = (pt(x.min), pt(x.max), pt(a), pt(b));
    for i in 0..3 {
        check(l[i] == p[i] || l[i] == q[i], "lower bound is attained");
        check(h[i] == p[i] || h[i] == q[i], "upper bound is attained");
    }
}
pub fn h_c11_union() {
    let ((a, _, _), (b, _, _)) = (any_box(), any_box());
    let x = a.union(&b);
    check(inside(&x, a.min) && inside(&x, a.max) && inside(&x, b.min) && inside(&x, b.max), "union contains both boxes");
    let (l, h) = (pt(x.min), pt(x.max));
    for i in 0..3 {
        check(l[i] == pt(a.min)[i] || l[i] == pt(b.min)[i], "union lower bound is attained");
        check(h[i] == pt(a.max)[i] || h[i] == pt(b.max)[i], "union upper bound is attained");
    }
}
pub fn h_c11_union_point() {
    let (a, _, _) = any_box();
    let p = any_point();
    let x = a.union_point(p);
    check(inside(&x, a.min) && inside(&x, a.max) && inside(&x, p), "union contains box and point");
    let (l, h) = (pt(x.min), pt(x.max));
    for i in 0..3 {
        check(l[i] == pt(a.min)[i] || l[i] == pt(p)[i], "union lower bound is attained");
        check(h[i] == pt(a.max)[i] || h[i] == pt(p)[i], "union upper bound is attained");
    }
}
pub fn h_c11_measures() {
    let (b, _, e) = any_box();
    let d = b.diagonal();
    let s = 1. + pt(b.min)[0].abs() + pt(b.min)[1].abs() + pt(b.min)[2].abs();
    close_s(d.x, e.x, s, "diagonal x");
    close_s(d.y, e.y, s, "diagonal y");
    close_s(d.z, e.z, s, "diagonal z");
    close_s(b.surface_area(), 2. * (e.x * e.y + e.y * e.z + e.z * e.x), s * (1. + e.x + e.y + e.z), "surface area");
    let a = b.max_extent() as usize;
    let x = [d.x, d.y, d.z];
    check(x[a] >= x[0] && x[a] >= x[1] && x[a] >= x[2], "largest axis is largest");
}
pub fn h_c11_point_inside() {
    let (b, _, _) = any_box();
    let p = any_point();
    check(b.point_inside(p) == inside(&b, p), "point containment");
}
pub fn h_c11_overlaps() {
    let ((a, _, _), (b, _, _)) = (any_box(), any_box());
    let r = a.overlaps(&b);
    check(r == b.overlaps(&a), "overlap is symmetric");
    // the candidate common point: the larger of the lower corners
    let m = Point3f::new(a.min.x.max(b.min.x), a.min.y.max(b.min.y), a.min.z.max(b.min.z));
    check(!r || (inside(&a, m) && inside(&b, m)), "overlapping boxes share a point");
    let p = any_point();
    check(r || !(inside(&a, p) && inside(&b, p)), "boxes that share a point overlap");
}
pub fn h_c11_bounding_sphere() {
    let (b, lo, e) = any_box();
    let s = 1. + lo.x.abs() + lo.y.abs() + lo.z.abs() + e.x + e.y + e.z;
    let (c, r) = b.bounding_sphere();
    close_s(c.x, lo.x + e.x * 0.5, s, "sphere centre is the middle");
    close_s(c.y, lo.y + e.y * 0.5, s, "sphere centre is the middle");
    close_s(c.z, lo.z + e.z * 0.5, s, "sphere centre is the middle");
    leq(0., r, "radius is not negative");
    close_s(r * r, (e.x * e.x + e.y * e.y + e.z * e.z) * 0.25, s * s, "radius is half the diagonal");
    let (u, v, w) = (real_in(0., 1.), real_in(0., 1.), real_in(0., 1.));
    let q = Point3f::new(lo.x + u * e.x, lo.y + v * e.y, lo.z + w * e.z);
    let d = q - c;
    leq((u - 0.5) * (u - 0.5), 0.25, "lemma x");
    leq((v - 0.5) * (v - 0.5), 0.25, "lemma y");
    leq((w - 0.5) * (w - 0.5), 0.25, "lemma z");
    leq_s((u - 0.5) * (u - 0.5) * e.x * e.x, 0.25 * e.x * e.x, s * s, "lemma scaled x");
    leq_s((v - 0.5) * (v - 0.5) * e.y * e.y, 0.25 * e.y * e.y, s * s, "lemma scaled y");
    leq_s((w - 0.5) * (w - 0.5) * e.z * e.z, 0.25 * e.z * e.z, s * s, "lemma scaled z");
    leq_s(d.x * d.x + d.y * d.y + d.z * d.z, r * r, s * s, "sphere contains the box");
}
/// one axis of a ray that is inside the box's slab at parameter t: (direction, origin, lower bound, upper bound)
fn slab(t: f32) -> (f32, f32, f32, f32) {
    if choose(3) == 0 {
        let d = any_zero();
        let (o, a, b) = (real(), nonneg(), nonneg());
        // natively, sometimes only almost parallel
        let d = if !symbolic() && a > 1. && b > 1. && (a * 64.) as i32 % 2 == 1 { (0.5f32).powi(10 + (a * 1024.) as i32 % 64) * if (b * 64.) as i32 % 2 == 1 { 1. } else { -1. } } else { d };
        return (d, o, if !symbolic() && a < 0.3 { o } else { o - a }, if !symbolic() && b < 0.3 { o } else { o + b });
    }
    let (o, before, after) = (real(), nonneg(), nonneg());
    native_assume((before > 0.05 || before == 0.) && (after > 0.05 || after == 0.) && before < 50. && after < 50.);
    let d = pos();
    native_assume(d > 0.02 && d < 50.);
    let (near, far) = (t - before, t + after);
    if boolean() { (d, o, o + d * near, o + d * far) } else { (-d, o, o - d * far, o - d * near) }
}
/// a zero of either sign
fn any_zero() -> f32 {
    if symbolic() { let d = real(); assume(d == 0.); d } else if boolean() { 0. } else { -0. }
}
fn conservative(unlimited: bool) {
    let t = nonneg();
    native_assume(t < 50.);
    let (x, y, z) = (slab(t), slab(t), slab(t));
    let b = BBox3f { min: Point3f::new(x.2, y.2, z.2), max: Point3f::new(x.3, y.3, z.3) };
    let extra = nonneg();
    let t_max = if unlimited { INFINITY } else { t + extra };
    native_assume(unlimited || extra > 0.01 * (1. + t));
    let r = Ray { origin: Point3f::new(x.1, y.1, z.1), direction: Vector3f::new(x.0, y.0, z.0), t_max };
    native_assume(r.origin.x.abs() + r.origin.y.abs() + r.origin.z.abs() < 60.);
    // away from the box being degenerate along the ray, where rounding alone may decide
    native_assume([x, y, z].iter().all(|s| s.0 == 0. || s.3 - s.2 > 0.02 * (1. + s.1.abs() + s.2.abs())));
    match b.intersect(&r) {
        None => check(corner(&b, &r, t), "a ray through a point of the box intersects it"),
        Some((t0, t1)) => {
            leq(0., t0, "interval starts at or after the origin");
            leq_s(t0, t, 1., "parameter not before the interval");
            leq_s(t, t1, 1., "parameter not after the interval");
            check(t1 <= t_max, "interval ends within the ray");
        }
    }
}
pub fn h_c11_ray_conservative_unlimited() {
    conservative(true);
}
pub fn h_c11_ray_conservative_limited() {
    conservative(false);
}
/// natively, a ray that only grazes the box (an edge or corner within rounding) may be reported either way
fn corner(b: &BBox3f, r: &Ray, t: f32) -> bool {
    if symbolic() { return false; }
    let e = 1e-3 * (1. + t.abs());
    let in_at = |s: f32| (0..3).all(|i| { let q = pt(r.origin)[i] + s * [r.direction.x, r.direction.y, r.direction.z][i]; pt(b.min)[i] <= q && q <= pt(b.max)[i] });
    !(in_at(t + e) && in_at(t - e))
}
/// nothing outside: when the ray misses the slab of some axis by a margin, no interval is returned
pub fn h_c11_ray_parallel_outside() {
    let (b, lo, e) = any_box();
    let k = choose(3);
    let gap = pos();
    native_assume(gap > 1e-2);
    let mut o = any_point();
    let mut d = any_vector();
    let above = boolean();
    if k == 0 { d.x = any_zero(); o.x = if above { lo.x + e.x + gap } else { lo.x - gap }; }
    if k == 1 { d.y = any_zero(); o.y = if above { lo.y + e.y + gap } else { lo.y - gap }; }
    if k == 2 { d.z = any_zero(); o.z = if above { lo.z + e.z + gap } else { lo.z - gap }; }
    native_assume(lo.x.abs() + lo.y.abs() + lo.z.abs() + e.x + e.y + e.z < 1000.);
    native_assume(d.x != 0. || d.y != 0. || d.z != 0.);
    let t_max = real_or_inf();
    assume(t_max > 0.);
    let r = Ray { origin: o, direction: d, t_max };
    check(match b.intersect(&r) { None => true, Some((t0, t1)) => t0 == t1 && t0 == INFINITY }, "a ray parallel to and outside a slab misses");
}
/// a slab crossed from parameter `near` to parameter `far`: (direction, origin, lower bound, upper bound, near, far)
fn crossed() -> (f32, f32, f32, f32, f32, f32) {
    let (o, near, w) = (real(), real(), pos());
    let far = near + w;
    native_assume(w > 0.05 && near.abs() < 20. && w < 20.);
    let d = pos();
    native_assume(d > 0.05 && d < 20.);
    if boolean() { (d, o, o + d * near, o + d * far, near, far) } else { (-d, o, o - d * far, o - d * near, near, far) }
}
// the interval is the intersection of the crossed slabs with [0, t_max]: not wider than that up to the documented rounding allowance
pub fn h_c11_ray_tight() {
    let (x, y, z) = (crossed(), crossed(), crossed());
    let b = BBox3f { min: Point3f::new(x.2, y.2, z.2), max: Point3f::new(x.3, y.3, z.3) };
    let t_max = pos();
    let r = Ray { origin: Point3f::new(x.1, y.1, z.1), direction: Vector3f::new(x.0, y.0, z.0), t_max };
    native_assume(r.origin.x.abs() + r.origin.y.abs() + r.origin.z.abs() < 30.);
    let enter = 0f32.max(x.4).max(y.4).max(z.4);
    let leave = t_max.min(x.5).min(y.5).min(z.5);
    match b.intersect(&r) {
        Some((t0, t1)) => {
            check(t0 <= t1, "interval is ordered");
            leq(0., t0, "interval starts at or after the origin");
            check(t1 <= t_max, "interval ends within the ray");
            leq_s(enter, t0, 1., "start is past the near faces");
            leq_s(t1, if leave > 0. { leave * 1.00001 } else { leave }, 1., "end is before the far faces");
        }
        None => leq_s(leave, enter, 1., "nothing is returned only when the ray misses the box"),
    }
}
pub fn h_c11_ray_finite() {
    let (b, lo, e) = any_box();
    let (o, d) = (any_point(), any_vector());
    assume(d.x != 0. || d.y != 0. || d.z != 0.);
    native_assume(d.x.abs() + d.y.abs() + d.z.abs() > 1e-3 && lo.x.abs() + lo.y.abs() + lo.z.abs() + e.x + e.y + e.z < 1e3);
    let r = Ray { origin: o, direction: d, t_max: INFINITY };
    if let Some((t0, t1)) = b.intersect(&r) { check((t0 <= t1) & (t1 < INFINITY), "the interval of an unlimited ray ends"); }
}
struct BoxShape { b: BBox3f }
impl Shape for BoxShape {
    fn bbox(&self) -> BBox3f { self.b }
    fn area(&self) -> f32 { 0. }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: ::vector::Point2f) -> Interaction { Interaction::default() }
}
fn of_shapes(n: usize) {
    let mut bs = Vec::new();
    let mut v: Vec<Arc<Shape>> = Vec::new();
    for _ in 0..n {
        let (b, _, _) = any_box();
        bs.push(b);
        v.push(Arc::new(BoxShape { b }));
    }
    let x = BBox3f::bbox_of_shapes(&v);
    let (mut al, mut ah) = ([false; 3], [false; 3]);
    for b in bs.iter() {
        check(inside(&x, b.min) && inside(&x, b.max), "box of shapes contains every shape");
        for i in 0..3 {
            if pt(b.min)[i] == pt(x.min)[i] { al[i] = true; }
            if pt(b.max)[i] == pt(x.max)[i] { ah[i] = true; }
        }
    }
    check(inside(&x, x.min) && inside(&x, x.max), "box of shapes is a box");
    for i in 0..3 { if n > 0 { check(al[i] && ah[i], "box of shapes is the smallest"); } }
}
pub fn h_c11_shapes_0() { of_shapes(0) }
pub fn h_c11_shapes_1() { of_shapes(1) }
pub fn h_c11_shapes_2() { of_shapes(2) }
/// Any number of shapes: the box contains an arbitrary one of them (a corner of it, so all of it), and it is inside every half-space
/// that all of them are inside of.
struct Numbered { k: f32 }
fn lowest(a: usize) -> f32 { uf(["least x", "least y", "least z"][a], &[]) }
fn highest(a: usize) -> f32 { lowest(a) + uf_nonneg(["most x", "most y", "most z"][a], &[]) }
fn low_of(k: f32, a: usize) -> f32 { lowest(a) + uf_nonneg(["low x", "low y", "low z"][a], &[k]) }
fn high_of(k: f32, a: usize) -> f32 { highest(a) - uf_nonneg(["high x", "high y", "high z"][a], &[k]) }
impl Shape for Numbered {
    fn bbox(&self) -> BBox3f {
        let k = self.k;
        for a in 0..3 { assume(low_of(k, a) <= high_of(k, a)); }
        BBox3f { min: Point3f::new(low_of(k, 0), low_of(k, 1), low_of(k, 2)), max: Point3f::new(high_of(k, 0), high_of(k, 1), high_of(k, 2)) }
    }
    fn area(&self) -> f32 { 0. }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: ::vector::Point2f) -> Interaction { Interaction::default() }
}
fn given() -> usize { uf_int("given", &[], 0, 1000000) as usize }
fn any_union<'a>(it: &mut Iter<'a, Arc<Shape>>, old_it: &Iter<'a, Arc<Shape>>, a: &mut BBox3f) {
    *it = iter_from(old_it, size(0, 1000000));
    *a = BBox3f { min: Point3f::new(real(), real(), real()), max: Point3f::new(real(), real(), real()) };
}
fn union_so_far(it: &Iter<Arc<Shape>>, old_it: &Iter<Arc<Shape>>, a: &BBox3f) {
    decreases(it.len());
    let seen = old_it.len() as f32 - it.len() as f32;
    let w = given() as f32;
    for i in 0..3 {
        let (lo, hi) = (pt(a.min)[i], pt(a.max)[i]);
        invariant((lowest(i) <= lo) & (lo <= hi) & (hi <= highest(i)), "the box so far has nothing that is outside of all shapes");
        invariant((w > seen) | (lo <= low_of(w, i)) & (high_of(w, i) <= hi), "the box so far contains the shapes so far");
    }
}
pub fn h_c11_shapes_many() {
    if !symbolic() { return of_shapes(size(0, 12)); }
    loop_contract_named("m_fold", 0, any_union, union_so_far);
    let n = size(1, 1000000);
    assume(given() < n);
    let v: Vec<Arc<Shape>> = sym_vec(n, |k| -> Arc<Shape> { Arc::new(Numbered { k: k as f32 }) });
    let x = BBox3f::bbox_of_shapes(&v);
    let w = given() as f32;
    for i in 0..3 {
        let (lo, hi) = (pt(x.min)[i], pt(x.max)[i]);
        check((lo <= low_of(w, i)) & (high_of(w, i) <= hi), "box of shapes contains every shape");
        check((lowest(i) <= lo) & (hi <= highest(i)), "box of shapes is the smallest");
        check(lo <= hi, "box of shapes is a box");
    }
}
/// the fold's step: a box of n+1 shapes is the union (first n, last): list of 3 follows from 2
pub fn h_c11_box2() {
    let (a, b) = (::vector::Point2f::new(real(), real()), ::vector::Point2f::new(real(), real()));
    let x = BBox2f::new(a, b);
    check(x.min.x <= a.x && a.x <= x.max.x && x.min.x <= b.x && b.x <= x.max.x, "2-d box contains both points in x");
    check(x.min.y <= a.y && a.y <= x.max.y && x.min.y <= b.y && b.y <= x.max.y, "2-d box contains both points in y");
    check((x.min.x == a.x || x.min.x == b.x) && (x.max.x == a.x || x.max.x == b.x), "2-d box is tight in x");
    check((x.min.y == a.y || x.min.y == b.y) && (x.max.y == a.y || x.max.y == b.y), "2-d box is tight in y");
    let d = x.diagonal();
    check(d.x == x.max.x - x.min.x && d.y == x.max.y - x.min.y, "2-d diagonal");
    check(x.area() == d.x * d.y, "2-d area");
}

/// One step of the iteration over an integer box: from any position it can be in, it hands out that position and moves on in row-major
/// order; at the end of a row it goes on with the next row, after the last row it ends. By induction over the steps every point of the
/// half-open box is handed out exactly once.
fn int_box() -> (BBox2i, i32, i32) {
    let (x0, y0) = (int(-1000000000, 1000000000), int(-1000000000, 1000000000));
    let (w, h) = (int(0, 1000000000), int(0, 1000000000));
    (BBox2i { min: Point2::new(x0, y0), max: Point2::new(x0 + w, y0 + h) }, w, h)
}
pub fn h_c01_pixel_first() {
    let (b, w, h) = int_box();
    assume(w > 0); assume(h > 0);
    match b.iter().next() {
        Some(p) => check(p.x == b.min.x && p.y == b.min.y, "starts at the lower corner"),
        None => check(false, "a box that is not empty has points"),
    }
}
pub fn h_c01_pixel_step() {
    let (b, w, h) = int_box();
    assume(w > 0); assume(h > 0);
    // just handed out: (i, j) of the box
    let (i, j) = (int(0, 1000000000), int(0, 1000000000));
    assume(i < w); assume(j < h);
    let mut it = b.iter();
    it.x = b.min.x + i; it.y = b.min.y + j;
    match it.next() { Some(p) => check(p.x == b.min.x + i && p.y == b.min.y + j, "hands out the point it is at"), None => check(false, "does not end before the last point") }
    match it.next() {
        Some(p) => if i + 1 < w { check(p.x == b.min.x + i + 1 && p.y == b.min.y + j, "goes on in the row"); } else { check(p.x == b.min.x && p.y == b.min.y + j + 1 && j + 1 < h, "goes on with the next row"); },
        None => {
            check(i + 1 == w && j + 1 == h, "ends after the last point only");
            check(it.next().is_none(), "stays at its end");
        }
    }
}
/// from the constructor on, for small boxes anywhere
fn small(w: i32, h: i32) {
    let (x0, y0) = (int(-1000000000, 1000000000), int(-1000000000, 1000000000));
    let b = BBox2i::new(Point2::new(x0, y0), Point2::new(x0 + w, y0 + h));
    let mut it = b.iter();
    for j in 0..h { for i in 0..w {
        match it.next() { Some(p) => check(p.x == x0 + i && p.y == y0 + j, "every point once, in order"), None => check(false, "every point is handed out") }
    } }
    check(it.next().is_none(), "then it ends");
    check(it.next().is_none(), "and stays so");
}
pub fn h_c01_pixel_small() { let (w, h) = (choose(4), choose(4)); small(w as i32, h as i32) }
pub fn h_c01_pixel_none() {
    // no point in a box without rows; in one without columns, see h_c01_pixel_small
    let (b, _, h) = int_box();
    if h == 0 { check(b.iter().next().is_none(), "nothing in a box without rows"); }
}

/// A box that just holds a point of the ray is never missed, whatever the rounding
pub fn h_c11_intersect_tiny() {
    let (o, d, t) = (any_point(), any_vector(), pos());
    let (c, e) = (pt(o), [d.x, d.y, d.z]);
    assume(d.x != 0. || d.y != 0. || d.z != 0.);
    native_assume(0.01 < t && t < 100.);
    for i in 0..3 { native_assume(c[i].abs() < 100. && (e[i] == 0. || 1e-3 < e[i].abs()) && e[i].abs() < 100.); }
    let (mut lo, mut hi) = ([0f32; 3], [0f32; 3]);
    for i in 0..3 {
        if symbolic() {
            lo[i] = c[i] + e[i] * t;
            hi[i] = lo[i];
        } else {
            let x = c[i] as f64 + e[i] as f64 * t as f64;
            let r = x as f32;
            native_assume(r.abs() > 1e-3);
            // the neighbour on the other side of x
            let up = |r: f32, up: bool| f32::from_bits(if (r > 0.) == up { r.to_bits() + 1 } else { r.to_bits() - 1 });
            lo[i] = if r as f64 > x { up(r, false) } else { r };
            hi[i] = if (r as f64) < x { up(r, true) } else { r };
        }
    }
    let b = BBox3f { min: Point3f::new(lo[0], lo[1], lo[2]), max: Point3f::new(hi[0], hi[1], hi[2]) };
    let r = Ray { origin: o, direction: d, t_max: INFINITY };
    check(b.intersect(&r).is_some(), "box just around a point of the ray is not missed");
}
