use transform::ptv_spec::*;
use vector::ptv_spec::{max_component_contract, normalize_function};
use reflection::BSDF;
use reflection::ptv_spec::dot3;
use common::INFINITY;
use vector::Normal3f;


struct Nothing {}
impl Material for Nothing { fn compute_scattering(&self, _: &Interaction) -> BSDF { panic!() } }
fn flat(vs: [Point3f; 3], rev: bool) -> Triangle { Triangle::new(vs, None, rev, Arc::new(Nothing {})) }

/// the vector whose component along axis k is c and whose others are a, b (in the order previous, next)
fn on_axes(k: usize, a: f32, b: f32, c: f32) -> Vector3f {
    if k == 0 { Vector3f::new(c, b, a) } else if k == 1 { Vector3f::new(a, c, b) } else { Vector3f::new(b, a, c) }
}
/// A ray and a triangle seen along it: every ray with largest direction component along axis k and every triangle is of this form.
/// (x, y): where the vertices are across the ray, z: along axis k
pub struct View { pub k: usize, pub o: Point3f, pub d: Vector3f, pub dz: f32, pub kx: f32, pub ky: f32, pub x: [f32; 3], pub y: [f32; 3], pub z: [f32; 3], pub vs: [Point3f; 3] }
pub fn view(k: usize) -> View {
    let (kx, ky, dz) = (real_in(-1., 1.), real_in(-1., 1.), real());
    assume(dz != 0.);
    if k == 1 { assume(kx.abs() < 1.); }     // ties go to the earlier axis
    if k == 2 { assume(kx.abs() < 1. && ky.abs() < 1.); }
    native_assume(dz.abs() > 0.05 && dz.abs() < 10. && kx.abs() < 0.999 && ky.abs() < 0.999);
    let d = on_axes(k, kx * dz, ky * dz, dz);
    let o = any_point();
    let (x, y, z) = ([real(), real(), real()], [real(), real(), real()], [real(), real(), real()]);
    native_assume(o.x.abs() < 20. && o.y.abs() < 20. && o.z.abs() < 20.);
    for i in 0..3 { native_assume(x[i].abs() < 20. && y[i].abs() < 20. && z[i].abs() < 20.); }
    let mut vs = [o, o, o];
    for i in 0..3 {
        let w = on_axes(k, x[i] + kx * z[i], y[i] + ky * z[i], z[i]);
        vs[i] = Point3f::new(o.x + w.x, o.y + w.y, o.z + w.z);
    }
    View { k, o, d, dz, kx, ky, x, y, z, vs }
}
/// edge functions: twice the signed area of the parts of the triangle seen from the ray
fn edges(v: &View) -> (f32, f32, f32) {
    (v.x[1] * v.y[2] - v.y[1] * v.x[2], v.x[2] * v.y[0] - v.y[2] * v.x[0], v.x[0] * v.y[1] - v.y[0] * v.x[1])
}
fn well_conditioned(v: &View) -> bool {
    let (e0, e1, e2) = edges(v);
    let m = 1e-2 * (1. + e0.abs() + e1.abs() + e2.abs());
    (e0 + e1 + e2).abs() > 0.05 && e0.abs() > m && e1.abs() > m && e2.abs() > m
}
/// one case per combination of the signs of the edge functions
fn cases(v: &View) {
    let (e0, e1, e2) = edges(v);
    if e0 > 0. { if e1 < 0. {} else if e1 == 0. {} } else if e0 < 0. { if e1 > 0. {} else if e1 == 0. {} } else if e1 > 0. {} else if e1 < 0. {}
    if e2 > 0. {} else if e2 < 0. {}
}
fn soundness(k: usize, limited: bool) {
    let v = view(k);
    native_assume(well_conditioned(&v));
    stub(Vector3f::max_component, max_component_contract);
    stub(Vector3f::normalize, normalize_function);
    cases(&v);
    let t_max = if limited { pos() } else { INFINITY };
    let r = Ray { origin: v.o, direction: v.d, t_max };
    if let Some((i, t)) = flat(v.vs, false).intersect(&r) {
        let (e0, e1, e2) = edges(&v);
        let det = e0 + e1 + e2;
        check(det != 0., "no hit on a triangle seen edge-on");
        if det > 0. {}
        check(0. < t, "hit is in front of the origin");
        leq_s(t, t_max, 1., "hit is within the ray");
        // e / det are its barycentric coordinates
        check((e0 >= 0. && e1 >= 0. && e2 >= 0.) || (e0 <= 0. && e1 <= 0. && e2 <= 0.), "hit is inside the triangle");
        let s = 1e2;
        close_s(v.x[0] * e0 + v.x[1] * e1 + v.x[2] * e2, 0., s * 10., "lemma: across x");
        close_s(v.y[0] * e0 + v.y[1] * e1 + v.y[2] * e2, 0., s * 10., "lemma: across y");
        native_assume(t < 100.);
        close_s(t * v.dz * det, v.z[0] * e0 + v.z[1] * e1 + v.z[2] * e2, s * 10., "parameter is that of the triangle's plane");
        let q = r.position(t);
        close_s(i.p.x, q.x, s, "hit lies on the ray (x)");
        close_s(i.p.y, q.y, s, "hit lies on the ray (y)");
        close_s(i.p.z, q.z, s, "hit lies on the ray (z)");
        close_s(i.p.x * det, v.vs[0].x * e0 + v.vs[1].x * e1 + v.vs[2].x * e2, s * 10., "hit lies in the triangle (x)");
        close_s(i.p.y * det, v.vs[0].y * e0 + v.vs[1].y * e1 + v.vs[2].y * e2, s * 10., "hit lies in the triangle (y)");
        close_s(i.p.z * det, v.vs[0].z * e0 + v.vs[1].z * e1 + v.vs[2].z * e2, s * 10., "hit lies in the triangle (z)");
        close(i.wo.x, -v.d.x, "outgoing direction x");
        close(i.wo.y, -v.d.y, "outgoing direction y");
        close(i.wo.z, -v.d.z, "outgoing direction z");
        check(i.p_err.x >= 0. && i.p_err.y >= 0. && i.p_err.z >= 0., "error bound is not negative");
        // the proof has a rounding unit of 0
        error_bound(&i, &v.vs);
        // the corners have surface coordinates (0, 0), (1, 0), (1, 1)
        close_s(i.uv.x * det, e1 + e2, s * 10., "first surface coordinate is interpolated");
        close_s(i.uv.y * det, e2, s * 10., "second surface coordinate is interpolated");
        let (a, b) = (v.vs[1] - v.vs[0], v.vs[2] - v.vs[1]);
        close_s(i.dpdu.x, a.x, s, "first tangent is the edge along which only the first coordinate changes (x)");
        close_s(i.dpdu.y, a.y, s, "first tangent is the edge along which only the first coordinate changes (y)");
        close_s(i.dpdu.z, a.z, s, "first tangent is the edge along which only the first coordinate changes (z)");
        close_s(i.dpdv.x, b.x, s, "second tangent is the edge along which only the second coordinate changes (x)");
        close_s(i.dpdv.y, b.y, s, "second tangent is the edge along which only the second coordinate changes (y)");
        close_s(i.dpdv.z, b.z, s, "second tangent is the edge along which only the second coordinate changes (z)");
        check(i.shape.is_none(), "shape is left unset");
    }
}
pub fn h_c13_sound_x() { soundness(0, true) }
pub fn h_c13_sound_y() { soundness(1, true) }
pub fn h_c13_sound_z() { soundness(2, true) }
pub fn h_c13_sound_unlimited() { soundness(1, false) }

fn agreement(k: usize, limited: bool) {
    let v = view(k);
    stub(Vector3f::max_component, max_component_contract);
    stub(Vector3f::normalize, normalize_function);
    cases(&v);
    let t_max = if limited { pos() } else { INFINITY };
    let r = Ray { origin: v.o, direction: v.d, t_max };
    let s = flat(v.vs, boolean());
    check(s.intersect_p(&r) == s.intersect(&r).is_some(), "boolean query agrees with the detailed one");
}
pub fn h_c13_agree_x() { agreement(0, true) }
pub fn h_c13_agree_y() { agreement(1, true) }
pub fn h_c13_agree_z() { agreement(2, true) }
pub fn h_c13_agree_unlimited() { agreement(0, false) }
pub fn h_c13_area_bbox() {
    let (a, b, c) = (any_point(), any_point(), any_point());
    let s = flat([a, b, c], boolean());
    let (u, w) = (b - a, c - a);
    let x = Vector3f::new(u.y * w.z - u.z * w.y, u.z * w.x - u.x * w.z, u.x * w.y - u.y * w.x);
    let area = s.area();
    leq(0., area, "area is not negative");
    let m = 1. + dot3(u, u) + dot3(w, w);
    close_s(4. * area * area, dot3(x, x), m * m, "area is half the cross product");
    let q = s.bbox();
    for p in [a, b, c].iter() {
        check(q.min.x <= p.x && p.x <= q.max.x && q.min.y <= p.y && p.y <= q.max.y && q.min.z <= p.z && p.z <= q.max.z, "box contains every vertex");
    }
    check((q.min.x == a.x || q.min.x == b.x || q.min.x == c.x) && (q.max.x == a.x || q.max.x == b.x || q.max.x == c.x), "box is tight (x)");
    check((q.min.y == a.y || q.min.y == b.y || q.min.y == c.y) && (q.max.y == a.y || q.max.y == b.y || q.max.y == c.y), "box is tight (y)");
    check((q.min.z == a.z || q.min.z == b.z || q.min.z == c.z) && (q.max.z == a.z || q.max.z == b.z || q.max.z == c.z), "box is tight (z)");
}
pub fn h_c13_sample() {
    let (a, b, c) = (any_point(), any_point(), any_point());
    let (u, w) = (b - a, c - a);
    let x = Vector3f::new(u.y * w.z - u.z * w.y, u.z * w.x - u.x * w.z, u.x * w.y - u.y * w.x);
    assume(dot3(x, x) > 0.);
    native_assume(dot3(x, x) > 1e-2 && dot3(u, u) < 400. && dot3(w, w) < 400.);
    native_assume(a.x.abs() + a.y.abs() + a.z.abs() < 50.);
    let rev = boolean();
    let (u0, u1) = (real_in(0., 1.), real_in(0., 1.));
    let i = flat([a, b, c], rev).sample(Point2f::new(u0, u1));
    let r = u0.sqrt();
    leq(r, 1., "lemma: root");
    // barycentric coordinates
    let (b0, b1) = (1. - r, u1 * r);
    let b2 = 1. - b0 - b1;
    leq(0., b0, "first coordinate is not negative");
    leq(0., b1, "second coordinate is not negative");
    leq(0., b2, "third coordinate is not negative");
    let s = 100.;
    close_s(i.p.x, a.x * b0 + b.x * b1 + c.x * b2, s, "sampled point is in the triangle (x)");
    close_s(i.p.y, a.y * b0 + b.y * b1 + c.y * b2, s, "sampled point is in the triangle (y)");
    close_s(i.p.z, a.z * b0 + b.z * b1 + c.z * b2, s, "sampled point is in the triangle (z)");
    let n = Vector3f::from(i.n);
    let f = if rev { -1. } else { 1. };
    let l = dot3(x, x).sqrt();
    close(n.x * f * l, x.x, "sampled normal is that of the front face (x)");
    close(n.y * f * l, x.y, "sampled normal is that of the front face (y)");
    close(n.z * f * l, x.z, "sampled normal is that of the front face (z)");
    check(i.p_err.x >= 0. && i.p_err.y >= 0. && i.p_err.z >= 0., "error bound is not negative (sample)");
    error_bound(&i, &[a, b, c]);
}
/// twice the area times the normal of the face
fn cross_of(vs: &[Point3f; 3]) -> Vector3f {
    let (u, w) = (vs[1] - vs[0], vs[2] - vs[0]);
    Vector3f::new(u.y * w.z - u.z * w.y, u.z * w.x - u.x * w.z, u.x * w.y - u.y * w.x)
}
/// a hit seen along axis k
fn normals(k: usize, rev: bool) {
    let v = view(k);
    native_assume(well_conditioned(&v));
    let (e0, e1, e2) = edges(&v);
    let det = e0 + e1 + e2;
    assume(det != 0.);       // soundness above: otherwise there is no hit
    let x = (v.vs[0] - v.vs[2]).cross(v.vs[1] - v.vs[2]);
    let y = cross_of(&v.vs);
    let m = 1. + dot3(v.vs[1] - v.vs[0], v.vs[1] - v.vs[0]) + dot3(v.vs[2] - v.vs[0], v.vs[2] - v.vs[0]);
    close_s(x.x, y.x, m * m, "lemma: cross product (x)");
    close_s(x.y, y.y, m * m, "lemma: cross product (y)");
    close_s(x.z, y.z, m * m, "lemma: cross product (z)");
    close_s(dot3(y, v.d), -v.dz * det, m * m * 100., "lemma: area seen from the ray");
    let q = x.x * x.x + x.y * x.y + x.z * x.z;
    if symbolic() { check(q > 0., "lemma: the triangle is not degenerate"); }
    native_assume(q > 0.01);
    let l = x.length();
    if symbolic() { check(l > 0., "lemma: area is positive"); }
    stub(Vector3f::max_component, max_component_contract);
    cases(&v);
    let r = Ray { origin: v.o, direction: v.d, t_max: INFINITY };
    if let Some((i, _)) = flat(v.vs, rev).intersect(&r) {
        let f = if rev { -1. } else { 1. };
        close_s(f * i.n.x * l, y.x, 0.1 * l, "normal is that of the front face (x)");
        close_s(f * i.n.y * l, y.y, 0.1 * l, "normal is that of the front face (y)");
        close_s(f * i.n.z * l, y.z, 0.1 * l, "normal is that of the front face (z)");
        check((i.sn.x == i.n.x) & (i.sn.y == i.n.y) & (i.sn.z == i.n.z), "shading normal of a flat face is its normal");
        close_s(dot3(i.dpdu, y), 0., m * m, "u tangent lies in the face");
        close_s(dot3(i.dpdv, y), 0., m * m, "v tangent lies in the face");
        check((i.dpdu.x != 0.) | (i.dpdu.y != 0.) | (i.dpdu.z != 0.), "u tangent is not zero");
        leq_s(0., i.uv.y, 1., "v is in range");
        leq_s(i.uv.y, i.uv.x, 1., "u is not below v");
        leq_s(i.uv.x, 1., 1., "u is in range");
    }
}
pub fn h_c13_normal_x() { normals(0, boolean()) }
pub fn h_c13_normal_y() { normals(1, boolean()) }
pub fn h_c13_normal_z() { normals(2, boolean()) }

/// a triangle facing the ray, with vertex normals: they are not related to the shape of the triangle
fn smooth(rev: bool) {
    let (ns, z) = ([any_normal(), any_normal(), any_normal()], pos());
    let (b1, b2) = (pos(), pos());
    assume(b1 + b2 < 1.);
    let b0 = 1. - b1 - b2;
    native_assume(z > 0.5 && z < 100. && b1 > 0.01 && b2 > 0.01 && b0 > 0.01);
    let o = Point3f::new(3. * b1 - 1., 3. * b2 - 1., 0.);
    let vs = [Point3f::new(-1., -1., z), Point3f::new(2., -1., z), Point3f::new(-1., 2., z)];
    let s = Triangle::new(vs, Some(ns), rev, Arc::new(Nothing {}));
    let r = Ray { origin: o, direction: Vector3f::new(0., 0., 1.), t_max: INFINITY };
    if let Some((i, _)) = s.intersect(&r) {
        let f = if rev { -1. } else { 1. };
        let w = Vector3f::new(ns[0].x * b0 + ns[1].x * b1 + ns[2].x * b2, ns[0].y * b0 + ns[1].y * b1 + ns[2].y * b2, ns[0].z * b0 + ns[1].z * b1 + ns[2].z * b2);
        let l = dot3(w, w).sqrt();
        let sn = Vector3f::from(i.sn);
        let n = Vector3f::from(i.n);
        if symbolic() && dot3(w, w) == 0. {
            check((sn.x == 0.) & (sn.y == 0.) & ((sn.z == 1.) | (sn.z == -1.)), "cancelling vertex normals leave the face's normal");
        } else {
            native_assume(l > 0.01);
            let sn = Vector3f::new(f * sn.x, f * sn.y, f * sn.z);
            close_s(sn.x * w.y, sn.y * w.x, 1. + l, "shading normal is along the interpolated one (z)");
            close_s(sn.y * w.z, sn.z * w.y, 1. + l, "shading normal is along the interpolated one (x)");
            close_s(sn.z * w.x, sn.x * w.z, 1. + l, "shading normal is along the interpolated one (y)");
            leq_s(0., dot3(sn, w), 1. + l, "shading normal points the way of the interpolated one");
        }
        close_s(dot3(sn, sn), 1., 1., "shading normal has unit length");
        close_s(n.z * n.z, 1., 1., "normal is that of the face");
        check((n.x == 0.) & (n.y == 0.), "normal is perpendicular to the face");
        leq_s(0., dot3(n, sn), 1., "normals are on the same side");
        close_s(dot3(i.dpdu, sn), 0., 1., "u tangent is perpendicular to the shading normal");
        close_s(dot3(i.dpdv, sn), 0., 1., "v tangent is perpendicular to the shading normal");
        close_s(dot3(i.dpdu, i.dpdu), 1., 1., "u tangent has unit length");
        close_s(dot3(i.dpdv, i.dpdv), 1., 1., "v tangent has unit length");
        close_s(dot3(i.dpdu, i.dpdv), 0., 1., "tangents are perpendicular");
    }
}
pub fn h_c13_agree_vertex_normals() {
    let z = real();
    let o = Point3f::new(real(), real(), 0.);
    let vs = [Point3f::new(-1., -1., z), Point3f::new(2., -1., z), Point3f::new(-1., 2., z)];
    let s = Triangle::new(vs, Some([any_normal(), any_normal(), any_normal()]), boolean(), Arc::new(Nothing {}));
    let r = Ray { origin: o, direction: Vector3f::new(0., 0., 1.), t_max: pos() };
    stub(Vector3f::max_component, max_component_contract);
    check(s.intersect_p(&r) == s.intersect(&r).is_some(), "boolean query agrees with the detailed one (vertex normals)");
}
pub fn h_c13_smooth() { smooth(false) }
pub fn h_c13_smooth_reversed() { smooth(true) }
/// the same with normals that cancel exactly
pub fn h_c13_cancelling() {
    let n = any_normal();
    let ns = [n, Normal3f::new(-n.x, -n.y, -n.z), Normal3f::new(0., 0., 0.)];
    let vs = [Point3f::new(-1., -1., 5.), Point3f::new(1., -1., 5.), Point3f::new(0., 1., 5.)];
    let s = Triangle::new(vs, Some(ns), boolean(), Arc::new(Nothing {}));
    let r = Ray { origin: Point3f::new(0., -0.5, 0.), direction: Vector3f::new(0., 0., 1.), t_max: INFINITY };
    match s.intersect(&r) {
        None => check(false, "the triangle is hit"),
        Some((i, _)) => {
            check((i.sn.x == 0.) & (i.sn.y == 0.) & ((i.sn.z == 1.) | (i.sn.z == -1.)), "cancelling vertex normals leave the face's normal");
            close_s(dot3(i.dpdu, i.dpdu), 1., 1., "u tangent has unit length");
        }
    }
}
/// the rounding unit of exact arithmetic
fn no_rounding(_: f32) -> f32 { 0. }
/// A ray that meets a triangle (seen from either side, at its edges too) within its extent is not missed.
fn completeness(k: usize, limited: bool, turned: bool) {
    let v = view(k);
    native_assume(well_conditioned(&v));
    stub(Vector3f::max_component, max_component_contract);
    stub(Vector3f::normalize, normalize_function);
    stub(gamma, no_rounding);
    let (e0, e1, e2) = edges(&v);
    if turned { assume((e0 <= 0.) & (e1 <= 0.) & (e2 <= 0.) & (e0 + e1 + e2 < 0.)); } else { assume((e0 >= 0.) & (e1 >= 0.) & (e2 >= 0.) & (e0 + e1 + e2 > 0.)); }
    let t_max = if limited { pos() } else { INFINITY };
    // the ray's parameter where it meets the triangle
    let t = (v.z[0] * e0 + v.z[1] * e1 + v.z[2] * e2) / (v.dz * (e0 + e1 + e2));
    assume(0. < t);
    if limited { assume(t <= t_max); native_assume(t < t_max * 0.99); }
    native_assume(t > 0.1);
    let r = Ray { origin: v.o, direction: v.d, t_max };
    let s = flat(v.vs, boolean());
    if boolean() {
        check(s.intersect_p(&r), "a triangle that is hit is reported (boolean)");
    } else {
        check(s.intersect(&r).is_some(), "a triangle that is hit is reported");
    }
}
pub fn h_c13_complete_x() { completeness(0, true, boolean()) }
pub fn h_c13_complete_y() { completeness(1, true, boolean()) }
pub fn h_c13_complete_z() { completeness(2, true, boolean()) }
pub fn h_c13_complete_unlimited() { completeness(0, false, boolean()) }

// ---------------------------------------------------------------- meshes
struct Mark {}
impl Material for Mark { fn compute_scattering(&self, i: &Interaction) -> BSDF { emit("mark", &[]); BSDF::new(i) } }
fn same3(a: Point3f, b: Point3f) -> bool { (a.x == b.x) & (a.y == b.y) & (a.z == b.z) }
fn samen(a: Normal3f, b: Normal3f) -> bool { (a.x == b.x) & (a.y == b.y) & (a.z == b.z) }
fn list<T: Copy>(a: &[T]) -> Box<[T]> { let mut v = Vec::new(); for x in a.iter() { v.push(*x); } v.into_boxed_slice() }
/// n faces over three vertices; `given` faces have a normal index
fn mesh(n: usize, given: Option<usize>) {
    let vs = [any_point(), any_point(), any_point()];
    let ns = [any_normal(), any_normal()];
    let mut is: Vec<[usize; 3]> = Vec::new();
    for _ in 0..n { is.push([size(0, 2), size(0, 2), size(0, 2)]); }
    let mut ni: Vec<[usize; 3]> = Vec::new();
    for _ in 0..given.unwrap_or(0) { ni.push([size(0, 1), size(0, 1), size(0, 1)]); }
    let (ic, nc) = (is.clone(), ni.clone());
    let (vn, vni) = match given { None => (None, None), Some(_) => (Some(list(&ns)), Some(ni.into_boxed_slice())) };
    let ts = Triangle::new_triangle_mesh(list(&vs), is.into_boxed_slice(), vn, vni, Arc::new(Mark {}));
    check(ts.len() == n, "one triangle per face");
    if ts.len() != n { return; }
    for k in 0..n {
        let t = &ts[k];
        for j in 0..3 { check(same3(t.vertices[j], vs[ic[k][j]]), "triangle has the indexed vertices, in order"); }
        check(!t.reverse_orientation, "winding is kept");
        let has = match given { Some(g) => g >= n, None => false };
        match t.vertex_normals {
            None => check(!has, "vertex normals are attached when every face has a normal index"),
            Some(m) => {
                check(has, "vertex normals are attached only when every face has a normal index");
                if has { for j in 0..3 { check(samen(m[j], ns[nc[k][j]]), "triangle has the indexed vertex normals, in order"); } }
            }
        }
        reset_trace();
        t.material().compute_scattering(&Interaction::default());
        check(emitted("mark") == 1, "triangle has the material of the mesh");
    }
}
pub fn h_c22_empty() { mesh(0, if boolean() { None } else { Some(0) }) }
pub fn h_c22_one() { mesh(1, match choose(4) { 0 => None, 1 => Some(0), 2 => Some(1), _ => Some(2) }) }
pub fn h_c22_two() { mesh(2, match choose(5) { 0 => None, 1 => Some(0), 2 => Some(1), 3 => Some(2), _ => Some(3) }) }
pub fn h_c22_three() { mesh(3, match choose(4) { 0 => None, 1 => Some(1), 2 => Some(2), _ => Some(3) }) }
/// vertex normals without indices for them are not used
pub fn h_c22_unindexed_normals() {
    let vs = [any_point(), any_point(), any_point()];
    let ts = Triangle::new_triangle_mesh(list(&vs), list(&[[0, 1, 2], [2, 1, 0]]), Some(list(&[any_normal(), any_normal(), any_normal()])), None, Arc::new(Mark {}));
    check(ts.len() == 2 && ts[0].vertex_normals.is_none() && ts[1].vertex_normals.is_none(), "vertex normals are attached only when indexed");
}
// ---- meshes of any size
const MESH: u32 = 1000000;
fn many(name: &'static str, lo: u32) -> u32 {
    if symbolic() { return uf_int(name, &[], lo, MESH); }
    // natively a mesh is rarely large
    match uf_int(name, &[], 0, 200) { 0 => 66000, k => lo + k % 12 }
}
fn vertex_at(k: usize) -> Point3f { let k = k as f32; Point3f::new(uf("v", &[k, 0.]), uf("v", &[k, 1.]), uf("v", &[k, 2.])) }
fn normal_at(k: usize) -> Normal3f { let k = k as f32; Normal3f::new(uf("vn", &[k, 0.]), uf("vn", &[k, 1.]), uf("vn", &[k, 2.])) }
fn vertex_of(face: usize, j: usize) -> usize { uf_int("vi", &[face as f32, j as f32], 0, many("vertices", 1) - 1) as usize }
fn normal_of(face: usize, j: usize) -> usize { uf_int("ni", &[face as f32, j as f32], 0, many("normals", 1) - 1) as usize }
fn face(k: usize, smooth: bool, material: &Arc<Material>) -> Triangle {
    let vs = [vertex_at(vertex_of(k, 0)), vertex_at(vertex_of(k, 1)), vertex_at(vertex_of(k, 2))];
    let ns = if smooth { Some([normal_at(normal_of(k, 0)), normal_at(normal_of(k, 1)), normal_at(normal_of(k, 2))]) } else { None };
    Triangle { vertices: vs, vertex_normals: ns, reverse_orientation: false, material: material.clone() }
}
fn same_face(t: &Triangle, k: usize, smooth: bool) -> bool {
    let mut same = !t.reverse_orientation;
    for j in 0..3 { same = same & same3(t.vertices[j], vertex_at(vertex_of(k, j))); }
    match t.vertex_normals {
        None => same & !smooth,
        Some(m) => { if !smooth { return false; } for j in 0..3 { same = same & samen(m[j], normal_at(normal_of(k, j))); } same }
    }
}
fn smooth_mesh() -> bool { event("mesh", 0, 0) == 1. }
fn any_faces(iter: &mut ::std::ops::Range<usize>, old_iter: &::std::ops::Range<usize>, triangles: &mut Vec<Triangle>, material: &Arc<Material>) {
    let k = size(0, MESH as usize);
    let (s, m) = (smooth_mesh(), material.clone());
    *iter = k..old_iter.end;
    *triangles = sym_vec(k, move |k| face(k, s, &m));
}
fn faces_so_far(iter: &::std::ops::Range<usize>, old_iter: &::std::ops::Range<usize>, triangles: &Vec<Triangle>) {
    invariant(iter.start <= old_iter.end, "faces that exist");
    if iter.start <= old_iter.end { decreases(old_iter.end - iter.start); }
    invariant(triangles.len() == iter.start, "one triangle per face");
    let k = size(0, MESH as usize);
    if proving() && k < triangles.len() { invariant(same_face(&triangles[k], k, smooth_mesh()), "triangle has the indexed vertices and normals, in order"); }
}
/// meshes of any number of faces, vertices and normals
fn any_mesh(given: usize) {
    reset_trace();
    loop_contract(Triangle::new_triangle_mesh, 0, any_faces, faces_so_far);
    let n = many("faces", 0) as usize;
    let ni = if given == 0 { 0 } else { many("normal_faces", 0) as usize };
    let has = given > 0 && ni >= n || n == 0;
    emit("mesh", &[if has { 1. } else { 0. }]);
    let vs = sym_vec(many("vertices", 1) as usize, |k| vertex_at(k));
    let is = sym_vec(n, |k| [vertex_of(k, 0), vertex_of(k, 1), vertex_of(k, 2)]);
    let (vn, vni) = if given == 0 { (None, None) } else {
        (Some(sym_vec(many("normals", 1) as usize, |k| normal_at(k)).into_boxed_slice()), Some(sym_vec(ni, |k| [normal_of(k, 0), normal_of(k, 1), normal_of(k, 2)]).into_boxed_slice()))
    };
    let ts = Triangle::new_triangle_mesh(vs.into_boxed_slice(), is.into_boxed_slice(), vn, vni, Arc::new(Mark {}));
    check(ts.len() == n, "one triangle per face");
    if ts.len() != n { return; }
    let mut k = size(0, MESH as usize);
    if !symbolic() && n > 0 { k = if boolean() { k % n } else { n - 1 - k % (1 + n / 9) }; }
    if k < n {
        check(same_face(&ts[k], k, has), "triangle has the indexed vertices and normals, in order");
        ts[k].material().compute_scattering(&Interaction::default());
        check(emitted("mark") == 1, "triangle has the material of the mesh");
    }
}
pub fn h_c22_any() { any_mesh(0) }
pub fn h_c22_any_with_normals() { any_mesh(1) }
/// natively: the error bound covers half a rounding unit of what is added up, and is small
fn error_bound(i: &Interaction, vs: &[Point3f; 3]) {
    if symbolic() { return; }
    let (e, p) = ([i.p_err.x, i.p_err.y, i.p_err.z], [i.p.x, i.p.y, i.p.z]);
    for k in 0..3 {
        check(5e-8 * p[k].abs() <= e[k], "error bound covers the rounding of the coordinates");
        check(e[k] <= 1e-4 * (vs[0][k].abs() + vs[1][k].abs() + vs[2][k].abs()), "error bound is small");
    }
}
