use matrix::ptv_spec::*;
use std::sync::Arc;
use shape::Shape;
use vector::Point2f;

/// any affine transform satisfying the invariant: m_inv is the inverse of m
pub fn any_affine() -> Transform {
    let m = any_affine_matrix();
    let mut mi = any_affine_matrix();
    if symbolic() {
        assume_identity(&m, &mi);
        assume_identity(&mi, &m);
    } else {
        match native_inverse(&m) { Some(r) => mi = r, None => assume(false) }
        let big = { let mut b = 0f32; for i in 0..4 { for j in 0..4 { b = b.max(mi[i][j].abs()).max(m[i][j].abs()); } } b };
        assume(big < 100.);
    }
    Transform { m, m_inv: mi }
}
/// any affine transform, the inverse not constrained (for facts that do not need it)
pub fn raw_affine() -> Transform {
    let m = any_affine_matrix();
    Transform { m, m_inv: any_affine_matrix() }
}
pub fn make(m: Matrix, m_inv: Matrix) -> Transform { Transform { m, m_inv } }
pub fn mat(t: &Transform) -> Matrix { t.m }
pub fn mat_inv(t: &Transform) -> Matrix { t.m_inv }
pub fn any_point() -> Point3f { Point3f::new(real(), real(), real()) }
pub fn any_vector() -> Vector3f { Vector3f::new(real(), real(), real()) }
pub fn any_normal() -> Normal3f { Normal3f::new(real(), real(), real()) }
fn invariant(t: &Transform, l: &'static str) {
    identity(&t.m, &t.m_inv, l);
    identity(&t.m_inv, &t.m, l);
}
fn affine(t: &Transform, l: &'static str) {
    let r = [t.m, t.m_inv];
    for a in 0..2 {
        check(r[a][3][0] == 0. && r[a][3][1] == 0. && r[a][3][2] == 0., l);
        close(r[a][3][3], 1., l);
    }
}
fn near(a: (f32, f32, f32), b: (f32, f32, f32), s: f32, l: &'static str) {
    close_s(a.0, b.0, s, l);
    close_s(a.1, b.1, s, l);
    close_s(a.2, b.2, s, l);
}
macro_rules! xyz { ($v:expr) => {{ let v = $v; (v.x, v.y, v.z) }} }
fn size(t: &Transform) -> f32 {
    if symbolic() { return 1.; }
    let mut b = 1f32; for i in 0..4 { for j in 0..4 { b = b.max(t.m[i][j].abs()).max(t.m_inv[i][j].abs()); } } b
}
fn sz3(v: (f32, f32, f32)) -> f32 { if symbolic() { 1. } else { 1. + v.0.abs() + v.1.abs() + v.2.abs() } }

pub fn h_c08_translate() {
    let (x, y, z) = (real(), real(), real());
    let t = Transform::translate(x, y, z);
    invariant(&t, "translate carries its inverse");
    affine(&t, "translate is affine");
    let p = any_point();
    near(xyz!(t.apply(&p)), (p.x + x, p.y + y, p.z + z), 1., "translate moves points");
    let v = any_vector();
    near(xyz!(t.apply(&v)), xyz!(v), 1., "translate leaves vectors");
}
pub fn h_c08_scale() {
    let (x, y, z) = (real(), real(), real());
    assume(x != 0. && y != 0. && z != 0.);
    native_assume(x.abs() > 0.01 && y.abs() > 0.01 && z.abs() > 0.01);
    let t = Transform::scale(x, y, z);
    invariant(&t, "scale carries its inverse");
    affine(&t, "scale is affine");
    let p = any_point();
    near(xyz!(t.apply(&p)), (p.x * x, p.y * y, p.z * z), 1., "scale scales points");
    let v = any_vector();
    near(xyz!(t.apply(&v)), (v.x * x, v.y * y, v.z * z), 1., "scale scales vectors");
}
pub fn h_c08_rotate() {
    let th = real_in(-720., 720.);
    let k = choose(3);
    let t = if k == 0 { Transform::rotate_x(th) } else if k == 1 { Transform::rotate_y(th) } else { Transform::rotate_z(th) };
    let a = th * (::std::f32::consts::PI / 180.);
    let (s, c) = (a.sin(), a.cos());
    invariant(&t, "rotation carries its inverse");
    affine(&t, "rotation is affine");
    let p = any_point();
    let e = if k == 0 { (p.x, p.y * c - p.z * s, p.y * s + p.z * c) } else if k == 1 { (p.x * c + p.z * s, p.y, p.z * c - p.x * s) } else { (p.x * c - p.y * s, p.x * s + p.y * c, p.z) };
    near(xyz!(t.apply(&p)), e, sz3(xyz!(p)), "right-handed rotation of points, in degrees");
    near(xyz!(t.apply(&Vector3f::from(p))), e, sz3(xyz!(p)), "right-handed rotation of vectors, in degrees");
}
pub fn h_c08_from_matrix() {
    let m = any_matrix();
    let (d, a) = det(&m);
    assume(d != 0.);
    native_assume(d.abs() > 0.02 * a && d.abs() > 1e-3);
    stub(Matrix::inverse, inverse_contract);
    let t = Transform::from(m);
    check(t.m == m, "transform from a matrix has that matrix");
    invariant(&t, "transform from a matrix carries its inverse");
    let u = Transform::from([[m[0][0], m[0][1], m[0][2], m[0][3]], [m[1][0], m[1][1], m[1][2], m[1][3]], [m[2][0], m[2][1], m[2][2], m[2][3]], [m[3][0], m[3][1], m[3][2], m[3][3]]]);
    check(u.m == m, "transform from rows has that matrix");
    invariant(&u, "transform from rows carries its inverse");
}
/// contract of Matrix::inverse, proved by h_c08_matrix_inverse
pub fn inverse_contract(m: &Matrix) -> Matrix {
    check(det(m).0 != 0., "matrix to invert is invertible");
    let r = any_matrix();
    assume_identity(m, &r);
    assume_identity(&r, m);
    r
}
pub fn h_c08_inverse() {
    let t = any_affine();
    let u = t.inverse();
    check(u.m == t.m_inv && u.m_inv == t.m, "inversion exchanges the matrices");
}
pub fn h_c08_compose() {
    let (t, u) = (any_affine(), any_affine());
    let v = t * u;
    native_assume(size(&t) < 30. && size(&u) < 30.);
    identity(&v.m, &v.m_inv, "composition carries its inverse");
    identity(&v.m_inv, &v.m, "composition carries its inverse");
    affine(&v, "composition of affine transforms is affine");
}
pub fn h_c08_compose_projective() {
    // the invariant is preserved for arbitrary matrices as well
    let (a, ai, b, bi) = (any_matrix(), any_matrix(), any_matrix(), any_matrix());
    let (ai, bi) = if symbolic() { (ai, bi) } else { match (native_inverse(&a), native_inverse(&b)) { (Some(x), Some(y)) => (x, y), _ => { assume(false); (ai, bi) } } };
    if symbolic() { assume_identity(&a, &ai); assume_identity(&b, &bi); }
    let (t, u) = (Transform { m: a, m_inv: ai }, Transform { m: b, m_inv: bi });
    native_assume(size(&t) < 20. && size(&u) < 20.);
    let v = t * u;
    identity(&v.m, &v.m_inv, "composition carries its inverse");
}
pub fn h_c08_compose_order() {
    let (t, u) = (raw_affine(), raw_affine());
    let v = t * u;
    let s = size(&t) * size(&u);
    let p = any_point();
    near(xyz!(v.apply(&p)), xyz!(t.apply(&u.apply(&p))), s * sz3(xyz!(p)), "composition applies the right factor first (points)");
    let d = any_vector();
    near(xyz!(v.apply(&d)), xyz!(t.apply(&u.apply(&d))), s * sz3(xyz!(d)), "composition applies the right factor first (vectors)");
    let n = any_normal();
    near(xyz!(v.apply(&n)), xyz!(t.apply(&u.apply(&n))), s * sz3(xyz!(n)), "composition applies the right factor first (normals)");
    near(xyz!(v.inverse_apply(&p)), xyz!(u.inverse_apply(&t.inverse_apply(&p))), s * sz3(xyz!(p)), "composition undoes the left factor first (points)");
}
pub fn h_c08_compose_order_projective() {
    let (a, b) = (any_matrix(), any_matrix());
    let (t, u) = (Transform { m: a, m_inv: a }, Transform { m: b, m_inv: b });
    let p = any_point();
    let w = b[3][0] * p.x + b[3][1] * p.y + b[3][2] * p.z + b[3][3];
    assume(w != 0.);
    let v = t * u;
    let w2 = v.m[3][0] * p.x + v.m[3][1] * p.y + v.m[3][2] * p.z + v.m[3][3];
    assume(w2 != 0.);
    native_assume(w.abs() > 0.1 && w2.abs() > 0.1);
    let s = size(&t) * size(&u);
    near(xyz!(v.apply(&p)), xyz!(t.apply(&u.apply(&p))), s * s * sz3(xyz!(p)), "projective composition applies the right factor first");
}
pub fn h_c08_roundtrip() {
    let t = any_affine();
    let s = size(&t) * size(&t);
    let p = any_point();
    near(xyz!(t.inverse_apply(&t.apply(&p))), xyz!(p), s * sz3(xyz!(p)), "points return");
    near(xyz!(t.apply(&t.inverse_apply(&p))), xyz!(p), s * sz3(xyz!(p)), "points return (inverse first)");
    let v = any_vector();
    near(xyz!(t.inverse_apply(&t.apply(&v))), xyz!(v), s * sz3(xyz!(v)), "vectors return");
    near(xyz!(t.inverse().apply(&t.apply(&v))), xyz!(v), s * sz3(xyz!(v)), "vectors return through the inverted transform");
    let n = any_normal();
    near(xyz!(t.inverse_apply(&t.apply(&n))), xyz!(n), s * sz3(xyz!(n)), "normals return");
    let r = Ray { origin: p, direction: v, t_max: pos() };
    let q = t.inverse_apply(&t.apply(&r));
    near(xyz!(q.origin), xyz!(p), s * sz3(xyz!(p)), "ray origins return");
    near(xyz!(q.direction), xyz!(v), s * sz3(xyz!(v)), "ray directions return");
    check(q.t_max == r.t_max, "ray extents return");
}
pub fn h_c08_roundtrip_projective() {
    let (a, ai) = (any_matrix(), any_matrix());
    let ai = if symbolic() { ai } else { match native_inverse(&a) { Some(x) => x, _ => { assume(false); ai } } };
    if symbolic() { assume_identity(&ai, &a); }
    let t = Transform { m: a, m_inv: ai };
    let p = any_point();
    let w = a[3][0] * p.x + a[3][1] * p.y + a[3][2] * p.z + a[3][3];
    assume(w != 0.);
    native_assume(w.abs() > 0.2 && size(&t) < 10.);
    let s = size(&t) * size(&t) * size(&t);
    near(xyz!(t.inverse_apply(&t.apply(&p))), xyz!(p), s * sz3(xyz!(p)), "points return under projective transforms");
}
pub fn h_c08_perspective() {
    let (fov, n, f) = (real_in(1., 179.), pos(), pos());
    assume(n != f);
    native_assume((n - f).abs() > 0.1 && n > 0.1 && f > 0.1 && fov > 5. && fov < 170.);
    let h = fov * (::std::f32::consts::PI / 360.);
    let (s, c) = (h.sin(), h.cos());
    assume(s > 0. && c > 0.);
    let t = Transform::perspective(fov, n, f);
    invariant(&t, "perspective carries its inverse");
    let p = any_point();
    assume(p.z != 0.);
    native_assume(p.z.abs() > 0.1);
    let q = t.apply(&p);
    near(xyz!(q), (p.x * c / (s * p.z), p.y * c / (s * p.z), f * (p.z - n) / ((f - n) * p.z)), 1. + (f / (f - n)).abs() * (1. + n / p.z.abs()), "perspective projection");
    native_assume(n < 20. && f < 20. && p.z < 10.);
    near(xyz!(t.inverse_apply(&q)), xyz!(p), 20. * sz3(xyz!(p)) * (1. + f.max(n) / (n - f).abs()) * (1. + f.max(n) / f.min(n)), "perspective points return");
}
pub fn h_c08_look_at() {
    let (pos, d, up) = (any_point(), any_vector(), any_vector());
    let look = Point3f::new(pos.x + d.x, pos.y + d.y, pos.z + d.z);
    let dd = d.x * d.x + d.y * d.y + d.z * d.z;
    let uu = up.x * up.x + up.y * up.y + up.z * up.z;
    let (lx, ly, lz) = (up.y * d.z - up.z * d.y, up.z * d.x - up.x * d.z, up.x * d.y - up.y * d.x);
    let ll = lx * lx + ly * ly + lz * lz;
    assume(dd > 0. && uu > 0. && ll > 0.);
    native_assume(dd > 0.01 && uu > 0.01 && ll > 0.01 * dd * uu && dd < 1e4 && pos.x.abs() + pos.y.abs() + pos.z.abs() < 100.);
    if symbolic() { stub(Matrix::inverse, inverse_contract); }
    let t = Transform::look_at(pos, look, up);
    let a = t.m;
    near((a[0][3], a[1][3], a[2][3]), xyz!(pos), 1., "look-at maps the origin to the position");
    let (x, y, z) = ((a[0][0], a[1][0], a[2][0]), (a[0][1], a[1][1], a[2][1]), (a[0][2], a[1][2], a[2][2]));
    let dot = |p: (f32, f32, f32), q: (f32, f32, f32)| p.0 * q.0 + p.1 * q.1 + p.2 * q.2;
    let (d, u, l) = ((d.x, d.y, d.z), (up.x, up.y, up.z), (lx, ly, lz));
    close(dot(z, z), 1., "viewing axis is a unit vector");
    let f = 1. / dd.sqrt();
    near(z, (d.0 * f, d.1 * f, d.2 * f), 1., "look-at maps z to the viewing direction");
    close(dot(x, x), 1., "sideways axis is a unit vector");
    close_s(dot(x, d), 0., sz3(d), "sideways axis is perpendicular to the viewing direction");
    close_s(dot(x, u), 0., sz3(u), "sideways axis is perpendicular to up");
    check(dot(x, l) > 0., "sideways axis is on the side of up cross direction");
    close(dot(y, y), 1., "vertical axis is a unit vector");
    close(dot(y, x), 0., "vertical axis is perpendicular to the sideways axis");
    close_s(dot(y, d), 0., sz3(d), "vertical axis is perpendicular to the viewing direction");
    check(dot(y, u) > 0., "vertical axis is on the side of up");
    check(a[3][0] == 0. && a[3][1] == 0. && a[3][2] == 0. && a[3][3] == 1., "look-at is affine");
    invariant(&t, "look-at carries its inverse");
}

pub fn h_c09_normal() {
    let t = any_affine();
    let (n, v) = (any_normal(), any_vector());
    let (m, w) = (t.apply(&n), t.apply(&v));
    close_s(m.x * w.x + m.y * w.y + m.z * w.z, n.x * v.x + n.y * v.y + n.z * v.z, size(&t) * size(&t) * sz3(xyz!(n)) * sz3(xyz!(v)), "transformed normal keeps its product with transformed tangents (stays perpendicular)");
    let (m, w) = (t.inverse_apply(&n), t.inverse_apply(&v));
    close_s(m.x * w.x + m.y * w.y + m.z * w.z, n.x * v.x + n.y * v.y + n.z * v.z, size(&t) * size(&t) * sz3(xyz!(n)) * sz3(xyz!(v)), "the same for the inverse transform");
}
fn box_case(t: &Transform, k: usize) {
    let (a, b) = (any_point(), any_point());
    let bb = BBox3f { min: Point3f::new(if a.x < b.x { a.x } else { b.x }, if a.y < b.y { a.y } else { b.y }, if a.z < b.z { a.z } else { b.z }), max: Point3f::new(if a.x < b.x { b.x } else { a.x }, if a.y < b.y { b.y } else { a.y }, if a.z < b.z { b.z } else { a.z }) };
}
pub fn h_c09_bbox() {
    let t = raw_affine();
    let lo = any_point();
    let (ex, ey, ez) = (pos(), pos(), pos());
    let (ux, uy, uz) = (real_in(0., 1.), real_in(0., 1.), real_in(0., 1.));
    let hi = Point3f::new(lo.x + ex, lo.y + ey, lo.z + ez);
    let p = Point3f::new(lo.x + ux * ex, lo.y + uy * ey, lo.z + uz * ez);
    let r = t.apply(&BBox3f { min: lo, max: hi });
    let i = choose(3);
    let m = &t.m;
    let q = m[i][0] * p.x + m[i][1] * p.y + m[i][2] * p.z + m[i][3];
    if symbolic() {
        // each term of the row lies between its values at the two ends of the edge
        let e = [ex, ey, ez];
        let u = [ux, uy, uz];
        for k in 0..3 {
            if m[i][k] >= 0. {
                check(m[i][k] * (u[k] * e[k]) >= 0. && m[i][k] * (u[k] * e[k]) <= m[i][k] * e[k], "term between its end values");
            } else {
                check(m[i][k] * (u[k] * e[k]) <= 0. && m[i][k] * (u[k] * e[k]) >= m[i][k] * e[k], "term between its end values");
            }
        }
    }
    let s = size(&t) * (sz3(xyz!(lo)) + sz3(xyz!(hi)));
    leq_s(r.min[i], q, s, "transformed box contains the image of every point of the box (low side)");
    leq_s(q, r.max[i], s, "transformed box contains the image of every point of the box (high side)");
}
pub fn h_c09_ray() {
    let t = raw_affine();
    let r = Ray { origin: any_point(), direction: any_vector(), t_max: real_or_inf() };
    let k = real();
    let q = t.apply(&r);
    let s = size(&t) * (sz3(xyz!(r.origin)) + k.abs() * sz3(xyz!(r.direction)));
    near(xyz!(q.position(k)), xyz!(t.apply(&r.position(k))), s, "transformed ray passes the images at the same parameters");
    check(q.t_max == r.t_max, "ray extent is kept");
    near(xyz!(r.position(k)), (r.origin.x + k * r.direction.x, r.origin.y + k * r.direction.y, r.origin.z + k * r.direction.z), s, "ray position");
    let q = t.inverse_apply(&r);
    near(xyz!(q.position(k)), xyz!(t.inverse_apply(&r.position(k))), s, "inversely transformed ray passes the images at the same parameters");
}
pub fn h_c09_default_ray() {
    let r = Ray::default();
    check(r.origin.x == 0. && r.origin.y == 0. && r.origin.z == 0. && r.t_max == ::std::f32::INFINITY, "default ray starts at the origin with unlimited extent");
}
pub struct TagShape { pub tag: f32 }
impl Shape for TagShape {
    fn bbox(&self) -> BBox3f { unimplemented!() }
    fn area(&self) -> f32 { self.tag }
    fn intersect_p(&self, _: &Ray) -> bool { unimplemented!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { unimplemented!() }
    fn material(&self) -> Arc<::material::Material> { unimplemented!() }
    fn sample(&self, _: Point2f) -> Interaction { unimplemented!() }
}
pub fn h_c09_interaction() {
    let t = raw_affine();
    let i = Interaction { p: any_point(), p_err: any_vector(), uv: Point2f::new(real(), real()), n: any_normal(), sn: any_normal(), dpdu: any_vector(), dpdv: any_vector(), wo: any_vector(), shape: Some(Arc::new(TagShape { tag: real() })) };
    let inv = boolean();
    let q = if inv { t.inverse_apply(&i) } else { t.apply(&i) };
    let (m, mi) = if inv { (t.m_inv, t.m) } else { (t.m, t.m_inv) };
    let s = size(&t);
    let pt = |p: Point3f| (m[0][0] * p.x + m[0][1] * p.y + m[0][2] * p.z + m[0][3], m[1][0] * p.x + m[1][1] * p.y + m[1][2] * p.z + m[1][3], m[2][0] * p.x + m[2][1] * p.y + m[2][2] * p.z + m[2][3]);
    let vc = |p: Vector3f| (m[0][0] * p.x + m[0][1] * p.y + m[0][2] * p.z, m[1][0] * p.x + m[1][1] * p.y + m[1][2] * p.z, m[2][0] * p.x + m[2][1] * p.y + m[2][2] * p.z);
    let nm = |p: Normal3f| (mi[0][0] * p.x + mi[1][0] * p.y + mi[2][0] * p.z, mi[0][1] * p.x + mi[1][1] * p.y + mi[2][1] * p.z, mi[0][2] * p.x + mi[1][2] * p.y + mi[2][2] * p.z);
    near(xyz!(q.p), pt(i.p), s * sz3(xyz!(i.p)), "hit point");
    near(xyz!(q.p_err), vc(i.p_err), s * sz3(xyz!(i.p_err)), "error bound");
    check(q.uv.x == i.uv.x && q.uv.y == i.uv.y, "surface coordinates are kept");
    near(xyz!(q.n), nm(i.n), s * sz3(xyz!(i.n)), "normal");
    near(xyz!(q.sn), nm(i.sn), s * sz3(xyz!(i.sn)), "shading normal");
    near(xyz!(q.dpdu), vc(i.dpdu), s * sz3(xyz!(i.dpdu)), "first tangent");
    near(xyz!(q.dpdv), vc(i.dpdv), s * sz3(xyz!(i.dpdv)), "second tangent");
    near(xyz!(q.wo), vc(i.wo), s * sz3(xyz!(i.wo)), "outgoing direction");
    check(q.shape.is_some() && q.shape.unwrap().area() == i.shape.unwrap().area(), "shape is kept");
}
