use transform::ptv_spec::*;
use interaction::ptv_spec::*;
use spectrum::ptv_spec::any_spectrum;

struct At2(Point2f);
impl TextureMapping2D for At2 { fn map(&self, _: &Interaction) -> Point2f { self.0 } }
struct At3(Point3f);
impl TextureMapping3D for At3 { fn map(&self, _: &Interaction) -> Point3f { self.0 } }

pub fn h_c21_constant() {
    let v = real();
    let t = ConstantTexture::new(v);
    check(t.evaluate(&some_hit()) == v, "constant texture returns its value");
    check(t.evaluate(&some_hit()) == v, "constant texture returns its value everywhere");
    let s = any_spectrum();
    let t = ConstantTexture::new(s);
    let w = t.evaluate(&some_hit());
    check(w.r == s.r && w.g == s.g && w.b == s.b, "constant colour texture returns its value");
}
pub fn h_c21_planar() {
    let i = some_hit();
    let (su, sv, du, dv) = (real(), real(), real(), real());
    let p = UVMapping2D::new(su, sv, du, dv).map(&i);
    close_s(p.x, i.uv.x * su + du, (i.uv.x * su).abs() + du.abs(), "planar mapping of u");
    close_s(p.y, i.uv.y * sv + dv, (i.uv.y * sv).abs() + dv.abs(), "planar mapping of v");
}
pub fn h_c21_spatial() {
    let i = some_hit();
    let t = raw_affine();
    let m = mat(&t);
    let p = IdentityMapping3D::new(t).map(&i);
    let q = i.p;
    let s = 1. + q.x.abs() + q.y.abs() + q.z.abs();
    let s = if symbolic() { 1. } else { let mut b = 1f32; for r in 0..3 { for c in 0..4 { b = b.max(m[r][c].abs()); } } b * s };
    close_s(p.x, m[0][0] * q.x + m[0][1] * q.y + m[0][2] * q.z + m[0][3], s, "spatial mapping x");
    close_s(p.y, m[1][0] * q.x + m[1][1] * q.y + m[1][2] * q.z + m[1][3], s, "spatial mapping y");
    close_s(p.z, m[2][0] * q.x + m[2][1] * q.y + m[2][2] * q.z + m[2][3], s, "spatial mapping z");
}
/// a coordinate in cell i
fn cell() -> (i32, f32) {
    let i = int(-1000000000, 1000000000);
    let f = real_in(0., 1.);
    assume(f < 1.);
    let x = i as f32 + f;
    native_assume(x.floor() as f64 == i as f64);
    (i, x)
}
fn even(s: i64) -> bool { s == 2 * (if s >= 0 { s / 2 } else { (s - 1) / 2 }) }
pub fn h_c21_checker() {
    let ((i, x), (j, y)) = (cell(), cell());
    let (a, b) = (real(), real());
    let v = CheckerboardTexture::new(At2(Point2f::new(x, y)), a, b).evaluate(&some_hit());
    check(v == if even(i as i64 + j as i64) { a } else { b }, "checkerboard value follows the parity of the cell");
    let w = CheckerboardTexture::new(At2(Point2f::new(x, y)), 1, 2).evaluate(&some_hit());
    check(w == if even(i as i64 + j as i64) { 1 } else { 2 }, "checkerboard choice follows the parity of the cell");
}
pub fn h_c21_checker_planar() {
    // through the planar mapping: hit coordinates scaled and offset first
    let i = some_hit();
    let (su, sv, du, dv) = (real(), real(), real(), real());
    let m = UVMapping2D::new(su, sv, du, dv).map(&i);
    assume(m.x.abs() < 1e12 && m.y.abs() < 1e12);
    let a = CheckerboardTexture::new(UVMapping2D::new(su, sv, du, dv), 1, 2).evaluate(&i);
    let b = CheckerboardTexture::new(At2(m), 1, 2).evaluate(&i);
    check(a == b, "checkerboard uses its mapping");
}
pub fn h_c21_checker_3d() {
    let ((i, x), (j, y), (k, z)) = (cell(), cell(), cell());
    let v = Checkerboard3DTexture::new(At3(Point3f::new(x, y, z)), 1, 2).evaluate(&some_hit());
    check(v == if even(i as i64 + j as i64 + k as i64) { 1 } else { 2 }, "3-d checkerboard choice follows the parity of the cell");
}
pub fn h_c21_checker_3d_spatial() {
    let i = some_hit();
    let t = raw_affine();
    let m = IdentityMapping3D::new(t).map(&i);
    assume(m.x.abs() < 1e12 && m.y.abs() < 1e12 && m.z.abs() < 1e12);
    let a = Checkerboard3DTexture::new(IdentityMapping3D::new(t), 1, 2).evaluate(&i);
    let b = Checkerboard3DTexture::new(At3(m), 1, 2).evaluate(&i);
    check(a == b, "3-d checkerboard uses its mapping");
}
