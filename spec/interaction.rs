use transform::ptv_spec::*;

/// any hit, no shape attached
pub fn any_hit() -> Interaction {
    Interaction {
        p: any_point(), p_err: Vector3f::new(nonneg(), nonneg(), nonneg()), uv: Point2f::new(real(), real()), n: any_normal(),
        sn: any_normal(), dpdu: any_vector(), dpdv: any_vector(), wo: any_vector(), shape: None,
    }
}
/// a hit of which only the position, coordinates and wo matter
pub fn some_hit() -> Interaction {
    Interaction { p: any_point(), uv: Point2f::new(real(), real()), wo: any_vector(), ..Default::default() }
}
use common::ptv_spec::{up_contract, down_contract};
use reflection::ptv_spec::{any_unit, dot3};

fn surface_hit() -> Interaction {
    let n = any_unit();
    Interaction { p: any_point(), p_err: Vector3f::new(nonneg(), nonneg(), nonneg()), n: Normal3f::new(n.x, n.y, n.z), ..Default::default() }
}
/// the component nudged outwards
fn nudged(p: f32, o: f32) -> f32 {
    if o > 0. { if symbolic() { up_contract(p + o) } else { next_float_up(p + o) } }
    else if o < 0. { if symbolic() { down_contract(p + o) } else { next_float_down(p + o) } } else { p }
}
/// where a ray travelling along v has to start
fn start(i: &Interaction, v: Vector3f) -> Point3f {
    let n = i.n;
    let d = n.x.abs() * i.p_err.x + n.y.abs() * i.p_err.y + n.z.abs() * i.p_err.z;
    let side = if n.x * v.x + n.y * v.y + n.z * v.z < 0. { -1. } else { 1. };
    Point3f::new(nudged(i.p.x, n.x * d * side), nudged(i.p.y, n.y * d * side), nudged(i.p.z, n.z * d * side))
}
fn stub_next() {
    stub(next_float_up, up_contract);
    stub(next_float_down, down_contract);
}
pub fn h_c07_offset() {
    let i = surface_hit();
    let v = any_vector();
    native_assume(dot3(Vector3f::from(i.n), v).abs() > 1e-3);
    stub_next();
    let o = i.spawn_ray(v).origin;
    let q = start(&i, v);
    let s = 1. + i.p.x.abs() + i.p.y.abs() + i.p.z.abs() + i.p_err.x + i.p_err.y + i.p_err.z;
    close_s(o.x, q.x, s * 0.01, "displaced along the geometric normal (x)");
    close_s(o.y, q.y, s * 0.01, "displaced along the geometric normal (y)");
    close_s(o.z, q.z, s * 0.01, "displaced along the geometric normal (z)");
}
pub fn h_c07_side() {
    let i = surface_hit();
    let v = any_vector();
    stub_next();
    let (n, nv) = (i.n, i.n.x * v.x + i.n.y * v.y + i.n.z * v.z);
    native_assume(nv.abs() > 1e-3);
    let o = i.spawn_ray(v).origin;
    let e = Vector3f::new(i.p_err.x, i.p_err.y, i.p_err.z);
    let d = n.x.abs() * e.x + n.y.abs() * e.y + n.z.abs() * e.z;
    leq(0., d, "lemma: error bound along the normal");
    let h = n.x * (o.x - i.p.x) + n.y * (o.y - i.p.y) + n.z * (o.z - i.p.z);
    if nv >= 0. { leq(d, h, "starts on the side it travels to, beyond the error bound"); }
    else { leq(h, -d, "starts on the other side, beyond the error bound"); }
}
pub fn h_c07_error_box() {
    // no point within the error bounds lies beyond the start
    let i = surface_hit();
    let v = any_vector();
    stub_next();
    let (n, nv) = (i.n, i.n.x * v.x + i.n.y * v.y + i.n.z * v.z);
    native_assume(nv.abs() > 1e-3);
    let (a, b, c) = (real_in(-1., 1.), real_in(-1., 1.), real_in(-1., 1.));
    let (x, y, z) = (a * i.p_err.x, b * i.p_err.y, c * i.p_err.z);
    let k = n.x * x + n.y * y + n.z * z;
    let d = n.x.abs() * i.p_err.x + n.y.abs() * i.p_err.y + n.z.abs() * i.p_err.z;
    leq(k, d, "lemma: error along the normal");
    leq(-d, k, "lemma: error against the normal");
}
pub fn h_c07_strictly_off() {
    // some displacement happens whenever there is an error to escape
    let i = surface_hit();
    let v = any_vector();
    stub_next();
    let nv = i.n.x * v.x + i.n.y * v.y + i.n.z * v.z;
    native_assume(nv.abs() > 1e-3);
    let d = i.n.x.abs() * i.p_err.x + i.n.y.abs() * i.p_err.y + i.n.z.abs() * i.p_err.z;
    assume(d > 0.);
    native_assume(d > 1e-3);
    let o = i.spawn_ray(v).origin;
    check((o.x != i.p.x) | (o.y != i.p.y) | (o.z != i.p.z), "the start is off the surface");
}
pub fn h_c07_spawn_ray() {
    let i = surface_hit();
    let v = any_vector();
    stub(Interaction::offset_ray_origin, offset_contract);
    let r = i.spawn_ray(v);
    check((r.direction.x == v.x) & (r.direction.y == v.y) & (r.direction.z == v.z), "travels in the direction asked for");
    check(r.t_max == INFINITY, "unlimited extent");
    let o = if symbolic() { offset_contract(&i, v) } else { i.offset_ray_origin(v) };
    check((r.origin.x == o.x) & (r.origin.y == o.y) & (r.origin.z == o.z), "starts displaced");
}
/// the displaced point as a function of the hit and the direction
fn offset_contract(i: &Interaction, v: Vector3f) -> Point3f {
    let a = [i.p.x, i.p.y, i.p.z, i.n.x, i.n.y, i.n.z, v.x, v.y, v.z];
    Point3f::new(uf("offset_x", &a), uf("offset_y", &a), uf("offset_z", &a))
}
pub fn h_c07_segment() {
    let (i, j) = (surface_hit(), surface_hit());
    stub(Interaction::offset_ray_origin, offset_contract);
    let r = i.spawn_ray_to(&j);
    let d = Vector3f::new(j.p.x - i.p.x, j.p.y - i.p.y, j.p.z - i.p.z);
    let (o, e) = if symbolic() { (offset_contract(&i, d), offset_contract(&j, -d)) } else { (i.offset_ray_origin(d), j.offset_ray_origin(-d)) };
    check((r.origin.x == o.x) & (r.origin.y == o.y) & (r.origin.z == o.z), "segment starts displaced towards its end");
    close(r.origin.x + r.direction.x, e.x, "segment runs to the displaced end (x)");
    close(r.origin.y + r.direction.y, e.y, "segment runs to the displaced end (y)");
    close(r.origin.z + r.direction.z, e.z, "segment runs to the displaced end (z)");
    check(r.t_max < 1. && r.t_max > 0.99, "segment stops short of its end");
}
