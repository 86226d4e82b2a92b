use reflection::ptv_spec::dot3;

/// (r, theta) of the concentric map, by wedge; on each wedge the map stretches areas by the constant pi / 4
pub fn h_c17_disk() {
    let u = Point2f::new(real_in(0., 1.), real_in(0., 1.));
    let p = concentric_sample_disk(u);
    let (a, b) = (2. * u.x - 1., 2. * u.y - 1.);
    native_assume((a.abs() - b.abs()).abs() > 1e-4);
    if a == 0. && b == 0. {
        check((p.x == 0.) & (p.y == 0.), "the centre goes to the centre");
        return;
    }
    let (r, t) = if a.abs() > b.abs() { (a, PI / 4. * (b / a)) } else { (b, PI / 2. - PI / 4. * (a / b)) };
    close(p.x, r * t.cos(), "disk point (x)");
    close(p.y, r * t.sin(), "disk point (y)");
    close(p.x * p.x + p.y * p.y, r * r, "squares map to disks");
    leq(p.x * p.x + p.y * p.y, 1., "disk point is in the unit disk");
}
fn disk_contract(u: Point2f) -> Point2f {
    let p = Point2f::new(uf("disk_x", &[u.x, u.y]), uf("disk_y", &[u.x, u.y]));
    assume(p.x * p.x + p.y * p.y <= 1.);
    p
}
pub fn h_c17_hemisphere() {
    stub(concentric_sample_disk, disk_contract);
    let u = Point2f::new(real_in(0., 1.), real_in(0., 1.));
    let p = if symbolic() { disk_contract(u) } else { concentric_sample_disk(u) };
    let w = cosine_sample_hemisphere(u);
    check((w.x == p.x) & (w.y == p.y), "direction is above the disk point");
    check(w.z >= 0., "direction is in the upper hemisphere");
    close(dot3(w, w), 1., "direction has unit length");
}
/// what the above shows, for use in place of the body
pub fn hemisphere_contract(u: Point2f) -> Vector3f {
    let w = Vector3f::new(uf("hemi_x", &[u.x, u.y]), uf("hemi_y", &[u.x, u.y]), uf_nonneg("hemi_z", &[u.x, u.y]));
    assume(dot3(w, w) == 1.);
    w
}
