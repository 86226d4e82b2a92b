macro_rules! same3 { ($v:expr, $x:ident, $y:ident, $z:ident, $a:expr, $b:expr, $c:expr, $l:expr) => {{ let v = $v; close(v.$x, $a, concat!($l, " first component")); close(v.$y, $b, concat!($l, " second component")); close(v.$z, $c, concat!($l, " third component")); }} }
macro_rules! scalar_ops3 { ($T:ident, $x:ident, $y:ident, $z:ident) => {{
    let (a, b, c, k) = (real(), real(), real(), real());
    let v = $T::new(a, b, c);
    same3!(v, $x, $y, $z, a, b, c, "new keeps components");
    same3!(-v, $x, $y, $z, -a, -b, -c, "negation");
    same3!(v + k, $x, $y, $z, a + k, b + k, c + k, "scalar addition");
    same3!(v - k, $x, $y, $z, a - k, b - k, c - k, "scalar subtraction");
    same3!(v * k, $x, $y, $z, a * k, b * k, c * k, "scalar multiplication");
    let mut w = v; w += k; same3!(w, $x, $y, $z, a + k, b + k, c + k, "scalar += ");
    let mut w = v; w -= k; same3!(w, $x, $y, $z, a - k, b - k, c - k, "scalar -= ");
    let mut w = v; w *= k; same3!(w, $x, $y, $z, a * k, b * k, c * k, "scalar *= ");
    same3!(v.abs(), $x, $y, $z, if a < 0. { -a } else { a }, if b < 0. { -b } else { b }, if c < 0. { -c } else { c }, "absolute value");
    let l = v.length();
    check(l >= 0., "length is not negative");
    close(l * l, a * a + b * b + c * c, "length squared is the sum of squares");
    assume(k != 0.);
    native_assume(k.abs() > 0.01);
    same3!(v / k, $x, $y, $z, a / k, b / k, c / k, "scalar division");
    let mut w = v; w /= k; same3!(w, $x, $y, $z, a / k, b / k, c / k, "scalar /= ");
    assume(a * a + b * b + c * c > 0.);
    let n = v.normalize();
    same3!(n, $x, $y, $z, a / l, b / l, c / l, "normalised");
}} }
macro_rules! pair3 { ($A:ident $op:tt $B:ident, $O:ident, $x:ident, $y:ident, $z:ident) => {{
    let (a, b, c) = (real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    let r: $O = $A::new(a, b, c) $op $B::new(d, e, f);
    same3!(r, $x, $y, $z, a $op d, b $op e, c $op f, concat!(stringify!($A), stringify!($op), stringify!($B)));
}} }
macro_rules! pairassign3 { ($A:ident $op:tt $as:tt $B:ident, $x:ident, $y:ident, $z:ident) => {{
    let (a, b, c) = (real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    let mut r = $A::new(a, b, c);
    r $as $B::new(d, e, f);
    same3!(r, $x, $y, $z, a $op d, b $op e, c $op f, concat!(stringify!($A), stringify!($as), stringify!($B)));
}} }
pub fn axis_of(k: usize) -> Axis { if k == 0 { Axis::X } else if k == 1 { Axis::Y } else { Axis::Z } }
pub fn axis_no(a: Axis) -> usize { match a { Axis::X => 0, Axis::Y => 1, Axis::Z => 2 } }
fn comp(k: usize, a: f32, b: f32, c: f32) -> f32 { if k == 0 { a } else if k == 1 { b } else { c } }

pub fn h_c23_vector_scalar() {
    scalar_ops3!(Vector3f, x, y, z);
}
pub fn h_c23_normal_scalar() {
    scalar_ops3!(Normal3f, x, y, z);
}
pub fn h_c23_point_scalar() {
    scalar_ops3!(Point3f, x, y, z);
}
pub fn h_c23_pairs() {
    pair3!(Vector3f + Vector3f, Vector3f, x, y, z);
    pair3!(Vector3f - Vector3f, Vector3f, x, y, z);
    pair3!(Normal3f + Normal3f, Normal3f, x, y, z);
    pair3!(Point3f + Point3f, Point3f, x, y, z);
    pair3!(Point3f + Vector3f, Point3f, x, y, z);
    pair3!(Point3f - Point3f, Vector3f, x, y, z);
    pair3!(Point3f - Vector3f, Point3f, x, y, z);
}
pub fn h_c23_pairs_assign() {
    pairassign3!(Vector3f + += Vector3f, x, y, z);
    pairassign3!(Vector3f - -= Vector3f, x, y, z);
    pairassign3!(Normal3f + += Normal3f, x, y, z);
    pairassign3!(Point3f + += Point3f, x, y, z);
    pairassign3!(Point3f + += Vector3f, x, y, z);
    pairassign3!(Point3f - -= Point3f, x, y, z);
    pairassign3!(Point3f - -= Vector3f, x, y, z);
}
pub fn h_c23_index() {
    let (a, b, c, d) = (real(), real(), real(), real());
    let i = choose(3);
    let ax = axis_of(i);
    let v = Vector3f::new(a, b, c);
    check(v[i] == comp(i, a, b, c), "vector[i]");
    check(v[ax] == comp(i, a, b, c), "vector[axis]");
    let mut w = v; w[i] = d;
    let j = choose(3);
    check(w[j] == if i == j { d } else { v[j] }, "vector[i] = d changes component i only");
    let mut w = v; w[ax] = d;
    check(w[j] == if i == j { d } else { v[j] }, "vector[axis] = d changes that component only");
    let p = Point3f::new(a, b, c);
    check(p[i] == comp(i, a, b, c), "point[i]");
    check(p[ax] == comp(i, a, b, c), "point[axis]");
    let mut w = p; w[i] = d;
    check(w[j] == if i == j { d } else { p[j] }, "point[i] = d changes component i only");
    let mut w = p; w[ax] = d;
    check(w[j] == if i == j { d } else { p[j] }, "point[axis] = d changes that component only");
    let (k, l) = (choose(3), choose(3));
    let (k, l) = (if k == 0 { 0 } else if k == 1 { 1 } else { 2 }, if l == 0 { 0 } else if l == 1 { 1 } else { 2 });
    let q = v.permute(axis_of(i), axis_of(k), axis_of(l));
    check(q.x == v[i] && q.y == v[k] && q.z == v[l], "vector permute");
    let q = p.permute(axis_of(i), axis_of(k), axis_of(l));
    check(q.x == p[i] && q.y == p[k] && q.z == p[l], "point permute");
}
pub fn h_c23_axis() {
    let i = choose(3);
    let a = axis_of(i);
    check(axis_no(a.next()) == (i + 1) % 3, "next axis");
    check(axis_no(a.prev()) == (i + 2) % 3, "previous axis");
    let (o, q) = a.others();
    let (o, q) = (axis_no(o), axis_no(q));
    check(o != i && q != i && o < q, "the other two axes, in order");
}
pub fn h_c23_convert() {
    let (a, b, c) = (real(), real(), real());
    let (v, n, p) = (Vector3f::new(a, b, c), Normal3f::new(a, b, c), Point3f::new(a, b, c));
    let r = Vector3f::from(n); check(r.x == a && r.y == b && r.z == c, "Vector3f from Normal3f");
    let r = Vector3f::from(p); check(r.x == a && r.y == b && r.z == c, "Vector3f from Point3f");
    let r = Normal3f::from(v); check(r.x == a && r.y == b && r.z == c, "Normal3f from Vector3f");
    let r = Normal3f::from(p); check(r.x == a && r.y == b && r.z == c, "Normal3f from Point3f");
    let r = Point3f::from(v); check(r.x == a && r.y == b && r.z == c, "Point3f from Vector3f");
    let q = Point2::from(Vector2::new(a, b)); check(q.x == a && q.y == b, "Point2 from Vector2");
}
pub fn h_c23_products() {
    let (a, b, c) = (real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    let (v, w) = (Vector3f::new(a, b, c), Vector3f::new(d, e, f));
    close(v.dot(w), a * d + b * e + c * f, "dot product");
    close(v.dot_n(Normal3f::new(d, e, f)), a * d + b * e + c * f, "dot product with a normal");
    close(Normal3f::new(a, b, c).dot(Normal3f::new(d, e, f)), a * d + b * e + c * f, "dot product of normals");
    let s = (v.length() * w.length()).max(1.);
    let x = v.cross(w);
    close_s(x.x, b * f - c * e, s, "cross product x");
    close_s(x.y, c * d - a * f, s, "cross product y");
    close_s(x.z, a * e - b * d, s, "cross product z");
}
pub fn h_c23_minmax() {
    let (a, b, c) = (real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    let (p, q) = (Point3f::new(a, b, c), Point3f::new(d, e, f));
    let lo = p.min(q);
    check(lo.x == (if a <= d { a } else { d }) && lo.y == (if b <= e { b } else { e }) && lo.z == (if c <= f { c } else { f }), "componentwise minimum");
    let hi = p.max(q);
    check(hi.x == (if a >= d { a } else { d }) && hi.y == (if b >= e { b } else { e }) && hi.z == (if c >= f { c } else { f }), "componentwise maximum");
    let (p, q) = (Point2f::new(a, b), Point2f::new(d, e));
    let lo = p.min(q);
    check(lo.x == (if a <= d { a } else { d }) && lo.y == (if b <= e { b } else { e }), "2d minimum");
    let hi = p.max(q);
    check(hi.x == (if a >= d { a } else { d }) && hi.y == (if b >= e { b } else { e }), "2d maximum");
    let v = Vector3f::new(a, b, c);
    let m = v.max_component();
    check(m >= a && m >= b && m >= c && (m == a || m == b || m == c), "largest component");
}
/// some vector which depends on the argument only: all that may be relied on where directions do not matter
pub fn normalize_function(v: &Vector3f) -> Vector3f {
    Vector3f::new(uf("unit_x", &[v.x, v.y, v.z]), uf("unit_y", &[v.x, v.y, v.z]), uf("unit_z", &[v.x, v.y, v.z]))
}
/// what `h_c23_minmax` establishes of `max_component`, for use in place of its body
pub fn max_component_contract(v: &Vector3f) -> f32 {
    let m = uf("max3", &[v.x, v.y, v.z]);
    assume((m >= v.x) & (m >= v.y) & (m >= v.z) & ((m == v.x) | (m == v.y) | (m == v.z)));
    assume((m >= 0.) | !(v.x >= 0.));     // redundant
    m
}
pub fn h_c23_minmax_int() {
    let (a, b, c, d) = (int(-2000000000, 2000000000), int(-2000000000, 2000000000), int(-2000000000, 2000000000), int(-2000000000, 2000000000));
    let lo = Point2i::new(a, b).min(Point2i::new(c, d));
    check(lo.x == (if a <= c { a } else { c }) && lo.y == (if b <= d { b } else { d }), "2d integer minimum");
    let hi = Point2i::new(a, b).max(Point2i::new(c, d));
    check(hi.x == (if a >= c { a } else { c }) && hi.y == (if b >= d { b } else { d }), "2d integer maximum");
}
pub fn h_c23_max_abs_axis() {
    let (a, b, c) = (real(), real(), real());
    let v = Vector3f::new(a, b, c);
    let m = v.abs()[v.max_abs_axis()];
    check(m >= a.abs() && m >= b.abs() && m >= c.abs(), "dominant axis has the largest absolute component");
}
pub fn h_c23_distance() {
    let (a, b, c) = (real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    let l = Point3f::new(a, b, c).distance(Point3f::new(d, e, f));
    check(l >= 0., "distance is not negative");
    close(l * l, (a - d) * (a - d) + (b - e) * (b - e) + (c - f) * (c - f), "distance squared");
}
pub fn h_c23_basis() {
    let (a, b, c) = (real(), real(), real());
    assume(a * a + b * b + c * c > 0.);
    native_assume(a * a + b * b + c * c > 1e-4);
    let l = (a * a + b * b + c * c).sqrt();
    let (a, b, c) = (a / l, b / l, c / l);
    let v = Vector3f::new(a, b, c);
    let (s, t) = v.construct_coordinate_system();
    close(s.x * a + s.y * b + s.z * c, 0., "first basis vector is perpendicular");
    close(t.x * a + t.y * b + t.z * c, 0., "second basis vector is perpendicular");
    close(s.x * t.x + s.y * t.y + s.z * t.z, 0., "basis vectors are perpendicular to each other");
    close(s.x * s.x + s.y * s.y + s.z * s.z, 1., "first basis vector has unit length");
    close(t.x * t.x + t.y * t.y + t.z * t.z, 1., "second basis vector has unit length");
    // right handed: v x s = t
    close(b * s.z - c * s.y, t.x, "handedness x");
    close(c * s.x - a * s.z, t.y, "handedness y");
    close(a * s.y - b * s.x, t.z, "handedness z");
}
pub fn h_c23_spherical_direction() {
    let (s, c, phi) = (real_in(-1., 1.), real_in(-1., 1.), real_in(-10., 10.));
    let v = Vector3f::from_spherical_direction(s, c, phi);
    close(v.x, s * phi.cos(), "spherical x");
    close(v.y, s * phi.sin(), "spherical y");
    close(v.z, c, "spherical z");
}
macro_rules! same2 { ($v:expr, $a:expr, $b:expr, $l:expr) => {{ let v = $v; close(v.x, $a, concat!($l, " x")); close(v.y, $b, concat!($l, " y")); }} }
macro_rules! scalar_ops2 { ($T:ident) => {{
    let (a, b, k) = (real(), real(), real());
    let v = $T::new(a, b);
    same2!(-v, -a, -b, "2d negation");
    same2!(v + k, a + k, b + k, "2d scalar addition");
    same2!(v - k, a - k, b - k, "2d scalar subtraction");
    same2!(v * k, a * k, b * k, "2d scalar multiplication");
    let mut w = v; w += k; same2!(w, a + k, b + k, "2d scalar +=");
    let mut w = v; w -= k; same2!(w, a - k, b - k, "2d scalar -=");
    let mut w = v; w *= k; same2!(w, a * k, b * k, "2d scalar *=");
    let i = choose(2);
    check(v[i] == if i == 0 { a } else { b }, "2d index");
    let mut w = v; w[i] = k; check(w.x == if i == 0 { k } else { a } && w.y == if i == 0 { b } else { k }, "2d indexed assignment");
    assume(k != 0.);
    native_assume(k.abs() > 0.01);
    same2!(v / k, a / k, b / k, "2d scalar division");
    let mut w = v; w /= k; same2!(w, a / k, b / k, "2d scalar /=");
}} }
macro_rules! pair2 { ($A:ident $op:tt $as:tt $B:ident, $O:ident) => {{
    let (a, b, c, d) = (real(), real(), real(), real());
    let r: $O<f32> = $A::new(a, b) $op $B::new(c, d);
    same2!(r, a $op c, b $op d, concat!(stringify!($A), stringify!($op), stringify!($B)));
    let mut r = $A::new(a, b);
    r $as $B::new(c, d);
    same2!(r, a $op c, b $op d, concat!(stringify!($A), stringify!($as), stringify!($B)));
}} }
pub fn h_c23_vector2_scalar() {
    scalar_ops2!(Vector2);
}
pub fn h_c23_point2_scalar() {
    scalar_ops2!(Point2);
}
pub fn h_c23_pairs2() {
    pair2!(Vector2 + += Vector2, Vector2);
    pair2!(Vector2 - -= Vector2, Vector2);
    pair2!(Point2 + += Point2, Point2);
    pair2!(Point2 + += Vector2, Point2);
    pair2!(Point2 - -= Point2, Vector2);
    pair2!(Point2 - -= Vector2, Point2);
}
pub fn h_c23_floor_ceil() {
    let (a, b) = (real_in(-1000., 1000.), real_in(-1000., 1000.));
    let p = Point2f::new(a, b);
    let f = p.floor();
    check(f.x <= a && a < f.x + 1. && f.y <= b && b < f.y + 1., "floor bounds");
    close(f.x, a.floor(), "floor x"); close(f.y, b.floor(), "floor y");
    let c = p.ceil();
    check(c.x >= a && a > c.x - 1. && c.y >= b && b > c.y - 1., "ceil bounds");
    close(c.x, a.ceil(), "ceil x"); close(c.y, b.ceil(), "ceil y");
}
pub fn h_c23_convert2() {
    let (i, j) = (int(0, 1000000), int(0, 1000000));
    let u = Point2u::from(Point2i::new(i, j)); check(u.x == i as u32 && u.y == j as u32, "Point2u from Point2i");
    let k = Point2i::from(u); check(k.x == i && k.y == j, "Point2i from Point2u");
    let f = Point2f::from(u); check(f.x == i as f32 && f.y == j as f32, "Point2f from Point2u");
    let (m, n) = (int(-1000000, 1000000), int(-1000000, 1000000));
    let f = Point2f::from(Point2i::new(m, n)); check(f.x == m as f32 && f.y == n as f32, "Point2f from Point2i");
    let k = Point2i::from(f); check(k.x == m && k.y == n, "Point2i from Point2f");
    let f = Point2f::from(Point2i::new(i, j));
    let k = Point2u::from(f); check(k.x == i as u32 && k.y == j as u32, "Point2u from Point2f");
}
