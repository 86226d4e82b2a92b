/// contract of `quadratic`: none exactly when the discriminant is negative, else both roots (Vieta), in order.
/// The roots are left in the ghost trace "roots".
pub fn quadratic_contract(a: f64, b: f64, c: f64) -> Option<(f64, f64)> {
    check(a > 0., "quadratic is called with a positive leading coefficient");
    let d = b * b - 4. * a * c;
    if d < 0. { emit("no roots", &[d as f32]); return None; }
    let (t0, t1) = (real(), real());
    assume(t0 <= t1);
    assume(b == -a * (t0 as f64 + t1 as f64));
    assume(c == a * t0 as f64 * t1 as f64);
    emit("roots", &[t0, t1]);
    Some((t0 as f64, t1 as f64))
}
/// the same without saying what the roots are, but as a function of the coefficients
pub fn quadratic_function(a: f64, b: f64, c: f64) -> Option<(f64, f64)> {
    let k = [a as f32, b as f32, c as f32];
    if uf_bool("no roots", &k) { return None; }
    let (t0, t1) = (uf("smaller root", &k), uf("larger root", &k));
    assume(t0 <= t1);
    Some((t0 as f64, t1 as f64))
}
fn quadratic_is(a: f64, b: f64, c: f64) {
    let d = b * b - 4. * a * c;
    let s = (1. + (b / a).abs() + (c / a).abs()) as f32;
    match quadratic(a, b, c) {
        None => check(d < 0., "no roots are reported only when there are none"),
        Some((t0, t1)) => {
            check(d >= 0., "roots are reported only when there are real ones");
            check(t0 <= t1, "roots are in order");
            // Vieta: t0 and t1 are both roots, with multiplicity
            close_s((t0 + t1) as f32, (-b / a) as f32, s, "sum of the roots");
            close_s((t0 * t1) as f32, (c / a) as f32, s, "product of the roots");
        }
    }
}
pub fn h_c12_quadratic_two_roots() {
    let (a, b, c) = (real64(), real64(), real64());
    assume(a != 0. && b != 0.);
    native_assume(a.abs() > 0.01 && (b.abs() > 0.01));
    native_assume((b * b - 4. * a * c).abs() > 1e-9);
    quadratic_is(a, b, c);
}
pub fn h_c12_quadratic_symmetric() {
    let (a, b, c) = (real64(), 0., real64());
    assume(a != 0.);
    native_assume(a.abs() > 0.01 && (c.abs() > 1e-3 || c == 0.));
    quadratic_is(a, b, c);
}
/// any number that is not NaN, every bit pattern
fn any_bits() -> f32 {
    let x = f32::from_bits(uint(0, 0xffffffff));
    assume(!x.is_nan());
    x
}
pub fn h_c07_kani_next_float_up() {
    let (x, z) = (any_bits(), any_bits());
    let y = next_float_up(x);
    if x == INFINITY { check(y == INFINITY, "infinity is a fixed point upwards"); return; }
    check(y > x, "next float up is greater");
    if z > x { check(y <= z, "next float up is the least greater number"); }
}
pub fn h_c07_kani_next_float_down() {
    let (x, z) = (any_bits(), any_bits());
    let y = next_float_down(x);
    if x == -INFINITY { check(y == -INFINITY, "minus infinity is a fixed point downwards"); return; }
    check(y < x, "next float down is less");
    if z < x { check(y >= z, "next float down is the greatest lesser number"); }
}
/// neighbours (bit-precise contract above): strictly beyond the argument
pub fn up_contract(x: f32) -> f32 { let y = uf("next_float_up", &[x]); assume(y > x); y }
pub fn down_contract(x: f32) -> f32 { let y = uf("next_float_down", &[x]); assume(y < x); y }
