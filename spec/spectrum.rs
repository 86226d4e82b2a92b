macro_rules! same { ($v:expr, $a:expr, $b:expr, $c:expr, $l:expr) => {{ let v = $v; close(v.r, $a, concat!($l, " red")); close(v.g, $b, concat!($l, " green")); close(v.b, $c, concat!($l, " blue")); }} }
pub fn any_spectrum() -> Spectrum { Spectrum { r: real(), g: real(), b: real() } }
pub fn h_c23_colour() {
    let (a, b, c, k) = (real(), real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    let (s, t) = (Spectrum::new(a, b, c), Spectrum::new(d, e, f));
    same!(s, a, b, c, "new");
    same!(-s, -a, -b, -c, "negation");
    same!(s + t, a + d, b + e, c + f, "addition");
    same!(s - t, a - d, b - e, c - f, "subtraction");
    same!(s * t, a * d, b * e, c * f, "multiplication");
    same!(s + k, a + k, b + k, c + k, "scalar addition");
    same!(s - k, a - k, b - k, c - k, "scalar subtraction");
    same!(s * k, a * k, b * k, c * k, "scalar multiplication");
    let mut w = s; w += t; same!(w, a + d, b + e, c + f, "+=");
    let mut w = s; w -= t; same!(w, a - d, b - e, c - f, "-=");
    let mut w = s; w *= t; same!(w, a * d, b * e, c * f, "*=");
    let mut w = s; w += k; same!(w, a + k, b + k, c + k, "scalar +=");
    let mut w = s; w -= k; same!(w, a - k, b - k, c - k, "scalar -=");
    let mut w = s; w *= k; same!(w, a * k, b * k, c * k, "scalar *=");
    close(s.y(), 0.212671 * a + 0.715160 * b + 0.072169 * c, "luminance");
    check(s.is_black() == (a == 0. && b == 0. && c == 0.), "black exactly when all components are zero");
    same!(Spectrum::from(k), k, k, k, "from a number");
    same!(s.abs(), a.abs(), b.abs(), c.abs(), "absolute value");
    let l = s.length();
    check(l >= 0., "length is not negative");
    close(l * l, a * a + b * b + c * c, "length squared is the sum of squares");
}
pub fn h_c23_colour_div() {
    let (a, b, c, k) = (real(), real(), real(), real());
    let (d, e, f) = (real(), real(), real());
    assume(d != 0. && e != 0. && f != 0. && k != 0.);
    native_assume(d.abs() > 0.01 && e.abs() > 0.01 && f.abs() > 0.01 && k.abs() > 0.01);
    let (s, t) = (Spectrum::new(a, b, c), Spectrum::new(d, e, f));
    same!(s / t, a / d, b / e, c / f, "division");
    same!(s / k, a / k, b / k, c / k, "scalar division");
    let mut w = s; w /= t; same!(w, a / d, b / e, c / f, "/=");
    let mut w = s; w /= k; same!(w, a / k, b / k, c / k, "scalar /=");
    assume(a * a + b * b + c * c > 0.);
    let n = s.normalize();
    let l = (a * a + b * b + c * c).sqrt();
    same!(n, a / l, b / l, c / l, "normalised");
}
pub fn h_c23_colour_index() {
    let (a, b, c, d) = (real(), real(), real(), real());
    let (i, j) = (choose(3), choose(3));
    let s = Spectrum::new(a, b, c);
    check(s[i] == if i == 0 { a } else if i == 1 { b } else { c }, "colour[i]");
    let mut w = s; w[i] = d;
    check(w[j] == if i == j { d } else { s[j] }, "colour[i] = d changes component i only");
}
pub fn h_c23_colour_clamp() {
    let s = any_spectrum();
    let (lo, hi) = (real(), real());
    assume(lo <= hi);
    let c = s.clamp(lo, hi);
    let i = choose(3);
    check(c[i] >= lo && c[i] <= hi && (c[i] == s[i] || s[i] < lo && c[i] == lo || s[i] > hi && c[i] == hi), "clamped into range, unchanged inside");
}
pub fn h_c23_colour_sqrt() {
    let (a, b, c) = (real_in(0., 10000.), real_in(0., 10000.), real_in(0., 10000.));
    let s = Spectrum::new(a, b, c).sqrt();
    check(s.r >= 0. && s.g >= 0. && s.b >= 0., "square roots are not negative");
    same!(s * s, a, b, c, "square of the square root");
}
pub fn h_c23_lerp() {
    let (s, t) = (any_spectrum(), any_spectrum());
    let k = real();
    same!(s.lerp(&t, k), s.r + (t.r - s.r) * k, s.g + (t.g - s.g) * k, s.b + (t.b - s.b) * k, "colour on the way from one to another");
    close(::common::lerp(k, s.r, t.r), s.r + (t.r - s.r) * k, "number on the way from one to another");
}
