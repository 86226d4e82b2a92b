use reflection::ptv_spec::*;
use transform::ptv_spec::*;

fn alphas() -> (f32, f32) {
    let (x, y) = (pos(), pos());
    native_assume(x > 0.02 && x < 5. && y > 0.02 && y < 5.);
    (x, y)
}
/// x^2/ax^2 + y^2/ay^2 + z^2
fn quad(w: Vector3f, ax: f32, ay: f32) -> f32 { w.x * w.x / (ax * ax) + w.y * w.y / (ay * ay) + w.z * w.z }
fn unit_with_z() -> Vector3f {
    let w = any_unit();
    assume(w.z != 0.);
    native_assume(w.z.abs() > 0.02 && w.z.abs() < 0.999);
    if symbolic() {
        // |x|, |y| <= sin
        let s = sin_of(w);
        check(s * s == w.x * w.x + w.y * w.y, "lemma: sine");
        check((w.x * w.x <= s * s) & (w.y * w.y <= s * s), "lemma: components");
        check((w.x <= s) & (-s <= w.x) & (w.y <= s) & (-s <= w.y), "lemma: clamping has no effect");
    }
    w
}
fn sin_of(w: Vector3f) -> f32 { (1. - w.z * w.z).max(0.).sqrt() }
pub fn h_c17_ggx_density() {
    let (ax, ay) = alphas();
    let w = unit_with_z();
    let m = MicrofacetDistribution::new(ax, ay);
    let q = quad(w, ax, ay);
    close(m.d(w) * PI * ax * ay * q * q, 1., "GGX distribution");
    check(m.d(w) >= 0., "GGX distribution is not negative");
}
pub fn h_c17_ggx_pdf() {
    let (ax, ay) = alphas();
    let (w, wo) = (unit_with_z(), any_vector());
    let m = MicrofacetDistribution::new(ax, ay);
    let p = m.pdf(wo, w);
    close(p, m.d(w) * w.z.abs(), "half-vector density is the distribution times the cosine");
    check(p >= 0., "half-vector density is not negative");
}
pub fn h_c17_ggx_density_even() {
    let (ax, ay) = alphas();
    let w = any_unit();
    native_assume(w.z.abs() > 0.02 && w.z.abs() < 0.999);
    let m = MicrofacetDistribution::new(ax, ay);
    close(m.d(w), m.d(-w), "distribution is the same for opposite half vectors");
    close(m.pdf(w, w), m.pdf(w, -w), "density is the same for opposite half vectors");
}
pub fn h_c17_ggx_grazing() {
    let (ax, ay) = alphas();
    let w = any_unit();
    assume(symbolic());
    assume(w.z == 0.);
    check(MicrofacetDistribution::new(ax, ay).d(w) == 0., "no facets at right angles");
}
pub fn h_c17_ggx_shadowing() {
    let (ax, ay) = alphas();
    let m = MicrofacetDistribution::new(ax, ay);
    let w = unit_with_z();
    let t = (w.x * w.x * ax * ax + w.y * w.y * ay * ay) / (w.z * w.z);
    let l = ((1. + t).sqrt() - 1.) / 2.;
    close(m.lambda(w), l, "masked area");
    close(m.g1(w) * (1. + l), 1., "masking");
    check(l >= 0., "masked area is not negative");
}
pub fn h_c17_ggx_shadowing_both() {
    let (ax, ay) = alphas();
    let m = MicrofacetDistribution::new(ax, ay);
    let (wo, wi) = (any_unit(), any_unit());
    native_assume(wo.z.abs() > 0.02 && wi.z.abs() > 0.02);
    stub(MicrofacetDistribution::lambda, lambda_function);
    let (a, b) = if symbolic() { (lambda_function(&m, wo), lambda_function(&m, wi)) } else { (m.lambda(wo), m.lambda(wi)) };
    close(m.g(wo, wi) * (1. + a + b), 1., "masking and shadowing");
    close(m.g(wo, wi), m.g(wi, wo), "shadowing is symmetric");
    check(m.g(wo, wi) >= 0. && m.g(wo, wi) <= 1., "shadowing is a fraction");
}
fn lambda_function(_: &MicrofacetDistribution, w: Vector3f) -> f32 { uf_nonneg("lambda", &[w.x, w.y, w.z]) }
fn sampled(ax: f32, ay: f32, iso: bool) {
    let wo = any_vector();
    assume(wo.z != 0.);
    let (u, v) = (real_in(0., 0.99999994), real_in(0., 0.99999994));
    assume(u < 1. && v < 1.);
    native_assume(u > 1e-3 && u < 0.99);
    let w = MicrofacetDistribution::new(ax, ay).sample_wh(wo, Point2f::new(u, v));
    // distribution function of the slope: u = e / (1 + e), e = (x^2/ax^2 + y^2/ay^2) / z^2
    let e = w.x * w.x / (ax * ax) + w.y * w.y / (ay * ay);
    close_s(u * (e + w.z * w.z), e, e + w.z * w.z, "half vectors are sampled with their density");
    close(dot3(w, w), 1., "half vector has unit length");
    check(w.z * wo.z >= 0., "half vector is on the side of the outgoing direction");
    check(!symbolic() || w.z != 0., "half vector is not at right angles to the normal");
    if iso {
        let f = if wo.z > 0. { 1. } else { -1. };
        let s = (w.x * w.x + w.y * w.y).sqrt();
        close(f * w.x, s * (2. * PI * v).cos(), "half vector's azimuth is uniform (x)");
        close(f * w.y, s * (2. * PI * v).sin(), "half vector's azimuth is uniform (y)");
    } else {
        // the azimuth of (x/ax, y/ay) is uniform
        let a = 2. * PI * v + 0.5 * PI;
        let (c, d) = (a.cos(), a.sin());
        assume(v != 0. && v != 0.5);
        native_assume(v > 1e-3 && v < 0.999 && (v - 0.5).abs() > 1e-3);
        assume(c != 0. && (c < 0.) == (v < 0.5));     // true of the cosine
        let f = if wo.z > 0. { 1. } else { -1. };
        let (x, y) = (f * w.x / ax, f * w.y / ay);
        let s = 1. + x.abs() + y.abs();
        close_s(x * d, y * c, s, "half vector's stretched azimuth is uniform (direction)");
        leq_s(x * c, 0., s, "half vector's stretched azimuth is uniform (side)");
    }
}
pub fn h_c17_ggx_sample() {
    let (a, _) = alphas();
    sampled(a, a, true);
}
pub fn h_c17_ggx_sample_anisotropic() {
    let (a, b) = alphas();
    assume(a != b);
    sampled(a, b, false);
}
// contracts for use by lobes
pub fn d_contract(_: &MicrofacetDistribution, w: Vector3f) -> f32 { emit("d", &[w.x, w.y, w.z]); uf_nonneg("d", &[]) }
pub fn g_contract(_: &MicrofacetDistribution, wo: Vector3f, wi: Vector3f) -> f32 { emit("g", &[wo.x, wo.y, wo.z, wi.x, wi.y, wi.z]); uf_nonneg("g", &[]) }
pub fn pdf_contract(_: &MicrofacetDistribution, _: Vector3f, w: Vector3f) -> f32 { emit("pdf", &[w.x, w.y, w.z]); uf_nonneg("pdf", &[]) }
pub fn sample_contract(_: &MicrofacetDistribution, wo: Vector3f, u: Point2f) -> Vector3f {
    let w = Vector3f::new(uf("wh_x", &[u.x, u.y]), uf("wh_y", &[u.x, u.y]), uf("wh_z", &[u.x, u.y]));
    assume((dot3(w, w) == 1.) & (w.z * wo.z > 0.));
    w
}
pub fn stub_distribution() {
    stub(MicrofacetDistribution::d, d_contract);
    stub(MicrofacetDistribution::g, g_contract);
    stub(MicrofacetDistribution::pdf, pdf_contract);
    stub(MicrofacetDistribution::sample_wh, sample_contract);
}
/// a number standing for a distribution
pub fn distribution_tag(m: &MicrofacetDistribution) -> f32 { uf("distribution", &[m.alpha_x, m.alpha_y]) }
