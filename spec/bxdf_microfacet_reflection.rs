use spectrum::ptv_spec::any_spectrum;
use reflection::ptv_spec::*;
use microfacet::ptv_spec::*;
use fresnel::ptv_spec::*;

fn distribution() -> MicrofacetDistribution {
    let (x, y) = (pos(), pos());
    native_assume(x > 0.05 && x < 5. && y > 0.05 && y < 5.);
    MicrofacetDistribution::new(x, y)
}
/// unit directions
fn directions() -> (Vector3f, Vector3f) {
    let (wo, wi) = (any_unit(), any_unit());
    native_assume(wo.z.abs() > 0.05 && wi.z.abs() > 0.05);
    (wo, wi)
}
fn half(wo: Vector3f, wi: Vector3f) -> (Vector3f, f32) {
    let h = Vector3f::new(wo.x + wi.x, wo.y + wi.y, wo.z + wi.z);
    (h, dot3(h, h).sqrt())
}
fn event3(n: &'static str, i: usize, k: usize) -> Vector3f { Vector3f::new(event(n, i, k), event(n, i, k + 1), event(n, i, k + 2)) }
pub fn h_c17_glossy_value() {
    let (wo, wi) = directions();
    let (p, m, r) = (any_probe(), distribution(), any_spectrum());
    let ff = p.f;
    let l = MicrofacetReflectionBRDF::new(r, m, p);
    stub_distribution();
    let f = l.f(wo, wi);
    check(l.flag() == REFLECTION | GLOSSY, "glossy flags");
    let (h, n) = half(wo, wi);
    if wo.z == 0. || wi.z == 0. || (h.x == 0. && h.y == 0. && h.z == 0.) {
        check(f.is_black(), "no reflection along the surface or straight back");
        return;
    }
    native_assume(n > 0.05);
    let w = Vector3f::new(h.x / n, h.y / n, h.z / n);
    let (d, g) = if symbolic() { (d_contract(&m, w), g_contract(&m, wo, wi)) } else { (m.d(w), m.g(wo, wi)) };
    let k = 4. * wo.z.abs() * wi.z.abs();
    let s = 1. + (d * g).abs();
    close_s(f.r * k, r.r * ff.r * d * g, s, "glossy value is the Torrance-Sparrow formula (red)");
    close_s(f.g * k, r.g * ff.g * d * g, s, "glossy value is the Torrance-Sparrow formula (green)");
    close_s(f.b * k, r.b * ff.b * d * g, s, "glossy value is the Torrance-Sparrow formula (blue)");
    if symbolic() {
        check(emitted("d") == 2 && emitted("g") == 2, "distribution and shadowing are evaluated once");
        let (a, b) = (event3("d", 0, 0), event3("g", 0, 0));
        let c = event3("g", 0, 3);
        close(a.x, w.x, "distribution is taken at the half vector (x)");
        close(a.y, w.y, "distribution is taken at the half vector (y)");
        close(a.z, w.z, "distribution is taken at the half vector (z)");
        check((b.x == wo.x) & (b.y == wo.y) & (b.z == wo.z) & (c.x == wi.x) & (c.y == wi.y) & (c.z == wi.z)
            | (b.x == wi.x) & (b.y == wi.y) & (b.z == wi.z) & (c.x == wo.x) & (c.y == wo.y) & (c.z == wo.z), "shadowing is that of the two directions");
    }
    check(emitted("fresnel") == 1, "reflectance is evaluated once");
    close(event("fresnel", 0, 0), dot3(w, wi), "reflectance is taken at the half vector");
}
pub fn h_c17_glossy_reciprocal() {
    let (wo, wi) = directions();
    let l = MicrofacetReflectionBRDF::new(any_spectrum(), distribution(), any_probe());
    stub_distribution();
    let (h, n) = half(wo, wi);
    native_assume(n > 0.05);
    if symbolic() { close(dot3(h, wo), dot3(h, wi), "lemma: the half vector halves the angle"); }
    let (a, b) = (l.f(wo, wi), l.f(wi, wo));
    close_s(a.r, b.r, a.r.abs(), "glossy value is reciprocal (red)");
    close_s(a.g, b.g, a.g.abs(), "glossy value is reciprocal (green)");
    close_s(a.b, b.b, a.b.abs(), "glossy value is reciprocal (blue)");
    if emitted("fresnel") == 2 { close(event("fresnel", 0, 0), event("fresnel", 1, 0), "reflectance is reciprocal"); }
}
pub fn h_c17_glossy_density() {
    let (wo, wi) = directions();
    let m = distribution();
    let l = MicrofacetReflectionBRDF::new(any_spectrum(), m, any_probe());
    stub_distribution();
    let (h, n) = half(wo, wi);
    native_assume(n > 0.05);
    if symbolic() && wo.z * wi.z > 0. {
        check(h.z != 0., "lemma: directions on one side do not cancel");
        check(dot3(h, h) > 0., "lemma: squares");
        check(n > 0., "lemma: length");
        close(2. * dot3(h, wo), dot3(h, h), "lemma: the half vector halves the angle");
    }
    let p = l.pdf(wo, wi);
    if !(wo.z * wi.z > 0.) { check(p == 0., "no density on the other side"); return; }
    let w = Vector3f::new(h.x / n, h.y / n, h.z / n);
    let d = if symbolic() { pdf_contract(&m, wo, w) } else { m.pdf(wo, w) };
    close_s(p * 4. * dot3(wo, w), d, 0.01, "glossy density is that of the half vector over the Jacobian");
    check(p >= 0., "density is not negative");
    if symbolic() {
        let a = event3("pdf", 0, 0);
        close(a.x, w.x, "density is taken at the half vector (x)");
        close(a.y, w.y, "density is taken at the half vector (y)");
        close(a.z, w.z, "density is taken at the half vector (z)");
    }
}
pub fn h_c17_glossy_sample() {
    let wo = any_unit();
    native_assume(wo.z.abs() > 0.05);
    let m = distribution();
    let l = MicrofacetReflectionBRDF::new(any_spectrum(), m, any_probe());
    stub_distribution();
    let u = Point2f::new(real_in(0., 0.99999994), real_in(0., 0.99999994));
    native_assume(u.x > 1e-3 && u.x < 0.99);
    let (wi, f, p) = l.sample_f(wo, u);
    if wo.z == 0. { check(p == 0. && f.is_black(), "nothing is sampled along the surface"); return; }
    let w = if symbolic() { sample_contract(&m, wo, u) } else { m.sample_wh(wo, u) };
    let c = dot3(wo, w);
    native_assume(c.abs() > 0.05);
    let r = Vector3f::new(2. * c * w.x - wo.x, 2. * c * w.y - wo.y, 2. * c * w.z - wo.z);
    native_assume(r.z.abs() > 0.05);
    if !(wo.z * r.z > 0.) { check(p == 0. && f.is_black(), "nothing is sampled on the other side"); return; }
    close(wi.x, r.x, "mirrored at the half vector (x)");
    close(wi.y, r.y, "mirrored at the half vector (y)");
    close(wi.z, r.z, "mirrored at the half vector (z)");
    close(dot3(wi, wi), 1., "sampled direction has unit length");
    check(c > 0., "half vector faces the outgoing direction");
    let d = if symbolic() { pdf_contract(&m, wo, w) } else { m.pdf(wo, w) };
    close_s(p * 4. * c, d, 0.01, "density of the sampled direction");
    if symbolic() {
        let a = event3("pdf", 0, 0);
        check((a.x == w.x) & (a.y == w.y) & (a.z == w.z) | (a.x == -w.x) & (a.y == -w.y) & (a.z == -w.z), "density is that of the sampled half vector");
    } else {
        let q = l.pdf(wo, wi);
        close_s(p, q, 0.01, "sampled density is the evaluated one");
    }
    let g = l.f(wo, wi);
    close_s(f.r, g.r, 0.01, "sampled value is the evaluated one (red)");
    close_s(f.g, g.g, 0.01, "sampled value is the evaluated one (green)");
    close_s(f.b, g.b, 0.01, "sampled value is the evaluated one (blue)");
}
/// this lobe as a function of its parts and the directions
fn tag<T: Fresnel + Tag>(l: &MicrofacetReflectionBRDF<T>) -> f32 { tag_of(4, l.r, l.fresnel.tag(), distribution_tag(&l.distribution)) }
fn value_function<T: Fresnel + Tag>(l: &MicrofacetReflectionBRDF<T>, a: Vector3f, b: Vector3f) -> Spectrum { lobe_value(tag(l), a, b) }
fn density_function<T: Fresnel + Tag>(l: &MicrofacetReflectionBRDF<T>, a: Vector3f, b: Vector3f) -> f32 { lobe_density(tag(l), a, b) }
fn sample_function<T: Fresnel + Tag>(l: &MicrofacetReflectionBRDF<T>, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) { lobe_sample(tag(l), a, u) }
pub fn stub_lobe<T: 'static + Fresnel + Tag>() {
    stub(<MicrofacetReflectionBRDF<T> as BxDF>::f, value_function::<T>);
    stub(<MicrofacetReflectionBRDF<T> as BxDF>::pdf, density_function::<T>);
    stub(<MicrofacetReflectionBRDF<T> as BxDF>::sample_f, sample_function::<T>);
}
