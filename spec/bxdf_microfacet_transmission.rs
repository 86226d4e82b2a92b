use spectrum::ptv_spec::any_spectrum;
use reflection::ptv_spec::*;
use microfacet::ptv_spec::*;
use fresnel::ptv_spec::*;

fn distribution() -> MicrofacetDistribution {
    let (x, y) = (pos(), pos());
    native_assume(x > 0.05 && x < 5. && y > 0.05 && y < 5.);
    MicrofacetDistribution::new(x, y)
}
fn event3(n: &'static str, i: usize, k: usize) -> Vector3f { Vector3f::new(event(n, i, k), event(n, i, k + 1), event(n, i, k + 2)) }
struct Setup { l: MicrofacetTransmissionBTDF, m: MicrofacetDistribution, t: Spectrum, wo: Vector3f, eta: f32 }
fn setup() -> Setup {
    let wo = any_unit();
    native_assume(wo.z.abs() > 0.05);
    let (a, b, t, m) = (pos(), pos(), Spectrum::new(nonneg(), nonneg(), nonneg()), distribution());
    native_assume(a > 0.2 && a < 5. && b > 0.2 && b < 5. && (a - b).abs() > 0.1);
    stub_distribution();
    stub(<FresnelDielectric as Fresnel>::evaluate, dielectric_contract);
    // index on the other side over index on the side of wo
    let eta = if wo.z > 0. { b / a } else { a / b };
    Setup { l: MicrofacetTransmissionBTDF::new(t, a, b, m), m, t, wo, eta }
}
/// the half vector, the incoming direction and what normalising their combination has to give
struct Half { w: Vector3f, wi: Vector3f }
fn half(s: &Setup) -> Half {
    let h = if symbolic() {
        let w = seen_half();
        assume(dot3(w, w) == 1.);
        Half { w, wi: any_unit() }
    } else {
        let wi = any_unit();
        let h = Vector3f::new(s.wo.x + wi.x * s.eta, s.wo.y + wi.y * s.eta, s.wo.z + wi.z * s.eta);
        let l = dot3(h, h).sqrt();
        native_assume(l > 0.05);
        Half { w: Vector3f::new(h.x / l, h.y / l, h.z / l), wi }
    };
    native_assume(h.wi.z.abs() > 0.05 && h.w.z.abs() > 0.02);
    stub(Vector3f::normalize, normalize_seen);
    h
}
fn seen_half() -> Vector3f { Vector3f::new(uf("half_x", &[]), uf("half_y", &[]), uf("half_z", &[])) }
/// normalising is asked for one vector, whose direction the harness knows
fn normalize_seen(h: &Vector3f) -> Vector3f { emit("normalize", &[h.x, h.y, h.z]); seen_half() }
fn normalized_half(s: &Setup, h: &Half) {
    if symbolic() {
        let a = event3("normalize", 0, 0);
        close(a.x, s.wo.x + h.wi.x * s.eta, "half vector is along wo + eta wi (x)");
        close(a.y, s.wo.y + h.wi.y * s.eta, "half vector is along wo + eta wi (y)");
        close(a.z, s.wo.z + h.wi.z * s.eta, "half vector is along wo + eta wi (z)");
    }
}
pub fn h_c17_rough_glass_value() {
    let s = setup();
    let h = half(&s);
    let (wo, wi) = (s.wo, h.wi);
    let f = s.l.f(wo, wi);
    check(s.l.flag() == TRANSMISSION | GLOSSY, "rough glass flags");
    if (wo.z * wi.z > 0.) | (wo.z == 0.) | (wi.z == 0.) {
        check(f.is_black(), "no transmission to the same side or along the surface");
        return;
    }
    normalized_half(&s, &h);
    let mut w = h.w;
    if w.z < 0. { w = -w; }
    let (co, ci) = (dot3(wo, w), dot3(wi, w));
    let (d, g) = if symbolic() { (d_contract(&s.m, w), g_contract(&s.m, wo, wi)) } else { (s.m.d(w), s.m.g(wo, wi)) };
    let ff = if symbolic() { uf("fresnel", &[]) } else { s.l.fresnel.evaluate(co).r };
    assume((ff >= 0.) & (ff <= 1.));
    let q = co + ci * s.eta;
    native_assume(q.abs() > 0.05);
    assume(q != 0.);
    check(wo.z * wi.z < 0., "lemma: opposite sides");
    check(q * q > 0., "lemma: square");
    let reflectance = co;
    let co = if co < 0. { -co } else { co };
    let ci = if ci < 0. { -ci } else { ci };
    let z = q * q * (wo.z * wi.z);
    check(z < 0., "lemma: sign of the denominator");
    leq(0., d * g, "lemma: sign of the numerator 1");
    leq(0., d * g * (1. - ff), "lemma: sign of the numerator 2");
    leq(0., d * g * (1. - ff) * ci, "lemma: sign of the numerator 3");
    let n = d * g * (1. - ff) * ci * co;
    leq(0., n, "lemma: sign of the numerator");
    leq(n / z, 0., "lemma: sign of the quotient");
    let k = -(n / z);
    leq(s.t.r * n / z, 0., "lemma: sign of the quotient (red)");
    leq(s.t.g * n / z, 0., "lemma: sign of the quotient (green)");
    leq(s.t.b * n / z, 0., "lemma: sign of the quotient (blue)");
    let m = 1. + k;
    native_assume(k < 100.);
    close_s(f.r, s.t.r * k, m, "rough glass value is the Torrance-Sparrow formula (red)");
    close_s(f.g, s.t.g * k, m, "rough glass value is the Torrance-Sparrow formula (green)");
    close_s(f.b, s.t.b * k, m, "rough glass value is the Torrance-Sparrow formula (blue)");
    if symbolic() {
        let (a, b, c) = (event3("d", 0, 0), event3("g", 0, 0), event3("g", 0, 3));
        close(a.x, w.x, "distribution is taken at the half vector (x)");
        close(a.y, w.y, "distribution is taken at the half vector (y)");
        close(a.z, w.z, "distribution is taken at the half vector (z)");
        check((b.x == wo.x) & (b.y == wo.y) & (b.z == wo.z) & (c.x == wi.x) & (c.y == wi.y) & (c.z == wi.z)
            | (b.x == wi.x) & (b.y == wi.y) & (b.z == wi.z) & (c.x == wo.x) & (c.y == wo.y) & (c.z == wo.z), "shadowing is that of the two directions");
        close(event("fresnel", 0, 0), reflectance, "reflectance is taken at the half vector");
    }
}
pub fn h_c17_rough_glass_density() {
    let s = setup();
    let h = half(&s);
    let (wo, wi, w) = (s.wo, h.wi, h.w);
    let p = s.l.pdf(wo, wi);
    if wo.z * wi.z > 0. { check(p == 0., "no density on the same side"); return; }
    assume(wo.z * wi.z < 0.);
    normalized_half(&s, &h);
    let (co, ci) = (dot3(wo, w), dot3(wi, w));
    let q = co + ci * s.eta;
    native_assume(q.abs() > 0.05);
    assume(q != 0.);
    let d = if symbolic() { pdf_contract(&s.m, wo, w) } else { s.m.pdf(wo, w) };
    native_assume(p < 1000.);
    check(q * q > 0., "lemma: square");
    let j = ci * s.eta * s.eta / (q * q);
    if ci < 0. { check(j < 0., "lemma: sign of the Jacobian"); } else { check(j >= 0., "lemma: sign of the Jacobian"); }
    close_s(p * q * q, d * s.eta * s.eta * ci.abs(), 0.01, "rough glass density is that of the half vector times the Jacobian");
    check(p >= 0., "density is not negative");
    if symbolic() {
        let a = event3("pdf", 0, 0);
        check(((a.x == w.x) & (a.y == w.y) & (a.z == w.z)) | ((a.x == -w.x) & (a.y == -w.y) & (a.z == -w.z)), "density is taken at the half vector");
    }
}
/// what refract has to do (C18), as a function of its arguments
fn refract_contract(v: Vector3f, n: Vector3f, eta: f32) -> Option<Vector3f> {
    emit("refract", &[v.x, v.y, v.z, n.x, n.y, n.z, eta]);
    if uf_bool("refracts", &[]) { Some(Vector3f::new(uf("refracted_x", &[]), uf("refracted_y", &[]), uf("refracted_z", &[]))) } else { None }
}
fn f_contract(_: &MicrofacetTransmissionBTDF, wo: Vector3f, wi: Vector3f) -> Spectrum {
    emit("value", &[wo.x, wo.y, wo.z, wi.x, wi.y, wi.z]);
    Spectrum::new(uf("value_r", &[]), uf("value_g", &[]), uf("value_b", &[]))
}
fn p_contract(_: &MicrofacetTransmissionBTDF, wo: Vector3f, wi: Vector3f) -> f32 {
    emit("density", &[wo.x, wo.y, wo.z, wi.x, wi.y, wi.z]);
    uf("density", &[])
}
pub fn h_c17_rough_glass_sample() {
    let s = setup();
    let wo = s.wo;
    let u = Point2f::new(real_in(0., 0.99999994), real_in(0., 0.99999994));
    native_assume(u.x > 1e-3 && u.x < 0.99);
    stub(refract, refract_contract);
    stub(<MicrofacetTransmissionBTDF as BxDF>::f, f_contract);
    stub(<MicrofacetTransmissionBTDF as BxDF>::pdf, p_contract);
    let (wi, f, p) = s.l.sample_f(wo, u);
    if wo.z == 0. { check(p == 0. && f.is_black(), "nothing is sampled along the surface"); return; }
    let w = if symbolic() { sample_contract(&s.m, wo, u) } else { s.m.sample_wh(wo, u) };
    let (refracts, d) = if symbolic() {
        check(emitted("refract") == 1, "refracted once");
        let (v, n) = (event3("refract", 0, 0), event3("refract", 0, 3));
        check((v.x == wo.x) & (v.y == wo.y) & (v.z == wo.z), "refracts the outgoing direction");
        check((n.x == w.x) & (n.y == w.y) & (n.z == w.z), "refracts at the sampled half vector");
        close(event("refract", 0, 6) * s.eta, 1., "refracts with the relative index");
        (uf_bool("refracts", &[]), seen_refracted())
    } else {
        match refract(wo, w, 1. / s.eta) { Some(d) => (true, d), None => (false, wo) }
    };
    if !refracts { check(p == 0. && f.is_black(), "total internal reflection at the facet"); return; }
    let (g, q) = if symbolic() { (f_contract(&s.l, wo, d), p_contract(&s.l, wo, d)) } else { (s.l.f(wo, d), s.l.pdf(wo, d)) };
    if symbolic() {
        let (a, b) = (event3("value", 0, 0), event3("value", 0, 3));
        check((a.x == wo.x) & (a.y == wo.y) & (a.z == wo.z) & (b.x == d.x) & (b.y == d.y) & (b.z == d.z), "value is that of the sampled direction");
        let (a, b) = (event3("density", 0, 0), event3("density", 0, 3));
        check((a.x == wo.x) & (a.y == wo.y) & (a.z == wo.z) & (b.x == d.x) & (b.y == d.y) & (b.z == d.z), "density is that of the sampled direction");
    }
    native_assume(q < 1000. && g.r < 100. && g.g < 100. && g.b < 100.);
    if p == 0. && !symbolic() { check(q < 1e-3, "sampled density is the evaluated one"); return; }
    native_assume((1. - 1. / (s.eta * s.eta) * (1. - dot3(wo, w) * dot3(wo, w))).abs() > 0.01);
    close(wi.x, d.x, "refracted at the half vector (x)");
    close(wi.y, d.y, "refracted at the half vector (y)");
    close(wi.z, d.z, "refracted at the half vector (z)");
    close_s(p, q, 0.01 + q, "sampled density is the evaluated one");
    close_s(f.r, g.r, 0.01 + g.r.abs(), "sampled value is the evaluated one (red)");
    close_s(f.g, g.g, 0.01 + g.g.abs(), "sampled value is the evaluated one (green)");
    close_s(f.b, g.b, 0.01 + g.b.abs(), "sampled value is the evaluated one (blue)");
}
fn seen_refracted() -> Vector3f { Vector3f::new(uf("refracted_x", &[]), uf("refracted_y", &[]), uf("refracted_z", &[])) }
/// this lobe as a function of its parts and the directions
fn tag(l: &MicrofacetTransmissionBTDF) -> f32 { tag_of(5, l.t, uf("pair", &[l.eta_a, l.eta_b]), uf("pair", &[l.fresnel.tag(), distribution_tag(&l.distribution)])) }
fn value_function(l: &MicrofacetTransmissionBTDF, a: Vector3f, b: Vector3f) -> Spectrum { lobe_value(tag(l), a, b) }
fn density_function(l: &MicrofacetTransmissionBTDF, a: Vector3f, b: Vector3f) -> f32 { lobe_density(tag(l), a, b) }
fn sample_function(l: &MicrofacetTransmissionBTDF, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) { lobe_sample(tag(l), a, u) }
pub fn stub_lobe() {
    stub(<MicrofacetTransmissionBTDF as BxDF>::f, value_function);
    stub(<MicrofacetTransmissionBTDF as BxDF>::pdf, density_function);
    stub(<MicrofacetTransmissionBTDF as BxDF>::sample_f, sample_function);
}
