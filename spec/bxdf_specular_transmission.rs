use spectrum::ptv_spec::any_spectrum;
use reflection::ptv_spec::*;
use fresnel::ptv_spec::*;

pub fn h_c17_glass() {
    let wo = any_unit();
    assume(wo.z != 0.);
    native_assume(wo.z.abs() > 0.01);
    let (a, b, r) = (pos(), pos(), any_spectrum());
    native_assume(a > 0.2 && a < 5. && b > 0.2 && b < 5.);
    let l = SpecularTransmissionBTDF::new(r, a, b);
    stub(<FresnelDielectric as Fresnel>::evaluate, dielectric_contract);
    let (wi, f, d) = l.sample_f(wo, Point2f::new(real_in(0., 1.), real_in(0., 1.)));
    // incident medium, other medium
    let (ni, nt) = if wo.z > 0. { (a, b) } else { (b, a) };
    let e = ni / nt;
    let k = 1. - e * e * (1. - wo.z * wo.z);
    native_assume(k.abs() > 1e-3);
    if symbolic() { check(1. - wo.z * wo.z >= 0., "lemma: sine"); }
    if k <= 0. { check(d == 0. && f.is_black(), "total internal reflection"); return; }
    check(d == 1., "glass density is one");
    close_s(wi.x * nt, -wo.x * ni, 1., "Snell's law (x)");
    close_s(wi.y * nt, -wo.y * ni, 1., "Snell's law (y)");
    close(wi.z * wi.z, k, "refracted cosine");
    check(wi.z * wo.z < 0., "refracted to the other side");
    let ff = if symbolic() { uf("fresnel", &[]) } else { l.fresnel.evaluate(wi.z).r };
    let c = wi.z.abs() * nt * nt;
    close_s(f.r * c, r.r * (1. - ff) * ni * ni, c, "glass value (red)");
    close_s(f.g * c, r.g * (1. - ff) * ni * ni, c, "glass value (green)");
    close_s(f.b * c, r.b * (1. - ff) * ni * ni, c, "glass value (blue)");
    if symbolic() { check(event("fresnel", 0, 0) == wi.z, "reflectance is taken from the refracted side"); }
    let w = any_unit();
    check(l.f(wo, w).is_black() && l.pdf(wo, w) == 0., "no other direction is refracted into");
    check(l.flag() == TRANSMISSION | SPECULAR, "glass flags");
}
/// this lobe as a function of its parts and the directions
fn tag(l: &SpecularTransmissionBTDF) -> f32 { tag_of(3, l.t, l.eta_a, uf("pair", &[l.eta_b, l.fresnel.tag()])) }
fn value_function(l: &SpecularTransmissionBTDF, a: Vector3f, b: Vector3f) -> Spectrum { lobe_value(tag(l), a, b) }
fn density_function(l: &SpecularTransmissionBTDF, a: Vector3f, b: Vector3f) -> f32 { lobe_density(tag(l), a, b) }
fn sample_function(l: &SpecularTransmissionBTDF, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) { lobe_sample(tag(l), a, u) }
pub fn stub_lobe() {
    stub(<SpecularTransmissionBTDF as BxDF>::f, value_function);
    stub(<SpecularTransmissionBTDF as BxDF>::pdf, density_function);
    stub(<SpecularTransmissionBTDF as BxDF>::sample_f, sample_function);
}
