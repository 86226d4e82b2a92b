use reflection::ptv_spec::*;

struct Glass { b: BSDF, r: ::spectrum::Spectrum, t: ::spectrum::Spectrum, eta: f32, u: f32, v: f32 }
fn glass(rough: bool) -> Glass {
    stub_colours();
    let i = framed_hit();
    let (r, t, eta) = (any_colour(), any_colour(), pos());
    native_assume(eta > 0.2 && eta < 5. && (eta - 1.).abs() > 0.05);
    let (u, v) = if rough { (zero_or_pos(), zero_or_pos()) } else { (0., 0.) };
    assume((u != 0.) | (v != 0.) | !rough);
    let b = GlassMaterial::new(at(r, &i), at(t, &i), at(eta, &i), at(u, &i), at(v, &i)).compute_scattering(&i);
    let (r, t) = (clamped(r), clamped(t));
    stub_lobes();
    lobe_count(&b, (!black(r)) as usize + (!black(t)) as usize);
    Glass { b, r, t, eta, u, v }
}
pub fn h_c24_smooth_glass() {
    let g = glass(false);
    if !black(g.r) { has_lobe(&g.b, &SpecularReflectionBRDF::new(g.r, FresnelDielectric::new(1., g.eta))); }
    if !black(g.t) { has_lobe(&g.b, &SpecularTransmissionBTDF::new(g.t, 1., g.eta)); }
}
pub fn h_c24_rough_glass_reflection() {
    let g = glass(true);
    if !black(g.r) { has_lobe(&g.b, &MicrofacetReflectionBRDF::new(g.r, MicrofacetDistribution::new(g.u, g.v), FresnelDielectric::new(1., g.eta))); }
}
pub fn h_c24_rough_glass_transmission() {
    let g = glass(true);
    if !black(g.t) { has_lobe(&g.b, &MicrofacetTransmissionBTDF::new(g.t, 1., g.eta, MicrofacetDistribution::new(g.u, g.v))); }
}
fn stub_lobes() {
    ::bxdf_specular_reflection::ptv_spec::stub_lobe::<FresnelDielectric>();
    ::bxdf_specular_transmission::ptv_spec::stub_lobe();
    ::bxdf_microfacet_reflection::ptv_spec::stub_lobe::<FresnelDielectric>();
    ::bxdf_microfacet_transmission::ptv_spec::stub_lobe();
}
