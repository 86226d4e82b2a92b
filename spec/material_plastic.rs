use reflection::ptv_spec::*;

fn plastic(rough: bool) -> (BSDF, ::spectrum::Spectrum, ::spectrum::Spectrum, f32) {
    stub_colours();
    let i = framed_hit();
    let (d, s) = (any_colour(), any_colour());
    let a = if rough { pos() } else { 0. };
    native_assume(!rough || a > 0.05 && a < 5.);
    let b = PlasticMaterial::new(at(d, &i), at(s, &i), at(a, &i)).compute_scattering(&i);
    let (d, s) = (clamped(d), clamped(s));
    stub_lobes();
    lobe_count(&b, (!black(d)) as usize + (!black(s)) as usize);
    (b, d, s, a)
}
pub fn h_c24_plastic_diffuse() {
    let (b, d, _, _) = plastic(choose(2) == 1);
    if !black(d) { has_lobe(&b, &LambertianReflectionBRDF::new(d)); }
}
pub fn h_c24_smooth_plastic() {
    let (b, _, s, _) = plastic(false);
    if !black(s) { has_lobe(&b, &SpecularReflectionBRDF::new(s, FresnelDielectric::new(1.5, 1.))); }
}
pub fn h_c24_rough_plastic() {
    let (b, _, s, a) = plastic(true);
    if !black(s) { has_lobe(&b, &MicrofacetReflectionBRDF::new(s, MicrofacetDistribution::new(a, a), FresnelDielectric::new(1.5, 1.))); }
}
fn stub_lobes() {
    ::bxdf_lambertian_reflection::ptv_spec::stub_lobe();
    ::bxdf_specular_reflection::ptv_spec::stub_lobe::<FresnelDielectric>();
    ::bxdf_microfacet_reflection::ptv_spec::stub_lobe::<FresnelDielectric>();
}
