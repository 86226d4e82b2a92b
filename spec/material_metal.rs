use reflection::ptv_spec::*;

struct Metal { b: BSDF, r: Spectrum, eta: Spectrum, k: Spectrum, u: f32, v: f32 }
fn metal(rough: bool) -> Metal {
    stub_colours();
    let i = framed_hit();
    let r = any_colour();
    let (eta, k) = (Spectrum::new(pos(), pos(), pos()), Spectrum::new(pos(), pos(), pos()));
    let (u, v) = if rough { (zero_or_pos(), zero_or_pos()) } else { (0., 0.) };
    assume((u != 0.) | (v != 0.) | !rough);
    let b = MetalMaterial::new(at(r, &i), at(eta, &i), at(k, &i), at(u, &i), at(v, &i)).compute_scattering(&i);
    stub_lobes();
    lobe_count(&b, 1);
    Metal { b, r: clamped(r), eta, k, u, v }
}
pub fn h_c24_smooth_metal() {
    let m = metal(false);
    has_lobe(&m.b, &SpecularReflectionBRDF::new(m.r, FresnelConductor::new(Spectrum::from(1.), m.eta, m.k)));
}
pub fn h_c24_rough_metal() {
    let m = metal(true);
    has_lobe(&m.b, &MicrofacetReflectionBRDF::new(m.r, MicrofacetDistribution::new(m.u, m.v), FresnelConductor::new(Spectrum::from(1.), m.eta, m.k)));
}
fn stub_lobes() {
    ::bxdf_specular_reflection::ptv_spec::stub_lobe::<FresnelConductor>();
    ::bxdf_microfacet_reflection::ptv_spec::stub_lobe::<FresnelConductor>();
}
