use reflection::ptv_spec::*;

pub fn h_c24_matte() {
    stub_colours();
    let i = framed_hit();
    let kd = any_colour();
    let b = LambertianReflectionMaterial::new(at(kd, &i)).compute_scattering(&i);
    stub_lobes();
    let r = clamped(kd);
    lobe_count(&b, (!black(r)) as usize);
    if !black(r) { has_lobe(&b, &LambertianReflectionBRDF::new(r)); }
}
fn stub_lobes() {
    ::bxdf_lambertian_reflection::ptv_spec::stub_lobe();
}
