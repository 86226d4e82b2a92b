use reflection::ptv_spec::*;

pub fn h_c24_mirror() {
    stub_colours();
    let i = framed_hit();
    let kr = any_colour();
    let b = MirrorMaterial::new(at(kr, &i)).compute_scattering(&i);
    stub_lobes();
    let r = clamped(kr);
    lobe_count(&b, (!black(r)) as usize);
    if !black(r) { has_lobe(&b, &SpecularReflectionBRDF::new(r, FresnelNoOp::new())); }
}
fn stub_lobes() {
    ::bxdf_specular_reflection::ptv_spec::stub_lobe::<FresnelNoOp>();
}
