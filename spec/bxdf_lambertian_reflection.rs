use spectrum::ptv_spec::any_spectrum;
use reflection::ptv_spec::*;
use sampling::ptv_spec::hemisphere_contract;

pub fn h_c17_diffuse() {
    let r = any_spectrum();
    let l = LambertianReflectionBRDF::new(r);
    let (wo, wi) = (any_unit(), any_unit());
    let (f, g) = (l.f(wo, wi), l.f(wi, wo));
    same_colour(f * PI, r, ("diffuse value (red)", "diffuse value (green)", "diffuse value (blue)"));
    same_colour(f, g, ("diffuse value is reciprocal (red)", "diffuse value is reciprocal (green)", "diffuse value is reciprocal (blue)"));
    let p = l.pdf(wo, wi);
    if wo.z * wi.z > 0. { close(p * PI, wi.z.abs(), "diffuse density is the cosine over pi"); } else { check(p == 0., "no density on the other side"); }
    check(p >= 0., "density is not negative");
    check(l.flag() == REFLECTION | DIFFUSE, "diffuse flags");
}
pub fn h_c17_diffuse_sample() {
    stub(cosine_sample_hemisphere, hemisphere_contract);
    let l = LambertianReflectionBRDF::new(any_spectrum());
    let wo = any_unit();
    assume(wo.z != 0.);
    let u = Point2f::new(real_in(0., 0.99999994), real_in(0., 0.99999994));
    let (wi, f, p) = l.sample_f(wo, u);
    let w = if symbolic() { hemisphere_contract(u) } else { cosine_sample_hemisphere(u) };
    check((wi.x == w.x) & (wi.y == w.y) & (wi.z == w.z || wi.z == -w.z), "cosine-weighted direction");
    check(wi.z * wo.z >= 0., "on the side of the outgoing direction");
    close(dot3(wi, wi), 1., "sampled direction has unit length");
    same_colour(f, l.f(wo, wi), ("sampled value is the evaluated one (red)", "sampled value is the evaluated one (green)", "sampled value is the evaluated one (blue)"));
    close(p, l.pdf(wo, wi), "sampled density is the evaluated one");
}
/// this lobe as a function of its parts and the directions
fn tag(l: &LambertianReflectionBRDF) -> f32 { tag_of(1, l.r, 0., 0.) }
fn value_function(l: &LambertianReflectionBRDF, a: Vector3f, b: Vector3f) -> Spectrum { lobe_value(tag(l), a, b) }
fn density_function(l: &LambertianReflectionBRDF, a: Vector3f, b: Vector3f) -> f32 { lobe_density(tag(l), a, b) }
fn sample_function(l: &LambertianReflectionBRDF, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) { lobe_sample(tag(l), a, u) }
pub fn stub_lobe() {
    stub(<LambertianReflectionBRDF as BxDF>::f, value_function);
    stub(<LambertianReflectionBRDF as BxDF>::pdf, density_function);
    stub(<LambertianReflectionBRDF as BxDF>::sample_f, sample_function);
}
