use spectrum::ptv_spec::any_spectrum;
use reflection::ptv_spec::*;
use fresnel::ptv_spec::*;

pub fn h_c17_mirror() {
    let wo = any_unit();
    assume(wo.z != 0.);
    native_assume(wo.z.abs() > 0.01);
    let (p, r) = (any_probe(), any_spectrum());
    let ff = p.f;
    let l = SpecularReflectionBRDF::new(r, p);
    let (wi, f, d) = l.sample_f(wo, Point2f::new(real_in(0., 1.), real_in(0., 1.)));
    check((wi.x == -wo.x) & (wi.y == -wo.y) & (wi.z == wo.z), "mirrored at the normal");
    check(d == 1., "mirror density is one");
    let c = wo.z.abs();
    close(f.r * c, r.r * ff.r, "mirror value (red)");
    close(f.g * c, r.g * ff.g, "mirror value (green)");
    close(f.b * c, r.b * ff.b, "mirror value (blue)");
    check(event("fresnel", 0, 0) == wo.z, "reflectance is taken at the normal");
    let w = any_unit();
    check(l.f(wo, w).is_black() && l.pdf(wo, w) == 0., "no other direction is reflected into");
    check(l.flag() == REFLECTION | SPECULAR, "mirror flags");
}
/// this lobe as a function of its parts and the directions
fn tag<T: Fresnel + Tag>(l: &SpecularReflectionBRDF<T>) -> f32 { tag_of(2, l.r, l.fresnel.tag(), 0.) }
fn value_function<T: Fresnel + Tag>(l: &SpecularReflectionBRDF<T>, a: Vector3f, b: Vector3f) -> Spectrum { lobe_value(tag(l), a, b) }
fn density_function<T: Fresnel + Tag>(l: &SpecularReflectionBRDF<T>, a: Vector3f, b: Vector3f) -> f32 { lobe_density(tag(l), a, b) }
fn sample_function<T: Fresnel + Tag>(l: &SpecularReflectionBRDF<T>, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) { lobe_sample(tag(l), a, u) }
pub fn stub_lobe<T: 'static + Fresnel + Tag>() {
    stub(<SpecularReflectionBRDF<T> as BxDF>::f, value_function::<T>);
    stub(<SpecularReflectionBRDF<T> as BxDF>::pdf, density_function::<T>);
    stub(<SpecularReflectionBRDF<T> as BxDF>::sample_f, sample_function::<T>);
}
