fn g(alpha: f32, r: f32, d: f32) -> f32 { ((-alpha * d * d).exp() - (-alpha * r * r).exp()).max(0.) }
/// The filter is a product of two Gaussians, each lowered to reach zero at the radius and never negative.
pub fn h_c02_gaussian() {
    let (r, a) = (pos(), nonneg());
    native_assume(a < 10. && r < 5.);
    let f = GaussianFilter::new(r, a);
    check(f.radius() == r, "the filter has its radius");
    let p = Point2f::new(real(), real());
    let v = f.evaluate(p);
    close(v, g(a, r, p.x) * g(a, r, p.y), "the filter is the separable truncated Gaussian");
    check(v >= 0., "the filter is never negative");
}
