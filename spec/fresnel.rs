use spectrum::ptv_spec::any_spectrum;

fn dielectric(ni: f32, nt: f32, c: f32) -> f32 {
    let s = FresnelDielectric::new(ni, nt).evaluate(c);
    close(s.r, s.g, "dielectric reflectance is colourless");
    close(s.r, s.b, "dielectric reflectance is colourless");
    s.r
}
fn indices() -> (f32, f32) {
    let (a, b) = (pos(), pos());
    native_assume(a > 0.05 && b > 0.05 && a < 20. && b < 20.);
    (a, b)
}
/// cosine on the transmitted side, squared (negative or zero under total internal reflection)
fn cos_t2(ni: f32, nt: f32, ci: f32) -> f32 { 1. - (ni / nt) * (ni / nt) * (1. - ci * ci) }

pub fn h_c18_dielectric_equations() {
    // from above
    let (ni, nt) = indices();
    let ci = real_in(0., 1.);
    assume(ci > 0.);
    let k = cos_t2(ni, nt, ci);
    assume(k > 0.);
    native_assume(k > 1e-4);
    let ct = k.sqrt();
    let r = dielectric(ni, nt, ci);
    let rp = (nt * ci - ni * ct) / (nt * ci + ni * ct);
    let rs = (ni * ci - nt * ct) / (ni * ci + nt * ct);
    close(r, (rp * rp + rs * rs) / 2., "dielectric reflectance is the mean of the Fresnel equations");
}
pub fn h_c18_dielectric_equations_below() {
    // from below: the indices exchange roles
    let (na, nb) = indices();
    let ci = real_in(0., 1.);
    let k = cos_t2(nb, na, ci);
    assume(k > 0.);
    native_assume(k > 1e-4);
    let ct = k.sqrt();
    let r = dielectric(na, nb, -ci);
    assume(ci > 0. || k != 0.);
    let rp = (na * ci - nb * ct) / (na * ci + nb * ct);
    let rs = (nb * ci - na * ct) / (nb * ci + na * ct);
    close(r, (rp * rp + rs * rs) / 2., "dielectric reflectance from below exchanges the indices");
}
pub fn h_c18_dielectric_total() {
    let (ni, nt) = indices();
    let ci = real_in(0., 1.);
    assume(ci > 0.);
    let k = cos_t2(ni, nt, ci);
    native_assume(k.abs() > 1e-4);
    if k <= 0. {
        close(dielectric(ni, nt, ci), 1., "total internal reflection reflects everything");
        close(dielectric(nt, ni, -ci), 1., "total internal reflection reflects everything (from below)");
    }
}
pub fn h_c18_dielectric_range() {
    let (ni, nt) = indices();
    let c = real_in(-1., 1.);
    let r = dielectric(ni, nt, c);
    leq(0., r, "dielectric reflectance is at least zero");
    leq(r, 1., "dielectric reflectance is at most one");
}
pub fn h_c18_dielectric_two_sides() {
    let (ni, nt) = indices();
    let ci = real_in(0., 1.);
    assume(ci > 0.);
    let k = cos_t2(ni, nt, ci);
    assume(k > 0.);
    native_assume(k > 0.05 && ci > 0.1 && ni / nt < 3. && nt / ni < 3.);
    let ct = k.sqrt();
    // sines on both sides
    let si = (1. - ci * ci).sqrt();
    let st = ni / nt * si;
    leq(1. - ct * ct, 1., "lemma: sine below one");
    leq(0., 1. - ct * ct, "lemma: sine above zero");
    close((1. - ct * ct).sqrt(), st, "lemma: sine on the other side");
    close((1. - ct * ct) * (nt / ni) * (nt / ni), 1. - ci * ci, "lemma: sine back");
    let st2 = nt / ni * (1. - ct * ct).sqrt();
    close((1. - st2 * st2).max(0.).sqrt(), ci, "lemma: cosine back");
    let a = dielectric(ni, nt, ci);
    let b = dielectric(ni, nt, -ct);
    let rp = (nt * ci - ni * ct) / (nt * ci + ni * ct);
    let rs = (ni * ci - nt * ct) / (ni * ci + nt * ct);
    close(a, (rp * rp + rs * rs) / 2., "reflectance from above");
    close(b, (rp * rp + rs * rs) / 2., "dielectric reflectance is the same from both sides along a refracted path");
}
fn conductor(ei: f32, et: f32, k: f32, c: f32) -> f32 {
    let s = FresnelConductor::new(Spectrum::from(ei), Spectrum::from(et), Spectrum::from(k)).evaluate(c);
    close(s.r, s.g, "equal components give equal reflectance");
    close(s.r, s.b, "equal components give equal reflectance");
    s.r
}
pub fn h_c18_conductor_equations() {
    let (eta, k) = (pos(), nonneg());
    native_assume(eta > 0.05 && eta < 20. && k < 20.);
    let c = real_in(0., 1.);
    let s2 = 1. - c * c;
    // (a + ib)^2 = (eta + ik)^2 - sin^2
    let t0 = eta * eta - k * k - s2;
    let m = (t0 * t0 + 4. * eta * eta * k * k).sqrt();
    let a = ((m + t0) * 0.5).sqrt();
    let rs = (m + c * c - 2. * a * c) / (m + c * c + 2. * a * c);
    let rp = rs * (m * c * c + s2 * s2 - 2. * a * c * s2) / (m * c * c + s2 * s2 + 2. * a * c * s2);
    native_assume(m + c * c > 1e-2 && m * c * c + s2 * s2 > 1e-2);
    close(conductor(1., eta, k, c), (rs + rp) / 2., "conductor reflectance is the mean of the Fresnel equations");
    close(conductor(1., eta, k, -c), (rs + rp) / 2., "conductor reflectance is the same for both directions of the normal");
}
pub fn h_c18_conductor_relative() {
    // only the ratios of the indices matter, per colour component
    let (ei, et, k) = (pos(), pos(), nonneg());
    native_assume(ei > 0.05 && ei < 20. && et < 20. && et > 0.05 && k < 20.);
    let c = real_in(0., 1.);
    let f = FresnelConductor::new(Spectrum::new(ei, 1., et), Spectrum::new(et, et / ei, ei), Spectrum::new(k, k / ei, k)).evaluate(c);
    native_assume(k > 0.1);
    close(f.r, f.g, "conductor reflectance depends on the relative indices");
}
pub fn h_c18_conductor_range() {
    let (eta, k) = (pos(), nonneg());
    native_assume(eta > 0.05 && eta < 20. && k < 20.);
    let c = real_in(0., 1.);
    // at grazing incidence onto identical media the equations are 0 / 0
    assume((k > 0.) | (c > 0.) | (eta != 1.));
    let s2 = 1. - c * c;
    let t0 = eta * eta - k * k - s2;
    let m = (t0 * t0 + 4. * eta * eta * k * k).sqrt();
    native_assume(m + c * c > 1e-3);
    let a = ((m + t0) * 0.5).sqrt();
    leq(0., s2, "lemma: sine");
    leq(0., a, "lemma: a");
    leq(0., a * c, "lemma: a c");
    leq_s(a * a, m, 1. + m, "lemma: a is at most the modulus");
    // (a - c)^2 >= 0 and a^2 <= m
    leq_s(0., a * a - 2. * a * c + c * c, 1. + m, "lemma: square");
    leq_s(2. * a * c, m + c * c, 1. + m, "lemma: amplitude of rs");
    let q = (a * c - s2) * (a * c - s2);
    leq(0., q, "lemma: square 2");
    leq_s(a * a * c * c, m * c * c, 1. + m, "lemma: scaled modulus");
    leq_s(2. * a * c * s2, a * a * c * c + s2 * s2, 1. + m, "lemma: amplitude of rp 0");
    leq_s(2. * a * c * s2, m * c * c + s2 * s2, 1. + m, "lemma: amplitude of rp");
    check(m + c * c > 0., "lemma: t1 is positive");
    check(m * c * c + s2 * s2 > 0., "lemma: t3 is positive");
    let rs = (m + c * c - 2. * a * c) / (m + c * c + 2. * a * c);
    let q = (m * c * c + s2 * s2 - 2. * a * c * s2) / (m * c * c + s2 * s2 + 2. * a * c * s2);
    leq(0., rs, "lemma: rs is at least zero");
    leq(rs, 1., "lemma: rs is at most one");
    leq(0., q, "lemma: rp / rs is at least zero");
    leq(q, 1., "lemma: rp / rs is at most one");
    leq(rs * q, rs, "lemma: rp is at most rs");
    leq(0., rs * q, "lemma: rp is at least zero");
    let r = conductor(1., eta, k, c);
    close(r, (rs + rs * q) / 2., "lemma: mean");
    leq(0., r, "conductor reflectance is at least zero");
    leq(r, 1., "conductor reflectance is at most one");
}
pub fn h_c18_noop() {
    let s = FresnelNoOp::new().evaluate(real());
    check(s.r == 1. && s.g == 1. && s.b == 1., "a mirror reflects everything");
}
pub fn h_c18_dielectric_clamped() {
    // cosines beyond one (rounding) count as one
    let (ni, nt) = indices();
    let c = pos();
    assume(c >= 1.);
    let e = (ni - nt) / (ni + nt);
    close(dielectric(ni, nt, c), e * e, "normal incidence");
    close(dielectric(ni, nt, -c), e * e, "normal incidence from below");
}
/// a Fresnel term which records its argument
pub struct Probe { pub f: Spectrum }
impl Fresnel for Probe { fn evaluate(&self, c: f32) -> Spectrum { emit("fresnel", &[c]); self.f } }
pub fn any_probe() -> Probe { Probe { f: any_spectrum() } }
/// the dielectric term as an arbitrary value of its argument
pub fn dielectric_contract(_: &FresnelDielectric, c: f32) -> Spectrum { emit("fresnel", &[c]); Spectrum::from(uf("fresnel", &[])) }
/// a number standing for a Fresnel term
pub trait Tag { fn tag(&self) -> f32; }
impl Tag for FresnelDielectric { fn tag(&self) -> f32 { uf("dielectric", &[self.eta_i, self.eta_t]) } }
impl Tag for FresnelConductor { fn tag(&self) -> f32 { uf("conductor", &[self.eta_i.r, self.eta_i.g, self.eta_i.b, self.eta_t.r, self.eta_t.g, self.eta_t.b, self.k.r, self.k.g, self.k.b]) } }
impl Tag for FresnelNoOp { fn tag(&self) -> f32 { 1. } }
