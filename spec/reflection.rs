use transform::ptv_spec::*;
use vector::{Normal3f, Point3f};
use interaction::ptv_spec::any_hit;

/// any unit vector
pub fn any_unit() -> Vector3f {
    if symbolic() {
        let v = any_vector();
        assume(v.x * v.x + v.y * v.y + v.z * v.z == 1.);
        v
    } else {
        let v = any_vector();
        assume(v.length() > 0.1);
        v.normalize()
    }
}
pub fn dot3(a: Vector3f, b: Vector3f) -> f32 { a.x * b.x + a.y * b.y + a.z * b.z }

pub fn h_c18_reflect() {
    let (w, n) = (any_vector(), any_unit());
    let r = reflect(w, n);
    let s = 1. + w.x.abs() + w.y.abs() + w.z.abs();
    close_s(dot3(r, n), dot3(w, n), s, "mirror reflection keeps the angle to the normal");
    close_s(dot3(r, r), dot3(w, w), s * s, "mirror reflection keeps the length");
    // in the plane of incidence, on the other side of the normal: r + w is along n
    let k = dot3(w, n) * 2.;
    close_s(r.x + w.x, n.x * k, s, "mirror reflection stays in the plane of incidence (x)");
    close_s(r.y + w.y, n.y * k, s, "mirror reflection stays in the plane of incidence (y)");
    close_s(r.z + w.z, n.z * k, s, "mirror reflection stays in the plane of incidence (z)");
}
pub fn h_c18_refract() {
    let (w, n) = (any_unit(), any_unit());
    let eta = pos();
    native_assume(eta < 20. && eta > 0.02);
    let c = dot3(w, n);
    // Cauchy-Schwarz for unit vectors (Lagrange's identity)
    let (x, y, z) = (w.y * n.z - w.z * n.y, w.z * n.x - w.x * n.z, w.x * n.y - w.y * n.x);
    close(x * x + y * y + z * z, dot3(w, w) * dot3(n, n) - c * c, "lemma: Lagrange's identity");
    close(x * x + y * y + z * z, 1. - c * c, "lemma: sine");
    leq(0., x * x + y * y + z * z, "lemma: squares");
    leq(c * c, 1., "lemma: cosine is at most one");
    let sin2 = eta * eta * (1. - c * c);
    native_assume((sin2 - 1.).abs() > 1e-3);
    assume(c >= 0.);
    match refract(w, n, eta) {
        None => check(sin2 >= 1., "refraction fails only under total internal reflection"),
        Some(t) => {
            check(sin2 < 1., "total internal reflection is reported");
            // tangential parts: Snell
            let (tn, s) = (dot3(t, n), 1. + eta);
            close_s(t.x - n.x * tn, -(w.x - n.x * c) * eta, s, "Snell's law (x)");
            close_s(t.y - n.y * tn, -(w.y - n.y * c) * eta, s, "Snell's law (y)");
            close_s(t.z - n.z * tn, -(w.z - n.z * c) * eta, s, "Snell's law (z)");
            close_s(dot3(t, t), 1., s * s, "refracted direction is a unit vector");
            leq_s(tn, 0., s, "refracted direction is on the other side");
            close_s(tn * tn, 1. - sin2, s * s, "refracted cosine");
        }
    }
}

// ---------------------------------------------------------------- surfaces made of lobes
/// a lobe whose functions are arbitrary, except that what it samples is what it evaluates to (which is what C17 shows of every lobe)
pub struct Lobe { pub id: usize, pub flag: BxDFFlag }
impl Lobe {
    fn args(&self, a: Vector3f, b: Vector3f) -> [f32; 7] { [self.id as f32, a.x, a.y, a.z, b.x, b.y, b.z] }
    fn colour(&self, r: &'static str, g: &'static str, b: &'static str, x: &[f32; 7]) -> Spectrum { Spectrum { r: uf(r, x), g: uf(g, x), b: uf(b, x) } }
}
impl BxDF for Lobe {
    fn flag(&self) -> BxDFFlag { self.flag }
    fn f(&self, wo: Vector3f, wi: Vector3f) -> Spectrum { self.colour("f_r", "f_g", "f_b", &self.args(wo, wi)) }
    fn sample_f(&self, wo: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) {
        emit("sample", &[self.id as f32, u.x, u.y]);
        let a = [self.id as f32, wo.x, wo.y, wo.z, u.x, u.y];
        let wi = Vector3f::new(uf("wi_x", &a), uf("wi_y", &a), uf("wi_z", &a));
        if self.flag & SPECULAR != 0 {
            (wi, self.colour("s_r", "s_g", "s_b", &self.args(wo, wi)), uf_nonneg("s_pdf", &a))
        } else {
            (wi, self.f(wo, wi), self.pdf(wo, wi))
        }
    }
    fn pdf(&self, wo: Vector3f, wi: Vector3f) -> f32 { uf_nonneg("pdf", &self.args(wo, wi)) }
}
pub fn any_flag() -> BxDFFlag {
    (if boolean() { REFLECTION } else { TRANSMISSION }) | (if boolean() { SPECULAR } else { GLOSSY })
}
/// the frame's conversions are inverse to each other (shown below for every orthonormal frame)
fn to_local(_: &BSDF, v: Vector3f) -> Vector3f {
    let a = [v.x, v.y, v.z];
    Vector3f::new(uf("local_x", &a), uf("local_y", &a), uf("local_z", &a))
}
fn to_world(b: &BSDF, v: Vector3f) -> Vector3f {
    let a = [v.x, v.y, v.z];
    let w = Vector3f::new(uf("world_x", &a), uf("world_y", &a), uf("world_z", &a));
    let l = to_local(b, w);
    assume((l.x == v.x) & (l.y == v.y) & (l.z == v.z));
    w
}
fn local(b: &BSDF, v: Vector3f) -> Vector3f { if symbolic() { to_local(b, v) } else { b.world_to_local(v) } }
fn world(b: &BSDF, v: Vector3f) -> Vector3f { if symbolic() { to_world(b, v) } else { b.local_to_world(v) } }
fn surface(n: usize) -> (BSDF, Vec<BxDFFlag>) {
    let k = choose(6);
    let hit = if symbolic() { any_hit() } else {
        // frames whose conversions are exact
        let e = [Vector3f::new(1., 0., 0.), Vector3f::new(0., 1., 0.), Vector3f::new(0., 0., 1.)];
        let mut h = any_hit();
        h.sn = Normal3f::from(e[k / 2]);
        h.dpdu = e[(k / 2 + 1 + k % 2) % 3];
        h
    };
    assume(!symbolic() || k == 0);
    let mut s = BSDF { bxdfs: Vec::new(), gn: Vector3f::from(hit.n), sn: Vector3f::from(hit.sn), s: hit.dpdu, t: Vector3f::from(hit.sn).cross(hit.dpdu) };
    let mut flags = Vec::new();
    for i in 0..n {
        let f = any_flag();
        flags.push(f);
        s.add(Lobe { id: i, flag: f });
    }
    stub(BSDF::world_to_local, to_local);
    stub(BSDF::local_to_world, to_world);
    (s, flags)
}
pub fn same_colour(a: Spectrum, b: Spectrum, l: (&'static str, &'static str, &'static str)) {
    close(a.r, b.r, l.0);
    close(a.g, b.g, l.1);
    close(a.b, b.b, l.2);
}
fn evaluated(n: usize) {
    let (s, flags) = surface(n);
    let (wo, wi) = (any_vector(), any_vector());
    let (lo, li) = (local(&s, wo), local(&s, wi));
    let (f, p) = (s.f(wo, wi), s.pdf(wo, wi));
    if lo.z == 0. {
        check(f.is_black() && p == 0., "nothing along the surface");
        return;
    }
    let same_side = dot3(wi, s.gn) * dot3(wo, s.gn) > 0.;
    let (mut g, mut q) = (Spectrum::default(), 0.);
    for i in 0..n {
        let l = Lobe { id: i, flag: flags[i] };
        if same_side == (flags[i] & REFLECTION != 0) { g += l.f(lo, li); }
        q += l.pdf(lo, li);
    }
    same_colour(f, g, ("value is the sum of the lobes for this side (red)", "value is the sum of the lobes for this side (green)", "value is the sum of the lobes for this side (blue)"));
    if n == 0 { check(p == 0., "no density without lobes"); } else { close(p, q / n as f32, "density is the average of the lobes'"); }
}
pub fn h_c16_value_0() { evaluated(0) }
pub fn h_c16_value_1() { evaluated(1) }
pub fn h_c16_value_2() { evaluated(2) }
pub fn h_c16_value_3() { evaluated(3) }
fn sampled(n: usize) {
    let (s, flags) = surface(n);
    let wo = any_vector();
    let (u0, u1) = (real_in(0., 0.99999994), real_in(0., 0.99999994));
    assume(u0 < 1. && u1 < 1.);
    let lo = local(&s, wo);
    let (wi, f, p, flag) = s.sample_f(wo, Point2f::new(u0, u1));
    if lo.z == 0. {
        check(p == 0. && f.is_black(), "nothing is sampled along the surface");
        return;
    }
    check(emitted("sample") == 1, "one lobe is sampled");
    let i = event("sample", 0, 0) as usize;
    let (a, b) = (event("sample", 0, 1), event("sample", 0, 2));
    check(i as f32 <= u0 * n as f32 && u0 * (n as f32) < i as f32 + 1., "every lobe has an equal share of the samples");
    close_s(a, u0 * n as f32 - i as f32, 1., "the sample is stretched to the lobe's share");
    check(b == u1, "the second sample is passed on");
    let l = Lobe { id: i, flag: flags[i] };
    let (li, lf, lp) = l.sample_f(lo, Point2f::new(a, b));
    if lp == 0. {
        check(p == 0. && f.is_black(), "nothing is sampled where the lobe has no density");
        return;
    }
    check(flag == flags[i], "flags are those of the chosen lobe");
    let w = world(&s, li);
    check((w.x == wi.x) & (w.y == wi.y) & (w.z == wi.z), "direction is that of the chosen lobe");
    if flags[i] & SPECULAR != 0 {
        same_colour(f, lf, ("specular value is the lobe's own (red)", "specular value is the lobe's own (green)", "specular value is the lobe's own (blue)"));
        close(p, lp / n as f32, "specular density is the lobe's share");
    } else {
        same_colour(f, s.f(wo, wi), ("sampled value is the evaluated one (red)", "sampled value is the evaluated one (green)", "sampled value is the evaluated one (blue)"));
        close(p, s.pdf(wo, wi), "sampled density is the evaluated one");
    }
}
pub fn h_c16_sample_1() { sampled(1) }
pub fn h_c16_sample_2() { sampled(2) }
pub fn h_c16_sample_3() { sampled(3) }
pub fn h_c16_sample_none() {
    let (s, _) = surface(0);
    let (_, f, p, _) = s.sample_f(any_vector(), Point2f::new(real_in(0., 0.99), real_in(0., 0.99)));
    check(p == 0. && f.is_black(), "nothing is sampled without lobes");
}
/// the frame of a hit with unit shading normal and a tangent perpendicular to it
fn frame() -> BSDF {
    let n = any_unit();
    let mut h = any_hit();
    h.sn = Normal3f::from(n);
    if symbolic() {
        assume(dot3(h.dpdu, n) == 0.);
        assume(dot3(h.dpdu, h.dpdu) > 0.);
    } else {
        let k = dot3(h.dpdu, n);
        h.dpdu = h.dpdu - n * k;
        assume(h.dpdu.length() > 0.1);
    }
    BSDF::new(&h)
}
pub fn h_c16_frame() {
    let b = frame();
    close(dot3(b.s, b.s), 1., "tangent has unit length");
    close(dot3(b.t, b.t), 1., "second tangent has unit length");
    close(dot3(b.s, b.sn), 0., "tangent is perpendicular to the normal");
    close(dot3(b.t, b.sn), 0., "second tangent is perpendicular to the normal");
    close(dot3(b.s, b.t), 0., "tangents are perpendicular");
    let v = any_vector();
    let w = b.world_to_local(b.local_to_world(v));
    let m = 1. + v.x.abs() + v.y.abs() + v.z.abs();
    close_s(w.x, v.x, m, "local to world and back (x)");
    close_s(w.y, v.y, m, "local to world and back (y)");
    close_s(w.z, v.z, m, "local to world and back (z)");
}
pub fn h_c16_frame_world() {
    let (n, s) = (any_unit(), any_unit());
    let s = if symbolic() { assume(dot3(n, s) == 0.); s } else { let s = n.cross(s); assume(s.length() > 0.1); s.normalize() };
    let b = BSDF { bxdfs: Vec::new(), gn: n, sn: n, s, t: n.cross(s) };
    let v = any_vector();
    let m = 1. + v.x.abs() + v.y.abs() + v.z.abs();
    let w = b.local_to_world(b.world_to_local(v));
    close_s(w.x, v.x, m, "world to local and back (x)");
    close_s(w.y, v.y, m, "world to local and back (y)");
    close_s(w.z, v.z, m, "world to local and back (z)");
}
pub fn h_c16_flags() {
    struct Any(BxDFFlag);
    impl BxDF for Any {
        fn flag(&self) -> BxDFFlag { self.0 }
        fn f(&self, _: Vector3f, _: Vector3f) -> Spectrum { Spectrum::default() }
        fn sample_f(&self, _: Vector3f, _: Point2f) -> (Vector3f, Spectrum, f32) { Default::default() }
        fn pdf(&self, _: Vector3f, _: Vector3f) -> f32 { 0. }
    }
    let l = Any(any_flag());
    let spec = l.0 & SPECULAR != 0;
    let refl = l.0 & REFLECTION != 0;
    check(l.has_flag(SPECULAR) == spec && l.has_flag(GLOSSY) == !spec && !l.has_flag(DIFFUSE), "kind of scattering");
    check(l.has_flag(REFLECTION) == refl && l.has_flag(TRANSMISSION) == !refl, "side of scattering");
}

// ---------------------------------------------------------------- materials
/// a texture with one value, to be evaluated at one point
pub struct At<T: Copy + Sync + Send> { pub v: T, pub p: Point3f }
impl<T: Copy + Sync + Send> ::texture::Texture for At<T> {
    type Output = T;
    fn evaluate(&self, i: &Interaction) -> T {
        check((i.p.x == self.p.x) & (i.p.y == self.p.y) & (i.p.z == self.p.z), "texture is evaluated at the hit");
        self.v
    }
}
/// a hit with a simple frame
pub fn framed_hit() -> Interaction {
    Interaction { p: any_point(), n: Normal3f::new(0., 0., 1.), sn: Normal3f::new(0., 0., 1.), dpdu: Vector3f::new(1., 0., 0.), dpdv: Vector3f::new(0., 1., 0.), ..Default::default() }
}
pub fn at<T: Copy + Sync + Send + 'static>(v: T, i: &Interaction) -> ::std::sync::Arc<::texture::Texture<Output = T>> { ::std::sync::Arc::new(At { v, p: i.p }) }
pub fn any_colour() -> Spectrum { let c = ::spectrum::ptv_spec::any_spectrum(); if choose(4) == 0 { Spectrum::default() } else { c } }
pub fn zero_or_pos() -> f32 { let x = pos(); native_assume(x > 0.05 && x < 5.); if choose(2) == 0 { 0. } else { x } }
pub fn clamped(s: Spectrum) -> Spectrum { Spectrum { r: s.r.max(0.), g: s.g.max(0.), b: s.b.max(0.) } }
pub fn black(s: Spectrum) -> bool { (s.r == 0.) & (s.g == 0.) & (s.b == 0.) }
/// the surface has as many lobes
pub fn lobe_count(b: &BSDF, n: usize) { check(b.bxdfs.len() == n, "no lobe is missing and none is added"); }
/// the surface has one lobe with these flags, which behaves like the given one
pub fn has_lobe(b: &BSDF, want: &BxDF) {
    let n = b.bxdfs.len();
    let mut k = n;
    for i in 0..n {
        if b.bxdfs[i].flag() == want.flag() { check(k == n, "only one lobe of a kind"); k = i; }
    }
    check(k < n, "the lobe called for is there");
    if k >= n { return; }
    let l = &b.bxdfs[k];
    let (wo, wi) = (any_unit(), any_unit());
    let u = Point2f::new(real_in(0., 0.9999), real_in(0., 0.9999));
    native_assume(wo.z.abs() > 0.05 && wi.z.abs() > 0.05);
    assume((wo.z != 0.) & (wi.z != 0.));
    let (f, g) = (via_f(&**l, wo, wi), via_f(want, wo, wi));
    same_lobe_value(f, g, "value of the lobe");
    let (p, q) = (via_pdf(&**l, wo, wi), via_pdf(want, wo, wi));
    check(p == q || (!symbolic() && p != p && q != q), "density of the lobe");
    let ((v, f, p), (w, g, q)) = (via_sample(&**l, wo, u), via_sample(want, wo, u));
    check((v.x == w.x) & (v.y == w.y) & (v.z == w.z) || (!symbolic() && v.x != v.x && w.x != w.x), "direction sampled by the lobe");
    check(p == q || (!symbolic() && p != p && q != q), "density of the sampled direction");
    same_lobe_value(f, g, "value of the sampled direction");
}
fn same_lobe_value(f: Spectrum, g: Spectrum, l: &'static str) {
    check(f.r == g.r || (!symbolic() && f.r != f.r && g.r != g.r), l);
    check(f.g == g.g || (!symbolic() && f.g != f.g && g.g != g.g), l);
    check(f.b == g.b || (!symbolic() && f.b != f.b && g.b != g.b), l);
}
/// what lobes do, as functions of what they are made of and of the directions
pub fn lobe_value(tag: f32, a: Vector3f, b: Vector3f) -> Spectrum {
    let x = [tag, a.x, a.y, a.z, b.x, b.y, b.z];
    Spectrum { r: uf("lobe_r", &x), g: uf("lobe_g", &x), b: uf("lobe_b", &x) }
}
pub fn lobe_density(tag: f32, a: Vector3f, b: Vector3f) -> f32 { uf("lobe_pdf", &[tag, a.x, a.y, a.z, b.x, b.y, b.z]) }
pub fn lobe_sample(tag: f32, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) {
    let x = [tag, a.x, a.y, a.z, u.x, u.y];
    (Vector3f::new(uf("lobe_x", &x), uf("lobe_y", &x), uf("lobe_z", &x)), Spectrum { r: uf("lobe_sr", &x), g: uf("lobe_sg", &x), b: uf("lobe_sb", &x) }, uf("lobe_spdf", &x))
}
/// a number standing for the parts of a lobe
pub fn tag_of(kind: usize, c: Spectrum, a: f32, b: f32) -> f32 { uf("lobe", &[kind as f32, c.r, c.g, c.b, a, b]) }
pub fn stub_colours() {
    stub(Spectrum::clamp, clamp_contract);
    stub(Spectrum::is_black, black_contract);
}
/// clamping to non-negative values (C23)
fn clamp_contract(s: &Spectrum, lo: f32, hi: f32) -> Spectrum {
    check((lo == 0.) & (hi == ::common::INFINITY), "colours are clamped to be non-negative");
    clamped(*s)
}
fn black_contract(s: &Spectrum) -> bool { black(*s) }
// calls which see the contracts
fn via_f(l: &BxDF, a: Vector3f, b: Vector3f) -> Spectrum { l.f(a, b) }
fn via_pdf(l: &BxDF, a: Vector3f, b: Vector3f) -> f32 { l.pdf(a, b) }
fn via_sample(l: &BxDF, a: Vector3f, u: Point2f) -> (Vector3f, Spectrum, f32) { l.sample_f(a, u) }

// ---- any number of lobes: sums over the first k lobes are functions of k defined by their recurrence
const LOBES: u32 = 100000;
fn lobes() -> usize { if symbolic() { uf_int("lobes", &[], 1, LOBES) as usize } else { match uf_int("lobes", &[], 0, 50) { 0 => 300, k => 1 + k as usize % 12 } } }
fn flag_of(k: usize) -> BxDFFlag {
    (if uf_bool("reflects", &[k as f32]) { REFLECTION } else { TRANSMISSION }) | (if uf_bool("specular", &[k as f32]) { SPECULAR } else { GLOSSY })
}
fn lobe_at(k: usize) -> Lobe { Lobe { id: k, flag: flag_of(k) } }
fn key(k: usize, wo: Vector3f, wi: Vector3f, reflect: bool) -> [f32; 8] { [k as f32, wo.x, wo.y, wo.z, wi.x, wi.y, wi.z, if reflect { 1. } else { 0. }] }
/// the value of the k-th lobe if it is one for this side
fn part(k: usize, wo: Vector3f, wi: Vector3f, reflect: bool) -> Spectrum { if reflect == (flag_of(k) & REFLECTION != 0) { lobe_at(k).f(wo, wi) } else { Spectrum { r: 0., g: 0., b: 0. } } }
fn value_sum(k: usize, wo: Vector3f, wi: Vector3f, reflect: bool) -> Spectrum {
    if symbolic() { let a = key(k, wo, wi, reflect); return Spectrum { r: uf("sum_r", &a), g: uf("sum_g", &a), b: uf("sum_b", &a) }; }
    let mut s = Spectrum::default();
    for j in 0..k { s += part(j, wo, wi, reflect); }
    s
}
fn density_sum(k: usize, wo: Vector3f, wi: Vector3f) -> f32 {
    if symbolic() { return uf("sum_p", &key(k, wo, wi, false)); }
    let mut s = 0.;
    for j in 0..k { s += lobe_at(j).pdf(wo, wi); }
    s
}
/// the definition of the sums, at k
fn define_value(k: usize, wo: Vector3f, wi: Vector3f, reflect: bool) {
    let s = value_sum(k, wo, wi, reflect);
    if k == 0 { assume((s.r == 0.) & (s.g == 0.) & (s.b == 0.)); return; }
    let (t, p) = (value_sum(k - 1, wo, wi, reflect), part(k - 1, wo, wi, reflect));
    assume((s.r == t.r + p.r) & (s.g == t.g + p.g) & (s.b == t.b + p.b));
}
fn define_density(k: usize, wo: Vector3f, wi: Vector3f) {
    let s = density_sum(k, wo, wi);
    if k == 0 { assume(s == 0.); return; }
    assume(s == density_sum(k - 1, wo, wi) + lobe_at(k - 1).pdf(wo, wi));
}
fn seen<'a>(iter: &::std::slice::Iter<'a, Box<BxDF>>, old_iter: &::std::slice::Iter<'a, Box<BxDF>>) -> usize { lobes() - iter.len() + 0 * old_iter.len() }
fn any_values<'a>(iter: &mut ::std::slice::Iter<'a, Box<BxDF>>, old_iter: &::std::slice::Iter<'a, Box<BxDF>>, f: &mut Spectrum, wo: &Vector3f, wi: &Vector3f, reflect: &bool) {
    let k = size(0, LOBES as usize);
    *iter = iter_from(old_iter, k);
    *f = value_sum(k, *wo, *wi, *reflect);
}
fn values_so_far<'a>(iter: &::std::slice::Iter<'a, Box<BxDF>>, old_iter: &::std::slice::Iter<'a, Box<BxDF>>, f: &Spectrum, wo: &Vector3f, wi: &Vector3f, reflect: &bool) {
    decreases(iter.len());
    let k = seen(iter, old_iter);
    define_value(k, *wo, *wi, *reflect);
    let s = value_sum(k, *wo, *wi, *reflect);
    invariant((f.r == s.r) & (f.g == s.g) & (f.b == s.b), "value is the sum of the lobes for this side so far");
}
fn any_densities<'a>(iter: &mut ::std::slice::Iter<'a, Box<BxDF>>, old_iter: &::std::slice::Iter<'a, Box<BxDF>>, pdf: &mut f32, wo: &Vector3f, wi: &Vector3f) {
    let k = size(0, LOBES as usize);
    *iter = iter_from(old_iter, k);
    *pdf = density_sum(k, *wo, *wi);
}
fn densities_so_far<'a>(iter: &::std::slice::Iter<'a, Box<BxDF>>, old_iter: &::std::slice::Iter<'a, Box<BxDF>>, pdf: &f32, wo: &Vector3f, wi: &Vector3f) {
    decreases(iter.len());
    let k = seen(iter, old_iter);
    define_density(k, *wo, *wi);
    invariant(*pdf == density_sum(k, *wo, *wi), "density is the sum of the lobes' so far");
}
// the other lobes are added to that of the chosen one
fn any_others(iter: &mut ::std::ops::Range<usize>, old_iter: &::std::ops::Range<usize>, pdf: &mut f32, n_bxdf: &usize, wo: &Vector3f, wi: &Vector3f) {
    let k = size(0, LOBES as usize);
    *iter = k..old_iter.end;
    *pdf = density_sum(k, *wo, *wi) + if k <= *n_bxdf { lobe_at(*n_bxdf).pdf(*wo, *wi) } else { 0. };
}
fn others_so_far(iter: &::std::ops::Range<usize>, old_iter: &::std::ops::Range<usize>, pdf: &f32, n_bxdf: &usize, wo: &Vector3f, wi: &Vector3f) {
    invariant(iter.start <= old_iter.end, "lobes that exist");
    if iter.start <= old_iter.end { decreases(old_iter.end - iter.start); }
    let k = iter.start;
    define_density(k, *wo, *wi);
    let own = if k <= *n_bxdf { lobe_at(*n_bxdf).pdf(*wo, *wi) } else { 0. };
    invariant(*pdf == density_sum(k, *wo, *wi) + own, "density is the sum of the lobes' so far and the chosen one's");
}
fn many_lobes() -> BSDF {
    reset_trace();
    let mut s = surface(0).0;
    s.bxdfs = sym_vec(lobes(), |k| { let b: Box<BxDF> = Box::new(lobe_at(k)); b });
    s
}
pub fn h_c16_value_any() {
    let s = many_lobes();
    loop_contract(BSDF::f, 0, any_values, values_so_far);
    loop_contract(BSDF::pdf, 0, any_densities, densities_so_far);
    let (wo, wi) = (any_vector(), any_vector());
    let (lo, li) = (local(&s, wo), local(&s, wi));
    let (f, p) = (s.f(wo, wi), s.pdf(wo, wi));
    if lo.z == 0. {
        check(f.is_black() && p == 0., "nothing along the surface");
        return;
    }
    let same_side = dot3(wi, s.gn) * dot3(wo, s.gn) > 0.;
    let n = lobes();
    same_colour(f, value_sum(n, lo, li, same_side), ("value is the sum of the lobes for this side (red)", "value is the sum of the lobes for this side (green)", "value is the sum of the lobes for this side (blue)"));
    close(p, density_sum(n, lo, li) / n as f32, "density is the average of the lobes'");
}
pub fn h_c16_sample_any() {
    let s = many_lobes();
    loop_contract(BSDF::sample_f, 0, any_others, others_so_far);
    loop_contract(BSDF::sample_f, 1, any_values, values_so_far);
    let n = lobes();
    let wo = any_vector();
    let (u0, u1) = (real_in(0., 0.99999994), real_in(0., 0.99999994));
    assume(u0 < 1. && u1 < 1.);
    native_assume((u0 * n as f32 - (u0 * n as f32).round()).abs() > 1e-4);
    let lo = local(&s, wo);
    let (wi, f, p, flag) = s.sample_f(wo, Point2f::new(u0, u1));
    if lo.z == 0. {
        check(p == 0. && f.is_black(), "nothing is sampled along the surface");
        return;
    }
    check(emitted("sample") == 1, "one lobe is sampled");
    let k = event("sample", 0, 0);
    let (a, b) = (event("sample", 0, 1), event("sample", 0, 2));
    check(k <= u0 * n as f32 && u0 * (n as f32) < k + 1., "every lobe has an equal share of the samples");
    close_s(a, u0 * n as f32 - k, 1. + n as f32, "the sample is stretched to the lobe's share");
    check(b == u1, "the second sample is passed on");
    let k = k as usize;
    let l = lobe_at(k);
    let (li, lf, lp) = l.sample_f(lo, Point2f::new(a, b));
    if lp == 0. {
        check(p == 0. && f.is_black(), "nothing is sampled where the lobe has no density");
        return;
    }
    check(flag == l.flag, "flags are those of the chosen lobe");
    let w = world(&s, li);
    check((w.x == wi.x) & (w.y == wi.y) & (w.z == wi.z), "direction is that of the chosen lobe");
    if l.flag & SPECULAR != 0 {
        same_colour(f, lf, ("specular value is the lobe's own (red)", "specular value is the lobe's own (green)", "specular value is the lobe's own (blue)"));
        close(p, lp / n as f32, "specular density is the lobe's share");
    } else {
        let side = dot3(wi, s.gn) * dot3(wo, s.gn) > 0.;
        same_colour(f, value_sum(n, lo, li, side), ("sampled value is the evaluated one (red)", "sampled value is the evaluated one (green)", "sampled value is the evaluated one (blue)"));
        close(p, density_sum(n, lo, li) / n as f32, "sampled density is the evaluated one");
    }
}
