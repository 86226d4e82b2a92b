use std::f32::INFINITY;
use transform::ptv_spec::*;
use bbox::BBox3f;
use camera::CameraSample;
use film::FilmTile;
use film::ptv_spec::{no_film, film_for, film_pixel};
use light::VisibilityTester;
use light::ptv_spec::tester;
use material::Material;
use reflection::{BxDF, BxDFFlag, REFLECTION, DIFFUSE};
use reflection::ptv_spec::dot3;
use scene::ptv_spec::scene_of;
use shape::Shape;
use shape::ptv_spec::no_offset;
use vector::{Vector3f, Normal3f, Point3f, Point2i, Point2f};

// ---- the surroundings: everything direct lighting asks, with arbitrary answers
fn unit_interval(name: &'static str, k: usize) -> f32 { let u = uf(name, &[k as f32]); let u = if symbolic() { u } else { u.abs().fract() }; assume(u >= 0.); assume(u < 1.); u }
#[derive(Clone)]
struct Numbers { k: usize }
impl Sampler for Numbers {
    fn start_pixel(&mut self, p: Point2i) { emit("start", &[p.x as f32, p.y as f32]); }
    fn start_next_sample(&mut self) -> bool { false }
    fn get_1d(&mut self) -> f32 { self.k += 1; unit_interval("u", self.k - 1) }
    fn get_2d(&mut self) -> Point2f { self.k += 2; Point2f::new(unit_interval("u", self.k - 2), unit_interval("u", self.k - 1)) }
}
fn direction(name: &'static str, a: &[f32]) -> Vector3f { Vector3f::new(uf(name, &[0., a[0], a[1]]), uf(name, &[1., a[0], a[1]]), uf(name, &[2., a[0], a[1]])) }
fn colour(name: &'static str, d: Vector3f) -> Spectrum {
    let c = |k: f32| uf_nonneg(name, &[k, d.x, d.y, d.z]);
    if uf_bool(name, &[d.x, d.y, d.z]) { return Spectrum::default(); }
    // not black
    let r = c(0.);
    assume(r > 0.);
    Spectrum::new(r, c(1.), c(2.))
}
/// a light that is also a shape
struct Lamp { delta: bool }
impl Lamp {
    fn pdf_of(&self, w: Vector3f) -> f32 { if uf_bool("light pdf", &[w.x, w.y, w.z]) { 0. } else { uf_nonneg("light pdf", &[w.x, w.y, w.z]) } }
    fn towards(&self, s: Point2f) -> Vector3f { direction("lamp", &[s.x, s.y]) }
    fn li(&self, w: Vector3f) -> Spectrum { colour("li", w) }
}
impl Light for Lamp {
    fn is_delta(&self) -> bool { self.delta }
    fn sample_li(&self, i: &Interaction, s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) {
        let w = self.towards(s);
        (w, self.li(w), if self.delta { 1. } else { self.pdf_of(w) }, tester(i.clone(), Interaction::default()))
    }
    fn pdf_li(&self, _: &Interaction, w: Vector3f) -> f32 { if self.delta { 0. } else { self.pdf_of(w) } }
}
impl Shape for Lamp {
    fn bbox(&self) -> BBox3f { panic!() }
    fn area(&self) -> f32 { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { panic!() }
    fn material(&self) -> Arc<Material> { panic!() }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { panic!() }
    fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum { check(i.p.x == 77., "emission is asked of the surface that is hit"); colour("emitted", w) }
}
/// the scene: shadow rays are blocked or not, other rays hit something or not
struct World { blocked: bool, target: Option<Arc<Shape>> }
impl Container for World {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { emit("shadow", &[]); self.blocked }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        emit("ray", &[r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z, if r.t_max == INFINITY { 1. } else { 0. }]);
        match self.target { Some(ref s) => Some(Interaction { p: Point3f::new(77., 0., 0.), shape: Some(s.clone()), ..Default::default() }), None => None }
    }
}
#[derive(Clone)]
struct Eye {}
impl Camera for Eye { fn generate_ray(&self, s: &CameraSample) -> Ray { emit("eye", &[s.p_film.x, s.p_film.y]); Ray { origin: Point3f::default(), direction: Vector3f::new(0., 0., 1.), t_max: INFINITY } } }
/// a lobe with arbitrary value and density
struct Lobe { flags: BxDFFlag }
impl BxDF for Lobe {
    fn flag(&self) -> BxDFFlag { self.flags }
    fn f(&self, _: Vector3f, wi: Vector3f) -> Spectrum { colour("f", wi) }
    fn sample_f(&self, _: Vector3f, s: Point2f) -> (Vector3f, Spectrum, f32) { let w = direction("lobe", &[s.x, s.y]); (w, self.f(w, w), self.pdf(w, w)) }
    fn pdf(&self, _: Vector3f, wi: Vector3f) -> f32 { if uf_bool("pdf", &[wi.x, wi.y, wi.z]) { 0. } else { uf_nonneg("pdf", &[wi.x, wi.y, wi.z]) } }
}
// natively the scattering function has one such lobe; the proof takes C16's contract for it instead
fn bsdf(i: &Interaction, specular: bool) -> BSDF { let mut b = BSDF::new(i); b.add(Lobe { flags: REFLECTION | if specular { SPECULAR } else { DIFFUSE } }); b }
fn via_f(_: &BSDF, _: Vector3f, wi: Vector3f) -> Spectrum { colour("f", wi) }
fn via_pdf(_: &BSDF, _: Vector3f, wi: Vector3f) -> f32 { if uf_bool("pdf", &[wi.x, wi.y, wi.z]) { 0. } else { uf_nonneg("pdf", &[wi.x, wi.y, wi.z]) } }
fn via_sample_f(b: &BSDF, wo: Vector3f, s: Point2f) -> (Vector3f, Spectrum, f32, BxDFFlag) {
    let w = direction("lobe", &[s.x, s.y]);
    // a specular lobe's own density; otherwise the density of the whole
    let p = via_pdf(b, wo, w);
    if p == 0. { return (Vector3f::default(), Spectrum::default(), 0., 0); }
    (w, via_f(b, wo, w), p, if uf_bool("specular", &[]) { REFLECTION | SPECULAR } else { REFLECTION | DIFFUSE })
}
fn scattering() { stub(BSDF::f, via_f); stub(BSDF::pdf, via_pdf); stub(BSDF::sample_f, via_sample_f); }
fn value(b: &BSDF, wo: Vector3f, wi: Vector3f) -> Spectrum { if symbolic() { via_f(b, wo, wi) } else { b.f(wo, wi) } }
fn density(b: &BSDF, wo: Vector3f, wi: Vector3f) -> f32 { if symbolic() { via_pdf(b, wo, wi) } else { b.pdf(wo, wi) } }
fn sampled(b: &BSDF, wo: Vector3f, s: Point2f) -> (Vector3f, Spectrum, f32, BxDFFlag) { if symbolic() { via_sample_f(b, wo, s) } else { b.sample_f(wo, s) } }
fn shaded() -> Interaction {
    Interaction { p: any_point(), n: Normal3f::new(0.6, 0., 0.8), sn: Normal3f::new(0., 0., 1.), dpdu: Vector3f::new(1., 0., 0.), dpdv: Vector3f::new(0., 1., 0.), wo: Vector3f::new(uf("wo", &[0.]), uf("wo", &[1.]), uf_nonneg("wo", &[2.]) + 0.1), ..Default::default() }
}
fn local(lights: Vec<Arc<Light>>, w: World) -> IntegratorLocal<World, Eye> {
    IntegratorLocal { scene: Arc::new(scene_of(lights, w)), camera: Eye {}, film: Arc::new(no_film()) }
}
fn same_colour_s(a: Spectrum, b: Spectrum, s: f32, l: [&'static str; 3]) { close_s(a.r, b.r, s, l[0]); close_s(a.g, b.g, s, l[1]); close_s(a.b, b.b, s, l[2]); }
fn square_weight(a: f32, b: f32) -> f32 { (a * a) / (a * a + b * b) }

fn direct(delta: bool, specular: bool) {
    reset_trace();
    scattering();
    no_offset();
    if symbolic() { assume(uf_bool("specular", &[]) == specular); }
    let (lamp, other): (Arc<Lamp>, Arc<Lamp>) = (Arc::new(Lamp { delta }), Arc::new(Lamp { delta: false }));
    // what a ray towards the surroundings meets: nothing, the light or another emitter
    let meets = choose(3);
    let blocked = boolean();
    let w = World { blocked, target: if meets == 0 { None } else if meets == 1 { Some(lamp.clone()) } else { Some(other) } };
    let it = local(Vec::new(), w);
    let i = shaded();
    let b = bsdf(&i, specular);
    let light: &Light = &*lamp;
    let ld = it.estimate_direct(&mut Numbers { k: 0 }, light, &i, &b);
    let u = |k: usize| unit_interval("u", k);
    let (s0, s1) = (Point2f::new(u(0), u(1)), Point2f::new(u(2), u(3)));
    // light sampled
    let mut e = Spectrum::default();
    let wi = lamp.towards(s0);
    let (li, lp) = (lamp.li(wi), if delta { 1. } else { lamp.pdf_of(wi) });
    let sp = density(&b, i.wo, wi);
    if lp > 0. && !blocked {
        let k = wi.z.abs() / lp * if delta { 1. } else { square_weight(lp, sp) };
        e = times(value(&b, i.wo, wi), li, k);
    }
    // surface sampled
    let (wi, f, sp, _) = sampled(&b, i.wo, s1);
    if !delta && !specular && sp > 0. && meets == 1 {
        let lp = lamp.pdf_of(wi);
        if lp > 0. { e = e + times(f, colour("emitted", -wi), wi.z.abs() / sp * square_weight(sp, lp)); }
    }
    native_assume(e.r < 1e6 && e.g < 1e6 && e.b < 1e6);
    same_colour_s(ld, e, e.r + e.g + e.b, ["direct light is the weighted sum of both samples (r)", "direct light is the weighted sum of both samples (g)", "direct light is the weighted sum of both samples (b)"]);
}
fn times(a: Spectrum, b: Spectrum, k: f32) -> Spectrum { Spectrum::new(a.r * b.r * k, a.g * b.g * k, a.b * b.b * k) }
pub fn h_c20_direct() { direct(false, false) }
pub fn h_c20_direct_delta_light() { direct(true, false) }
pub fn h_c20_direct_specular() { direct(false, true) }
pub fn h_c20_direct_delta_specular() { direct(true, true) }

// ---- one light out of many
fn via_estimate(_: &IntegratorLocal<World, Eye>, s: &mut Numbers, l: &Light, _: &Interaction, _: &BSDF) -> Spectrum {
    s.k += 4;
    emit("estimate", &[l.pdf_li(&Interaction::default(), Vector3f::default())]);
    colour("estimate", Vector3f::new(l.pdf_li(&Interaction::default(), Vector3f::default()), 0., 0.))
}
struct Numbered { id: f32 }
impl Light for Numbered {
    fn is_delta(&self) -> bool { true }
    fn sample_li(&self, i: &Interaction, _: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) {
        // straight up, so that natively the estimate is the lobe's value times this
        (Vector3f::new(0., 0., 1.), Spectrum::new(1. + self.id, 2., 3.), 1., tester(i.clone(), Interaction::default()))
    }
    fn pdf_li(&self, _: &Interaction, _: Vector3f) -> f32 { self.id }
}
pub fn h_c20_one_light() {
    reset_trace();
    stub(IntegratorLocal::<World, Eye>::estimate_direct::<Numbers>, via_estimate);
    let n = if symbolic() { size(0, 1000000) } else { size(0, 8) };
    let it = local(sym_vec(n, |k| { let l: Arc<Light> = Arc::new(Numbered { id: k as f32 }); l }), World { blocked: false, target: None });
    let i = shaded();
    let b = bsdf(&i, false);
    let l = it.uniform_sample_one_light(&mut Numbers { k: 0 }, &i, &b);
    if n == 0 { check(l.is_black(), "no light without lights"); return; }
    // the light whose share of [0,1) the sample is in
    let u = unit_interval("u", 0);
    let k = size(0, n - 1);
    native_assume((u * n as f32 - (u * n as f32).round()).abs() > 1e-4);
    if k as f32 <= u * n as f32 && u * (n as f32) < k as f32 + 1. {
        let e = if symbolic() { colour("estimate", Vector3f::new(k as f32, 0., 0.)) } else { b.f(i.wo, Vector3f::new(0., 0., 1.)) * Spectrum::new(1. + k as f32, 2., 3.) };
        same_colour_s(l, e * n as f32, 10., ["each light has an equal share, compensated by their number (r)", "each light has an equal share, compensated by their number (g)", "each light has an equal share, compensated by their number (b)"]);
    }
}

// ---- the path
/// a scene in which any ray may hit a surface that may emit
struct Hall {}
impl Container for Hall {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        emit("ray", &[r.direction.x, r.direction.y, r.direction.z]);
        if hits(r.direction) { Some(met(r.direction)) } else { None }
    }
}
fn hits(d: Vector3f) -> bool { uf_bool("hits", &[d.x, d.y, d.z]) }
fn met(d: Vector3f) -> Interaction { Interaction { p: Point3f::new(77., 0., 0.), uv: Point2f::new(d.x, d.y), shape: Some(Arc::new(Wall {})), wo: Vector3f::new(0., 0., 1.), n: Normal3f::new(0.6, 0., 0.8), sn: Normal3f::new(0., 0., 1.), dpdu: Vector3f::new(1., 0., 0.), ..Default::default() } }
struct Wall {}
impl Shape for Wall {
    fn bbox(&self) -> BBox3f { panic!() }
    fn area(&self) -> f32 { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { panic!() }
    fn material(&self) -> Arc<Material> { panic!() }
    fn compute_scattering(&self, i: &Interaction) -> BSDF { bsdf(i, uf_bool("specular", &[i.uv.x, i.uv.y])) }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { panic!() }
    fn l(&self, _: &Interaction, w: Vector3f) -> Spectrum { colour("emitted", w) }
}
fn via_direct(_: &IntegratorLocal<Hall, Eye>, s: &mut Numbers, i: &Interaction, _: &BSDF) -> Spectrum {
    check(i.p.x == 77., "direct light is estimated at the hit");
    s.k += 5;
    colour("direct", Vector3f::new(s.k as f32, 0., 0.))
}
#[derive(Clone, Copy)]
struct Path { l: Spectrum, beta: Spectrum, specular: bool, bounces: i32, d: Vector3f, k: usize }
/// What one vertex does to the path: the radiance so far and, unless the path ends, its next state.
fn vertex(p: Path) -> (Spectrum, Option<Path>) {
    let mut p = p;
    let hit = hits(p.d);
    if hit && (p.bounces == 0 || p.specular) { p.l = p.l + times(p.beta, colour("emitted", -p.d), 1.); }
    if !hit || p.bounces > 64 { return (p.l, None); }
    if symbolic() { p.k += 5; p.l = p.l + times(p.beta, colour("direct", Vector3f::new(p.k as f32, 0., 0.)), 1.); }
    let i = met(p.d);
    let b = bsdf(&i, uf_bool("specular", &[i.uv.x, i.uv.y]));
    let s = Point2f::new(unit_interval("u", p.k), unit_interval("u", p.k + 1));
    p.k += 2;
    let (wi, f, pdf, flags) = sampled(&b, i.wo, s);
    if pdf == 0. || f.is_black() { return (p.l, None); }
    p.beta = times(p.beta, f, wi.z.abs() / pdf);
    p.specular = flags & SPECULAR != 0;
    p.d = wi;
    p.bounces += 1;
    if p.bounces > 3 {
        let y = p.beta.y();
        let q = if y < 0.95 { y } else { 0.95 };
        let u = unit_interval("u", p.k);
        p.k += 1;
        if u > q { return (p.l, None); }
        p.beta = p.beta * (1. / q);
    }
    (p.l, Some(p))
}
fn any_path(l: &mut Spectrum, beta: &mut Spectrum, specular_bounce: &mut bool, bounces: &mut u16, ray: &mut Ray, sampler: &mut Numbers) {
    reset_trace();
    *l = Spectrum::new(nonneg(), nonneg(), nonneg());
    *beta = Spectrum::new(nonneg(), nonneg(), nonneg());
    *specular_bounce = boolean();
    *bounces = any_value();
    *ray = Ray { origin: any_point(), direction: any_vector(), t_max: INFINITY };
    *sampler = Numbers { k: size(0, 100000) };
    emit("head", &[l.r, l.g, l.b, beta.r, beta.g, beta.b, if *specular_bounce { 1. } else { 0. }, *bounces as f32, ray.direction.x, ray.direction.y, ray.direction.z, sampler.k as f32]);
}
fn head() -> Path {
    let e = |k: usize| event("head", 0, k);
    Path { l: Spectrum::new(e(0), e(1), e(2)), beta: Spectrum::new(e(3), e(4), e(5)), specular: e(6) == 1., bounces: e(7) as i32, d: Vector3f::new(e(8), e(9), e(10)), k: e(11) as usize }
}
fn path_so_far(l: Spectrum, beta: Spectrum, specular_bounce: bool, bounces: u16, ray: &Ray, sampler: &Numbers) {
    invariant(bounces <= 65, "paths are limited to 64 bounces");
    decreases(65 - bounces as usize);
    invariant(ray.t_max == INFINITY, "rays are unlimited");
    if emitted("head") == 0 {
        let none = [l.r, l.g, l.b];
        invariant(none[0] == 0. && none[1] == 0. && none[2] == 0., "no radiance at first");
        invariant(beta.r == 1. && beta.g == 1. && beta.b == 1., "full throughput at first");
        invariant(!specular_bounce && bounces == 0, "no bounce at first");
        return;
    }
    if !proving() { return; }   // any state
    invariant(emitted("ray") == 1, "one ray per vertex");
    match vertex(head()) {
        (_, Some(p)) => {
            invariant(p.l.r == l.r && p.l.g == l.g && p.l.b == l.b, "radiance is added as it should");
            close_s(beta.r, p.beta.r, 1., "throughput is value times cosine over density, over the survival probability (r)");
            close_s(beta.g, p.beta.g, 1., "throughput is value times cosine over density, over the survival probability (g)");
            close_s(beta.b, p.beta.b, 1., "throughput is value times cosine over density, over the survival probability (b)");
            invariant(p.specular == specular_bounce && p.bounces == bounces as i32, "bounces are counted");
            invariant(p.d.x == ray.direction.x && p.d.y == ray.direction.y && p.d.z == ray.direction.z, "the path goes on along the sampled direction");
            invariant(p.k == sampler.k, "every vertex takes its own samples");
        }
        (_, None) => invariant(false, "the path ends where it should"),
    }
}
pub fn h_c20_path() {
    reset_trace();
    scattering();
    no_offset();
    stub(IntegratorLocal::<Hall, Eye>::uniform_sample_one_light::<Numbers>, via_direct);
    loop_contract(IntegratorLocal::<Hall, Eye>::li::<Numbers>, 0, any_path, path_so_far);
    let it = IntegratorLocal { scene: Arc::new(scene_of(Vec::new(), Hall {})), camera: Eye {}, film: Arc::new(no_film()) };
    let d = any_vector();
    let l = it.li(&mut Numbers { k: 0 }, Ray { origin: any_point(), direction: d, t_max: INFINITY });
    let e = if symbolic() {
        match vertex(head()) { (e, None) => e, (e, Some(_)) => { check(false, "the path goes on where it should"); e } }
    } else {
        let mut p = Path { l: Spectrum::default(), beta: Spectrum::from(1.), specular: false, bounces: 0, d, k: 0 };
        loop { match vertex(p) { (_, Some(q)) => p = q, (e, None) => break e } }
    };
    native_assume(e.r < 1e6 && e.g < 1e6 && e.b < 1e6);
    same_colour_s(l, e, e.r + e.g + e.b, ["the radiance of a path is what its vertices add (r)", "the radiance of a path is what its vertices add (g)", "the radiance of a path is what its vertices add (b)"]);
}

// ---- samples of a pixel
/// radiance of any kind
fn via_li(_: &IntegratorLocal<Glow, Eye>, _: &mut Counted, r: Ray) -> Spectrum {
    check(r.t_max == INFINITY, "the camera's ray is followed");
    let l = Spectrum::new(realx(), realx(), realx());
    emit("li", &[l.r, l.g, l.b]);
    l
}
/// a scene that is seen to emit any radiance
struct Glow {}
impl Container for Glow {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<Interaction> { Some(Interaction { shape: Some(Arc::new(Glowing {})), wo: Vector3f::new(0., 0., 1.), n: Normal3f::new(0., 0., 1.), sn: Normal3f::new(0., 0., 1.), dpdu: Vector3f::new(1., 0., 0.), ..Default::default() }) }
}
struct Glowing {}
impl Shape for Glowing {
    fn bbox(&self) -> BBox3f { panic!() }
    fn area(&self) -> f32 { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { panic!() }
    fn material(&self) -> Arc<Material> { panic!() }
    fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { panic!() }
    fn l(&self, _: &Interaction, _: Vector3f) -> Spectrum { let l = Spectrum::new(realx(), realx(), realx()); emit("li", &[l.r, l.g, l.b]); l }
}
fn via_splat(_: &mut FilmTile, p: Point2f, l: Spectrum) { emit("splat", &[p.x, p.y, l.r, l.g, l.b]); }
#[derive(Clone)]
struct Counted { n: u32, k: u32 }
impl Sampler for Counted {
    fn start_pixel(&mut self, p: Point2i) { emit("start", &[p.x as f32, p.y as f32]); self.k = 0; }
    fn start_next_sample(&mut self) -> bool { self.k += 1; let more = self.k < self.n; emit("next", &[if more { 1. } else { 0. }]); more }
    fn get_1d(&mut self) -> f32 { 0.5 }
    fn get_2d(&mut self) -> Point2f { Point2f::new(0.25, 0.75) }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample { emit("sample", &[p.x as f32, p.y as f32]); CameraSample { p_film: Point2f::new(p.x as f32 + 0.25, p.y as f32 + 0.75) } }
}
fn valid(l: [f32; 3]) -> bool { l[0] >= 0. && l[0] < INFINITY && l[1] >= 0. && l[1] < INFINITY && l[2] >= 0. && l[2] < INFINITY }
/// Invalid radiance never reaches the film, valid radiance does.
pub fn h_c20_valid_samples() {
    reset_trace();
    stub(IntegratorLocal::<Glow, Eye>::li::<Counted>, via_li);
    stub(FilmTile::add_sample, via_splat);
    let n = 1 + choose(2) as u32;
    let film = Arc::new(film_for(1, 1));
    let it = IntegratorLocal { scene: Arc::new(scene_of(Vec::new(), Glow {})), camera: Eye {}, film: film.clone() };
    it.render(&mut Counted { n, k: 0 }, BBox2i { min: Point2i::new(0, 0), max: Point2i::new(1, 1) });
    check(emitted("li") == n as usize, "every sample is evaluated once");
    let (mut good, mut sum) = (0, 0.);
    for k in 0..emitted("li") {
        let l = [event("li", k, 0), event("li", k, 1), event("li", k, 2)];
        if valid(l) {
            if symbolic() {
                check(emitted("splat") > good && event("splat", good, 2) == l[0] && event("splat", good, 3) == l[1] && event("splat", good, 4) == l[2], "valid radiance is added to the film");
                check(emitted("splat") <= good || event("splat", good, 0) == event("eye", k, 0) && event("splat", good, 1) == event("eye", k, 1), "at the position of its sample");
            }
            good += 1;
            sum += l[1];
        }
    }
    if symbolic() { check(emitted("splat") == good, "invalid radiance never reaches the film"); }
    else {
        let (c, w) = film_pixel(&film, 0);
        check(w == good as f32, "invalid radiance never reaches the film");
        close_s(c.g, sum, 1., "valid radiance is added to the film");
    }
}

// ---------------------------------------------------------------- C25
/// one arbitrary position of the tile, then the end (see C01)
fn via_pixel(_: &mut ::bbox::BBox2iIter) -> Option<Point2i> {
    if emitted("position") > 0 { return None; }
    emit("position", &[]);
    Some(position())
}
fn position() -> Point2i { Point2i::new(uf_int("px", &[], 0, 30000) as i32, uf_int("py", &[], 0, 30000) as i32) }
fn tile_of_any(_: &Film, b: BBox2i) -> FilmTile { emit("tile", &[b.min.x as f32, b.min.y as f32, b.max.x as f32, b.max.y as f32]); let f = no_film(); f.get_film_tile(BBox2i { min: Point2i::new(0, 0), max: Point2i::new(0, 0) }) }
fn via_merge(_: &Film, _: FilmTile) { emit("merge", &[emitted("position") as f32]); }
fn any_samples(sampler: &mut Counted) {
    *sampler = Counted { n: any_value(), k: any_value() };
    emit("samples", &[emitted("sample") as f32, emitted("eye") as f32, emitted("li") as f32, emitted("next") as f32, emitted("start") as f32]);
}
fn samples_so_far(sampler: &Counted) {
    invariant(emitted("start") == 1, "a pixel is started once");
    invariant(event("start", 0, 0) == position().x as f32 && event("start", 0, 1) == position().y as f32, "it is the pixel of the tile that is started");
    invariant(emitted("merge") == 0, "the tile is not merged early");
    assume(sampler.k < 1000000);
    if emitted("samples") == 0 { invariant(emitted("next") == 0, "a pixel is not left before its first sample"); return; }
    if proving() {
        one_sample();
        invariant(event("next", 0, 0) == 1., "a pixel is sampled until the sampler says it is done");
    }
}
/// what each iteration does
fn one_sample() {
    check(emitted("sample") == 1 && emitted("eye") == 1 && emitted("li") == 1, "each sample is taken, followed and evaluated once");
    check(event("sample", 0, 0) == position().x as f32 && event("sample", 0, 1) == position().y as f32, "samples are those of the pixel");
    check(event("eye", 0, 0) == position().x as f32 + 0.25 && event("eye", 0, 1) == position().y as f32 + 0.75, "the camera gets the sample's position");
    check(emitted("next") == 1, "the sampler is asked for the next sample once");
}
pub fn h_c25_pixel() {
    reset_trace();
    stub(<::bbox::BBox2iIter as Iterator>::next, via_pixel);
    stub(Film::get_film_tile, tile_of_any);
    stub(Film::merge_film_tile, via_merge);
    stub(FilmTile::add_sample, via_splat);
    stub(IntegratorLocal::<Glow, Eye>::li::<Counted>, via_li);
    loop_contract(IntegratorLocal::<Glow, Eye>::render::<Counted>, 1, any_samples, samples_so_far);
    let (w, h, n) = if symbolic() { (1, 1, 1) } else { (1 + choose(3), 1 + choose(3), 1 + choose(3)) };
    let film = Arc::new(film_for(w as i32, h as i32));
    let it = IntegratorLocal { scene: Arc::new(scene_of(Vec::new(), Glow {})), camera: Eye {}, film: film.clone() };
    let b = BBox2i { min: Point2i::new(0, 0), max: Point2i::new(w as i32, h as i32) };
    it.render(&mut Counted { n: n as u32, k: 0 }, b);
    if symbolic() {
        check(emitted("tile") == 1 && event("tile", 0, 2) == 1. && event("tile", 0, 3) == 1., "the tile is that of the given box");
        check(emitted("merge") == 1 && event("merge", 0, 0) == 1., "the tile is merged once, after its pixels");
        one_sample();
        check(event("next", 0, 0) == 0., "a pixel is left when the sampler says it is done");
    } else {
        check(emitted("start") == w * h, "every pixel is started once");
        check(emitted("sample") == w * h * n && emitted("eye") == w * h * n && emitted("li") == w * h * n, "each sample is taken, followed and evaluated once");
        for k in 0..w * h {
            check(event("start", k, 0) == (k % w) as f32 && event("start", k, 1) == (k / w) as f32, "every pixel is started once");
            for j in 0..n { check(event("sample", k * n + j, 0) == (k % w) as f32 && event("sample", k * n + j, 1) == (k / w) as f32, "samples are those of the pixel"); }
            let (_, weight) = film_pixel(&film, k);
            check(weight <= n as f32, "the tile is merged once");
        }
    }
}

// ---- workers
fn via_next_tile(_: &mut ::film::FilmTileIter) -> Option<BBox2i> {
    let (more, x, y) = (boolean(), int(-30000, 30000), int(-30000, 30000));
    emit("take", &[if more { 1. } else { 0. }, x as f32, y as f32]);
    if more { Some(BBox2i { min: Point2i::new(x, y), max: Point2i::new(x + 7, y + 5) }) } else { None }
}
fn via_render_tile(_: &IntegratorLocal<Glow, Eye>, _: &mut Counted, b: BBox2i) { emit("render", &[b.min.x as f32, b.min.y as f32, (b.max.x - b.min.x) as f32, (b.max.y - b.min.y) as f32]); }
fn via_write(_: &Film, _: &mut BufWriter<::std::fs::File>) { emit("write", &[emitted("join") as f32, emitted("open") as f32]); }
fn any_work(sampler: &mut Counted) { *sampler = Counted { n: any_value(), k: any_value() }; emit("work", &[emitted("take") as f32, emitted("render") as f32]); }
fn work_so_far(sampler: &Counted) {
    let _ = sampler;
    let w = emitted("work");
    if w == emitted("worker") {
        // this worker's iteration
        let (takes, renders) = (event("work", w - 1, 0) as usize, event("work", w - 1, 1) as usize);
        if emitted("take") > takes {
            let k = emitted("take") - 1;
            check(emitted("take") == takes + 1, "a worker takes one tile at a time");
            check(emitted("render") == renders + 1, "a worker renders the tile it took once");
            check(event("take", k, 0) == 1., "a worker goes on while there are tiles");
            check(event("render", renders, 0) == event("take", k, 1) && event("render", renders, 1) == event("take", k, 2) && event("render", renders, 2) == 7. && event("render", renders, 3) == 5., "it is the tile it took that a worker renders");
        }
    } else {
        invariant(emitted("take") == w, "a worker takes no tile that it does not render");
    }
}
/// Whatever tiles the iterator hands to a worker (others may have taken those before), it renders each of them once and stops only when there are none left.
pub fn h_c25_workers() {
    reset_trace();
    stub(<::film::FilmTileIter as Iterator>::next, via_next_tile);
    stub(IntegratorLocal::<Glow, Eye>::render::<Counted>, via_render_tile);
    stub(Film::write_image_ppm::<BufWriter<::std::fs::File>>, via_write);
    loop_contract_named("render::{closure#0}", 0, any_work, work_so_far);
    let n = 1 + choose(8);
    if symbolic() {
        let it = Integrator::new(scene_of(Vec::new(), Glow {}), Counted { n: 1, k: 0 }, Eye {}, film_for(1, 1));
        it.render(n as u8);
        check(emitted("worker") == n, "as many workers as asked for");
        check(emitted("take") == n && emitted("render") == 0, "a worker stops without a tile only");
        for k in 0..n { check(event("take", k, 0) == 0., "a worker stops when there are no tiles left only"); }
        check(emitted("join") == n, "every worker is waited for");
        check(emitted("write") == 1 && event("write", 0, 0) == n as f32, "the image is written once, after all workers have finished");
        check(emitted("open") == 1 && event("write", 0, 1) == 1., "one file is opened for it");
        check(event("open", 0, 0) == 1. && (event("open", 0, 1) == 1. || event("open", 0, 4) == 1.) && event("open", 0, 3) == 0. && event("open", 0, 6) == 1., "it is output.ppm, created if need be and written from its start");
        check(event("open", 0, 2) == 1., "what the file contained before is gone");
    } else {
        real_threads(n);
    }
}

// ---- any number of workers
use std::thread::JoinHandle;
use std::vec::IntoIter;
use std::ops::Range;
fn any_started(iter: &mut Range<u8>, old_iter: &Range<u8>, handles: &mut Vec<JoinHandle<()>>) {
    let k = uint(0, 255) as u8;
    *iter = k..old_iter.end;
    *handles = sym_vec(k as usize, |_| joinable(()));
    reset_trace();
    emit("starting", &[]);
}
fn started_so_far(iter: &Range<u8>, old_iter: &Range<u8>, handles: &Vec<JoinHandle<()>>) {
    invariant(iter.start <= old_iter.end, "no more workers than asked for");
    if iter.start <= old_iter.end { decreases((old_iter.end - iter.start) as usize); }
    invariant(handles.len() == iter.start as usize, "every worker can be waited for");
    if emitted("worker") == 0 { invariant(!proving() | (iter.start == 0), "as many workers as asked for"); return; }
    invariant(emitted("worker") == 1, "one worker at a time");
    invariant(emitted("take") == 1 && emitted("render") == 0 && event("take", 0, 0) == 0., "a worker stops when there are no tiles left only");
    invariant(emitted("join") + emitted("write") + emitted("open") == 0, "nothing is written while there are workers to start");
}
fn any_joined(it: &mut IntoIter<JoinHandle<()>>, old_it: &IntoIter<JoinHandle<()>>) {
    *it = into_iter_from(old_it, size(0, 255));
    reset_trace();
    emit("joining", &[]);
}
fn joined_so_far(it: &IntoIter<JoinHandle<()>>, old_it: &IntoIter<JoinHandle<()>>) {
    decreases(it.len());
    invariant(old_it.len() == asked(), "as many workers as asked for");
    invariant(emitted("write") + emitted("open") == 0, "nothing is written while there are workers");
    if emitted("joining") == 1 { invariant(emitted("join") == 1 || it.len() == old_it.len() || proving() == false, "every worker is waited for"); }
}
fn asked() -> usize { uf_int("asked", &[], 1, 255) as usize }
pub fn h_c25_any_workers() {
    if !symbolic() { return real_threads(1 + choose(32)); }
    reset_trace();
    stub(<::film::FilmTileIter as Iterator>::next, via_next_tile);
    stub(IntegratorLocal::<Glow, Eye>::render::<Counted>, via_render_tile);
    stub(Film::write_image_ppm::<BufWriter<::std::fs::File>>, via_write);
    loop_contract_named("render::{closure#0}", 0, any_work, work_so_far);
    loop_contract(Integrator::<Glow, Eye, Counted>::render, 0, any_started, started_so_far);
    loop_contract_named("m_for_each", 0, any_joined, joined_so_far);
    let it = Integrator::new(scene_of(Vec::new(), Glow {}), Counted { n: 1, k: 0 }, Eye {}, film_for(1, 1));
    it.render(asked() as u8);
    check(emitted("joining") == 1, "every worker is waited for");
    check(emitted("write") == 1, "the image is written once, after all workers have finished");
    check(emitted("open") == 1 && event("write", 0, 1) == 1., "one file is opened for it");
    check(event("open", 0, 0) == 1. && (event("open", 0, 1) == 1. || event("open", 0, 4) == 1.) && event("open", 0, 3) == 0. && event("open", 0, 6) == 1., "it is output.ppm, created if need be and written from its start");
    check(event("open", 0, 2) == 1., "what the file contained before is gone");
}

/// With real threads: every pixel gets all of its samples and the file is the image.
fn real_threads(n: usize) {
    use std::{env, fs, process};
    use std::io::Read;
    native_assume(runs() < 400);
    let (w, h) = (1 + choose(40), 1 + choose(40));
    let samples = 1 + choose(3);
    let dir = env::temp_dir().join(format!("ptv_c25_{}", process::id()));
    fs::create_dir_all(&dir).unwrap();
    let back = env::current_dir().unwrap();
    env::set_current_dir(&dir).unwrap();
    // a longer file that was there before
    if boolean() { fs::write("output.ppm", vec![b'x'; 100000]).unwrap(); }
    let it = Integrator::new(scene_of(Vec::new(), Bright {}), Counted { n: samples as u32, k: 0 }, Eye {}, film_for(w as i32, h as i32));
    it.render(n as u8);
    let mut got = Vec::new();
    fs::File::open("output.ppm").unwrap().read_to_end(&mut got).unwrap();
    fs::remove_file(dir.join("output.ppm")).unwrap();
    env::set_current_dir(&back).unwrap();
    fs::remove_dir(&dir).unwrap();
    let mut e = Vec::new();
    it.film.write_image_ppm(&mut e);
    check(got == e, "the file holds exactly the image");
    for k in 0..w * h { let (_, weight) = film_pixel(&it.film, k); check(weight == samples as f32, "every tile is rendered and merged once"); }
}
fn runs() -> usize { use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0); N.fetch_add(1, Ordering::SeqCst) }
/// a scene that is equally bright everywhere
struct Bright {}
impl Container for Bright {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<Interaction> { Some(Interaction { shape: Some(Arc::new(Brightness {})), wo: Vector3f::new(0., 0., 1.), n: Normal3f::new(0., 0., 1.), sn: Normal3f::new(0., 0., 1.), dpdu: Vector3f::new(1., 0., 0.), ..Default::default() }) }
}
struct Brightness {}
impl Shape for Brightness {
    fn bbox(&self) -> BBox3f { panic!() }
    fn area(&self) -> f32 { panic!() }
    fn intersect_p(&self, _: &Ray) -> bool { panic!() }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { panic!() }
    fn material(&self) -> Arc<Material> { panic!() }
    fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) }
    fn sample(&self, _: Point2f) -> Interaction { panic!() }
    fn pdf(&self, _: &Interaction, _: Vector3f) -> f32 { panic!() }
    fn l(&self, _: &Interaction, _: Vector3f) -> Spectrum { Spectrum::new(0.25, 0.5, 0.75) }
}
