use transform::ptv_spec::*;

const FAR: i32 = 100000000;
/// any sample area
fn any_area() -> (BBox2i, i32, i32) {
    let (x0, y0) = (int(-FAR, FAR), int(-FAR, FAR));
    let (w, h) = (int(0, FAR), int(0, FAR));
    (BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x0 + w, y0 + h) }, w, h)
}
fn shape_of_tile(b: &BBox2i, t: &BBox2i) {
    check(t.min.x < t.max.x && t.min.y < t.max.y, "no tile is empty");
    check(t.max.x - t.min.x <= 16 && t.max.y - t.min.y <= 16, "no tile is larger than 16x16");
    check(b.min.x <= t.min.x && t.max.x <= b.max.x && b.min.y <= t.min.y && t.max.y <= b.max.y, "no tile reaches outside");
}
/// The tile in column i and row j; it is the only one a pixel in those sixteen columns and rows can be in.
fn the_tile(b: &BBox2i, t: &BBox2i, i: i32, j: i32) {
    shape_of_tile(b, t);
    // a pixel in column i and row j of tiles
    let (u, v) = (int(0, 15), int(0, 15));
    let (x, y) = (b.min.x + i * 16 + u, b.min.y + j * 16 + v);
    if x < b.max.x && y < b.max.y { check(t.min.x <= x && x < t.max.x && t.min.y <= y && y < t.max.y, "every pixel of the sample area is in its tile"); }
    // and one in another column or row is not in it
    let (x, y) = (int(-FAR, 2 * FAR), int(-FAR, 2 * FAR));
    if t.min.x <= x && x < t.max.x && t.min.y <= y && y < t.max.y {
        check(b.min.x + i * 16 <= x && x < b.min.x + i * 16 + 16 && b.min.y + j * 16 <= y && y < b.min.y + j * 16 + 16, "no pixel of another tile is in it");
    }
}
/// number of tiles along an axis
fn tiles_along(w: i32) -> i32 { let n = int(0, FAR); assume(16 * n >= w); assume(16 * n < w + 16); n }
pub fn h_c01_tile_first() {
    let (b, w, h) = any_area();
    assume(w > 0); assume(h > 0);
    match FilmTileIter::new(b).next() {
        Some(t) => the_tile(&b, &t, 0, 0),
        None => check(false, "a sample area that is not empty has tiles"),
    }
}
pub fn h_c01_tile_step() {
    let (b, w, h) = any_area();
    assume(w > 0); assume(h > 0);
    let (nx, ny) = (tiles_along(w), tiles_along(h));
    let (i, j) = (int(0, FAR), int(0, FAR));
    assume(i < nx); assume(j < ny);
    let mut it = FilmTileIter::new(b);
    it.i = Point2i::new(i, j);
    match it.next() { Some(t) => the_tile(&b, &t, i, j), None => check(false, "does not end before the last tile") }
    match it.next() {
        Some(t) => if i + 1 < nx { the_tile(&b, &t, i + 1, j); } else { check(j + 1 < ny, "no tile after the last one"); the_tile(&b, &t, 0, j + 1); },
        None => {
            check(i + 1 == nx && j + 1 == ny, "ends after the last tile only");
            check(it.next().is_none(), "stays at its end");
        }
    }
}
/// from the constructor on, for small sample areas anywhere
fn few_tiles(nx: i32, ny: i32) {
    let (x0, y0) = (int(-FAR, FAR), int(-FAR, FAR));
    let (a, c) = (int(1, 16), int(1, 16));
    let (w, h) = (if nx == 0 { 0 } else { 16 * (nx - 1) + a }, if ny == 0 { 0 } else { 16 * (ny - 1) + c });
    let b = BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x0 + w, y0 + h) };
    let mut it = FilmTileIter::new(b);
    for j in 0..ny { for i in 0..nx {
        match it.next() {
            Some(t) => check(t.min.x == x0 + 16 * i && t.min.y == y0 + 16 * j && t.max.x == (if i + 1 == nx { x0 + w } else { x0 + 16 * i + 16 }) && t.max.y == (if j + 1 == ny { y0 + h } else { y0 + 16 * j + 16 }), "each tile once, in order"),
            None => check(false, "every tile is handed out"),
        }
    } }
    check(it.next().is_none(), "then it ends");
    check(it.next().is_none(), "and stays so");
}
pub fn h_c01_tile_small() { let (w, h) = (choose(4), choose(3)); few_tiles(w as i32, h as i32) }
/// the tiles of a film are those of its sample area
pub fn h_c01_tiles_of_film() {
    let (rx, ry) = (int(0, 30000), int(0, 30000));
    let r = real_in(0., 100.);
    let f = any_film(rx, ry, r);
    let b = f.sample_bbox();
    assume(b.min.y >= b.max.y || b.min.x < b.max.x);   // no columns but rows: h_c01_tile_small
    let mut it = f.iter();
    let n = it.next();
    if b.min.x < b.max.x && b.min.y < b.max.y {
        match n { Some(t) => the_tile(&b, &t, 0, 0), None => check(false, "a film has tiles") }
    } else { check(n.is_none(), "no tile for an empty sample area"); }
}
pub fn any_film(rx: i32, ry: i32, r: f32) -> Film {
    Film { resolution: Point2i::new(rx, ry), filter_radius: r, filter_table: [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH], pixels: Mutex::new(Vec::new().into_boxed_slice()) }
}

// ---------------------------------------------------------------- C04
struct Sink {}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> { text_out(b); Ok(b.len()) }
    fn write_all(&mut self, b: &[u8]) -> ::std::io::Result<()> { text_out(b); Ok(()) }
    fn flush(&mut self) -> ::std::io::Result<()> { Ok(()) }
}
fn film_of(rx: i32, ry: i32, pixels: Vec<Pixel>) -> Film {
    Film { resolution: Point2i::new(rx, ry), filter_radius: 1., filter_table: [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH], pixels: Mutex::new(pixels.into_boxed_slice()) }
}
/// 255 times the sRGB encoding, clamped
fn encoded(v: f32) -> f32 {
    let e = 255. * if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1. / 2.4) - 0.055 };
    if e < 0. { 0. } else if e > 255. { 255. } else { e }
}
fn a_byte(l: usize, k: usize) -> i32 {
    let q = text_int(l, k);
    check(0 <= q && q <= 255, "integers in 0..=255");
    q
}
pub fn h_c04_value() {
    reset_trace();
    let (r, g, b, w) = (real(), real(), real(), real());
    assume(w != 0.);
    native_assume(w.abs() > 1e-3);
    film_of(1, 1, list1(Pixel { color: Spectrum::new(r, g, b), filter_weight_sum: w })).write_image_ppm(&mut Sink {});
    check(text_lines() == 4, "header and one line");
    check(text_words(3) == 3, "three values");
    let k = choose(3);
    let q = a_byte(3, k) as f32;
    let e = encoded([r, g, b][k] / w);
    leq_s(q, e + 0.5, 1., "rounded to the nearest (not above)");
    leq_s(e - 0.5, q, 1., "rounded to the nearest (not below)");
}
pub fn list1(p: Pixel) -> Vec<Pixel> { let mut v = Vec::new(); v.push(p); v }
/// every value, also infinite or not a number, and pixels without samples
pub fn h_c04_any_value() {
    reset_trace();
    let w = if boolean() { 0. } else { realx() };
    film_of(1, 1, list1(Pixel { color: Spectrum::new(realx(), 0., 1.), filter_weight_sum: w })).write_image_ppm(&mut Sink {});
    for k in 0..3 { a_byte(3, k); }
}
/// the header and one line per pixel in row-major order
pub fn h_c04_layout() {
    reset_trace();
    let (w, h) = (1 + choose(3), choose(3));
    let mut v = Vec::new();
    // pixel k is 1/1024 * k in red
    for k in 0..w * h { v.push(Pixel { color: Spectrum::new(k as f32 / 1024., 0., 0.), filter_weight_sum: 1. }); }
    film_of(w as i32, h as i32, v).write_image_ppm(&mut Sink {});
    check(text_lines() == 3 + (w * h) as i32, "one line per pixel after the header");
    check(text_words(0) == 1 && text_is(0, 0, "P3"), "plain pixmap");
    check(text_words(1) == 2 && text_int(1, 0) == w as i32 && text_int(1, 1) == h as i32, "width and height");
    check(text_words(2) == 1 && text_int(2, 0) == 255, "maximum value");
    for k in 0..w * h {
        check(text_words(3 + k) == 3, "three values per pixel");
        check(text_int(3 + k, 0) == encoded(k as f32 / 1024.).round() as i32, "in row-major order");
        check(text_int(3 + k, 1) == 0 && text_int(3 + k, 2) == 0, "black is zero");
    }
}

/// A film of any size: each pixel writes one line, in the order of the pixels; the header is before and nothing is after them.
fn any_lines<'a>(iter: &mut ::std::slice::Iter<'a, Pixel>, old_iter: &::std::slice::Iter<'a, Pixel>) {
    reset_trace();
    let k = size(0, 900000000);
    *iter = iter_from(old_iter, k);
    emit("line", &[k as f32]);
}
fn lines_so_far<'a>(iter: &::std::slice::Iter<'a, Pixel>, old_iter: &::std::slice::Iter<'a, Pixel>) {
    decreases(iter.len());
    if emitted("line") == 0 {
        invariant(text_lines() == 3, "the header is three lines");
        invariant(text_words(0) == 1 && text_is(0, 0, "P3"), "plain pixmap");
        invariant(text_words(1) == 2 && text_int(1, 0) == uf_int("width", &[], 1, 30000) as i32 && text_int(1, 1) == uf_int("height", &[], 0, 30000) as i32, "width and height");
        invariant(text_words(2) == 1 && text_int(2, 0) == 255, "maximum value");
        invariant(old_iter.len() == iter.len(), "the first pixel is first");
        return;
    }
    if !proving() { return; }      // any state
    invariant(text_lines() == 1 && text_words(0) == 3, "one line of three values per pixel");
    let k = event("line", 0, 0);
    invariant((old_iter.len() - iter.len()) as f32 == k + 1., "one pixel per line");
    for c in 0..3 { invariant(text_int(0, c) as f32 == uf_byte(uf("film", &[k, c as f32])) as f32, "in row-major order"); }
}
fn via_gamma(v: f32) -> f32 { (uf_byte(v) as f32) / 255. }
fn uf_byte(v: f32) -> u32 { uf_int("byte", &[v], 0, 255) }
pub fn h_c04_any_size() {
    reset_trace();
    stub(gamma_correct, via_gamma);
    loop_contract(Film::write_image_ppm::<Sink>, 0, any_lines, lines_so_far);
    if symbolic() {
        let (w, h) = (uf_int("width", &[], 1, 30000) as i32, uf_int("height", &[], 0, 30000) as i32);
        film_of(w, h, sym_vec((w * h) as usize, |k| Pixel { color: Spectrum::new(uf("film", &[k as f32, 0.]), uf("film", &[k as f32, 1.]), uf("film", &[k as f32, 2.])), filter_weight_sum: 1. })).write_image_ppm(&mut Sink {});
        check(text_lines() == 0 && emitted("line") == 1, "nothing after the last pixel");
        check(event("line", 0, 0) == (w * h) as f32, "all pixels are written");
    } else {
        let (w, h) = (size(1, 150), size(0, 30));
        let mut v = Vec::new();
        for k in 0..w * h { v.push(Pixel { color: Spectrum::new((k % 1000) as f32 / 1024., 0., (k / 1000) as f32 / 1024.), filter_weight_sum: 1. }); }
        film_of(w as i32, h as i32, v).write_image_ppm(&mut Sink {});
        check(text_lines() == 3 + (w * h) as i32, "one line per pixel after the header");
        check(text_int(1, 0) == w as i32 && text_int(1, 1) == h as i32, "width and height");
        if w * h > 0 {
            let k = size(0, 1000000) % (w * h);
            check(text_words(3 + k) == 3, "three values per pixel");
            for c in 0..3 {
                let (q, e) = (text_int(3 + k, c) as f32, encoded([(k % 1000) as f32 / 1024., 0., (k / 1000) as f32 / 1024.][c]));
                check((q - e).abs() <= 0.51, "in row-major order");
            }
        }
    }
}

// ---------------------------------------------------------------- C02
use std::cell::Cell;
struct Kernel { r: f32 }
impl Filter for Kernel {
    fn radius(&self) -> f32 { self.r }
    fn evaluate(&self, p: Point2f) -> f32 { uf("kernel", &[p.x, p.y]) }
}
/// the table of a film holds the filter at cell centres
pub fn h_c02_table() {
    let r = real_in(0., 1000.);
    let f = Film::new(Point2u::new(2, 1), Kernel { r });
    check(f.filter_radius == r, "the filter's radius");
    check(f.resolution.x == 2 && f.resolution.y == 1, "the given resolution");
    for y in 0..16 { for x in 0..16 {
        if symbolic() { close(f.filter_table[y][x], uf("kernel", &[(x as f32 + 0.5) / 16. * r, (y as f32 + 0.5) / 16. * r]), "the filter at the centre of the cell"); }
        else { check(f.filter_table[y][x] == uf("kernel", &[(x as f32 + 0.5) * r / 16., (y as f32 + 0.5) * r / 16.]), "the filter at the centre of the cell"); }
    } }
    check(f.pixels.lock().unwrap().len() == 2, "one pixel per position");
    for p in f.pixels.lock().unwrap().iter() { check(p.color.is_black() && p.filter_weight_sum == 0., "a new film is empty"); }
}
/// The sample area: wide enough for every pixel to get samples from all of its neighbourhood.
pub fn h_c02_sample_area() {
    let (rx, ry) = (int(1, 30000), int(1, 30000));
    let r = real_in(0., 100.);
    let f = any_film(rx, ry, r);
    let b = f.sample_bbox();
    let (x, y) = (int(0, 30000), int(0, 30000));
    assume(x < rx); assume(y < ry);
    let s = 1e4;
    leq_s(b.min.x as f32, x as f32 + 0.5 - r, s, "samples from the left of every pixel");
    leq_s(x as f32 + 0.5 + r, b.max.x as f32, s, "samples from the right of every pixel");
    leq_s(b.min.y as f32, y as f32 + 0.5 - r, s, "samples from above every pixel");
    leq_s(y as f32 + 0.5 + r, b.max.y as f32, s, "samples from below every pixel");
    check(b.min.x as f32 > 0.5 - r - 1.01 && (b.max.x as f32) < rx as f32 - 0.5 + r + 1.01 && b.min.y as f32 > 0.5 - r - 1.01 && (b.max.y as f32) < ry as f32 - 0.5 + r + 1.01, "and no more than that");
}
pub fn tile_without_pixels(bbox: BBox2i, filter_radius: f32, filter_table: FilterTable) -> FilmTile { FilmTile { bbox, filter_radius, filter_table, pixels: Vec::new().into_boxed_slice() } }
/// A tile's pixels: exactly those of the image some sample in its area reaches.
pub fn h_c02_tile_extent() {
    let (rx, ry) = (int(1, 30000), int(1, 30000));
    let r = real_in(0., 100.);
    let f = any_film(rx, ry, r);
    let b = f.sample_bbox();
    // a tile of the sample area
    let (x0, y0, w, h) = (int(-200, 30200), int(-200, 30200), int(1, 16), int(1, 16));
    assume(b.min.x <= x0); assume(x0 + w <= b.max.x); assume(b.min.y <= y0); assume(y0 + h <= b.max.y);
    stub(FilmTile::new, tile_without_pixels);
    let t = f.get_film_tile(BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x0 + w, y0 + h) });
    // any pixel position
    let (x, y) = (int(-300, 30300), int(-300, 30300));
    let inside = t.bbox.min.x <= x && x < t.bbox.max.x && t.bbox.min.y <= y && y < t.bbox.max.y;
    let image = 0 <= x && x < rx && 0 <= y && y < ry;
    let (cx, cy) = (x as f32 + 0.5, y as f32 + 0.5);
    let (lx, hx, ly, hy) = (x0 as f32 - r, (x0 + w) as f32 + r, y0 as f32 - r, (y0 + h) as f32 + r);
    native_assume((cx - lx).abs() > 0.01 && (cx - hx).abs() > 0.01 && (cy - ly).abs() > 0.01 && (cy - hy).abs() > 0.01);
    let reached = lx <= cx && cx <= hx && ly <= cy && cy <= hy;
    if inside { check(image, "a tile has pixels of the image only"); check(reached, "a tile has only pixels its samples reach"); }
    if image && reached { check(inside, "a tile has every pixel its samples reach"); }
    check(t.filter_radius == r, "a tile uses the film's filter radius");
}
pub fn h_c02_tile_fresh() {
    let r = real_in(0.5, 1.);
    let mut f = any_film(2, 1, r);
    let (i, j) = (choose(16), choose(16));
    let v = real();
    f.filter_table[j][i] = v;
    let t = f.get_film_tile(BBox2i { min: Point2i::new(0, 0), max: Point2i::new(2, 1) });
    check(t.filter_table[j][i] == v, "a tile uses the film's filter table");
    check(t.pixels.len() == 2, "a tile has a pixel for each position");
    for p in t.pixels.iter() { check(p.color.is_black() && p.filter_weight_sum == 0., "a new tile is empty"); }
}
/// the table cell of an offset
fn cell(off: f32, r: f32) -> usize {
    let a = off.abs() / r * 16.;
    native_assume(a.fract() > 0.01 && a.fract() < 0.99);
    if a >= 16. { 15 } else { a.floor() as usize }
}
fn pixel(k: usize) -> Pixel { let _ = k; Pixel { color: Spectrum::new(real(), real(), real()), filter_weight_sum: real() } }
fn any_position() -> f32 { real_in(-60000., 60000.) }
/// A tile of `w` by `h` pixels anywhere, any sample: each pixel gets it exactly if its centre is within the filter radius.
fn splat(w: i32, h: i32, by_x: bool) {
    let r = pos();
    assume(r <= 100.);
    native_assume(r > 0.1);
    let (x0, y0) = (int(0, 30000), int(0, 30000));
    native_assume(x0 < 300 && y0 < 300);
    let mut table = [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH];
    for j in 0..FILTER_TABLE_WIDTH { for i in 0..FILTER_TABLE_WIDTH { table[j][i] = uf("weight", &[if by_x { i } else { j } as f32]); } }
    let n = (w * h) as usize;
    let (mut pixels, mut before) = (Vec::new(), Vec::new());
    for k in 0..n { let p = pixel(k); before.push(Pixel { color: p.color, filter_weight_sum: p.filter_weight_sum }); pixels.push(p); }
    let mut t = FilmTile { bbox: BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x0 + w, y0 + h) }, filter_radius: r, filter_table: table, pixels: pixels.into_boxed_slice() };
    let (px, py) = if symbolic() { (any_position(), any_position()) } else { (x0 as f32 + real_in(-3., 5.), y0 as f32 + real_in(-3., 5.)) };
    let c = Spectrum::new(real(), real(), real());
    t.add_sample(Point2f::new(px, py), c);
    for k in 0..n {
        let (dx, dy) = ((x0 + k as i32 % w) as f32 + 0.5 - px, (y0 + k as i32 / w) as f32 + 0.5 - py);
        native_assume((dx.abs() - r).abs() > 1e-3 && (dy.abs() - r).abs() > 1e-3);
        let (q, o) = (&t.pixels[k], &before[k]);
        if dx.abs() <= r && dy.abs() <= r {
            let m = table[cell(dy, r)][cell(dx, r)];
            close(q.filter_weight_sum, o.filter_weight_sum + m, "a pixel under the filter gains the weight");
            let m = q.filter_weight_sum - o.filter_weight_sum;
            close_s(q.color.r, o.color.r + c.r * m, 1. + c.r.abs(), "a pixel under the filter gains colour times weight (r)");
            close_s(q.color.g, o.color.g + c.g * m, 1. + c.g.abs(), "a pixel under the filter gains colour times weight (g)");
            close_s(q.color.b, o.color.b + c.b * m, 1. + c.b.abs(), "a pixel under the filter gains colour times weight (b)");
        } else {
            check(q.filter_weight_sum == o.filter_weight_sum && q.color.r == o.color.r && q.color.g == o.color.g && q.color.b == o.color.b, "other pixels are unchanged");
        }
    }
}
// the weight depends on one axis at a time, to keep the cases apart
pub fn h_c02_splat_pixel_x() { splat(1, 1, true) }
pub fn h_c02_splat_pixel_y() { splat(1, 1, false) }

// tiles of any size
use std::ops::Range;
const WIDE: i32 = 30000;
fn of_tile(name: &'static str, hi: i32) -> i32 { uf_int(name, &[], 0, hi as u32) as i32 }
fn tile_box() -> BBox2i {
    let (x, y) = (of_tile("tile x", WIDE), of_tile("tile y", WIDE));
    BBox2i { min: Point2i::new(x, y), max: Point2i::new(x + of_tile("tile w", WIDE), y + of_tile("tile h", WIDE)) }
}
fn tile_radius() -> f32 { let r = uf_nonneg("tile radius", &[]); assume((0. < r) & (r <= 100.)); r }
fn tile_table() -> FilterTable {
    let mut table = [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH];
    for j in 0..FILTER_TABLE_WIDTH { for i in 0..FILTER_TABLE_WIDTH { table[j][i] = weight_at(i, j); } }
    table
}
fn weight_at(i: usize, j: usize) -> f32 { uf("weight", &[i as f32, j as f32]) }
fn n_pixels() -> usize { uf_int("pixels", &[], 0, 1000000000) as usize }
fn any_tile(name: &'static str) -> FilmTile { FilmTile { bbox: tile_box(), filter_radius: tile_radius(), filter_table: tile_table(), pixels: any_pixels(name, n_pixels()).into_boxed_slice() } }
/// where the sample is, from the centre of pixel (0, 0)
fn at_x() -> f32 { let x = uf("at x", &[]); assume((-60000. <= x) & (x <= 60000.)); x }
fn at_y() -> f32 { let y = uf("at y", &[]); assume((-60000. <= y) & (y <= 60000.)); y }
fn at(axis: usize) -> f32 { if axis == 0 { at_x() } else { at_y() } }
fn sample_color() -> Spectrum { Spectrum::new(uf("sample r", &[]), uf("sample g", &[]), uf("sample b", &[])) }
/// the table cell of pixel p along an axis
fn cell_of(axis: usize, p: i32) -> usize {
    let k = uf_int("cell", &[axis as f32, p as f32], 0, 15);
    let (d, r, f) = (p as f32 - at(axis), tile_radius(), k as f32);
    // f = floor(16 |d| / r), or the last
    assume(((f * r <= 16. * d) & (16. * d < (f + 1.) * r) & (d >= 0.)) | ((f * r <= -16. * d) & (-16. * d < (f + 1.) * r) & (d < 0.)) | ((f == 15.) & ((d >= r) | (d <= -r))));
    k as usize
}
fn via_offset(_: &FilmTile, x: i32, y: i32) -> usize {
    let b = tile_box();
    check((b.min.x <= x) & (x < b.max.x) & (b.min.y <= y) & (y < b.max.y), "only pixels of the tile are touched");
    emit("offset", &[x as f32, y as f32]);
    let k = uf_int("offset", &[x as f32, y as f32], 0, 1000000000) as usize;
    assume(k < n_pixels());     // h_c02_offset
    k
}
fn via_splat(p: &mut Pixel, c: Spectrum, weight: f32) {
    let n = emitted("offset") - 1;
    let k = uf_int("offset", &[event("offset", n, 0), event("offset", n, 1)], 0, 1000000000) as usize;
    check(pixel_is(p, "columns", k), "the pixel of the row and column gains the sample");
    let s = sample_color();
    check((c.r == s.r) & (c.g == s.g) & (c.b == s.b), "the sample is what is added");
    emit("splat", &[weight]);
    // h_c02_pixel
    *p = Pixel { color: Spectrum::new(uf("splat", &[0., 0.]), uf("splat", &[0., 1.]), uf("splat", &[0., 2.])), filter_weight_sum: uf("splat", &[0., 3.]) };
}
fn empty(p: &Pixel) -> bool { (p.color.r == 0.) & (p.color.g == 0.) & (p.color.b == 0.) & (p.filter_weight_sum == 0.) }
fn any_fresh(iter: &mut Range<usize>, old_iter: &Range<usize>, pixels: &mut Vec<Pixel>) {
    let k = size(0, 1000000000);
    *iter = k..old_iter.end;
    *pixels = sym_vec(k, |_| Pixel::default());
}
fn fresh_so_far(iter: &Range<usize>, old_iter: &Range<usize>, pixels: &Vec<Pixel>) {
    invariant((old_iter.start == 0) & (iter.start <= iter.end) & (iter.end == old_iter.end), "one pixel per position");
    if iter.start < iter.end { decreases(iter.end - iter.start); }
    invariant(pixels.len() == iter.start, "one pixel per position");
    let j = size(0, 1000000000);
    if proving() && j < pixels.len() { invariant(empty(&pixels[j]), "new pixels are empty"); }
}
/// new tiles of any size are empty
pub fn h_c02_fresh_tile_any() {
    let (x, y) = (int(-300, 30300), int(-300, 30300));
    let (w, h) = if symbolic() { (int(0, WIDE), int(0, WIDE)) } else { (int(0, 40), int(0, 40)) };
    let b = BBox2i { min: Point2i::new(x, y), max: Point2i::new(x + w, y + h) };
    let r = pos();
    if symbolic() { loop_contract(FilmTile::new, 0, any_fresh, fresh_so_far); }
    let t = FilmTile::new(b, r, [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH]);
    check(t.pixels.len() as i64 == w as i64 * h as i64, "a tile has a pixel for each position");
    check((t.bbox.min.x == x) & (t.bbox.min.y == y) & (t.bbox.max.x == x + w) & (t.bbox.max.y == y + h) & (t.filter_radius == r), "a tile has the given area");
    if t.pixels.len() > 0 { check(empty(&t.pixels[size(0, t.pixels.len() - 1)]), "a new tile is empty"); }
}
/// new films of any size are empty
pub fn h_c02_fresh_film_any() {
    let (w, h) = if symbolic() { (uint(0, WIDE as u32), uint(0, WIDE as u32)) } else { (uint(0, 40), uint(0, 40)) };
    if symbolic() { loop_contract(Film::new::<Kernel>, 2, any_fresh, fresh_so_far); }
    let f = Film::new(Point2u::new(w, h), Kernel { r: 2. });
    let pixels = f.pixels.lock().unwrap();
    check(pixels.len() as i64 == w as i64 * h as i64, "one pixel per position");
    check((f.resolution.x == w as i32) & (f.resolution.y == h as i32), "the given resolution");
    if pixels.len() > 0 { check(empty(&pixels[size(0, pixels.len() - 1)]), "a new film is empty"); }
}
/// a sample adds its colour times the weight, and the weight
pub fn h_c02_pixel() {
    let v = || real();
    let (r, g, b, w) = (v(), v(), v(), v());
    let (c, m) = (Spectrum::new(v(), v(), v()), v());
    let mut p = Pixel { color: Spectrum::new(r, g, b), filter_weight_sum: w };
    p.add_sample(c, m);
    check(p.filter_weight_sum == w + m, "a pixel under the filter gains the weight");
    check((p.color.r == r + c.r * m) & (p.color.g == g + c.g * m) & (p.color.b == b + c.b * m), "a pixel under the filter gains colour times weight");
}
/// row-major positions are in range and tell pixels apart
pub fn h_c02_offset() {
    let (w, h) = (small(1, WIDE), small(1, WIDE));
    let (x0, y0) = (int(0, WIDE), int(0, WIDE));
    let t = tile_without_pixels(BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x0 + w, y0 + h) }, 1., [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH]);
    let (x, y, u, v) = (small(0, w - 1), small(0, h - 1), small(0, w - 1), small(0, h - 1));
    let (a, b) = (t.pixel_offset(x0 + x, y0 + y), t.pixel_offset(x0 + u, y0 + v));
    check((a as i64) < w as i64 * h as i64, "pixels of the tile have a place in it");
    check(if x == u && y == v { a == b } else { a != b }, "pixels have places of their own");
}
fn any_cells(iter__1: &mut Range<i32>, old_iter__1: &Range<i32>, indices: &mut [Vec<usize>; 2], old_indices: &[Vec<usize>; 2], i: &usize) {
    let p = int(-70000, 70000);
    let axis = *i;
    let lo = old_iter__1.start;
    *iter__1 = p..old_iter__1.end;
    assume(p >= lo);
    let v = sym_vec((p - lo) as usize, move |j| cell_of(axis, lo + j as i32));
    *indices = if axis == 0 { [v, Vec::new()] } else { [again(&old_indices[0]), v] };
}
fn cells_so_far(iter__1: &Range<i32>, old_iter__1: &Range<i32>, indices: &[Vec<usize>; 2], i: &usize, p_film: &Point2f) {
    let axis = *i;
    let lo = old_iter__1.start;
    invariant(p_film[axis] == at(axis), "offsets are from pixel centres");
    invariant((iter__1.start >= lo) & ((iter__1.start <= old_iter__1.end) | (iter__1.start == lo)), "one entry per row or column");
    if iter__1.start < old_iter__1.end { decreases((old_iter__1.end - iter__1.start) as usize); }
    let v = &indices[axis];
    invariant(v.len() as i32 == iter__1.start - lo, "one entry per row or column");
    let j = size(0, 200000);
    if proving() && j < v.len() { invariant(v[j] == cell_of(axis, lo + j as i32), "the table cell of the offset"); }
}
fn under(axis: usize, p: i32) -> bool { let d = p as f32 - at(axis); (d <= tile_radius()) & (-tile_radius() <= d) }
fn any_rows(iter__2: &mut Range<i32>, old_iter__2: &Range<i32>, this: &mut FilmTile) {
    *iter__2 = int(-70000, 70000)..old_iter__2.end;
    *this = any_tile("rows");
}
fn rows_so_far(iter__2: &Range<i32>, old_iter__2: &Range<i32>, min__1: &Point2i, max__1: &Point2i) {
    invariant(iter__2.start >= old_iter__2.start, "rows under the filter");
    if iter__2.start < old_iter__2.end { decreases((old_iter__2.end - iter__2.start) as usize); }
    // exactly the pixels of the tile under the filter
    invariant((old_iter__2.start == min__1.y) & (iter__2.end == max__1.y), "every row under the filter");
    let (x, y, b) = (int(0, 2 * WIDE), int(0, 2 * WIDE), tile_box());
    let in_box = (b.min.x <= x) & (x < b.max.x) & (b.min.y <= y) & (y < b.max.y);
    let to_do = (min__1.x <= x) & (x < max__1.x) & (min__1.y <= y) & (y < max__1.y);
    if proving() { invariant(to_do == (in_box & under(0, x) & under(1, y)), "exactly the pixels whose centre is within the radius on both axes"); }
}
fn any_columns(iter__3: &mut Range<i32>, old_iter__3: &Range<i32>, this: &mut FilmTile) {
    *iter__3 = int(-70000, 70000)..old_iter__3.end;
    *this = any_tile("columns");
    emit("column", &[emitted("offset") as f32, emitted("splat") as f32]);
}
fn columns_so_far(iter__3: &Range<i32>, old_iter__3: &Range<i32>, this: &FilmTile, min__1: &Point2i, max__1: &Point2i, y: &i32) {
    invariant(iter__3.start >= old_iter__3.start, "columns under the filter");
    if iter__3.start < old_iter__3.end { decreases((old_iter__3.end - iter__3.start) as usize); }
    invariant((old_iter__3.start == min__1.x) & (iter__3.end == max__1.x), "every column under the filter");
    invariant(this.pixels.len() == n_pixels(), "a tile keeps its size");
    if emitted("column") == 0 || !proving() { return; }
    let before = event("column", 0, 0) as usize;
    // one iteration
    let x = iter__3.start - 1;
    if emitted("splat") == event("column", 0, 1) as usize {
        let m = this.filter_table[cell_of(1, *y)][cell_of(0, x)];
        check(m == 0., "a pixel under the filter is touched unless its weight is zero");
        let j = size(0, 1000000000);
        if j < n_pixels() { check(pixel_is(&this.pixels[j], "columns", j), "other pixels are unchanged"); }
        return;
    }
    check(emitted("offset") == before + 1, "each pixel is touched once");
    check((event("offset", before, 0) == x as f32) & (event("offset", before, 1) == *y as f32), "the pixel of the row and column is touched");
    let k = uf_int("offset", &[x as f32, *y as f32], 0, 1000000000) as usize;
    check(emitted("splat") == 1 + event("column", 0, 1) as usize, "each pixel gains one sample");
    let n = emitted("splat") - 1;
    let m = this.filter_table[cell_of(1, *y)][cell_of(0, x)];
    check(event("splat", n, 0) == m, "a pixel under the filter gains the weight of its table cell");
    check(pixel_is(&this.pixels[k], "splat", 0), "the pixel keeps what it gains");
    let j = size(0, 1000000000);
    if j < n_pixels() && j != k { check(pixel_is(&this.pixels[j], "columns", j), "other pixels are unchanged"); }
}
pub fn h_c02_splat_any() {
    if !symbolic() {
        let (w, h) = (size(1, 20) as i32, size(1, 20) as i32);
        return splat(w, h, boolean());
    }
    reset_trace();
    stub(FilmTile::pixel_offset, via_offset);
    stub(Pixel::add_sample, via_splat);
    loop_contract(FilmTile::add_sample, 1, any_cells, cells_so_far);
    loop_contract(FilmTile::add_sample, 2, any_rows, rows_so_far);
    loop_contract(FilmTile::add_sample, 3, any_columns, columns_so_far);
    let mut t = any_tile("before");
    t.add_sample(Point2f::new(at_x() + 0.5, at_y() + 0.5), sample_color());
}

// ---------------------------------------------------------------- C03
pub fn any_pixels(name: &'static str, n: usize) -> Vec<Pixel> { sym_vec(n, move |k| Pixel { color: Spectrum::new(uf(name, &[k as f32, 0.]), uf(name, &[k as f32, 1.]), uf(name, &[k as f32, 2.])), filter_weight_sum: uf(name, &[k as f32, 3.]) }) }
/// one arbitrary position of the box, then the end: what the iteration does for each position, in no particular order (C01)
pub fn via_one(it: &mut ::bbox::BBox2iIter) -> Option<Point2i> {
    if emitted("one") > 0 { return None; }
    emit("one", &[0.]);
    let _ = it;
    Some(Point2i::new(uf_int("one_x", &[], 0, 60000) as i32, uf_int("one_y", &[], 0, 60000) as i32))
}
fn small(lo: i32, hi: i32) -> i32 { if symbolic() { int(lo, hi) } else { int(lo, if hi > 9 { 9 } else { hi }) } }
fn pixel_is(p: &Pixel, name: &'static str, k: usize) -> bool {
    let a = &[k as f32, 0.];
    p.color.r == uf(name, a) && p.color.g == uf(name, &[k as f32, 1.]) && p.color.b == uf(name, &[k as f32, 2.]) && p.filter_weight_sum == uf(name, &[k as f32, 3.])
}
fn pixel_is_sum(p: &Pixel, k: usize, l: usize) {
    let s = |c: f32| uf("film", &[k as f32, c]) + uf("tile", &[l as f32, c]);
    close_s(p.color.r, s(0.), 100., "the film pixel gains the tile pixel's colour (r)");
    close_s(p.color.g, s(1.), 100., "the film pixel gains the tile pixel's colour (g)");
    close_s(p.color.b, s(2.), 100., "the film pixel gains the tile pixel's colour (b)");
    close_s(p.filter_weight_sum, s(3.), 100., "the film pixel gains the tile pixel's weight");
}
/// A film and a tile of any size within it; the pixel at any position of the film, after what merging does for any one position of the tile.
pub fn h_c03_merge_any() {
    reset_trace();
    stub(<::bbox::BBox2iIter as Iterator>::next, via_one);
    let (w, h) = (small(1, 30000), small(1, 30000));
    let (x0, y0) = (small(0, w), small(0, h));
    let (x1, y1) = (small(x0, w), small(y0, h));
    let (tw, th) = (x1 - x0, y1 - y0);
    assume(tw > 0); assume(th > 0);
    let f = film_of(w, h, any_pixels("film", (w * h) as usize));
    let t = FilmTile { bbox: BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x1, y1) }, filter_radius: 1., filter_table: [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH], pixels: any_pixels("tile", (tw * th) as usize).into_boxed_slice() };
    let (px, py) = (uf_int("one_x", &[], 0, 60000) as i32, uf_int("one_y", &[], 0, 60000) as i32);
    if symbolic() { assume(x0 <= px); assume(px < x1); assume(y0 <= py); assume(py < y1); }
    if symbolic() {
        // lemmas: row-major positions are in range
        check((py - y0) * tw + (px - x0) < tw * th, "lemma: the tile has the pixel");
        check(py * w + px < w * h, "lemma: the film has the pixel");
    }
    f.merge_film_tile(t);
    // any position of the film
    let (x, y) = (small(0, w - 1), small(0, h - 1));
    let k = (y * w + x) as usize;
    check(y * w + x < w * h, "lemma: the film has the other pixel");
    let l = ((y - y0) * tw + (x - x0)) as usize;
    if symbolic() { check(if x == px && y == py { true } else { y * w + x != py * w + px }, "lemma: positions are told apart"); }
    let inside = if symbolic() { x == px && y == py } else { x0 <= x && x < x1 && y0 <= y && y < y1 };
    let pixels = f.pixels.lock().unwrap();
    if inside { pixel_is_sum(&pixels[k], k, l); }
    else { check(pixel_is(&pixels[k], "film", k), "other film pixels are unchanged"); }
}
/// with the real iteration, for every tile box of small films
pub fn h_c03_merge_small() {
    let (w, h) = (1 + choose(2) as i32, 1 + choose(3) as i32);
    let (x0, y0) = (choose(w as usize + 1) as i32, choose(h as usize + 1) as i32);
    let (x1, y1) = (x0 + choose((w - x0) as usize + 1) as i32, y0 + choose((h - y0) as usize + 1) as i32);
    let (tw, th) = (x1 - x0, y1 - y0);
    assume(tw > 0); assume(th > 0);
    let (n, m) = ((w * h) as usize, (tw * th) as usize);
    let f = film_of(w, h, any_pixels_list("film", n));
    let t = FilmTile { bbox: BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x1, y1) }, filter_radius: 1., filter_table: [[0.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH], pixels: any_pixels_list("tile", m).into_boxed_slice() };
    f.merge_film_tile(t);
    let pixels = f.pixels.lock().unwrap();
    for y in 0..h { for x in 0..w {
        let k = (y * w + x) as usize;
        if x0 <= x && x < x1 && y0 <= y && y < y1 { pixel_is_sum(&pixels[k], k, ((y - y0) * tw + (x - x0)) as usize); }
        else { check(pixel_is(&pixels[k], "film", k), "other film pixels are unchanged"); }
    } }
}
fn any_pixels_list(name: &'static str, n: usize) -> Vec<Pixel> {
    let mut v = Vec::new();
    for k in 0..n { v.push(Pixel { color: Spectrum::new(uf(name, &[k as f32, 0.]), uf(name, &[k as f32, 1.]), uf(name, &[k as f32, 2.])), filter_weight_sum: uf(name, &[k as f32, 3.]) }); }
    v
}
/// Two tiles: adding one's pixel and then the other's gives the same whichever comes first.
pub fn h_c03_any_order() {
    let (a, b) = (pixel(0), pixel(0));
    let p = pixel(0);
    let mut u = Pixel { color: p.color, filter_weight_sum: p.filter_weight_sum };
    let mut v = Pixel { color: p.color, filter_weight_sum: p.filter_weight_sum };
    u.merge(&a); u.merge(&b);
    v.merge(&b); v.merge(&a);
    close_s(u.color.r, v.color.r, 100., "the order of tiles does not matter (r)");
    close_s(u.color.g, v.color.g, 100., "the order of tiles does not matter (g)");
    close_s(u.color.b, v.color.b, 100., "the order of tiles does not matter (b)");
    close_s(u.filter_weight_sum, v.filter_weight_sum, 100., "the order of tiles does not matter (weight)");
    close_s(u.color.r, p.color.r + a.color.r + b.color.r, 100., "each tile's colour is added once");
    close_s(u.filter_weight_sum, p.filter_weight_sum + a.filter_weight_sum + b.filter_weight_sum, 100., "each tile's weight is added once");
}
pub fn no_film() -> Film { film_of(0, 0, Vec::new()) }
/// a film to look at
pub fn film_for(w: i32, h: i32) -> Film {
    let n = (w * h) as usize;
    let mut v = Vec::new();
    for _ in 0..n { v.push(Pixel::default()); }
    let mut f = film_of(w, h, v);
    f.filter_radius = 0.5;
    f.filter_table = [[1.; FILTER_TABLE_WIDTH]; FILTER_TABLE_WIDTH];
    f
}
pub fn film_pixel(f: &Film, k: usize) -> (Spectrum, f32) { let p = f.pixels.lock().unwrap(); (p[k].color, p[k].filter_weight_sum) }
