/// 2^k or 3^k
fn power(base: u32, k: u32) -> u32 { let mut p = 1; for _ in 0..k { p *= base; } p }
const FAR: i32 = 100000000;
fn any_config() -> (HaltonSampler, i32, i32) {
    let (x0, y0) = (int(-FAR, FAR), int(-FAR, FAR));
    let (w, h) = (int(0, FAR), int(0, FAR));
    let (w, h) = if symbolic() || boolean() { (w, h) } else { (w % 200, h % 200) };
    (HaltonSampler::new(uint(1, 100000), BBox2i { min: Point2i::new(x0, y0), max: Point2i::new(x0 + w, y0 + h) }), w, h)
}
/// digits of a reversed: an uninterpreted value here, see h_c05_reversed_digits
fn via_reversed(base: u32, a: u32, n: u32) -> u32 { reversed(base, a, n) }
fn reversed(base: u32, a: u32, n: u32) -> u32 {
    if symbolic() { return uf_int(if base == 2 { "reversed2" } else { "reversed3" }, &[a as f32], 0, power(base, n) - 1); }
    let (mut x, mut a) = (0, a);
    for _ in 0..n { x = x * base + a % base; a /= base; }
    x
}
/// Each scale is the smallest power of its base that is not below the image size (at most 128).
pub fn h_c05_scales() {
    let (s, w, h) = any_config();
    check(s.base_scale.x == power(2, s.base_exp.x), "the first scale is a power of two");
    check(s.base_scale.y == power(3, s.base_exp.y), "the second scale is a power of three");
    let (w, h) = (if w > 128 { 128 } else { w }, if h > 128 { 128 } else { h });
    check(s.base_scale.x as i32 >= w && s.base_scale.y as i32 >= h, "no scale is below the image size");
    check(s.base_exp.x == 0 || ((s.base_scale.x / 2) as i32) < w, "the first scale is the smallest");
    check(s.base_exp.y == 0 || ((s.base_scale.y / 3) as i32) < h, "the second scale is the smallest");
    check(s.sample_stride == s.base_scale.x * s.base_scale.y, "the stride is the product of the scales");
}
/// wrapped pixel coordinate
fn wrapped(x: i32) -> u32 {
    if symbolic() { return uf_int("wrapped", &[x as f32], 0, 127); }
    let m = x % 128; if m < 0 { (m + 128) as u32 } else { m as u32 }
}
fn identifies(s: &HaltonSampler, p: Point2i) {
    let (a, b) = (power(2, s.base_exp.x), power(3, s.base_exp.y));
    let i = s.interval_sample_index;
    check(i % a == reversed(2, wrapped(p.x), s.base_exp.x), "low binary digits are those of the pixel's column");
    check(i % b == reversed(3, wrapped(p.y), s.base_exp.y), "low ternary digits are those of the pixel's row");
}
fn any_pixel() -> Point2i { Point2i::new(int(-FAR, FAR), int(-FAR, FAR)) }
/// pixel coordinates wrapped, see h_c05_wrapped
fn via_wrapped(x: i32, m: i32) -> u32 { check(m == 128, "coordinates wrap every 128 pixels"); wrapped(x) }
pub fn h_c05_index() {
    stub(inverse_radical_inverse, via_reversed);
    stub(pos_mod, via_wrapped);
    let (mut s, _, _) = any_config();
    no_digits(&s);
    let p = any_pixel();
    s.start_pixel(p);
    identifies(&s, p);
    check(s.interval_sample_index < s.sample_stride, "the first sample is in the first stride");
}
/// of zero, the digits are zero
fn no_digits(s: &HaltonSampler) {
    if symbolic() { assume(reversed(2, 0, s.base_exp.x) == 0); assume(reversed(3, 0, s.base_exp.y) == 0); assume(wrapped(0) == 0); }
}
/// Whatever pixels were visited before, and however often.
pub fn h_c05_history() {
    stub(inverse_radical_inverse, via_reversed);
    stub(pos_mod, via_wrapped);
    let (mut s, _, _) = any_config();
    no_digits(&s);
    let (p, q) = (any_pixel(), any_pixel());
    let mut t = s.clone();
    t.start_pixel(p);
    s.start_pixel(q);
    s.start_next_sample();
    s.start_pixel(p);
    check(s.interval_sample_index == t.interval_sample_index, "the index does not depend on the pixels visited before");
    s.start_next_sample();
    t.start_next_sample();
    check(s.interval_sample_index == t.interval_sample_index, "nor does that of the next sample");
}
/// The k-th sample.
pub fn h_c05_sample_number() {
    stub(inverse_radical_inverse, via_reversed);
    stub(pos_mod, via_wrapped);
    let (mut s, _, _) = any_config();
    no_digits(&s);
    let p = any_pixel();
    s.start_pixel(p);
    let i = s.interval_sample_index;
    let k = uint(0, 138000);
    s.current_pixel_sample_index = k;
    s.start_next_sample();
    check(s.interval_sample_index == i + (k + 1) * (power(2, s.base_exp.x) * power(3, s.base_exp.y)), "samples of a pixel are one stride apart");
}
// a number given by its low digits and the rest
fn any_reversed(base: u32, most: u32) {
    let n = choose(most as usize + 1) as u32;
    let mut d = [0; 8];
    let (mut a, mut e) = (uint(0, 1000000) * power(base, n), 0);
    for i in 0..n {
        d[i as usize] = uint(0, base - 1);
        a += d[i as usize] * power(base, i);
        e += d[i as usize] * power(base, n - 1 - i);
    }
    check(inverse_radical_inverse(base, a, n) == e, "the low digits are reversed");
}
pub fn h_c05_reversed_digits_2() { any_reversed(2, 7) }
pub fn h_c05_reversed_digits_3() { any_reversed(3, 5) }
pub fn h_c05_wrapped() {
    let (x, m) = (int(-2147483647, 2147483647), 128);
    let w = pos_mod(x, m);
    check(w < 128 && (w as i64 - x as i64) % 128 == 0, "coordinates wrap every 128 pixels");
}

// ---------------------------------------------------------------- C06
const PRIMES: [u32; 1024] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 313, 317, 331, 337, 347, 349, 353, 359, 367, 373, 379, 383, 389, 397, 401, 409, 419, 421, 431, 433, 439, 443, 449, 457, 461, 463, 467, 479, 487, 491, 499, 503, 509, 521, 523, 541, 547, 557, 563, 569, 571, 577, 587, 593, 599, 601, 607, 613, 617, 619, 631, 641, 643, 647, 653, 659, 661, 673, 677, 683, 691, 701, 709, 719, 727, 733, 739, 743, 751, 757, 761, 769, 773, 787, 797, 809, 811, 821, 823, 827, 829, 839, 853, 857, 859, 863, 877, 881, 883, 887, 907, 911, 919, 929, 937, 941, 947, 953, 967, 971, 977, 983, 991, 997, 1009, 1013, 1019, 1021, 1031, 1033, 1039, 1049, 1051, 1061, 1063, 1069, 1087, 1091, 1093, 1097, 1103, 1109, 1117, 1123, 1129, 1151, 1153, 1163, 1171, 1181, 1187, 1193, 1201, 1213, 1217, 1223, 1229, 1231, 1237, 1249, 1259, 1277, 1279, 1283, 1289, 1291, 1297, 1301, 1303, 1307, 1319, 1321, 1327, 1361, 1367, 1373, 1381, 1399, 1409, 1423, 1427, 1429, 1433, 1439, 1447, 1451, 1453, 1459, 1471, 1481, 1483, 1487, 1489, 1493, 1499, 1511, 1523, 1531, 1543, 1549, 1553, 1559, 1567, 1571, 1579, 1583, 1597, 1601, 1607, 1609, 1613, 1619, 1621, 1627, 1637, 1657, 1663, 1667, 1669, 1693, 1697, 1699, 1709, 1721, 1723, 1733, 1741, 1747, 1753, 1759, 1777, 1783, 1787, 1789, 1801, 1811, 1823, 1831, 1847, 1861, 1867, 1871, 1873, 1877, 1879, 1889, 1901, 1907, 1913, 1931, 1933, 1949, 1951, 1973, 1979, 1987, 1993, 1997, 1999, 2003, 2011, 2017, 2027, 2029, 2039, 2053, 2063, 2069, 2081, 2083, 2087, 2089, 2099, 2111, 2113, 2129, 2131, 2137, 2141, 2143, 2153, 2161, 2179, 2203, 2207, 2213, 2221, 2237, 2239, 2243, 2251, 2267, 2269, 2273, 2281, 2287, 2293, 2297, 2309, 2311, 2333, 2339, 2341, 2347, 2351, 2357, 2371, 2377, 2381, 2383, 2389, 2393, 2399, 2411, 2417, 2423, 2437, 2441, 2447, 2459, 2467, 2473, 2477, 2503, 2521, 2531, 2539, 2543, 2549, 2551, 2557, 2579, 2591, 2593, 2609, 2617, 2621, 2633, 2647, 2657, 2659, 2663, 2671, 2677, 2683, 2687, 2689, 2693, 2699, 2707, 2711, 2713, 2719, 2729, 2731, 2741, 2749, 2753, 2767, 2777, 2789, 2791, 2797, 2801, 2803, 2819, 2833, 2837, 2843, 2851, 2857, 2861, 2879, 2887, 2897, 2903, 2909, 2917, 2927, 2939, 2953, 2957, 2963, 2969, 2971, 2999, 3001, 3011, 3019, 3023, 3037, 3041, 3049, 3061, 3067, 3079, 3083, 3089, 3109, 3119, 3121, 3137, 3163, 3167, 3169, 3181, 3187, 3191, 3203, 3209, 3217, 3221, 3229, 3251, 3253, 3257, 3259, 3271, 3299, 3301, 3307, 3313, 3319, 3323, 3329, 3331, 3343, 3347, 3359, 3361, 3371, 3373, 3389, 3391, 3407, 3413, 3433, 3449, 3457, 3461, 3463, 3467, 3469, 3491, 3499, 3511, 3517, 3527, 3529, 3533, 3539, 3541, 3547, 3557, 3559, 3571, 3581, 3583, 3593, 3607, 3613, 3617, 3623, 3631, 3637, 3643, 3659, 3671, 3673, 3677, 3691, 3697, 3701, 3709, 3719, 3727, 3733, 3739, 3761, 3767, 3769, 3779, 3793, 3797, 3803, 3821, 3823, 3833, 3847, 3851, 3853, 3863, 3877, 3881, 3889, 3907, 3911, 3917, 3919, 3923, 3929, 3931, 3943, 3947, 3967, 3989, 4001, 4003, 4007, 4013, 4019, 4021, 4027, 4049, 4051, 4057, 4073, 4079, 4091, 4093, 4099, 4111, 4127, 4129, 4133, 4139, 4153, 4157, 4159, 4177, 4201, 4211, 4217, 4219, 4229, 4231, 4241, 4243, 4253, 4259, 4261, 4271, 4273, 4283, 4289, 4297, 4327, 4337, 4339, 4349, 4357, 4363, 4373, 4391, 4397, 4409, 4421, 4423, 4441, 4447, 4451, 4457, 4463, 4481, 4483, 4493, 4507, 4513, 4517, 4519, 4523, 4547, 4549, 4561, 4567, 4583, 4591, 4597, 4603, 4621, 4637, 4639, 4643, 4649, 4651, 4657, 4663, 4673, 4679, 4691, 4703, 4721, 4723, 4729, 4733, 4751, 4759, 4783, 4787, 4789, 4793, 4799, 4801, 4813, 4817, 4831, 4861, 4871, 4877, 4889, 4903, 4909, 4919, 4931, 4933, 4937, 4943, 4951, 4957, 4967, 4969, 4973, 4987, 4993, 4999, 5003, 5009, 5011, 5021, 5023, 5039, 5051, 5059, 5077, 5081, 5087, 5099, 5101, 5107, 5113, 5119, 5147, 5153, 5167, 5171, 5179, 5189, 5197, 5209, 5227, 5231, 5233, 5237, 5261, 5273, 5279, 5281, 5297, 5303, 5309, 5323, 5333, 5347, 5351, 5381, 5387, 5393, 5399, 5407, 5413, 5417, 5419, 5431, 5437, 5441, 5443, 5449, 5471, 5477, 5479, 5483, 5501, 5503, 5507, 5519, 5521, 5527, 5531, 5557, 5563, 5569, 5573, 5581, 5591, 5623, 5639, 5641, 5647, 5651, 5653, 5657, 5659, 5669, 5683, 5689, 5693, 5701, 5711, 5717, 5737, 5741, 5743, 5749, 5779, 5783, 5791, 5801, 5807, 5813, 5821, 5827, 5839, 5843, 5849, 5851, 5857, 5861, 5867, 5869, 5879, 5881, 5897, 5903, 5923, 5927, 5939, 5953, 5981, 5987, 6007, 6011, 6029, 6037, 6043, 6047, 6053, 6067, 6073, 6079, 6089, 6091, 6101, 6113, 6121, 6131, 6133, 6143, 6151, 6163, 6173, 6197, 6199, 6203, 6211, 6217, 6221, 6229, 6247, 6257, 6263, 6269, 6271, 6277, 6287, 6299, 6301, 6311, 6317, 6323, 6329, 6337, 6343, 6353, 6359, 6361, 6367, 6373, 6379, 6389, 6397, 6421, 6427, 6449, 6451, 6469, 6473, 6481, 6491, 6521, 6529, 6547, 6551, 6553, 6563, 6569, 6571, 6577, 6581, 6599, 6607, 6619, 6637, 6653, 6659, 6661, 6673, 6679, 6689, 6691, 6701, 6703, 6709, 6719, 6733, 6737, 6761, 6763, 6779, 6781, 6791, 6793, 6803, 6823, 6827, 6829, 6833, 6841, 6857, 6863, 6869, 6871, 6883, 6899, 6907, 6911, 6917, 6947, 6949, 6959, 6961, 6967, 6971, 6977, 6983, 6991, 6997, 7001, 7013, 7019, 7027, 7039, 7043, 7057, 7069, 7079, 7103, 7109, 7121, 7127, 7129, 7151, 7159, 7177, 7187, 7193, 7207, 7211, 7213, 7219, 7229, 7237, 7243, 7247, 7253, 7283, 7297, 7307, 7309, 7321, 7331, 7333, 7349, 7351, 7369, 7393, 7411, 7417, 7433, 7451, 7457, 7459, 7477, 7481, 7487, 7489, 7499, 7507, 7517, 7523, 7529, 7537, 7541, 7547, 7549, 7559, 7561, 7573, 7577, 7583, 7589, 7591, 7603, 7607, 7621, 7639, 7643, 7649, 7669, 7673, 7681, 7687, 7691, 7699, 7703, 7717, 7723, 7727, 7741, 7753, 7757, 7759, 7789, 7793, 7817, 7823, 7829, 7841, 7853, 7867, 7873, 7877, 7879, 7883, 7901, 7907, 7919, 7927, 7933, 7937, 7949, 7951, 7963, 7993, 8009, 8011, 8017, 8039, 8053, 8059, 8069, 8081, 8087, 8089, 8093, 8101, 8111, 8117, 8123, 8147, 8161];
/// a radical inverse: an uninterpreted value in [0,1) here, see h_c06_radical_inverse
fn via_radical(base: u32, a: u32) -> f32 {
    emit("radical", &[base as f32, a as f32]);
    uf("radical", &[base as f32, a as f32])
}
/// Every dimension has its own prime.
pub fn h_c06_primes() {
    reset_trace();
    stub(radical_inverse, via_radical);
    let (d, a) = (choose(1024), uint(0, 4294967295));
    let v = radical_inverse_prime(d as u32, a);
    if symbolic() {
        check(emitted("radical") == 1 && event("radical", 0, 0) == PRIMES[d] as f32, "dimension d uses the d-th prime");
        check(event("radical", 0, 1) == a as f32, "of the index");
        check(v == uf("radical", &[PRIMES[d] as f32, a as f32]), "the value is the radical inverse");
    } else {
        check(v == radical_inverse(PRIMES[d], a), "the value is the radical inverse");
    }
}
/// The radical inverse in a base: 0 for 0, else (last digit + that of the other digits) / base.
fn mirrored(base: u32, a: u32) -> f32 {
    let v = uf("mirrored", &[base as f32, a as f32]);
    assume(v >= 0.); assume(v < 1.);
    v
}
fn mirrored_is_defined(base: u32, a: u32) {
    if a == 0 { assume(mirrored(base, 0) == 0.); }
    else { assume(mirrored(base, a) * base as f32 == (a % base) as f32 + mirrored(base, a / base)); }
}
fn any_digits(x: &mut u64, base_n: &mut u64, a: &mut u32) { *x = any_value(); *base_n = any_value(); *a = any_value(); }
fn digits_so_far(x: u64, base_n: u64, a: u32, base: u32, old_a: u32) {
    invariant(base_n >= 1, "the power is positive");
    invariant(x < base_n, "the mirrored digits are below their power");
    invariant(a == 0 || base_n as f32 * a as f32 <= old_a as f32, "the power and the digits left make no more than the number");
    invariant(base_n as f32 <= old_a as f32 * base as f32 || base_n == 1, "the power stays small");
    mirrored_is_defined(base, a);
    invariant(mirrored(base, old_a) * base_n as f32 == x as f32 + mirrored(base, a), "mirrored digits so far");
    decreases(a as usize);
}
/// The radical inverse of every 32-bit number in every base up to the largest supported prime.
pub fn h_c06_radical_inverse() {
    loop_contract(radical_inverse, 0, any_digits, digits_so_far);
    let (base, a) = (uint(2, 8161), uint(0, 4294967295));
    let v = radical_inverse(base, a);
    check(v >= 0. && v < 1., "the value is in [0,1)");
    if symbolic() {
        mirrored_is_defined(base, 0);
        let e = mirrored(base, a);
        if e <= ONE_MINUS_EPSILON { check(v == e, "digits are mirrored at the radix point"); }
        else { check(v == ONE_MINUS_EPSILON, "the largest values stay the largest"); }
    } else {
        let (mut r, mut n, mut m) = (a, 0u64, 1u64);
        while r > 0 {
            n = n * base as u64 + (r % base) as u64;
            m *= base as u64;
            r /= base;
        }
        let e = (n as f64 / m as f64) as f32;
        if e <= ONE_MINUS_EPSILON { close(v, e, "digits are mirrored at the radix point"); }
        else { check(v == ONE_MINUS_EPSILON, "the largest values stay the largest"); }
    }
}
/// any state a sampler can be in
fn any_state() -> HaltonSampler {
    let (ex, ey) = (choose(8) as u32, choose(6) as u32);
    let mut s = HaltonSampler::new(uint(1, 100000), BBox2i { min: Point2i::new(0, 0), max: Point2i::new(1 << ex, power(3, ey) as i32) });
    s.current_pixel = any_pixel();
    s.pixel_for_offset = s.current_pixel;
    s.current_pixel_sample_index = uint(0, 100000);
    s.offset_for_current_pixel = uint(0, 31103);
    s.interval_sample_index = uint(0, 4294967295);
    s.dimension = uint(0, 1000);
    s
}
fn dimension_value(d: u32, i: u32) -> f32 {
    if symbolic() { let v = uf("dimension", &[d as f32, i as f32]); assume(v >= 0.); assume(v < 1.); v } else { radical_inverse(PRIMES[d as usize], i) }
}
fn via_dimension(d: u32, i: u32) -> f32 { dimension_value(d, i) }
/// dimension d of sample i, with the pixel's digits removed
fn halton(s: &HaltonSampler, d: u32, i: u32) -> f32 {
    let i = if d == 0 { i / power(2, s.base_exp.x) } else if d == 1 { i / power(3, s.base_exp.y) } else { i };
    dimension_value(d, i)
}
pub fn h_c06_dimensions() {
    stub(radical_inverse_prime, via_dimension);
    let mut s = any_state();
    let (d, i) = (s.dimension, s.interval_sample_index);
    let one = boolean();
    if one {
        let v = s.get_1d();
        check(v == halton(&s, d, i), "one dimension gives the next value");
        check(s.dimension == d + 1, "one dimension is consumed");
        check(v >= 0. && v < 1., "the value is in [0,1)");
    } else {
        let v = s.get_2d();
        check(v.x == halton(&s, d, i), "two dimensions give the next value first");
        check(v.y == halton(&s, d + 1, i), "two dimensions give the value after it second");
        check(s.dimension == d + 2, "two dimensions are consumed");
        check(v.x >= 0. && v.x < 1. && v.y >= 0. && v.y < 1., "the values are in [0,1)");
    }
    check(s.interval_sample_index == i, "within the same sample");
}
pub fn h_c06_samples() {
    let mut s = any_state();
    let (n, k) = (s.samples_per_pixel, s.current_pixel_sample_index);
    check(s.start_next_sample() == (k + 1 < n), "samples go on until the requested number");
    check(s.current_pixel_sample_index == k + 1, "one sample after the other");
    check(s.dimension == 0, "a new sample restarts at dimension 0");
}
pub fn h_c06_pixel() {
    stub(inverse_radical_inverse, via_reversed);
    stub(pos_mod, via_wrapped);
    let mut s = any_state();
    let n = s.samples_per_pixel;
    s.start_pixel(any_pixel());
    check(s.dimension == 0, "a new pixel restarts at dimension 0");
    check(s.current_pixel_sample_index == 0 && s.samples_per_pixel == n, "a new pixel restarts at sample 0");
}
pub fn h_c06_camera_sample() {
    stub(radical_inverse_prime, via_dimension);
    let mut s = any_state();
    let (d, i) = (s.dimension, s.interval_sample_index);
    let p = Point2i::new(int(-30000, 30000), int(-30000, 30000));
    let c = s.get_camera_sample(p);
    close(c.p_film.x, p.x as f32 + halton(&s, d, i), "the camera sample is the pixel plus the next value");
    close(c.p_film.y, p.y as f32 + halton(&s, d + 1, i), "the camera sample is the pixel plus the value after it");
    check(s.dimension == d + 2, "the camera sample consumes two dimensions");
}
