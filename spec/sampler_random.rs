fn any_state() -> RandomSampler {
    let mut s = RandomSampler::new(uint(1, 100000));
    s.current_pixel_sample_index = uint(0, 100000);
    s
}
/// The same numbers of samples; values are the generator's (trusted to be in [0,1)).
pub fn h_c06_random_samples() {
    let mut s = any_state();
    let (n, k) = (s.samples_per_pixel, s.current_pixel_sample_index);
    check(s.start_next_sample() == (k + 1 < n), "samples go on until the requested number");
    check(s.current_pixel_sample_index == k + 1, "one sample after the other");
    s.start_pixel(Point2i::new(int(-30000, 30000), int(-30000, 30000)));
    check(s.current_pixel_sample_index == 0 && s.samples_per_pixel == n, "a new pixel restarts at sample 0");
    check(RandomSampler::new(n).samples_per_pixel == n, "the requested number is kept");
    let v = s.get_1d();
    check(v >= 0. && v < 1., "the value is in [0,1)");
    let v = s.get_2d();
    check(v.x >= 0. && v.x < 1. && v.y >= 0. && v.y < 1., "the values are in [0,1)");
}
