pub fn any_matrix() -> Matrix {
    Matrix::new(real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real())
}
pub fn any_affine_matrix() -> Matrix {
    Matrix::new(real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), real(), 0., 0., 0., 1.)
}
/// Leibniz determinant, and the sum of absolute values of its terms
pub fn det(m: &Matrix) -> (f32, f32) {
    let p = [([0, 1, 2, 3], 1.), ([0, 1, 3, 2], -1.), ([0, 2, 1, 3], -1.), ([0, 2, 3, 1], 1.), ([0, 3, 1, 2], 1.), ([0, 3, 2, 1], -1.),
             ([1, 0, 2, 3], -1.), ([1, 0, 3, 2], 1.), ([1, 2, 0, 3], 1.), ([1, 2, 3, 0], -1.), ([1, 3, 0, 2], -1.), ([1, 3, 2, 0], 1.),
             ([2, 0, 1, 3], 1.), ([2, 0, 3, 1], -1.), ([2, 1, 0, 3], -1.), ([2, 1, 3, 0], 1.), ([2, 3, 0, 1], 1.), ([2, 3, 1, 0], -1.),
             ([3, 0, 1, 2], -1.), ([3, 0, 2, 1], 1.), ([3, 1, 0, 2], 1.), ([3, 1, 2, 0], -1.), ([3, 2, 0, 1], -1.), ([3, 2, 1, 0], 1.)];
    let (mut d, mut a) = (0., 0.);
    let mut k = 0;
    while k < 24 {
        let (q, s) = p[k];
        let t = s * m.m[0][q[0]] * m.m[1][q[1]] * m.m[2][q[2]] * m.m[3][q[3]];
        d += t;
        if !symbolic() { a += t.abs(); }
        k += 1;
    }
    (d, a)
}
pub fn mulm(a: &Matrix, b: &Matrix, i: usize, j: usize) -> f32 { a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j] + a.m[i][3] * b.m[3][j] }
pub fn mag(a: &Matrix, b: &Matrix, i: usize, j: usize) -> f32 { a.m[i][0].abs() * b.m[0][j].abs() + a.m[i][1].abs() * b.m[1][j].abs() + a.m[i][2].abs() * b.m[2][j].abs() + a.m[i][3].abs() * b.m[3][j].abs() }
/// ensures a * b == identity
pub fn identity(a: &Matrix, b: &Matrix, label: &'static str) {
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            close_s(mulm(a, b, i, j), if i == j { 1. } else { 0. }, if symbolic() { 1. } else { 1. + mag(a, b, i, j) }, label);
            j += 1;
        }
        i += 1;
    }
}
/// requires a * b == identity (natively: b is made so)
pub fn assume_identity(a: &Matrix, b: &Matrix) {
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            assume(mulm(a, b, i, j) == if i == j { 1. } else { 0. });
            j += 1;
        }
        i += 1;
    }
}
/// native: Gauss-Jordan in double precision, None if ill conditioned
pub fn native_inverse(a: &Matrix) -> Option<Matrix> {
    let mut w = [[0f64; 8]; 4];
    for i in 0..4 { for j in 0..4 { w[i][j] = a.m[i][j] as f64; } w[i][4 + i] = 1.; }
    for c in 0..4 {
        let mut p = c;
        for i in c..4 { if w[i][c].abs() > w[p][c].abs() { p = i; } }
        if w[p][c].abs() < 0.03 { return None; }
        w.swap(c, p);
        let d = w[c][c];
        for j in 0..8 { w[c][j] /= d; }
        for i in 0..4 { if i != c { let f = w[i][c]; for j in 0..8 { w[i][j] -= f * w[c][j]; } } }
    }
    let mut r = Matrix::default();
    for i in 0..4 { for j in 0..4 { r.m[i][j] = w[i][4 + j] as f32; } }
    Some(r)
}
pub fn h_c08_matrix_inverse() {
    let m = any_matrix();
    let (d, a) = det(&m);
    assume(d != 0.);
    native_assume(d.abs() > 0.02 * a && d.abs() > 1e-3);
    let r = m.inverse();
    identity(&m, &r, "matrix times its inverse is the identity");
    identity(&r, &m, "inverse times the matrix is the identity");
}
pub fn h_c08_matrix_transpose() {
    let m = any_matrix();
    let t = m.transpose();
    let (i, j) = (choose(4), choose(4));
    check(t[i][j] == m[j][i], "transposed entry");
}
pub fn h_c08_matrix_ops() {
    let (a, b) = (any_matrix(), any_matrix());
    let (i, j) = (choose(4), choose(4));
    let p = a * b;
    close_s(p[i][j], mulm(&a, &b, i, j), mag(&a, &b, i, j), "product entry");
    let k = real();
    assume(k != 0.);
    native_assume(k.abs() > 0.01);
    let q = a / k;
    close(q[i][j], a.m[i][j] / k, "quotient entry");
    let v = Matrix::new(1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11., 12., 13., 14., 15., 16.);
    check(v[i][j] == (i * 4 + j + 1) as f32, "new stores rows");
    let mut w = v; w[i][j] = k;
    check(w[i][j] == k && w[(i + 1) % 4][j] == v[(i + 1) % 4][j], "indexed assignment");
}
