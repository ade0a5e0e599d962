//! Reference operations on plain arrays (independent of the library).
/// bounds that depend on the width of the component type (check.py analyses the rules at f32 too)
pub const WIDE: bool = core::mem::size_of::<f64>() == 8;
pub fn tol(wide: f64, narrow: f64) -> f64 { if WIDE { wide } else { narrow } }
pub fn dotn<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 { let mut s = 0.0; let mut i = 0; while i < N { s += a[i] * b[i]; i += 1; } s }
pub fn mm<const N: usize>(a: [[f64; N]; N], b: [[f64; N]; N]) -> [[f64; N]; N] {
    let mut r = [[0.0; N]; N];
    let mut i = 0;
    while i < N { let mut j = 0; while j < N { let mut k = 0; while k < N { r[i][j] += a[i][k] * b[k][j]; k += 1; } j += 1; } i += 1; }
    r
}
pub fn mv<const N: usize>(a: [[f64; N]; N], v: [f64; N]) -> [f64; N] {
    let mut r = [0.0; N];
    let mut i = 0;
    while i < N { let mut k = 0; while k < N { r[i] += a[i][k] * v[k]; k += 1; } i += 1; }
    r
}
pub fn vm<const N: usize>(v: [f64; N], a: [[f64; N]; N]) -> [f64; N] { mv(tr(a), v) }
pub fn tr<T: Copy, const N: usize>(a: [[T; N]; N]) -> [[T; N]; N] {
    let mut r = a;
    let mut i = 0;
    while i < N { let mut j = 0; while j < N { r[i][j] = a[j][i]; j += 1; } i += 1; }
    r
}
pub fn id<const N: usize>() -> [[f64; N]; N] { let mut r = [[0.0; N]; N]; let mut i = 0; while i < N { r[i][i] = 1.0; i += 1; } r }
/// signed sum over permutations (expansion along the first remaining row)
pub fn det<const N: usize>(a: &[[f64; N]; N]) -> f64 { let used = [false; N]; detr(a, 0, used) }
fn detr<const N: usize>(a: &[[f64; N]; N], row: usize, used: [bool; N]) -> f64 {
    if row == N { return 1.0; }
    let (mut s, mut sign, mut c) = (0.0, 1.0, 0);
    while c < N {
        if !used[c] {
            let mut u = used;
            u[c] = true;
            s += sign * a[row][c] * detr(a, row + 1, u);
            sign = -sign;
        }
        c += 1;
    }
    s
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
/// Hamilton product of [w, x, y, z]
pub fn qm(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
     a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
     a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
     a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]
}
pub fn qc(a: [f64; 4]) -> [f64; 4] { [a[0], -a[1], -a[2], -a[3]] }
/// vector part of q v q*
pub fn qrot(q: [f64; 4], v: [f64; 3]) -> [f64; 3] { let r = qm(qm(q, [0.0, v[0], v[1], v[2]]), qc(q)); [r[1], r[2], r[3]] }
/// rotation matrix of a unit quaternion, column by column
pub fn qmat(q: [f64; 4]) -> [[f64; 3]; 3] { tr([qrot(q, [1.0, 0.0, 0.0]), qrot(q, [0.0, 1.0, 0.0]), qrot(q, [0.0, 0.0, 1.0])]) }
pub fn rx(a: f64) -> [[f64; 3]; 3] { let (s, c) = (a.sin(), a.cos()); [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]] }
pub fn ry(a: f64) -> [[f64; 3]; 3] { let (s, c) = (a.sin(), a.cos()); [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]] }
pub fn rz(a: f64) -> [[f64; 3]; 3] { let (s, c) = (a.sin(), a.cos()); [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]] }
pub fn skew(w: [f64; 3]) -> [[f64; 3]; 3] { [[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]] }
pub fn madd<const N: usize>(a: [[f64; N]; N], b: [[f64; N]; N]) -> [[f64; N]; N] { let mut r = a; let mut i = 0; while i < N { let mut j = 0; while j < N { r[i][j] = a[i][j] + b[i][j]; j += 1; } i += 1; } r }
pub fn mscale<const N: usize>(a: [[f64; N]; N], s: f64) -> [[f64; N]; N] { let mut r = a; let mut i = 0; while i < N { let mut j = 0; while j < N { r[i][j] = a[i][j] * s; j += 1; } i += 1; } r }
pub fn homog(r: [[f64; 3]; 3], p: [f64; 3]) -> [[f64; 4]; 4] { [[r[0][0], r[0][1], r[0][2], p[0]], [r[1][0], r[1][1], r[1][2], p[1]], [r[2][0], r[2][1], r[2][2], p[2]], [0.0, 0.0, 0.0, 1.0]] }
/// precondition: q is a unit quaternion
pub fn unit(q: [f64; 4]) { crate::smrt::sqr_is(q[0], 1.0 - q[1] * q[1] - q[2] * q[2] - q[3] * q[3]); }
pub fn unit3(u: [f64; 3]) { crate::smrt::sqr_is(u[0], 1.0 - u[1] * u[1] - u[2] * u[2]); }
