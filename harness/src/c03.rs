//! The algebra of projections.
use crate::sym::*;
use imageproc::geometric_transformations::Projection;

fn f(lo: i64, hi: i64) -> f32 { range(lo, hi) as f32 }
/// a projection of one of the public constructors with small parameters, all exact in f32
fn family(k: i64) -> Projection {
    match k {
        0 => Projection::translate(f(-9, 9), f(-9, 9)),
        1 => Projection::scale([1.0, 2.0, -0.5, -1.0][pick(0, 3) as usize], [1.0, 0.25, -4.0][pick(0, 2) as usize]),
        2 => Projection::from_matrix([[0., -1., 3., 1., 0., -2., 0., 0., 1.], [1., 2., -1., 0., 1., 4., 0., 0., 1.], [2., 1., 0., 1., 1., 5., 0., 0., 1.]][pick(0, 2) as usize]).unwrap(),
        _ => Projection::from_matrix([[1., 0., 0., 0., 1., 0., 1., 0., 1.], [1., 0., 0., 0., 0., 1., 0., 1., 1.], [0., 0., 1., 0., 1., 0., 1., 0., 0.], [0., 1., 0., 0., 0., 1., 1., 0., 0.], [2., 0., 2., 0., 2., 4., 0., 0., 2.]][pick(0, 4) as usize]).unwrap(),
    }
}
fn pt() -> (f32, f32) { (f(-8, 7), f(-8, 7)) }
fn eq(a: (f32, f32), b: (f32, f32)) -> bool { a.0 == b.0 && a.1 == b.1 }

#[no_mangle] pub extern "C" fn q_translate_any() {
    // every f32 bit pattern
    let (tx, ty, x, y) = (f32s(), f32s(), f32s(), f32s());
    let r = Projection::translate(tx, ty) * (x, y);
    let (wx, wy) = (x + tx, y + ty);
    check(r.0.to_bits() == wx.to_bits() || (r.0.is_nan() && wx.is_nan()), "translate adds tx");
    check(r.1.to_bits() == wy.to_bits() || (r.1.is_nan() && wy.is_nan()), "translate adds ty");
    let r = Projection::translate(tx, ty).invert() * (x, y);
    let wx = x - tx;
    check(r.0.to_bits() == wx.to_bits() || (r.0.is_nan() && wx.is_nan()), "the inverse translation subtracts");
}
#[no_mangle] pub extern "C" fn q_scale_maps() {
    let p = family(1);
    let v = pt();
    let r = p * v; let o = p * (1.0, 1.0);
    check(r.0 == v.0 * o.0 && r.1 == v.1 * o.1, "scale multiplies");
    check(eq(p.invert() * r, v), "the inverse scale undoes");
    check(eq(p.invert().invert() * v, r), "inverting twice");
}
#[no_mangle] pub extern "C" fn q_compose_affine() {
    let (i, j) = (pick(0, 2), pick(0, 2));
    let (a, b) = (family(i), family(j));
    let v = pt();
    let two = a * (b * v);
    check(eq((a * b) * v, two), "composition applies the right factor first");
    check(eq(b.and_then(a) * v, two), "and_then applies the argument second");
    check(eq((a * b).invert() * two, v), "the inverse of a composition");
    check(eq(&(&a * &b) * &v, two), "by reference");
}
#[no_mangle] pub extern "C" fn q_inverse_affine() {
    let a = family(pick(0, 2));
    let v = pt();
    check(eq(a.invert() * (a * v), v), "inverse after");
    check(eq(a * (a.invert() * v), v), "inverse before");
    check(eq((a * a.invert()) * v, v), "product with the inverse is the identity");
}
#[no_mangle] pub extern "C" fn q_projective() {
    // genuinely projective maps at concrete points: the homogeneous division is not exact for arbitrary ones
    let k = pick(0, 4) as usize;
    let m: [f32; 9] = [[1., 0., 0., 0., 1., 0., 1., 0., 1.], [1., 0., 0., 0., 0., 1., 0., 1., 1.], [0., 0., 1., 0., 1., 0., 1., 0., 0.], [0., 1., 0., 0., 0., 1., 1., 0., 0.], [2., 0., 2., 0., 2., 4., 0., 0., 2.]][k];
    let p = Projection::from_matrix(m).unwrap();
    let (x, y) = (pick(-3, 3) as f32, pick(-3, 3) as f32);
    let d = m[6] * x + m[7] * y + m[8];
    if d != 0.0 {
        let want = ((m[0] * x + m[1] * y + m[2]) / d, (m[3] * x + m[4] * y + m[5]) / d);
        let got = p * (x, y);
        let close = |a: (f32, f32), b: (f32, f32)| (a.0 - b.0).abs() <= 1e-3 && (a.1 - b.1).abs() <= 1e-3;
        check(close(got, want), "homogeneous division");
        check(close(p.invert() * got, (x, y)) || want.0.abs() + want.1.abs() < 1e-9 && m[8] == 0.0, "the inverse undoes a projective map");
        let q = Projection::translate(2.0, -1.0);
        check(close((q * p) * (x, y), (got.0 + 2.0, got.1 - 1.0)), "translation after a projective map");
        let r = p * q;
        let e = p * (x + 2.0, y - 1.0);
        check(close(r * (x, y), e) || !e.0.is_finite() || !e.1.is_finite(), "translation before a projective map");
        cover(m[8] == 0.0, "last coefficient zero");
    }
}
fn entries(lo: i64, hi: i64, m8: f32) -> ([f32; 9], i64) {
    let mut t = [0i64; 9];
    for i in 0..6 { t[i] = range(lo, hi) }
    t[6] = pick(-1, 1); t[7] = pick(-1, 1);
    t[8] = m8 as i64;
    let det = t[0] * (t[4] * t[8] - t[5] * t[7]) - t[1] * (t[3] * t[8] - t[5] * t[6]) + t[2] * (t[3] * t[7] - t[4] * t[6]);
    let mut m = [0f32; 9];
    for i in 0..9 { m[i] = t[i] as f32 }
    (m, det)
}
#[no_mangle] pub extern "C" fn q_singular() {
    // arbitrary integer matrices: None exactly for the singular ones
    merging(false);
    let (m, det) = entries(-1, 2, pick(-1, 1) as f32);
    let some = Projection::from_matrix(m).is_some();
    if some { check(det != 0, "a projection exists only for an invertible matrix"); cover(true, "invertible") }
    else { check(det == 0, "an invertible matrix has a projection"); cover(true, "singular") }
}
/// every affine matrix of small integers (also scaled as a whole) maps as its entries say, whatever its zeros
#[no_mangle] pub extern "C" fn q_matrix_maps() {
    merging(false);
    let m8 = [1.0f32, 2.0, -4.0][pick(0, 2) as usize];
    let mut t = [0f32; 9];
    for i in 0..6 { t[i] = f(-1, 2) }
    t[8] = 1.0;
    let mut m = t;
    for i in 0..9 { m[i] *= m8 }
    let (x, y) = [(3f32, 5f32), (-2., 1.)][pick(0, 1) as usize];
    if let Some(p) = Projection::from_matrix(m) {
        check(eq(p * (x, y), (t[0] * x + t[1] * y + t[2], t[3] * x + t[4] * y + t[5])), "a matrix maps points as its entries say");
        check(eq(p.invert().invert() * (x, y), p * (x, y)), "inverting twice");
    }
}
/// shears and mirrored shears: exact inverses
#[no_mangle] pub extern "C" fn q_shears() {
    let (k, (a, b)) = (pick(-2, 3) as f32, [(0f32, 0f32), (3., -2.), (-1., 0.)][pick(0, 2) as usize]);
    let (sx, sy) = ([1f32, -1.][pick(0, 1) as usize], [1f32, -1., 2.][pick(0, 2) as usize]);
    let m = if pick(0, 1) == 0 { [sx, k, a, 0., sy, b, 0., 0., 1.] } else { [sx, 0., a, k, sy, b, 0., 0., 1.] };
    let p = match Projection::from_matrix(m) { Some(p) => p, None => { check(false, "an invertible matrix has a projection"); return } };
    let v = pt();
    let w = (m[0] * v.0 + m[1] * v.1 + m[2], m[3] * v.0 + m[4] * v.1 + m[5]);
    check(eq(p * v, w), "a matrix maps points as its entries say");
    check(eq(p.invert() * w, v), "inverse after");
    let q = Projection::translate(2.0, -1.0);
    check(eq((q * p) * v, (w.0 + 2.0, w.1 - 1.0)), "composition applies the right factor first");
    check(eq(q.and_then(p) * (v.0 - 2.0, v.1 + 1.0), w), "and_then applies the argument second");
}
#[no_mangle] pub extern "C" fn q_rotate() {
    let k = pick(0, 4) as f32;
    let p = Projection::rotate(k * std::f32::consts::FRAC_PI_2);
    let v = (pick(-3, 3) as f32, pick(-3, 3) as f32);
    let want = match k as i32 % 4 { 0 => v, 1 => (-v.1, v.0), 2 => (-v.0, -v.1), _ => (v.1, -v.0) };
    let close = |a: (f32, f32), b: (f32, f32)| (a.0 - b.0).abs() <= 1e-4 && (a.1 - b.1).abs() <= 1e-4;
    let r = p * v;
    check(close(r, want), "rotation by right angles, clockwise with y down");
    check(close(p.invert() * r, v), "the inverse rotation");
}
#[no_mangle] pub extern "C" fn q_control_points() {
    // translations, scalings and a shear recovered from four corners
    let (tx, ty) = (pick(-2, 2) as f32, pick(-2, 2) as f32);
    let s = [1.0, 2.0][pick(0, 1) as usize];
    let from = [(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0)];
    let g = |p: (f32, f32)| (p.0 * s + tx + p.1, p.1 + ty);
    let to = [g(from[0]), g(from[1]), g(from[2]), g(from[3])];
    match Projection::from_control_points(from, to) {
        None => check(false, "control points in general position have a projection"),
        Some(p) => { let mut r = true; for i in 0..4 { let q = p * from[i]; r &= (q.0 - to[i].0).abs() < 1e-2 && (q.1 - to[i].1).abs() < 1e-2; let b = p.invert() * to[i]; r &= (b.0 - from[i].0).abs() < 1e-2 && (b.1 - from[i].1).abs() < 1e-2 } check(r, "control points are mapped onto their targets") }
    }
}
