//! Helpers to write and compare images, and norms.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage, Rgba};
use imageproc::math::*;
use imageproc::utils::*;
use imageproc::{assert_dimensions_match, assert_pixels_eq, assert_pixels_eq_within, gray_image, rgb_image, rgba_image};

fn sizes() -> (u32, u32) { [(3u32, 2u32), (1, 4), (4, 1), (0, 3), (3, 0), (0, 0)][pick(0, 5) as usize] }
/// the list of differences, in row order, by any notion of difference
#[no_mangle] pub extern "C" fn q_diffs() {
    forking();
    let (w, h) = sizes();
    let (a, b) = (gray_bits(w, h, 5), gray_bits(w, h, 5));
    diffs(a, b)
}
fn diffs(a: GrayImage, b: GrayImage) {
    let (w, h) = a.dimensions();
    let slack = [0i32, 5][pick(0, 1) as usize];
    let d = pixel_diffs(&a, &b, |p, q| { let d = p.2[0] as i32 - q.2[0] as i32; d > slack || d < -slack });
    let mut i = 0;
    let mut ok = true;
    for y in 0..h { for x in 0..w {
        let (p, q) = (at(&a, x, y), at(&b, x, y));
        let e = p as i32 - q as i32;
        let differs = i < d.len() && d[i].x == x && d[i].y == y;
        ok &= differs == (e > slack || e < -slack);
        if differs { ok &= d[i].actual[0] == p && d[i].expected[0] == q; i += 1 }
    } }
    check(ok && i == d.len(), "every differing pixel with both values, and no other");
}
#[no_mangle] pub extern "C" fn q_summary() {
    forking();
    let (w, h) = [(2u32, 1u32), (1, 2), (0, 2), (2, 2)][pick(0, 3) as usize];
    let a = binary(w, h);
    let (v, u) = if pick(0, 3) == 0 { (w + 1, h) } else { (w, h) };
    let b = binary(v, u);
    let mut equal = w == v && h == u;
    if equal { for y in 0..h { for x in 0..w { if at(&a, x, y) != at(&b, x, y) { equal = false } } } }
    let s = pixel_diff_summary(&a, &b);
    check(s.is_none() == equal, "a summary exactly for images that differ");
    let all = significant_pixel_diff_summary(&a, &b, |_, _| false);
    check(all.is_none() == (w == v && h == u), "insignificant differences are left out, different sizes never");
}
/// the assertions fail exactly if the images differ
fn differs(a: &GrayImage, b: &GrayImage, slack: u8) -> bool {
    if a.dimensions() != b.dimensions() { return true }
    let mut d = false;
    for (p, q) in a.pixels().zip(b.pixels()) { let e = if p[0] > q[0] { p[0] - q[0] } else { q[0] - p[0] }; if e > slack { d = true } }
    d
}
fn pair() -> (GrayImage, GrayImage) {
    let (w, h) = [(2u32, 1u32), (1, 2), (0, 2)][pick(0, 2) as usize];
    let (v, u) = [(w, h), (h, w)][pick(0, 1) as usize];
    let lv = |n: u32, m: u32| GrayImage::from_fn(n, m, |_, _| Luma([[3u8, 10, 11, 255][pick(0, 3) as usize]]));
    (lv(w, h), lv(v, u))
}
#[no_mangle] pub extern "C" fn q_assert_eq() {
    let (a, b) = pair();
    let d = differs(&a, &b, 0);
    if d { expect_panic(true) }
    assert_pixels_eq!(a, b);
    check(!d, "assert_pixels_eq panics for images that differ");
}
#[no_mangle] pub extern "C" fn q_assert_within() {
    let (a, b) = pair();
    let slack = [0u8, 1, 7, 254, 255][pick(0, 4) as usize];
    let d = differs(&a, &b, slack);
    if d { expect_panic(true) }
    assert_pixels_eq_within!(a, b, slack);
    check(!d, "assert_pixels_eq_within panics for images that differ by more than the tolerance");
}
/// any two values and any tolerance
#[no_mangle] pub extern "C" fn q_assert_any() {
    forking();
    let (p, q, slack) = (u8s(), u8s(), u8s());
    let d = if p > q { p - q > slack } else { q - p > slack };
    if d { expect_panic(true) }
    assert_pixels_eq_within!(GrayImage::from_pixel(2, 1, Luma([p])), GrayImage::from_pixel(2, 1, Luma([q])), slack);
    check(!d, "assert_pixels_eq_within panics for images that differ by more than the tolerance");
}
#[no_mangle] pub extern "C" fn q_assert_within_rgb() {
    let slack = pick(0, 2) as u8;
    forking();
    let (a, b) = (Rgb([bits(3) as u8, bits(3) as u8, bits(3) as u8]), Rgb([bits(3) as u8, bits(3) as u8, bits(3) as u8]));
    let mut d = false;
    for c in 0..3 { if a[c].abs_diff(b[c]) > slack { d = true } }
    if d { expect_panic(true) }
    assert_pixels_eq_within!(RgbImage::from_pixel(1, 1, a), RgbImage::from_pixel(1, 1, b), slack);
    check(!d, "any channel counts");
}
#[no_mangle] pub extern "C" fn q_assert_dimensions() {
    let d: Vec<u32> = (0..4).map(|_| pick(0, 2) as u32).collect();
    let same = d[0] == d[2] && d[1] == d[3];
    if !same { expect_panic(true) }
    assert_dimensions_match!(GrayImage::new(d[0], d[1]), GrayImage::new(d[2], d[3]));
    check(same, "assert_dimensions_match panics for different dimensions");
}
/// descriptions of any number of differences anywhere
#[no_mangle] pub extern "C" fn q_describe() {
    let (w, h) = [(1u32, 1u32), (3, 2), (12, 9), (1, 130), (11, 1)][pick(0, 4) as usize];
    let a = GrayImage::from_fn(w, h, |x, y| Luma([(x * 3 + y) as u8]));
    let mut b = a.clone();
    let n = pick(1, 3) as u32;
    for i in 0..n { let (x, y) = ((w - 1) * i / 2, [(h - 1) * i / 2, 0, h - 1][pick(0, 2) as usize]); b.put_pixel(x, y, Luma([254])) }
    let d = pixel_diffs(&a, &b, |p, q| p != q);
    let s = describe_pixel_diffs(&a, &b, &d);
    check(s.starts_with("pixels do not match.") && s.contains("254"), "the description shows the expected values");
}
/// literals: rows separated by semicolons, columns by commas
#[no_mangle] pub extern "C" fn q_literals() {
    let v: Vec<u8> = (0..12).map(|_| u8s()).collect();
    let g = gray_image!(v[0], v[1], v[2]; v[3], v[4], v[5]);
    let mut ok = g.dimensions() == (3, 2);
    for y in 0..2 { for x in 0..3 { ok &= at(&g, x, y) == v[(y * 3 + x) as usize] } }
    let c = rgb_image!([v[0], v[1], v[2]]; [v[3], v[4], v[5]]; [v[6], v[7], v[8]]);
    ok &= c.dimensions() == (1, 3);
    for y in 0..3u32 { let i = y as usize * 3; ok &= *c.get_pixel(0, y) == Rgb([v[i], v[i + 1], v[i + 2]]) }
    let c = rgba_image!([v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]], [v[8], v[9], v[10], v[11]]);
    ok &= c.dimensions() == (3, 1);
    for x in 0..3u32 { let i = x as usize * 4; ok &= *c.get_pixel(x, 0) == Rgba([v[i], v[i + 1], v[i + 2], v[i + 3]]) }
    let t = gray_image!(type: i16, v[0] as i16 - 300, 7; 8, v[1] as i16 * 100);
    ok &= t.dimensions() == (2, 2) && t.get_pixel(0, 0)[0] == v[0] as i16 - 300 && t.get_pixel(1, 1)[0] == v[1] as i16 * 100 && t.get_pixel(1, 0)[0] == 7 && t.get_pixel(0, 1)[0] == 8;
    let t = rgb_image!(type: u32, [v[0] as u32 + 1000, 1, 2], [3, 4, 5]);
    ok &= t.dimensions() == (2, 1) && *t.get_pixel(0, 0) == Rgb([v[0] as u32 + 1000, 1, 2]) && *t.get_pixel(1, 0) == Rgb([3, 4, 5]);
    ok &= gray_image!().dimensions() == (0, 0) && rgb_image!().dimensions() == (0, 0) && rgba_image!(type: f32).dimensions() == (0, 0);
    check(ok, "literals have their values at their places");
}
#[no_mangle] pub extern "C" fn q_norms() {
    let n = pick(0, 4) as usize;
    let v: Vec<i32> = (0..n).map(|_| range(-300, 300) as i32).collect();
    let f: Vec<f32> = v.iter().map(|x| *x as f32 / 4.0).collect();
    let mut s = 0;
    for x in &v { s += if *x < 0 { -*x } else { *x } }
    check(l1_norm(&f) == s as f32 / 4.0, "l1_norm adds the sizes");
}
#[no_mangle] pub extern "C" fn q_l2() {
    let k = bits(8) as i64 as f32 - 128.0;
    let (a, b, c) = ([0.0f32, 3.0, -12.0][pick(0, 2) as usize], [0.0f32, -4.0][pick(0, 1) as usize], [0.5f32, 0.0][pick(0, 1) as usize]);
    let n = l2_norm(&[a, k, b, c]) as f64;
    let q = (a * a + b * b + c * c) as f64 + k as f64 * k as f64;
    check(n >= 0.0 && n * n >= q * 0.99999 && n * n <= q * 1.00001, "l2_norm is the root of the sum of squares");
    check(l2_norm(&[]) == 0.0 && l2_norm(&[k]) == if k < 0.0 { -k } else { k }, "norms of none and one");
}
/// larger images: one arbitrary pixel anywhere
#[no_mangle] pub extern "C" fn q_large_diffs() {
    forking();
    let (w, h) = large();
    let a = big(w, h, 71, 0);
    let mut b = a.clone();
    b.put_pixel((w - 1) * pick(0, 3) as u32 / 3, (h - 1) * pick(0, 3) as u32 / 3, Luma([u8s()]));
    diffs(a, b)
}
#[no_mangle] pub extern "C" fn q_large_assert() {
    forking();
    let (w, h) = large();
    let a = big(w, h, 71, 0);
    let mut b = a.clone();
    let (x, y) = ((w - 1) * pick(0, 2) as u32 / 2, (h - 1) * pick(0, 2) as u32 / 2);
    b.put_pixel(x, y, Luma([u8s()]));
    let slack = [0u8, 9][pick(0, 1) as usize];
    let d = at(&a, x, y).abs_diff(at(&b, x, y)) > slack;
    if d { expect_panic(true) }
    assert_pixels_eq_within!(a, b, slack);
    check(!d, "assert_pixels_eq_within panics for images that differ by more than the tolerance");
}
