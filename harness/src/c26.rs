//! Template matching.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::definitions::Image;
use imageproc::template_matching::*;
use MatchTemplateMethod as M;

fn px<T: image::Primitive>(i: &Image<Luma<T>>, x: u32, y: u32) -> T { i.get_pixel(x, y)[0] }

fn method(k: i64) -> M { [M::SumOfSquaredErrors, M::CrossCorrelation, M::SumOfSquaredErrorsNormalized, M::CrossCorrelationNormalized][k as usize] }
/// the plain sums of the documentation
fn sums(i: &GrayImage, t: &GrayImage, m: &GrayImage, x: u32, y: u32) -> (i64, i64, i64, i64) {
    let (mut sse, mut cc, mut tt, mut ii) = (0i64, 0i64, 0i64, 0i64);
    for v in 0..t.height() { for u in 0..t.width() {
        let (a, b, k) = (at(i, x + u, y + v) as i64, at(t, u, v) as i64, at(m, u, v) as i64);
        sse += (b - a) * (b - a) * k * k;
        cc += a * b * k * k;
        tt += b * b * k * k;
        ii += a * a * k * k;
    } }
    (sse, cc, tt, ii)
}
fn all_ones(t: &GrayImage) -> GrayImage { GrayImage::from_pixel(t.width(), t.height(), Luma([1])) }
fn near(got: f32, want: f64) -> bool { (got as f64 - want).abs() <= 1e-4 * (1.0 + want.abs()) }
fn expected(k: i64, s: (i64, i64, i64, i64)) -> f64 {
    let norm = ((s.2 as f64) * (s.3 as f64)).sqrt();
    let v = if k % 2 == 0 { s.0 } else { s.1 } as f64;
    if k < 2 || norm == 0.0 { v } else { v / norm }
}
fn judge(k: i64, i: &GrayImage, t: &GrayImage, m: Option<&GrayImage>, exact: bool) {
    let ones = all_ones(t);
    let out = match m { None => match_template(i, t, method(k)), Some(m) => match_template_with_mask(i, t, method(k), m) };
    let (w, h) = (i.width() - t.width() + 1, i.height() - t.height() + 1);
    check(out.dimensions() == (w, h), "one score per position of the template within the image");
    let mut ok = true;
    for y in 0..h { for x in 0..w {
        let s = sums(i, t, m.unwrap_or(&ones), x, y);
        let got = px(&out, x, y);
        ok &= if exact { got == if k % 2 == 0 { s.0 } else { s.1 } as f32 } else { near(got, expected(k, s)) };
    } }
    check(ok, "each score is the documented formula");
}
fn parallel(k: i64, i: &GrayImage, t: &GrayImage, m: Option<&GrayImage>) {
    par_order(pick(0, 2) as u32);
    let (a, b) = match m {
        None => (match_template(i, t, method(k)), match_template_parallel(i, t, method(k))),
        Some(m) => (match_template_with_mask(i, t, method(k), m), match_template_with_mask_parallel(i, t, method(k), m)),
    };
    check(a.dimensions() == b.dimensions(), "parallel: same dimensions");
    let mut ok = true;
    for (p, q) in a.pixels().zip(b.pixels()) { ok &= p[0].to_bits() == q[0].to_bits() }
    check(ok, "parallel: same scores");
}
fn noise(w: u32, h: u32, seed: u32) -> GrayImage {
    let mut s = seed;
    GrayImage::from_fn(w, h, |_, _| { s = s.wrapping_mul(1664525).wrapping_add(1013904223); Luma([(s >> 24) as u8]) })
}
/// squared errors and correlation are exact, for all contents
#[no_mangle] pub extern "C" fn q_sums_3x2() { let (i, t) = (gray_bits(3, 2, 8), gray_bits(2, 1, 8)); judge(pick(0, 1), &i, &t, None, true) }
#[no_mangle] pub extern "C" fn q_sums_2x3() { let (i, t) = (gray_bits(2, 3, 8), gray_bits(1, 2, 8)); judge(pick(0, 1), &i, &t, None, true) }
#[no_mangle] pub extern "C" fn q_sums_equal_size() { let (i, t) = (gray_bits(2, 2, 8), gray_bits(2, 2, 8)); judge(pick(0, 1), &i, &t, None, true) }
#[no_mangle] pub extern "C" fn q_sums_mask() {
    let (i, t, m) = (gray_bits(3, 1, 4), gray_bits(2, 1, 4), gray_bits(2, 1, 3));
    judge(pick(0, 1), &i, &t, Some(&m), true)
}
#[no_mangle] pub extern "C" fn q_sums_mask_tall() {
    let (i, t, m) = (gray_bits(1, 3, 4), gray_bits(1, 2, 4), gray_bits(1, 2, 3));
    judge(pick(0, 1), &i, &t, Some(&m), true)
}
/// all four, with one free pixel of the image, template or mask
fn one(k: i64, masked: bool) {
    let (mut i, mut t, mut m) = (noise(4, 3, 5), noise(2, 2, 9), noise(2, 2, 31));
    let v = Luma([u8s()]);
    match pick(0, if masked { 2 } else { 1 }) {
        0 => i.put_pixel(1, 1, v),
        1 => t.put_pixel(1, 0, v),
        _ => m.put_pixel(0, 1, v),
    }
    forking();
    judge(k, &i, &t, if masked { Some(&m) } else { None }, false)
}
#[no_mangle] pub extern "C" fn q_normalized() { one(pick(2, 3), false) }
#[no_mangle] pub extern "C" fn q_masked() { one(pick(0, 3), true) }
/// nothing to normalise by: black window, black template, empty mask
#[no_mangle] pub extern "C" fn q_degenerate() {
    forking();
    let k = pick(0, 3);
    let v = Luma([u8s()]);
    let mut i = GrayImage::new(3, 2);
    let mut t = GrayImage::new(2, 1);
    let m = match pick(0, 2) {
        0 => { i.put_pixel(2, 1, v); t.put_pixel(0, 0, Luma([7])); None }
        1 => { t.put_pixel(1, 0, v); i.put_pixel(1, 0, Luma([9])); None }
        _ => { i.put_pixel(1, 0, Luma([20])); t.put_pixel(1, 0, Luma([3])); let mut m = GrayImage::new(2, 1); m.put_pixel(1, 0, v); Some(m) }
    };
    judge(k, &i, &t, m.as_ref(), false)
}
#[no_mangle] pub extern "C" fn q_parallel() {
    let k = pick(0, 3);
    let (w, h) = [(4, 3), (2, 5), (5, 2)][pick(0, 2) as usize];
    let (mut i, t, m) = (noise(w, h, 3), noise(2, 2, 4), noise(2, 2, 8));
    i.put_pixel(1, 1, Luma([u8s()]));
    parallel(k, &i, &t, None);
    parallel(k, &i, &t, Some(&m));
}
/// an exact copy of the template scores zero error, and the most correlation there can be
#[no_mangle] pub extern "C" fn q_found() {
    forking();
    let (x, y) = (pick(0, 2) as u32, pick(0, 1) as u32);
    let v = Luma([u8s()]);
    let mut t = noise(2, 2, 17);
    t.put_pixel(0, 1, v);
    let mut i = noise(4, 3, 23);
    for (u, w, p) in t.enumerate_pixels() { i.put_pixel(x + u, y + w, *p) }
    let e = match_template(&i, &t, M::SumOfSquaredErrors);
    check(px(&e, x, y) == 0.0, "no error at an exact copy");
    check(find_extremes(&e).min_value == 0.0, "which is the smallest score");
    let c = match_template(&i, &t, M::CrossCorrelationNormalized);
    check((px(&c, x, y) - 1.0).abs() < 1e-5, "normalised correlation one at an exact copy");
    check(find_extremes(&c).max_value <= 1.0 + 1e-5, "which is the largest score");
}
/// sizes: refused iff the template does not fit or the mask is not the template's size
#[no_mangle] pub extern "C" fn q_sizes() {
    merging(false);
    let (i, t, m) = (GrayImage::new(pick(1, 3) as u32, 2), GrayImage::new(range(1, 4) as u32, range(1, 3) as u32), GrayImage::new(range(1, 2) as u32, range(1, 2) as u32));
    let k = method(0);
    let fits = t.width() <= i.width() && t.height() <= i.height();
    let masked = pick(0, 3);
    let ok = fits && (masked < 2 || m.dimensions() == t.dimensions());
    if !ok { expect_panic(true) }
    let out = match masked { 0 => match_template(&i, &t, k), 1 => match_template_parallel(&i, &t, k), 2 => match_template_with_mask(&i, &t, k, &m), _ => match_template_with_mask_parallel(&i, &t, k, &m) };
    check(ok, "a template larger than the image or a mask of another size is refused");
    check(out.dimensions() == (i.width() - t.width() + 1, i.height() - t.height() + 1), "dimensions");
}
fn extremes<T: image::Primitive + std::fmt::Debug>(img: &Image<Luma<T>>) {
    let e = find_extremes(img);
    let (mut lo, mut hi) = ((0, 0), (0, 0));
    for y in 0..img.height() { for x in 0..img.width() {
        if px(img, x, y) < px(img, lo.0, lo.1) { lo = (x, y) }
        if px(img, x, y) > px(img, hi.0, hi.1) { hi = (x, y) }
    } }
    check(e.min_value_location == lo && e.max_value_location == hi, "the first smallest and largest pixel, row by row");
    check(e.min_value == px(img, lo.0, lo.1) && e.max_value == px(img, hi.0, hi.1), "and their values");
    let mut ok = true;
    for p in img.pixels() { ok &= !(p[0] < e.min_value) && !(p[0] > e.max_value) }
    check(ok, "no pixel is smaller or larger");
}
#[no_mangle] pub extern "C" fn q_extremes() { forking(); let (w, h) = [(3u32, 2u32), (1, 4), (2, 2), (1, 1)][pick(0, 3) as usize]; extremes(&gray(w, h)) }
#[no_mangle] pub extern "C" fn q_extremes_float() {
    forking();
    let img = Image::<Luma<f32>>::from_fn(2, 2, |_, _| { let v = f32s(); assume(v == v); Luma([v]) });
    extremes(&img)
}
#[no_mangle] pub extern "C" fn q_extremes_empty() {
    merging(false);
    let (w, h) = (range(0, 2) as u32, range(0, 2) as u32);
    let ok = w > 0 && h > 0;
    if !ok { expect_panic(true) }
    let e = find_extremes(&GrayImage::new(w, h));
    check(ok && e.max_value == 0 && e.max_value_location == (0, 0), "an image without pixels has no extremes");
}
/// larger images and templates, one arbitrary pixel
#[no_mangle] pub extern "C" fn q_large() {
    forking();
    let k = pick(0, 3);
    let ((w, h), (tw, th)) = [((37, 23), (5, 4)), ((70, 9), (64, 2)), ((9, 70), (2, 33)), ((130, 3), (3, 3)), ((20, 20), (16, 17))][pick(0, 4) as usize];
    let masked = pick(0, 1) == 1;
    let (mut i, t, m) = (noise(w, h, 3), noise(tw, th, 4), noise(tw, th, 8));
    i.put_pixel(w / 2, h / 2, Luma([[0u8, 252][pick(0, 1) as usize] + bits(2) as u8]));
    let m: GrayImage = GrayImage::from_fn(tw, th, |x, y| Luma([at(&m, x, y) % 3]));
    judge(k, &i, &t, if masked { Some(&m) } else { None }, false);
    par_order(pick(0, 1) as u32);
    let (a, b) = if masked { (match_template_with_mask(&i, &t, method(k), &m), match_template_with_mask_parallel(&i, &t, method(k), &m)) } else { (match_template(&i, &t, method(k)), match_template_parallel(&i, &t, method(k))) };
    let mut ok = a.dimensions() == b.dimensions();
    for (p, q) in a.pixels().zip(b.pixels()) { ok &= p[0].to_bits() == q[0].to_bits() }
    check(ok, "parallel: same scores");
}
#[no_mangle] pub extern "C" fn q_large_extremes() {
    forking();
    let (w, h) = large();
    let mut i = big(w, h, 71, 0);
    for p in i.iter_mut() { *p = 3 + *p % 250 }
    i[(w / 2, h / 2)][0] = u8s();
    extremes(&i)
}
