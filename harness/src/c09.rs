//! Contrast: stretching, equalisation, histogram matching.
use crate::sym::*;
use image::{GrayImage, Luma, LumaA, Rgb, RgbImage, Rgba};
use imageproc::contrast::*;

fn stretched(c: u8, im: u8, ix: u8, om: u8, ox: u8, o: u8) -> bool {
    if c <= im { return o == om }
    if c >= ix { return o == ox }
    let (a, b, w) = ((c - im) as u32, (ox - om) as u32, (ix - im) as u32);
    o as u32 == om as u32 + a * b / w
}
/// one of the five parameters is arbitrary, the others come from a table
#[no_mangle] pub extern "C" fn q_stretch() {
    merging(false);
    let mut v = [[100u8, 50, 200, 0, 255], [254, 0, 255, 0, 255], [128, 127, 129, 7, 77], [3, 0, 9, 250, 253], [60, 60, 61, 20, 20], [200, 10, 255, 0, 254]][pick(0, 5) as usize];
    let k = pick(0, 4) as usize;
    v[k] = u8s();
    let [c, im, ix, om, ox] = v;
    let ok = im < ix && om <= ox;
    if !ok { expect_panic(true) }
    let img = GrayImage::from_pixel(1, 1, Luma([c]));
    let out = stretch_contrast(&img, im, ix, om, ox);
    check(ok, "empty input ranges and inverted output ranges are refused");
    check(stretched(c, im, ix, om, ox, at(&out, 0, 0)), "linear between the bounds, saturating outside");
    cover(c > im && c < ix, "between");
}
#[no_mangle] pub extern "C" fn q_stretch_refuses() {
    let (im, ix, om, ox) = (u8s(), u8s(), u8s(), u8s());
    let ok = im < ix && om <= ox;
    if !ok { expect_panic(true) }
    let out = stretch_contrast(&GrayImage::new(0, 3), im, ix, om, ox);
    check(ok && out.dimensions() == (0, 3), "empty input ranges and inverted output ranges are refused");
}
#[no_mangle] pub extern "C" fn q_stretch_image() {
    let (w, h) = (pick(0, 3) as u32, pick(0, 2) as u32);
    let img = gray(w, h);
    let out = stretch_contrast(&img, 20, 100, 5, 250);
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { r &= stretched(at(&img, x, y), 20, 100, 5, 250, at(&out, x, y)) } }
    check(r, "every pixel is stretched");
    let mut m = img.clone(); stretch_contrast_mut(&mut m, 20, 100, 5, 250);
    check(same(m.as_raw(), out.as_raw()), "in-place variant agrees");
}
#[no_mangle] pub extern "C" fn q_stretch_channels() {
    let p = rgb_px();
    let o = stretch_contrast(&RgbImage::from_pixel(1, 2, p), 10, 11, 0, 255);
    let mut r = true;
    for c in 0..3 { r &= stretched(p[c], 10, 11, 0, 255, o.get_pixel(0, 0)[c]) && stretched(p[c], 10, 11, 0, 255, o.get_pixel(0, 1)[c]) }
    check(r, "colour channels are stretched");
    let q = luma_a_px();
    let o = stretch_contrast(&image::GrayAlphaImage::from_pixel(1, 1, q), 0, 200, 50, 50);
    check(o.get_pixel(0, 0)[1] == q[1] && stretched(q[0], 0, 200, 50, 50, o.get_pixel(0, 0)[0]), "alpha is kept");
    let q = rgba_px();
    let o = stretch_contrast(&image::RgbaImage::from_pixel(1, 1, q), 0, 255, 0, 255);
    check(same(&o.get_pixel(0, 0).0, &q.0), "the full range onto itself changes nothing");
    let _ = (LumaA([0u8, 0]), Rgb([0u8; 3]), Rgba([0u8; 4]));
}
fn sample() -> Vec<u8> {
    let n = pick(1, 4) as usize;
    let v = [0u8, 96, 248][pick(0, 2) as usize] + bits(3) as u8;
    let mut px = vec![v];
    for _ in 1..n { px.push([0u8, 100, 255][pick(0, 2) as usize]) }
    px
}
fn row(px: &[u8]) -> GrayImage { GrayImage::from_raw(px.len() as u32, 1, px.to_vec()).unwrap() }
fn cdf(px: &[u8], v: u8) -> f64 { let mut k = 0u32; for p in px { k += (*p <= v) as u32 } k as f64 / px.len() as f64 }
#[no_mangle] pub extern "C" fn q_equalize() {
    let px = sample();
    let img = row(&px);
    let out = equalize_histogram(&img);
    let mut r = out.dimensions() == img.dimensions(); let mut mono = true;
    for i in 0..px.len() {
        let want = 255.0 * cdf(&px, px[i]); let o = out.as_raw()[i] as f64;
        r &= o <= want + 1e-3 && o > want - 1.0 - 1e-3;
        for j in 0..px.len() { mono &= px[i] > px[j] || out.as_raw()[i] <= out.as_raw()[j] }
    }
    check(r, "each pixel becomes its cumulative fraction of the grey range"); check(mono, "the order of grey levels is kept");
    let mut m = img.clone(); equalize_histogram_mut(&mut m);
    check(same(m.as_raw(), out.as_raw()), "in-place variant agrees");
}
#[no_mangle] pub extern "C" fn q_equalize_order() {
    // rayon's splits and orders
    par_order(2);
    let v = u8s();
    let px = [v, 3, 200, v];
    let out = equalize_histogram(&row(&px));
    let mut r = true;
    for i in 0..4 { let want = 255.0 * cdf(&px, px[i]); let o = out.as_raw()[i] as f64; r &= o <= want + 1e-3 && o > want - 1.0 - 1e-3 }
    check(r, "any order of parallel work");
}
#[no_mangle] pub extern "C" fn q_equalize_empty() {
    let (w, h) = (pick(0, 1) as u32, pick(0, 1) as u32);
    let o = equalize_histogram(&GrayImage::new(w, h));
    check(o.dimensions() == (w, h), "empty images stay empty");
    let o = match_histogram(&GrayImage::new(w, h), &gray_bits(1, 1, 2));
    check(o.dimensions() == (w, h), "empty images stay empty");
}
#[no_mangle] pub extern "C" fn q_match_self() {
    let px = sample();
    let img = row(&px);
    check(same(match_histogram(&img, &img).as_raw(), &px), "matching an image to itself changes nothing");
}
#[no_mangle] pub extern "C" fn q_match() {
    let px = sample();
    let tg: &[u8] = [&[0u8, 255][..], &[7, 7, 7], &[10, 20, 30, 200], &[255], &[0], &[0, 0, 1], &[0, 0, 0, 1, 255], &[1, 1, 1, 2, 2, 3, 3, 3], &[0, 1, 1, 1, 2, 250, 251], &[0, 254, 255, 255, 255]][pick(0, 9) as usize];
    let out = match_histogram(&row(&px), &row(tg));
    let mut r = out.dimensions() == (px.len() as u32, 1); let mut mono = true;
    for i in 0..px.len() {
        let s = cdf(&px, px[i]); let o = out.as_raw()[i];
        let d = (cdf(tg, o) - s).abs();
        // the target's cumulative fraction only changes at its own levels
        for t in tg { r &= d <= (cdf(tg, *t) - s).abs() + 1e-6 }
        if tg[0] > 0 { let mut lo = 255; for t in tg { lo = lo.min(*t) } if lo > 0 { r &= d <= s + 1e-6 } }
        for j in 0..px.len() { mono &= px[i] > px[j] || out.as_raw()[i] <= out.as_raw()[j] }
    }
    check(r, "no other level is closer in cumulative fraction"); check(mono, "the order of grey levels is kept");
    let mut m = row(&px); match_histogram_mut(&mut m, &row(tg));
    check(same(m.as_raw(), out.as_raw()), "in-place variant agrees");
}
/// many pixels
#[no_mangle] pub extern "C" fn q_large_contrast() {
    let (w, h) = large();
    let seed = pick(1, 3) as u32;
    let mut px = big_raw((w * h) as usize, seed, 0);
    for p in px.iter_mut() { *p = match seed { 1 => *p, 2 => ((*p as u32 * *p as u32) >> 8) as u8, _ => 255 - (*p >> 3) } }
    px[0] = [0u8, 100, 252][pick(0, 2) as usize] + bits(2) as u8;
    any_fixed_order();
    let img = GrayImage::from_raw(w, h, px.clone()).unwrap();
    let t = big(30, 20, 7, 0);
    let cum = |p: &[u8]| { let mut c = [0u32; 256]; for v in p { c[*v as usize] += 1 } for i in 1..256 { c[i] += c[i - 1] } c };
    let (ci, ct) = (cum(&px), cum(t.as_raw()));
    let n = px.len() as f64;
    let s = stretch_contrast(&img, 20, 200, 5, 250);
    let e = equalize_histogram(&img);
    let m = match_histogram(&img, &t);
    let (mut r, mut r2, mut r3) = (s.dimensions() == (w, h), e.dimensions() == (w, h), m.dimensions() == (w, h));
    let mut best = [9f64; 256];
    for v in 0..256 { let f = ci[v] as f64 / n; for l in 0..256 { let d = (ct[l] as f64 / 600.0 - f).abs(); if d < best[v] { best[v] = d } } }
    for i in 0..px.len() {
        r &= stretched(px[i], 20, 200, 5, 250, s.as_raw()[i]);
        let want = 255.0 * ci[px[i] as usize] as f64 / n; let o = e.as_raw()[i] as f64;
        r2 &= o <= want + 1e-3 && o > want - 1.0 - 1e-3;
        r3 &= (ct[m.as_raw()[i] as usize] as f64 / 600.0 - ci[px[i] as usize] as f64 / n).abs() <= best[px[i] as usize] + 1e-6;
    }
    check(r, "every pixel is stretched"); check(r2, "each pixel becomes its cumulative fraction of the grey range"); check(r3, "no other level is closer in cumulative fraction");
}
