//! Image statistics.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::stats::*;

/// values spread over a window of eight grey levels at the bottom, middle or top of the range
fn lvl(base: u8) -> u8 { base + bits(3) as u8 }
#[no_mangle] pub extern "C" fn q_histogram() {
    let n = pick(0, 4) as u32;
    let base = [0u8, 124, 248][pick(0, 2) as usize];
    let px: Vec<u8> = (0..n).map(|_| lvl(base)).collect();
    let img = GrayImage::from_raw(n, 1, px.clone()).unwrap();
    let (h, c) = (histogram(&img), cumulative_histogram(&img));
    check(h.channels.len() == 1 && c.channels.len() == 1, "one channel");
    let mut r = true; let mut rc = true;
    for v in 0..256usize {
        let (mut k, mut kc) = (0u32, 0u32);
        for p in &px { k += (*p as usize == v) as u32; kc += (*p as usize <= v) as u32 }
        r &= h.channels[0][v] == k; rc &= c.channels[0][v] == kc;
    }
    check(r, "histogram counts each value");
    check(rc, "cumulative histogram counts up to each value");
}
#[no_mangle] pub extern "C" fn q_histogram_rgb() {
    let mut p = [[10u8, 20, 30], [11, 20, 28]];
    let (i, k) = (pick(0, 1) as usize, pick(0, 2) as usize);
    p[i][k] = u8s();
    let img = RgbImage::from_fn(2, 1, |x, _| Rgb(p[x as usize]));
    let (h, c) = (histogram(&img), cumulative_histogram(&img));
    let mut r = h.channels.len() == 3 && c.channels.len() == 3;
    for k in 0..3 { for v in 0..256usize {
        let (a, b) = (p[0][k] as usize, p[1][k] as usize);
        r &= h.channels[k][v] == (a == v) as u32 + (b == v) as u32;
        r &= c.channels[k][v] == (a <= v) as u32 + (b <= v) as u32;
    } }
    check(r, "channels are counted separately");
}
#[no_mangle] pub extern "C" fn q_min_max() {
    let (w, h) = (pick(1, 3) as u32, pick(1, 2) as u32);
    let img = gray(w, h);
    let mm = min_max(&img);
    let (mut lo, mut hi, mut a, mut b) = (true, true, false, false);
    for p in img.as_raw() { lo &= mm[0].min <= *p; hi &= mm[0].max >= *p; a |= mm[0].min == *p; b |= mm[0].max == *p }
    check(mm.len() == 1 && lo && hi, "bounds of every pixel"); check(a && b, "both bounds are attained");
}
#[no_mangle] pub extern "C" fn q_min_max_types() {
    let img = RgbImage::from_fn(2, 1, |_, _| rgb_px());
    let mm = min_max(&img);
    let mut r = mm.len() == 3;
    for k in 0..3 { let (a, b) = (img.get_pixel(0, 0)[k], img.get_pixel(1, 0)[k]); r &= mm[k].min == a.min(b) && mm[k].max == a.max(b) }
    check(r, "per channel");
    let i = Gray16i::from_fn(3, 1, |_, _| Luma([i16s()]));
    let mm = min_max(&i);
    let v = i.as_raw();
    check(mm[0].min == v[0].min(v[1]).min(v[2]) && mm[0].max == v[0].max(v[1]).max(v[2]), "signed pixels");
}
#[no_mangle] pub extern "C" fn q_percentile() {
    let n = pick(1, 4) as u32;
    // one pixel near the bottom, in the middle or near the top of the range, the others from a small set
    let v = [0u8, 5, 248][pick(0, 2) as usize] + bits(3) as u8;
    let mut px = vec![v];
    for _ in 1..n { px.push([0u8, 9, 255][pick(0, 2) as usize]) }
    let img = GrayImage::from_raw(n, 1, px.clone()).unwrap();
    let p = [0u8, 1, 24, 25, 26, 33, 34, 50, 66, 67, 75, 99, 100][pick(0, 12) as usize];
    let r = percentile(&img, p);
    let (mut below, mut upto) = (0u32, 0u32);
    for x in &px { below += (*x < r) as u32; upto += (*x <= r) as u32 }
    check(upto * 100 >= p as u32 * n, "at least p percent of the pixels are at or below the percentile");
    check(r == 0 || below * 100 < p as u32 * n, "the percentile is the smallest such value");
}
#[no_mangle] pub extern "C" fn q_percentile_range() {
    let p = u8s();
    let ok = p <= 100;
    if !ok { expect_panic(true) }
    let r = percentile(&GrayImage::new(1, 1), p);
    check(ok && r == 0, "percentages above 100 are refused");
}
#[no_mangle] pub extern "C" fn q_mse() {
    let (w, h) = (pick(1, 2) as u32, pick(1, 2) as u32);
    let (v, k) = (u8s(), pick(0, 3) as usize % (w * h) as usize);
    let mut a = vec![3u8, 200, 77, 0][..(w * h) as usize].to_vec(); let b = vec![5u8, 255, 77, 1][..(w * h) as usize].to_vec();
    a[k] = v;
    let (ia, ib) = (GrayImage::from_raw(w, h, a.clone()).unwrap(), GrayImage::from_raw(w, h, b.clone()).unwrap());
    let mut s = 0i64;
    for i in 0..a.len() { let d = a[i] as i64 - b[i] as i64; s += d * d }
    let mse = s as f64 / (w * h) as f64;
    let r = root_mean_squared_error(&ia, &ib);
    check((r * r - mse).abs() <= 1e-6 && r >= 0.0, "rms error");
    check(root_mean_squared_error(&ib, &ia) == r, "rms error is symmetric");
    let p = peak_signal_to_noise_ratio(&ia, &ib);
    if mse > 0.0 { check((p - 10.0 * (65025.0 / mse).log10()).abs() <= 1e-6, "peak signal to noise ratio in decibel") }
    else { check(p == f64::INFINITY, "identical images have infinite signal to noise ratio") }
    cover(s == 0, "identical"); cover(s > 0, "different");
}
#[no_mangle] pub extern "C" fn q_mse_dims() {
    let (w, h) = (pick(1, 2) as u32, pick(1, 2) as u32);
    let ok = w == 1 && h == 2;
    if !ok { expect_panic(true) }
    let psnr = pick(0, 1) == 1;
    let (a, b) = (GrayImage::new(w, h), GrayImage::new(1, 2));
    if psnr { let _ = peak_signal_to_noise_ratio(&a, &b); } else { let _ = root_mean_squared_error(&a, &b); }
    check(ok, "images of different sizes are refused");
}
#[no_mangle] pub extern "C" fn q_mse_rgb() {
    let v = u8s();
    let c = pick(0, 2) as usize;
    let mut p = [10u8, 20, 30]; p[c] = v;
    let (a, b) = (RgbImage::from_raw(1, 1, p.to_vec()).unwrap(), RgbImage::from_raw(1, 1, vec![11, 22, 33]).unwrap());
    let mut s = 0i64;
    for i in 0..3 { let d = p[i] as i64 - [11, 22, 33][i]; s += d * d }
    let r = root_mean_squared_error(&a, &b);
    check((r * r - s as f64 / 3.0).abs() <= 1e-6, "channels count separately");
}
/// many pixels
#[no_mangle] pub extern "C" fn q_large_stats() {
    let (w, h) = large();
    let mut px = big_raw((w * h) as usize, 1, 0);
    px[0] = [0u8, 100, 252][pick(0, 2) as usize] + bits(2) as u8;
    let img = GrayImage::from_raw(w, h, px.clone()).unwrap();
    let mut c = [0u32; 256];
    for v in &px { c[*v as usize] += 1 }
    let (hi, cu) = (histogram(&img), cumulative_histogram(&img));
    let (mut r, mut s) = (true, 0);
    for v in 0..256 { s += c[v]; r &= hi.channels[0][v] == c[v] && cu.channels[0][v] == s }
    check(r, "histograms of a large image");
    let n = px.len() as u32;
    let mut r = true;
    for p in 0..=100u8 {
        let q = percentile(&img, p);
        let (mut below, mut upto) = (0u32, 0u32);
        for v in 0..=q as usize { upto += c[v]; if v < q as usize { below += c[v] } }
        r &= upto * 100 >= p as u32 * n && (q == 0 || below * 100 < p as u32 * n);
    }
    check(r, "every percentile of a large image");
    let o = big(w, h, 2, 0);
    let mut e = 0u64;
    for (a, b) in px.iter().zip(o.as_raw()) { let d = (*a as i64 - *b as i64).abs() as u64; e += d * d }
    let rm = root_mean_squared_error(&img, &o);
    check((rm * rm - e as f64 / n as f64).abs() <= 1e-6, "rms error of large images");
}
#[no_mangle] pub extern "C" fn q_large_min_max() {
    let (w, h) = large();
    let img = GrayImage::from_raw(w, h, big_raw((w * h) as usize, 1, 8).iter().map(|p| 20 + *p / 2).collect()).unwrap();
    let mm = min_max(&img);
    let (mut lo, mut hi, mut a, mut b) = (true, true, false, false);
    for p in img.as_raw() { lo &= mm[0].min <= *p; hi &= mm[0].max >= *p; a |= mm[0].min == *p; b |= mm[0].max == *p }
    check(lo && hi, "bounds of every pixel"); check(a && b, "both bounds are attained");
}
