//! Smoothing filters: box, median, gaussian, bilateral, gaussian sharpening.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::filter::bilateral::{bilateral_filter, GaussianEuclideanColorDistance};
use imageproc::filter::*;

/// the mean of the window, or (both passes truncating) less than two below it; `two` is the two-pass value
fn box_ok(img: &GrayImage, out: &GrayImage, rx: i32, ry: i32) -> bool {
    let (w, h) = img.dimensions();
    let (kx, ky) = (2 * rx as u32 + 1, 2 * ry as u32 + 1);
    let n = kx * ky;
    let mut mid = vec![0u32; (w * h) as usize];
    for y in 0..h { for x in 0..w { let mut s = 0u32; for dx in -rx..=rx { s += atc(img, x as i32 + dx, y as i32) as u32 } mid[(y * w + x) as usize] = s / kx } }
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let mut s = 0u32; let mut s2 = 0u32;
        for dy in -ry..=ry {
            s2 += mid[((y as i32 + dy).max(0).min(h as i32 - 1) as u32 * w + x) as usize];
            for dx in -rx..=rx { s += atc(img, x as i32 + dx, y as i32 + dy) as u32 }
        }
        let o = at(out, x, y) as u32;
        r &= o == s2 / ky || (o * n <= s && s < (o + 2) * n);
    } }
    r
}
fn box_check(w: u32, h: u32, rx: u32, ry: u32) {
    let img = gray(w, h);
    let out = box_filter(&img, rx, ry);
    check(box_ok(&img, &out, rx as i32, ry as i32), "box filter is the window mean, rounded down by less than two");
}
#[no_mangle] pub extern "C" fn q_box_1d() { let v = pick(0, 1) == 1; let n = pick(0, 4) as u32; let r = pick(0, 3) as u32; if v { box_check(1, n, 0, r) } else { box_check(n, 1, r, 0) } }
#[no_mangle] pub extern "C" fn q_box_2d() { box_check(pick(1, 3) as u32, pick(1, 3) as u32, pick(0, 2) as u32, pick(0, 2) as u32) }
#[no_mangle] pub extern "C" fn t_box_2d_3x3() { box_check(3, 3, 1, 1) }
#[no_mangle] pub extern "C" fn q_box_extremes() {
    // 1-bit pixels scaled to 255: saturation and large radii
    let (w, h) = (pick(1, 3) as u32, pick(1, 2) as u32);
    let (rx, ry) = ([0, 1, 4][pick(0, 2) as usize], [0, 2][pick(0, 1) as usize]);
    let img = binary(w, h);
    let out = box_filter(&img, rx, ry);
    let r = box_ok(&img, &out, rx as i32, ry as i32);
    check(r, "box filter with large radii");
}
/// fewer than half of the window is below the output, at least half is at or below it
fn median_ok(img: &GrayImage, out: &GrayImage, rx: i32, ry: i32, l: &'static str) {
    let (w, h) = img.dimensions();
    let n = (2 * rx + 1) * (2 * ry + 1);
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let m = at(out, x, y);
        let (mut below, mut upto) = (0, 0);
        for dy in -ry..=ry { for dx in -rx..=rx { let v = atc(img, x as i32 + dx, y as i32 + dy); below += (v < m) as i32; upto += (v <= m) as i32 } }
        r &= 2 * below < n && 2 * upto >= n;
    } }
    check(r, l);
}
const PAL: [u8; 4] = [0, 254, 255, 3];
fn pal(w: u32, h: u32, b: u32) -> GrayImage { GrayImage::from_fn(w, h, |_, _| Luma([PAL[concrete(bits(b)) as usize]])) }
#[no_mangle] pub extern "C" fn q_median_4levels() {
    merging(false);
    let (w, h) = [(1, 1), (2, 1), (1, 3), (2, 2), (3, 1), (4, 1), (1, 4)][pick(0, 6) as usize];
    let (rx, ry) = (pick(0, 2) as u32, pick(0, 2) as u32);
    let img = pal(w, h, 2);
    median_ok(&img, &median_filter(&img, rx, ry), rx as i32, ry as i32, "median of the window, four grey levels");
}
#[no_mangle] pub extern "C" fn q_median_binary() {
    merging(false);
    let (w, h) = [(3, 3), (2, 4), (4, 2), (3, 2)][pick(0, 3) as usize];
    let (rx, ry) = (pick(0, 2) as u32, pick(0, 1) as u32);
    let img = pal(w, h, 1);
    median_ok(&img, &median_filter(&img, rx, ry), rx as i32, ry as i32, "median of the window, two grey levels");
    cover(w == 3 && h == 3, "3x3");
}
#[no_mangle] pub extern "C" fn t_median_3x2_4levels() {
    merging(false);
    let img = pal(3, 2, 2);
    let (rx, ry) = (pick(0, 1) as u32, pick(0, 1) as u32);
    median_ok(&img, &median_filter(&img, rx, ry), rx as i32, ry as i32, "median 3x2 four levels");
}
#[no_mangle] pub extern "C" fn t_median_4x4_binary() {
    merging(false);
    let img = pal(4, 3, 1);
    median_ok(&img, &median_filter(&img, 1, 1), 1, 1, "median 4x3 two levels");
}
#[no_mangle] pub extern "C" fn q_median_rgb() {
    merging(false);
    let (w, h) = [(2, 1), (1, 2)][pick(0, 1) as usize];
    let img = RgbImage::from_fn(w, h, |_, _| Rgb([PAL[concrete(bits(2)) as usize], PAL[concrete(bits(1)) as usize], PAL[concrete(bits(2)) as usize]]));
    let out = median_filter(&img, 1, 1);
    for c in 0..3 {
        let (a, b) = (GrayImage::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y)[c]])), GrayImage::from_fn(w, h, |x, y| Luma([out.get_pixel(x, y)[c]])));
        median_ok(&a, &b, 1, 1, "channels have their own median");
    }
}
#[no_mangle] pub extern "C" fn q_median_empty() {
    let (w, h) = (pick(0, 1) as u32, pick(0, 1) as u32);
    assume(w == 0 || h == 0);
    check(median_filter(&GrayImage::new(w, h), 1, 2).dimensions() == (w, h), "median of an empty image");
    check(box_filter(&GrayImage::new(w, h), 1, 2).dimensions() == (w, h), "box filter of an empty image");
    check(gaussian_blur_f32(&GrayImage::new(w, h), 1.0).dimensions() == (w, h), "gaussian of an empty image");
}
#[no_mangle] pub extern "C" fn q_gaussian_constant() {
    let v = u8s();
    let (w, h) = (pick(1, 3) as u32, pick(1, 2) as u32);
    let sigma = [0.3f32, 0.5, 1.0, 1.7, 3.0][pick(0, 4) as usize];
    let img = GrayImage::from_pixel(w, h, Luma([v]));
    let out = gaussian_blur_f32(&img, sigma);
    let mut r = out.dimensions() == (w, h);
    for p in out.as_raw() { r &= *p <= v.saturating_add(1) && *p as u32 + 2 >= v as u32 }
    check(r, "gaussian blur keeps constant images");
}
#[no_mangle] pub extern "C" fn q_gaussian_impulse() {
    // one bright pixel: the response is the separable gaussian around it
    let v = u8s();
    let (n, sigma) = (5u32, [0.5f32, 1.0][pick(0, 1) as usize]);
    let (px, py) = (pick(0, 4) as u32, pick(1, 3) as u32);
    let mut img = GrayImage::new(n, n);
    img.put_pixel(px, py, Luma([v]));
    let out = gaussian_blur_f32(&img, sigma);
    let rad = (2.0 * sigma).ceil() as i32;
    let mut g = [0f32; 16]; let mut sum = 0.0;
    for i in -rad..=rad { let e = (-((i * i) as f32) / (2.0 * sigma * sigma)).exp(); g[(i + rad) as usize] = e; sum += e }
    // weight of the source pixel at (px) as seen from x, with replicated borders
    let wt = |x: i32, p: i32| { let mut s = 0.0; for i in -rad..=rad { if (x + i).max(0).min(n as i32 - 1) == p { s += g[(i + rad) as usize] / sum } } s };
    let mut r = true;
    for y in 0..n as i32 { for x in 0..n as i32 {
        // the horizontal pass rounds down before the vertical one
        let e = wt(x, px as i32) * wt(y, py as i32) * 255.0;
        let o = at(&out, x as u32, y as u32) as f32 * 255.0;
        let vf = v as f32;
        r &= o <= e * vf + 2.0 && e * vf < o + 255.0 * 2.01;
    } }
    check(r, "gaussian impulse response");
}
#[no_mangle] pub extern "C" fn q_gaussian_sigma() {
    let k = pick(0, 3);
    let sigma = [0.0f32, -1.0, f32::NAN, 0.5][k as usize];
    if k != 3 { expect_panic(true) }
    let out = gaussian_blur_f32(&gray(1, 1), sigma);
    check(k == 3, "a sigma that is not positive is refused");
    check(out.dimensions() == (1, 1), "gaussian of a single pixel");
}
#[no_mangle] pub extern "C" fn q_bilateral() {
    // two arbitrary grey levels: every output lies between the smallest and largest input (rounding down by at most one)
    let (w, h) = (pick(1, 2) as u32, 1);
    let v = u8s();
    let b = [0u8, 100, 255][pick(0, 2) as usize];
    let img = GrayImage::from_fn(w, h, |x, _| Luma([if x == 0 { v } else { b }]));
    let r0 = pick(0, 1) as u8;
    // a huge colour sigma: plain spatial weighting
    let out: GrayImage = bilateral_filter(&img, r0, 1.0, GaussianEuclideanColorDistance::new(1e18));
    let (lo, hi) = if w == 1 { (v, v) } else { (v.min(b), v.max(b)) };
    let mut r = out.dimensions() == (w, h);
    for p in out.as_raw() { r &= *p <= hi && *p as u32 + 1 >= lo as u32 }
    check(r, "bilateral output lies within the input range");
    if r0 == 0 { check(at(&out, 0, 0) == v || at(&out, 0, 0) as u32 + 1 == v as u32, "radius zero keeps the image") }
}
struct Same;
impl<P: image::Pixel<Subpixel = u8>> imageproc::filter::bilateral::ColorDistance<P> for Same {
    fn color_distance(&self, a: &P, b: &P) -> f32 { (a.channels()[0] == b.channels()[0]) as u32 as f32 }
}
#[no_mangle] pub extern "C" fn q_bilateral_selective() {
    // a colour distance that only accepts equal colours leaves the image unchanged; huge spatial sigma: all weights one
    let (w, h) = (pick(1, 3) as u32, pick(1, 2) as u32);
    let img = two_levels(w, h);
    merging(false);
    let out: GrayImage = bilateral_filter(&img, 1, 1e18, Same);
    check(same(out.as_raw(), img.as_raw()), "bilateral with an equality distance is the identity");
}
/// every pattern of an arbitrary grey level and a fixed one
fn two_levels(w: u32, h: u32) -> GrayImage {
    let v = u8s();
    let b = [0u8, 7, 255][pick(0, 2) as usize];
    GrayImage::from_fn(w, h, |_, _| Luma([if pick(0, 1) == 1 { v } else { b }]))
}
struct One;
impl<P> imageproc::filter::bilateral::ColorDistance<P> for One { fn color_distance(&self, _: &P, _: &P) -> f32 { 1.0 } }
#[no_mangle] pub extern "C" fn q_bilateral_mean() {
    // equal weights: the window mean with replicated borders (sums are exact, the division is not)
    let (w, h) = [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2)][pick(0, 4) as usize];
    let img = two_levels(w, h);
    let out: GrayImage = bilateral_filter(&img, 1, 1e18, One);
    let mut r = true;
    for y in 0..h { for x in 0..w {
        let mut s = 0u32;
        for dy in -1..=1 { for dx in -1..=1 { s += atc(&img, x as i32 + dx, y as i32 + dy) as u32 } }
        let o = at(&out, x, y) as u32;
        r &= o * 9 <= s && s <= o * 9 + 9;
    } }
    check(r, "bilateral with constant colour distance is the window mean");
}
#[no_mangle] pub extern "C" fn q_sharpen_gaussian() {
    let v = u8s();
    let img = GrayImage::from_pixel(2, 2, Luma([v]));
    let out = sharpen_gaussian(&img, 0.7, [0.0f32, 1.0, 7.0][pick(0, 2) as usize]);
    let mut r = out.dimensions() == (2, 2);
    for p in out.as_raw() { r &= *p <= v.saturating_add(1) && *p as u32 + 1 >= v as u32 }
    check(r, "sharpening keeps constant images");
    // amount zero is the identity
    let img = GrayImage::from_fn(2, 1, |x, _| Luma([if x == 0 { v } else { 10 }]));
    let out = sharpen_gaussian(&img, 0.7, 0.0);
    check(at(&out, 0, 0) == v && at(&out, 1, 0) == 10, "sharpening by zero keeps the image");
}
/// shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_box() {
    let (w, h) = large();
    let mut img = big(w, h, 1, 0);
    img[(w / 2, h / 2)][0] = u8s();
    let (rx, ry) = [(1, 1), (7, 2), (2, 9), (40, 0), (0, 40), (3, 3)][pick(0, 5) as usize];
    let out = box_filter(&img, rx, ry);
    check(box_ok(&img, &out, rx as i32, ry as i32), "box filter of a large image");
}
#[no_mangle] pub extern "C" fn q_large_median() {
    merging(false);
    let (w, h) = [(37, 5), (5, 37), (70, 2), (2, 70), (12, 11)][pick(0, 4) as usize];
    let (rx, ry) = [(1, 1), (7, 2), (2, 9), (0, 3), (8, 8)][pick(0, 4) as usize];
    let mut img = big(w, h, 1, 0);
    let n = (w * h) as usize;
    img[(w / 2, h / 2)][0] = PAL[concrete(bits(2)) as usize];
    img[(w - 1, h - 1)][0] = PAL[concrete(bits(2)) as usize];
    let _ = n;
    median_ok(&img, &median_filter(&img, rx, ry), rx as i32, ry as i32, "median of a large image");
}
#[no_mangle] pub extern "C" fn q_large_gaussian() {
    // one bright pixel in a wide image, wide kernels
    let (w, h) = [(37, 23), (70, 2), (2, 70), (1, 130)][pick(0, 3) as usize];
    let sigma = [0.4f32, 1.5, 4.0, 9.0][pick(0, 3) as usize];
    let (px, py) = [(0, 0), (w / 2, h / 2), (w - 1, 0)][pick(0, 2) as usize];
    let mut img = GrayImage::new(w, h);
    img.put_pixel(px, py, Luma([250]));
    let out = gaussian_blur_f32(&img, sigma);
    let rad = (2.0 * sigma).ceil() as i32;
    let mut g = [0f32; 64]; let mut sum = 0.0;
    for i in -rad..=rad { let e = (-((i * i) as f32) / (2.0 * sigma * sigma)).exp(); g[(i + rad) as usize] = e; sum += e }
    let wt = |x: i32, p: i32, n: u32| { let mut s = 0.0; for i in -rad..=rad { if (x + i).max(0).min(n as i32 - 1) == p { s += g[(i + rad) as usize] / sum } } s };
    let mut r = out.dimensions() == (w, h);
    let col: Vec<f32> = (0..h as i32).map(|y| wt(y, py as i32, h)).collect();
    for x in 0..w as i32 { let wx = wt(x, px as i32, w); for y in 0..h as i32 {
        let e = wx * col[y as usize] * 250.0;
        let o = at(&out, x as u32, y as u32) as f32;
        r &= o <= e + 0.01 && e < o + 2.01;
    } }
    check(r, "gaussian impulse response in a large image");
}
/// the weighted mean by definition
fn bilateral_ref<P: image::Pixel<Subpixel = u8>>(img: &imageproc::definitions::Image<P>, x: i32, y: i32, r: i32, ss: f64, sc: f64, c: usize) -> f64 {
    let (w, h) = (img.width() as i32, img.height() as i32);
    let here = *img.get_pixel(x as u32, y as u32);
    let (mut s, mut n) = (0f64, 0f64);
    for dy in -r..=r { for dx in -r..=r {
        let p = img.get_pixel((x + dx).max(0).min(w - 1) as u32, (y + dy).max(0).min(h - 1) as u32);
        let mut d = 0f64;
        for k in 0..here.channels().len() { let e = here.channels()[k] as f64 - p.channels()[k] as f64; d += e * e }
        let weight = (-((dx * dx + dy * dy) as f64) / (2.0 * ss * ss)).exp() * (-d / (2.0 * sc * sc)).exp();
        s += weight * p.channels()[c] as f64;
        n += weight;
    } }
    s / n
}
#[no_mangle] pub extern "C" fn q_bilateral_values() {
    let (w, h, r, ss, sc) = [(3, 2, 1, 0.8f32, 30f32), (4, 5, 2, 1.5, 60.0), (7, 3, 3, 2.0, 25.0), (1, 6, 1, 1.0, 100.0), (5, 4, 2, 3.0, 200.0)][pick(0, 4) as usize];
    let mut img = big(w, h, 3, 0);
    img[(w / 2, h / 2)][0] = u8s();
    let out: GrayImage = bilateral_filter(&img, r, ss, GaussianEuclideanColorDistance::new(sc));
    let mut ok = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let e = bilateral_ref(&img, x as i32, y as i32, r as i32, ss as f64, sc as f64, 0);
        let o = at(&out, x, y) as f64;
        ok &= o <= e + 0.01 && e < o + 1.01;
    } }
    check(ok, "mean weighted by distance in space and in colour");
}
#[no_mangle] pub extern "C" fn q_bilateral_rgb() {
    let (w, h) = [(3u32, 2u32), (2, 3)][pick(0, 1) as usize];
    let mut img = RgbImage::from_raw(w, h, big_raw((w * h * 3) as usize, 4, 0)).unwrap();
    img[(1, 1)][pick(0, 2) as usize] = u8s();
    let out: RgbImage = bilateral_filter(&img, 1, 1.2, GaussianEuclideanColorDistance::new(120.0));
    let mut ok = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { for c in 0..3 {
        let e = bilateral_ref(&img, x as i32, y as i32, 1, 1.2f32 as f64, 120.0, c);
        let o = out.get_pixel(x, y)[c] as f64;
        ok &= o <= e + 0.01 && e < o + 1.01;
    } } }
    check(ok, "colours: distance over all channels");
}
/// gaussian blur of any image: weights in f64
fn blur_ref(v: &[f64], w: u32, h: u32, sigma: f64) -> Vec<f64> {
    let rad = (2.0 * sigma).ceil() as i32;
    let mut g = vec![]; let mut sum = 0f64;
    for i in -rad..=rad { let e = (-((i * i) as f64) / (2.0 * sigma * sigma)).exp(); g.push(e); sum += e }
    let cl = |a: i32, n: u32| a.max(0).min(n as i32 - 1) as u32;
    let mut mid = vec![0f64; v.len()];
    for y in 0..h { for x in 0..w { for i in -rad..=rad { mid[(y * w + x) as usize] += g[(i + rad) as usize] / sum * v[(y * w + cl(x as i32 + i, w)) as usize] } } }
    let mut out = vec![0f64; v.len()];
    for y in 0..h { for x in 0..w { for i in -rad..=rad { out[(y * w + x) as usize] += g[(i + rad) as usize] / sum * mid[(cl(y as i32 + i, h) * w + x) as usize] } } }
    out
}
#[no_mangle] pub extern "C" fn q_gaussian_values() {
    let (w, h, sigma) = [(4, 3, 0.8f32), (3, 5, 1.3), (7, 2, 2.2), (1, 4, 0.5)][pick(0, 3) as usize];
    let mut img = big(w, h, 5, 0);
    img[(w / 2, h / 2)][0] = u8s();
    let out = gaussian_blur_f32(&img, sigma);
    let v: Vec<f64> = img.as_raw().iter().map(|p| *p as f64).collect();
    let e = blur_ref(&v, w, h, sigma as f64);
    let mut ok = out.dimensions() == (w, h);
    for i in 0..e.len() { let o = out.as_raw()[i] as f64; ok &= o <= e[i] + 0.01 && e[i] < o + 2.01 }
    check(ok, "gaussian mean of the neighbourhood");
}
#[no_mangle] pub extern "C" fn q_sharpen_values() {
    let (w, h, sigma) = [(4, 3, 0.8f32), (3, 4, 1.3), (6, 2, 1.7)][pick(0, 2) as usize];
    let amount = [0.5f32, 1.0, 3.0, -0.5][pick(0, 3) as usize];
    let mut img = big(w, h, 6, 0);
    img[(w / 2, h / 2)][0] = u8s();
    let out = sharpen_gaussian(&img, sigma, amount);
    let v: Vec<f64> = img.as_raw().iter().map(|p| *p as f64).collect();
    let e = blur_ref(&v, w, h, sigma as f64);
    let mut ok = out.dimensions() == (w, h);
    for i in 0..e.len() {
        let t = v[i] + amount as f64 * (v[i] - e[i]);
        let t = if t < 0.0 { 0.0 } else if t > 255.0 { 255.0 } else { t };
        let o = out.as_raw()[i] as f64;
        ok &= o <= t + 0.01 && t < o + 1.01;
    }
    check(ok, "input plus amount times the edges");
}
