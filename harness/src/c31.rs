//! Haar-like features.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::haar::*;
use imageproc::integral_image::integral_image;

/// what a feature paints on an image of middling grey: +1 white, -1 black, 0 untouched
fn mask(f: HaarFeature, w: u32, h: u32) -> Vec<i8> {
    let d = draw_haar_feature(&GrayImage::from_pixel(w, h, Luma([100])), f);
    d.pixels().map(|p| match p[0] { 255 => 1, 0 => -1, 100 => 0, _ => 9 }).collect()
}
/// the masks of all features of a frame, straight from the diagrams of HaarFeatureType
fn expected(w: u32, h: u32) -> Vec<Vec<i8>> {
    let mut v = vec![];
    for (sw, sh) in [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)] {
        for bw in 1..=w { for bh in 1..=h {
            if sw * bw > w || sh * bh > h { continue }
            for left in 0..=w - sw * bw { for top in 0..=h - sh * bh { for s in [0, 1] {
                let mut m = vec![0i8; (w * h) as usize];
                for y in 0..sh * bh { for x in 0..sw * bw {
                    m[((top + y) * w + left + x) as usize] = if (x / bw + y / bh + s) % 2 == 0 { 1 } else { -1 };
                } }
                v.push(m);
            } } }
        } }
    }
    v
}
fn pos_ok(all: &[Vec<i8>], want: &[Vec<i8>]) -> bool {
    // the masks of different features differ, so equal numbers and mutual inclusion without repetition mean equality
    all.len() == want.len() && want.iter().all(|m| all.iter().filter(|a| *a == m).count() == 1)
}
fn frames() -> (u32, u32) { [(1u32, 1u32), (2, 1), (1, 2), (3, 2), (2, 3), (4, 2), (3, 3), (1, 6), (6, 1), (0, 3), (3, 0), (0, 0)][pick(0, 11) as usize] }
#[no_mangle] pub extern "C" fn q_all() {
    let (w, h) = frames();
    let fs = enumerate_haar_features(w as u8, h as u8);
    let masks: Vec<_> = fs.iter().map(|f| mask(*f, w, h)).collect();
    check(pos_ok(&masks, &expected(w, h)), "exactly the features that fit, each once");
    check(number_of_haar_features(w, h) as usize == fs.len(), "number_of_haar_features counts them");
}
fn values(w: u32, h: u32, more: u32) {
    let img = gray(w, h);
    let big = GrayImage::from_fn(w + more, h + more, |x, y| if x < w && y < h { *img.get_pixel(x, y) } else { Luma([77]) });
    let integral = integral_image::<_, u32>(&big);
    let mut ok = true;
    for f in enumerate_haar_features(w as u8, h as u8) {
        let mut s = 0i32;
        for (p, m) in img.pixels().zip(mask(f, w, h)) { s += p[0] as i32 * m as i32 }
        ok &= f.evaluate(&integral) == s;
    }
    check(ok, "a feature is the sum under its white minus the sum under its black part");
}
#[no_mangle] pub extern "C" fn q_values() { let (w, h) = frames(); values(w, h, 0) }
#[no_mangle] pub extern "C" fn q_values_larger() { values(3, 2, pick(1, 2) as u32) }
#[no_mangle] pub extern "C" fn q_values_4x4() { values(4, 4, 0) }
#[no_mangle] pub extern "C" fn q_values_6x3() { values(6, 3, 0) }
/// integral images too small are refused, large enough ones are not, whatever their values
#[no_mangle] pub extern "C" fn q_too_small() {
    let (w, h) = (3u32, 3u32);
    let fs = enumerate_haar_features(w as u8, h as u8);
    let f = fs[pick(0, fs.len() as i64 - 1) as usize];
    let m = mask(f, w, h);
    let (iw, ih) = (pick(0, 4) as u32, pick(0, 4) as u32);
    let (mut r, mut b) = (0, 0);
    for y in 0..h { for x in 0..w { if m[(y * w + x) as usize] != 0 { if x + 1 > r { r = x + 1 } if y + 1 > b { b = y + 1 } } } }
    let fits = iw > r && ih > b;
    if !fits { expect_panic(true) }
    let v = bits(10) as u32;
    let e = f.evaluate(&imageproc::definitions::Image::from_pixel(iw, ih, Luma([v])));
    check(fits && e == 0, "evaluated only where it fits; constant integrals give zero");
}
/// counts for wide and high frames, against the sum over block sizes
fn fits(side: u32, k: u32) -> u32 { let mut n = 0; for s in 1..=255 { if k * s <= side { n += side + 1 - k * s } } n }
#[no_mangle] pub extern "C" fn q_count() {
    let w = u8s() as u32;
    let h = [1u32, 2, 3, 7, 255][pick(0, 4) as usize];
    let (w, h) = if pick(0, 1) == 0 { (w, h) } else { (h, w) };
    let n = fits(w, 2) * fits(h, 1) + fits(w, 3) * fits(h, 1) + fits(w, 1) * fits(h, 2) + fits(w, 1) * fits(h, 3) + fits(w, 2) * fits(h, 2);
    check(number_of_haar_features(w, h) == 2 * n, "the number of features for every width and height");
}
/// the widest and highest frames
#[no_mangle] pub extern "C" fn q_longest() {
    let (w, h) = [(255u8, 0u8), (0, 255), (255, 1), (1, 255), (254, 1)][pick(0, 4) as usize];
    check(enumerate_haar_features(w, h).len() == number_of_haar_features(w as u32, h as u32) as usize, "frames of side 255 are enumerated in full");
}
/// drawing leaves the rest of the image and the argument alone, in any pixel type
#[no_mangle] pub extern "C" fn q_draw() {
    let (w, h) = (3u32, 2u32);
    let img: RgbImage = RgbImage::from_fn(w + 1, h + 1, |_, _| rgb_px());
    let fs = enumerate_haar_features(w as u8, h as u8);
    let f = fs[pick(0, fs.len() as i64 - 1) as usize];
    let m = mask(f, w, h);
    let out = draw_haar_feature(&img, f);
    let mut inplace = img.clone();
    draw_haar_feature_mut(&mut inplace, f);
    let mut ok = out.dimensions() == img.dimensions();
    for y in 0..=h { for x in 0..=w {
        let k = if x < w && y < h { m[(y * w + x) as usize] } else { 0 };
        let e = match k { 1 => Rgb([255; 3]), -1 => Rgb([0; 3]), _ => *img.get_pixel(x, y) };
        ok &= *out.get_pixel(x, y) == e && *inplace.get_pixel(x, y) == e;
    } }
    check(ok, "white and black parts are painted, all else is kept");
}
/// features with large blocks, and evaluation on large integral images
fn values_large(w: u32, h: u32, step: usize) {
    let img = big(w, h, 51, 3);
    let integral = integral_image::<_, u32>(&img);
    let (mut ok, mut n) = (true, 0);
    let fs = enumerate_haar_features(w as u8, h as u8);
    check(number_of_haar_features(w, h) as usize == fs.len(), "number_of_haar_features counts them");
    let mut i = pick(0, 2) as usize * (step / 3);
    while i < fs.len() {
        let mut s = 0i32;
        for (p, m) in img.pixels().zip(mask(fs[i], w, h)) { s += p[0] as i32 * m as i32 }
        ok &= fs[i].evaluate(&integral) == s;
        n += 1;
        i += step;
    }
    check(ok && n > 0, "a feature is the sum under its white minus the sum under its black part");
}
#[no_mangle] pub extern "C" fn q_values_large() {
    step_limit(400_000_000);
    let (w, h, step) = [(24, 24, 4001), (100, 3, 301), (3, 100, 301), (255, 1, 601), (1, 255, 601), (40, 16, 1501)][pick(0, 5) as usize];
    values_large(w, h, step)
}
