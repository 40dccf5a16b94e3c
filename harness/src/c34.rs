//! Synthetic noise.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage, RgbaImage};
use imageproc::noise::*;
use rand::{rngs::StdRng, SeedableRng};
use rand_distr::{Distribution, Normal};

fn seed() -> u64 { [0u64, 1, 77, u64::MAX][pick(0, 3) as usize] }
fn sizes() -> (u32, u32) { [(3u32, 2u32), (1, 4), (2, 2), (0, 0), (0, 3), (2, 0)][pick(0, 5) as usize] }
fn rgbs(w: u32, h: u32) -> RgbImage { RgbImage::from_fn(w, h, |_, _| rgb_px()) }
fn nearest(x: f64) -> u8 { if x >= 255.0 { 255 } else if x <= 0.0 { 0 } else { x as u8 } }
/// independent samples are added to all channels in turn
#[no_mangle] pub extern "C" fn q_gaussian() { let (w, h) = sizes(); gaussian(w, h, rgbs(w, h)) }
fn gaussian(w: u32, h: u32, img: RgbImage) {
    let (mean, dev) = [(0.0, 10.0), (30.0, 40.0), (-7.5, 0.25), (0.0, 500.0), (-300.0, 1.0), (12.5, 0.0)][pick(0, 5) as usize];
    let s = seed();
    let out = gaussian_noise(&img, mean, dev, s);
    let mut inplace = img.clone();
    gaussian_noise_mut(&mut inplace, mean, dev, s);
    let mut rng = StdRng::seed_from_u64(s);
    let normal = Normal::new(mean, dev).unwrap();
    let mut ok = out.dimensions() == (w, h) && inplace.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { for c in 0..3 {
        let e = nearest(img.get_pixel(x, y)[c] as f64 + normal.sample(&mut rng));
        ok &= out.get_pixel(x, y)[c] == e && inplace.get_pixel(x, y)[c] == e;
    } } }
    check(ok, "each channel is the clamped sum of its value and the next normal sample of the seed");
}
#[no_mangle] pub extern "C" fn q_gaussian_alpha() {
    let img = RgbaImage::from_fn(2, 1, |_, _| rgba_px());
    let out = gaussian_noise(&img, 400.0, 1.0, seed());
    let mut ok = true;
    for p in out.pixels() { ok &= p.0 == [255; 4] }
    let out = gaussian_noise(&img, -400.0, 1.0, seed());
    for p in out.pixels() { ok &= p.0 == [0; 4] }
    check(ok, "all channels, saturating");
}
#[no_mangle] pub extern "C" fn q_gaussian_wide() {
    let img = gray16(2, 2);
    let out = gaussian_noise(&img, 25.0, 0.0, seed());
    let mut ok = true;
    for y in 0..2 { for x in 0..2 { let v = img.get_pixel(x, y)[0]; ok &= out.get_pixel(x, y)[0] == if v > 65510 { 65535 } else { v + 25 } } }
    check(ok, "deviation zero adds the mean exactly");
    if pick(0, 1) == 1 { expect_panic(true); gaussian_noise(&GrayImage::new(1, 1), 0.0, f64::NAN, 0); check(false, "a deviation that is not a number is refused") }
}
/// which pixels change does not depend on the image
fn pepper(w: u32, h: u32, rate: f64, s: u64) -> Vec<i32> {
    salt_and_pepper_noise(&GrayImage::from_pixel(w, h, Luma([100])), rate, s).pixels().map(|p| match p[0] { 100 => 0, 255 => 1, 0 => -1, _ => 9 }).collect()
}
#[no_mangle] pub extern "C" fn q_salt() { let (w, h) = sizes(); salt(w, h, rgbs(w, h)) }
fn salt(w: u32, h: u32, img: RgbImage) {
    let rate = [0.0, 0.25, 0.5, 0.9, 1.0][pick(0, 4) as usize];
    let s = seed();
    let out = salt_and_pepper_noise(&img, rate, s);
    let mut inplace = img.clone();
    salt_and_pepper_noise_mut(&mut inplace, rate, s);
    let m = pepper(w, h, rate, s);
    let mut ok = out.dimensions() == (w, h) && inplace.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let e = match m[(y * w + x) as usize] { 1 => Rgb([255; 3]), -1 => Rgb([0; 3]), _ => *img.get_pixel(x, y) };
        ok &= *out.get_pixel(x, y) == e && *inplace.get_pixel(x, y) == e;
    } }
    check(ok, "pixels are kept, white or black, where depends on the seed alone");
    if rate == 0.0 { check(m.iter().all(|k| *k == 0), "rate zero changes nothing") }
    if rate == 1.0 { check(m.iter().all(|k| *k != 0), "rate one changes every pixel") }
}
/// about the right share of pixels of each kind for chosen seeds
#[no_mangle] pub extern "C" fn q_shares() {
    let k = pick(1, 9);
    shares(20, k as f64 / 10.0, 45)
}
#[no_mangle] pub extern "C" fn q_rate() {
    forking();
    shares(12, bits(8) as u32 as f64 / 256.0, 30)
}
fn shares(side: u32, rate: f64, slack: i64) {
    let m = pepper(side, side, rate, seed());
    let (mut white, mut black, mut other) = (0i64, 0i64, 0);
    for v in m { if v == 1 { white += 1 } if v == -1 { black += 1 } if v == 9 { other += 1 } }
    let want = ((side * side) as f64 * rate) as i64;
    check(other == 0 && (white + black - want).abs() < slack && (white - black).abs() < slack, "black and white occur about equally often, at the rate given");
}
/// larger images
fn large_rgb() -> (u32, u32, RgbImage) { let (w, h) = [(37, 23), (130, 3), (2, 260)][pick(0, 2) as usize]; (w, h, RgbImage::from_raw(w, h, big_raw((w * h * 3) as usize, 41, 3)).unwrap()) }
#[no_mangle] pub extern "C" fn q_large_gaussian() { step_limit(400_000_000); let (w, h, i) = large_rgb(); gaussian(w, h, i) }
#[no_mangle] pub extern "C" fn q_large_salt() { step_limit(400_000_000); let (w, h, i) = large_rgb(); salt(w, h, i) }
