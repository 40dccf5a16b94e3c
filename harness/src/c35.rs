//! Perceptual image hashes.
use crate::sym::*;
use image::{imageops, Luma};
use imageproc::definitions::Image;
use imageproc::image_hash::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type F = Image<Luma<f32>>;
fn image(w: u32, h: u32, s: u32) -> F { Image::from_fn(w, h, |x, y| Luma([((x * 37 + y * 101 + x * y * 13 + (x / 3) * s * 57 + y * y * s * 5) % 251) as f32 / 256.0])) }
/// the cosine transform by definition: 1 above the mean of the 8x8 lowest frequencies without the constant ones, 0 below, 2 too close to say
fn signs(img: &F) -> Vec<u8> {
    let r = imageops::resize(img, 32, 32, imageops::FilterType::Lanczos3);
    let mut basis = vec![0f64; 9 * 32];
    for k in 0..9 { for n in 0..32 { basis[k * 32 + n] = (std::f64::consts::PI / 32.0 * (n as f64 + 0.5) * k as f64).cos() } }
    let mut rows = vec![0f64; 9 * 32];
    for y in 0..32 { for k in 1..9 { let mut s = 0.0; for x in 0..32 { s += basis[k * 32 + x] * r.get_pixel(x as u32, y as u32)[0] as f64 } rows[k * 32 + y] = s } }
    let (mut c, mut mean) = (vec![], 0.0);
    for ky in 1..9 { for kx in 1..9 { let mut s = 0.0; for y in 0..32 { s += basis[ky * 32 + y] * rows[kx * 32 + y] } c.push(s); mean += s / 64.0 } }
    c.iter().map(|v| { let d = *v - mean; if d > 1e-3 { 1 } else if d < -1e-3 { 0 } else { 2 } }).collect()
}
fn judge(a: &F, b: &F) {
    let (p, q) = (signs(a), signs(b));
    let (mut least, mut open) = (0u32, 0u32);
    for i in 0..64 { if p[i] == 2 || q[i] == 2 { open += 1 } else if p[i] != q[i] { least += 1 } }
    let (ha, hb) = (phash(a), phash(b));
    let d = ha.hamming_distance(hb);
    check(d >= least && d <= least + open, "the distance counts the low frequencies above their mean in one image only");
    check(d == hb.hamming_distance(ha), "distances are symmetric");
    check((d == 0) == (ha == hb), "only equal hashes have distance zero");
}
/// every level of one pixel, everywhere the hash looks
fn one(w: u32, h: u32) {
    let mut a = image(w, h, 1);
    let v = bits(8) as u32;
    let k = pick(0, 1) as u32;
    a.put_pixel((w / 2 + k) % w, (h / 3 + 2 * k) % h, Luma([v as f32 / 256.0]));
    judge(&a, &image(w, h, pick(1, 2) as u32))
}
#[no_mangle] pub extern "C" fn q_same_size() { one(32, 32) }
#[no_mangle] pub extern "C" fn q_small() { let (w, h) = [(4, 4), (6, 3)][pick(0, 1) as usize]; one(w, h) }
#[no_mangle] pub extern "C" fn q_large() { let (w, h) = [(40, 33), (32, 36)][pick(0, 1) as usize]; one(w, h) }
fn digest(p: PHash) -> u64 { let mut h = DefaultHasher::new(); p.hash(&mut h); h.finish() }
/// the hash of an image does not depend on its scale of brightness
#[no_mangle] pub extern "C" fn q_scale() {
    let (w, h) = [(32, 32), (5, 6)][pick(0, 1) as usize];
    let a = image(w, h, pick(0, 3) as u32);
    // dark enough that resizing does not overshoot the range of the image crate
    let a = F::from_fn(w, h, |x, y| Luma([a.get_pixel(x, y)[0] * 0.25]));
    let f = [0.5f32, 0.25, 1.0][pick(0, 2) as usize];
    let b = F::from_fn(w, h, |x, y| Luma([a.get_pixel(x, y)[0] * f]));
    let (p, q) = (phash(&a), phash(&b));
    check(p == q && p.hamming_distance(q) == 0 && digest(p) == digest(q), "images that differ by a factor only have the same hash");
}
#[no_mangle] pub extern "C" fn q_triangle() {
    let h: Vec<PHash> = (0..3).map(|i| phash(&image(6, 5, i + pick(0, 1) as u32 * 3))).collect();
    let d = |i: usize, j: usize| h[i].hamming_distance(h[j]);
    check(d(0, 2) <= d(0, 1) + d(1, 2) && d(0, 0) == 0 && d(0, 1) <= 64, "a metric");
}
#[no_mangle] pub extern "C" fn q_empty() {
    let (w, h) = [(0u32, 0u32), (0, 5), (7, 0), (1, 1)][pick(0, 3) as usize];
    let p = phash(&image(w, h, 1));
    check(p.hamming_distance(p) == 0, "images of any size are accepted");
}
