//! Distance transforms.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::distance_transform::*;

/// foreground pixels have an arbitrary nonzero value taken from a few
fn mask(w: u32, h: u32) -> GrayImage {
    let fg = [1u8, 128, 255][pick(0, 2) as usize];
    let v = (0..w * h).map(|_| (bits(1) as u8) * fg).collect();
    GrayImage::from_raw(w, h, v).unwrap()
}
fn norm(k: i64) -> Norm { [Norm::L1, Norm::LInf, Norm::L2][k as usize] }
/// arbitrary pixels; one path per set of foreground pixels
fn split_mask(w: u32, h: u32) -> GrayImage {
    forking();
    let v = (0..w * h).map(|_| { let p = u8s(); if split(p > 0) { p } else { 0 } }).collect();
    GrayImage::from_raw(w, h, v).unwrap()
}
/// exact distance: L1 and LInf as they are, L2 squared; none without foreground
pub fn dist2(img: &GrayImage, n: Norm, x: u32, y: u32) -> u32 {
    let mut best = u32::MAX;
    for v in 0..img.height() { for u in 0..img.width() {
        let (dx, dy) = (u.abs_diff(x), v.abs_diff(y));
        let d = match n { Norm::L1 => dx + dy, Norm::LInf => dx.max(dy), Norm::L2 => dx * dx + dy * dy };
        let d = if at(img, u, v) > 0 { d } else { u32::MAX };
        best = best.min(d);
    } }
    best
}
fn exact(w: u32, h: u32, n: Norm) {
    let img = if n == Norm::L2 { split_mask(w, h) } else { mask(w, h) };
    let out = distance_transform(&img, n);
    let mut r = out.dimensions() == (w, h);
    let mut some = false;
    for p in img.as_raw() { some |= *p > 0 }
    for y in 0..h { for x in 0..w {
        let d = dist2(&img, n, x, y); let o = at(&out, x, y) as u32;
        let far = o >= w + h - 2; // no foreground: at least as far as any real distance
        let right = match n { Norm::L2 => { let mut k = 0u32; let mut up = 0u32; while k * k < w * w + h * h { k += 1; up = if d > (k - 1) * (k - 1) { k } else { up } } o == up } _ => o == d };
        r &= if some { right } else { far };
    } }
    check(r, "the distance to the nearest foreground pixel");
    let mut m = img.clone(); distance_transform_mut(&mut m, n);
    check(same(m.as_raw(), out.as_raw()), "in-place variant agrees");
    cover(some, "some foreground");
}
#[no_mangle] pub extern "C" fn q_l1() { exact(pick(1, 3) as u32, pick(1, 3) as u32, Norm::L1) }
#[no_mangle] pub extern "C" fn q_linf() { exact(pick(1, 3) as u32, pick(1, 3) as u32, Norm::LInf) }
#[no_mangle] pub extern "C" fn t_l1_4x4() { exact(4, 4, Norm::L1) }
#[no_mangle] pub extern "C" fn t_linf_4x4() { exact(4, 4, Norm::LInf) }
#[no_mangle] pub extern "C" fn t_linf_5x4() { exact(5, 4, Norm::LInf) }
#[no_mangle] pub extern "C" fn t_l1_6x4() { exact(6, 4, Norm::L1) }
#[no_mangle] pub extern "C" fn q_l2() { exact(pick(1, 3) as u32, pick(1, 3) as u32, Norm::L2) }
#[no_mangle] pub extern "C" fn q_l2_row() { if pick(0, 1) == 0 { exact(7, 1, Norm::L2) } else { exact(1, 7, Norm::L2) } }
#[no_mangle] pub extern "C" fn t_l2_4x3() { exact(4, 3, Norm::L2) }
fn euclid(w: u32, h: u32) {
    let img = split_mask(w, h);
    let out = euclidean_squared_distance_transform(&img);
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let d = dist2(&img, Norm::L2, x, y); let o = out.get_pixel(x, y)[0];
        r &= if d == u32::MAX { o == f64::INFINITY } else { o == d as f64 };
    } }
    check(r, "exact squared Euclidean distance, infinite without foreground");
}
#[no_mangle] pub extern "C" fn q_euclid() { euclid(pick(1, 3) as u32, pick(1, 3) as u32) }
#[no_mangle] pub extern "C" fn q_euclid_col() { if pick(0, 1) == 0 { euclid(2, 5) } else { euclid(5, 2) } }
#[no_mangle] pub extern "C" fn t_euclid_4x3() { euclid(4, 3) }
#[no_mangle] pub extern "C" fn t_euclid_3x4() { euclid(3, 4) }
#[no_mangle] pub extern "C" fn q_empty() {
    let (w, h) = [(0, 0), (0, 3), (3, 0)][pick(0, 2) as usize];
    let i = GrayImage::new(w, h);
    check(distance_transform(&i, norm(pick(0, 2))).dimensions() == (w, h) && euclidean_squared_distance_transform(&i).dimensions() == (w, h), "empty images");
}
/// long rows: distances saturate at 255
#[no_mangle] pub extern "C" fn q_saturates() {
    let p = [0u32, 10, 299][pick(0, 2) as usize];
    let n = norm(pick(0, 2));
    let mut img = GrayImage::new(300, 1);
    img.put_pixel(p, 0, Luma([u8s() | 1]));
    let out = distance_transform(&img, n);
    let mut r = true;
    for x in 0..300u32 { r &= at(&out, x, 0) as u32 == x.abs_diff(p).min(255) }
    check(r, "distances saturate at 255");
}
/// scattered foreground, three pixels arbitrary, shapes beyond the usual block and chunk sizes
fn scattered() -> (GrayImage, Vec<(u32, u32)>) {
    forking();
    let (w, h) = large();
    let n = (w * h) as usize;
    let sparse = [5u8, 30][pick(0, 1) as usize];
    let mut v = big_raw(n, 3, 0);
    for p in v.iter_mut() { *p = if *p < sparse { *p + 1 } else { 0 } }
    for i in [0, n / 2, n - 1] { let p = u8s(); v[i] = if split(p > 0) { p } else { 0 } }
    let mut fg = vec![];
    for i in 0..n { if split(v[i] > 0) { fg.push((i as u32 % w, i as u32 / w)) } }
    (GrayImage::from_raw(w, h, v).unwrap(), fg)
}
#[no_mangle] pub extern "C" fn q_large_distance() {
    let (img, fg) = scattered();
    let (w, h) = img.dimensions();
    let (a, b, c, e) = (distance_transform(&img, Norm::L1), distance_transform(&img, Norm::LInf), distance_transform(&img, Norm::L2), euclidean_squared_distance_transform(&img));
    let mut r = a.dimensions() == (w, h) && b.dimensions() == (w, h) && c.dimensions() == (w, h) && e.dimensions() == (w, h);
    if fg.len() > 0 { for y in 0..h { for x in 0..w {
        let (mut d1, mut di, mut d2) = (u32::MAX, u32::MAX, u32::MAX);
        for &(u, v) in &fg { let (dx, dy) = (u.abs_diff(x), v.abs_diff(y)); d1 = d1.min(dx + dy); di = di.min(dx.max(dy)); d2 = d2.min(dx * dx + dy * dy) }
        let mut up = 0u32; while up * up < d2 { up += 1 }
        r &= at(&a, x, y) as u32 == d1.min(255) && at(&b, x, y) as u32 == di.min(255) && at(&c, x, y) as u32 == up.min(255) && e.get_pixel(x, y)[0] == d2 as f64;
    } } }
    check(r, "the distance to the nearest foreground pixel");
    cover(fg.len() > 20, "many foreground pixels");
}
