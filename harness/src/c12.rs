//! Binary morphology.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::distance_transform::Norm;
use imageproc::morphology::*;

fn mask(w: u32, h: u32) -> GrayImage {
    let fg = [1u8, 255][pick(0, 1) as usize];
    let v = (0..w * h).map(|_| (bits(1) as u8) * fg).collect();
    GrayImage::from_raw(w, h, v).unwrap()
}
fn split_mask(w: u32, h: u32) -> GrayImage {
    forking();
    let v = (0..w * h).map(|_| { let p = u8s(); if split(p > 0) { p } else { 0 } }).collect();
    GrayImage::from_raw(w, h, v).unwrap()
}
fn norm(k: i64) -> Norm { [Norm::L1, Norm::LInf, Norm::L2][k as usize] }
fn within(n: Norm, dx: u32, dy: u32, k: u8) -> bool {
    let k = k as u32;
    match n { Norm::L1 => dx + dy <= k, Norm::LInf => dx.max(dy) <= k, Norm::L2 => dx * dx + dy * dy <= k * k }
}
/// white exactly where a pixel equal to `fg`-ness lies within k
fn grow(img: &GrayImage, n: Norm, k: u8, fg: bool) -> GrayImage {
    let (w, h) = img.dimensions();
    GrayImage::from_fn(w, h, |x, y| {
        let mut hit = false;
        for v in 0..h { for u in 0..w { if within(n, u.abs_diff(x), v.abs_diff(y), k) { hit |= (at(img, u, v) > 0) == fg } } }
        Luma([if hit == fg { 255 } else { 0 }])
    })
}
fn all_ops(w: u32, h: u32, n: Norm, k: u8) {
    let img = if n == Norm::L2 { split_mask(w, h) } else { mask(w, h) };
    let (d, e) = (grow(&img, n, k, true), grow(&img, n, k, false));
    check(same(dilate(&img, n, k).as_raw(), d.as_raw()), "dilation: white within distance k of the foreground");
    check(same(erode(&img, n, k).as_raw(), e.as_raw()), "erosion: black within distance k of the background");
    check(same(open(&img, n, k).as_raw(), grow(&e, n, k, true).as_raw()), "opening: erosion, then dilation");
    check(same(close(&img, n, k).as_raw(), grow(&d, n, k, false).as_raw()), "closing: dilation, then erosion");
    let mut m = img.clone(); dilate_mut(&mut m, n, k); check(same(m.as_raw(), d.as_raw()), "in-place dilation");
    let mut m = img.clone(); erode_mut(&mut m, n, k); check(same(m.as_raw(), e.as_raw()), "in-place erosion");
    let mut m = img.clone(); open_mut(&mut m, n, k); check(same(m.as_raw(), grow(&e, n, k, true).as_raw()), "in-place opening");
    let mut m = img.clone(); close_mut(&mut m, n, k); check(same(m.as_raw(), grow(&d, n, k, false).as_raw()), "in-place closing");
}
#[no_mangle] pub extern "C" fn q_l1() { all_ops(pick(1, 3) as u32, pick(1, 3) as u32, Norm::L1, pick(0, 3) as u8) }
#[no_mangle] pub extern "C" fn q_linf() { all_ops(pick(1, 3) as u32, pick(1, 3) as u32, Norm::LInf, pick(0, 2) as u8) }
#[no_mangle] pub extern "C" fn q_l2() { all_ops(pick(1, 3) as u32, pick(1, 3) as u32, Norm::L2, pick(0, 2) as u8) }
#[no_mangle] pub extern "C" fn t_l2_3x3() { all_ops(3, 3, Norm::L2, pick(0, 3) as u8) }
#[no_mangle] pub extern "C" fn t_l1_4x4() { all_ops(4, 4, Norm::L1, pick(1, 2) as u8) }
#[no_mangle] pub extern "C" fn t_linf_4x4() { all_ops(4, 4, Norm::LInf, 1) }
/// wide: distance k reaches exactly k pixels
#[no_mangle] pub extern "C" fn q_reach() {
    let k = u8s();
    let (w, p) = (300u32, 20u32);
    let n = norm(pick(0, 2));
    let mut img = GrayImage::new(w, 1); img.put_pixel(p, 0, Luma([9]));
    let out = dilate(&img, n, k);
    let mut r = true;
    for x in 0..w { r &= (at(&out, x, 0) == 255) == (x.abs_diff(p) <= k as u32) }
    known(k == 255, "k=255 reaches beyond 255");
    check(r, "dilation reaches exactly k pixels");
    let mut img = GrayImage::from_pixel(w, 1, Luma([3])); img.put_pixel(p, 0, Luma([0]));
    let out = erode(&img, n, k);
    let mut r = true;
    for x in 0..w { r &= (at(&out, x, 0) == 0) == (x.abs_diff(p) <= k as u32) }
    check(r, "erosion reaches exactly k pixels");
}
/// without foreground nothing grows, without background nothing shrinks, for any k
#[no_mangle] pub extern "C" fn q_nothing_to_grow() {
    let (w, h, k, n) = (pick(0, 2) as u32, pick(0, 2) as u32, u8s(), norm(pick(0, 2)));
    let (b, f) = (GrayImage::new(w, h), GrayImage::from_pixel(w, h, Luma([7])));
    check(same(dilate(&b, n, k).as_raw(), b.as_raw()), "dilating an empty foreground");
    let mut r = true;
    for p in erode(&f, n, k).as_raw() { r &= *p == 255 }
    for p in dilate(&f, n, k).as_raw() { r &= *p == 255 }
    for p in erode(&b, n, k).as_raw() { r &= *p == 0 }
    check(r, "eroding without background");
}
/// scattered foreground or background, shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_morphology() {
    forking();
    let (w, h) = large();
    let n = (w * h) as usize;
    let inv = pick(0, 1) == 1;
    let mut v = big_raw(n, 3, 0);
    for p in v.iter_mut() { *p = ((*p < 12) != inv) as u8 * 200 }
    for i in [n / 2] { let p = u8s(); v[i] = if split(p > 0) { p } else { 0 } }
    let img = GrayImage::from_raw(w, h, v).unwrap();
    let (nm, k) = (norm(pick(0, 2)), [2u8, 9][pick(0, 1) as usize]);
    let grow = |img: &GrayImage, fg: bool| {
        let mut out = GrayImage::from_pixel(w, h, Luma([if fg { 0 } else { 255 }]));
        let k = k as u32;
        for y in 0..h { for x in 0..w { if split((at(img, x, y) > 0) == fg) {
            for v in y.saturating_sub(k)..=(y + k).min(h - 1) { for u in x.saturating_sub(k)..=(x + k).min(w - 1) { if within(nm, u.abs_diff(x), v.abs_diff(y), k as u8) { out.put_pixel(u, v, Luma([if fg { 255 } else { 0 }])) } } }
        } } }
        out
    };
    let (d, e) = (grow(&img, true), grow(&img, false));
    check(same(dilate(&img, nm, k).as_raw(), d.as_raw()), "dilation: white within distance k of the foreground");
    check(same(erode(&img, nm, k).as_raw(), e.as_raw()), "erosion: black within distance k of the background");
    check(same(open(&img, nm, k).as_raw(), grow(&e, true).as_raw()), "opening: erosion, then dilation");
    check(same(close(&img, nm, k).as_raw(), grow(&d, false).as_raw()), "closing: dilation, then erosion");
}
