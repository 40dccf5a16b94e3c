//! Canny edge detection.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::edges::canny;
use imageproc::filter::gaussian_blur_f32;

/// gradient strengths thinned to the maxima along the gradient direction; zero on the image border
fn strengths(img: &GrayImage) -> Vec<f32> {
    let (w, h) = (img.width() as i32, img.height() as i32);
    let b = gaussian_blur_f32(img, 1.4);
    let mut g = vec![]; let mut dir = vec![];
    for y in 0..h { for x in 0..w {
        let p = |dx: i32, dy: i32| atc(&b, x + dx, y + dy) as i32;
        let gx = p(1, -1) + 2 * p(1, 0) + p(1, 1) - p(-1, -1) - 2 * p(-1, 0) - p(-1, 1);
        let gy = p(-1, 1) + 2 * p(0, 1) + p(1, 1) - p(-1, -1) - 2 * p(0, -1) - p(1, -1);
        let (fx, fy) = (gx as i16 as f32, gy as i16 as f32);
        g.push(fx.hypot(fy));
        let mut a = fy.atan2(fx) * (180f32 / std::f32::consts::PI);
        if a < 0.0 { a += 180.0 }
        // 0: along x, 1: diagonal (1,1), 2: along y, 3: diagonal (1,-1)
        dir.push(if a < 22.5 || a >= 157.5 { 0u8 } else if a < 67.5 { 1 } else if a < 112.5 { 2 } else { 3 });
    } }
    let mut out = vec![0f32; g.len()];
    for y in 1..h - 1 { for x in 1..w - 1 {
        let i = (y * w + x) as usize;
        let at = |dx: i32, dy: i32| g[((y + dy) * w + x + dx) as usize];
        let pairs = [at(1, 0).max(at(-1, 0)), at(1, 1).max(at(-1, -1)), at(0, 1).max(at(0, -1)), at(1, -1).max(at(-1, 1))];
        let d = dir[i];
        let m = if d == 0 { pairs[0] } else if d == 1 { pairs[1] } else if d == 2 { pairs[2] } else { pairs[3] };
        out[i] = if g[i] >= m { g[i] } else { 0.0 };
    } }
    out
}
fn judge(img: &GrayImage, lo: f32, hi: f32) {
    let (w, h) = (img.width() as i32, img.height() as i32);
    let out = canny(img, lo, hi);
    check(out.dimensions() == img.dimensions(), "canny: dimensions");
    let s = strengths(img);
    let o = out.as_raw();
    let n = (w * h) as usize;
    let (mut two, mut weak, mut strong) = (true, true, true);
    for i in 0..n { two &= o[i] == 0 || o[i] == 255; weak &= o[i] == 0 || s[i] >= lo }
    for y in 1..h - 1 { for x in 1..w - 1 { let i = (y * w + x) as usize; strong &= !(s[i] >= hi) || o[i] == 255 } }
    check(two, "canny: pixels are 0 or 255");
    check(weak, "canny: every edge pixel is a local maximum of at least the low threshold");
    check(strong, "canny: every local maximum of at least the high threshold is an edge");
    // every edge pixel is reached from a strong one
    let mut reach: Vec<bool> = (0..n).map(|i| o[i] == 255 && s[i] >= hi).collect();
    let near = |i: usize, f: &mut dyn FnMut(usize, i32, i32)| {
        let (x, y) = (i as i32 % w, i as i32 / w);
        for dy in -1..=1 { for dx in -1..=1 {
            let (a, b) = (x + dx, y + dy);
            if (dx, dy) != (0, 0) && a >= 0 && b >= 0 && a < w && b < h { f((b * w + a) as usize, dx, dy) }
        } }
    };
    loop {
        let mut grew = false;
        for i in 0..n { if !reach[i] && o[i] == 255 { let mut r = false; near(i, &mut |j, _, _| r |= reach[j]); if r { reach[i] = true; grew = true } } }
        if !grew { break }
    }
    let mut all = true;
    for i in 0..n { all &= o[i] != 255 || reach[i] }
    check(all, "canny: every edge pixel is connected to a strong one");
    // weak pixels next to an edge are edges
    let (mut closed, mut up) = (true, true);
    for i in 0..n {
        near(i, &mut |j, dx, dy| {
            let ok = !(o[i] == 255 && s[j] >= lo) || o[j] == 255;
            if dy == -1 && dx >= 0 { up &= ok } else { closed &= ok }
        });
    }
    check(closed, "canny: weak maxima next to an edge are edges");
    known(!up, "weak maxima above or above right of an edge");
    check(up, "canny: weak maxima above an edge are edges");
    cover(o.iter().any(|p| *p == 255), "some edge");
}
fn picture(k: i64, w: u32, h: u32) -> GrayImage {
    GrayImage::from_fn(w, h, |x, y| {
        let (x, y) = (x as i32, y as i32);
        Luma([match k {
            0 => if x >= 3 { 200 } else { 10 },
            1 => if y >= 3 { 240 } else { 40 },
            2 => if x + y >= 6 { 250 } else { 0 },
            3 => if x - y >= 1 { 220 } else { 20 },
            4 => if x >= 3 { 60 + 28 * y as u8 } else { 30 },
            5 => if x >= 3 { 255 - 32 * y as u8 } else { 10 },
            6 => if y >= 3 { 255 - 30 * x as u8 } else { 0 },
            7 => if (x - 3) * (x - 3) + (y - 3) * (y - 3) <= 5 { 255 } else { 15 },
            8 => if x > y + 1 { 200 - 20 * y as u8 } else { 15 },
            _ => if x + y > 6 { 90 + 22 * y as u8 } else { 60 },
        }])
    })
}
/// one pixel arbitrary in different scenes
fn one_pixel(k: i64, w: u32, h: u32, lo: f32, hi: f32) {
    merging(false);
    let mut img = picture(k, w, h);
    let (x, y) = [(3, 3), (5, 2), (1, 4)][pick(0, 2) as usize];
    img.put_pixel(x, y, Luma([u8s()]));
    judge(&img, lo, hi)
}
#[no_mangle] pub extern "C" fn q_steps() { let (l, h) = [(30., 60.), (150., 250.)][pick(0, 1) as usize]; one_pixel(pick(0, 3), 7, 6, l, h) }
#[no_mangle] pub extern "C" fn q_ramps() { let (l, h) = [(60., 200.), (20., 300.), (250., 250.)][pick(0, 2) as usize]; one_pixel(pick(4, 9), 7, 7, l, h) }
/// any thresholds
#[no_mangle] pub extern "C" fn q_thresholds() {
    merging(false);
    let img = picture(pick(0, 9), 7, 6);
    let (lo, hi) = (f32s(), f32s());
    assume(lo > 0.0);
    let ok = hi >= lo;
    if !split(ok) { expect_panic(true); canny(&img, lo, hi); check(false, "canny refuses a high threshold below the low one"); return }
    judge(&img, lo, hi)
}
#[no_mangle] pub extern "C" fn q_no_threshold() {
    merging(false);
    let img = picture(pick(0, 9), 7, 6);
    let (lo, hi) = ([0.0, -0.0, -1.0, f32::NEG_INFINITY][pick(0, 3) as usize], [0.0, 90.0, f32::INFINITY][pick(0, 2) as usize]);
    let out = canny(&img, lo, hi);
    check(out.dimensions() == (7, 6), "canny: any thresholds");
    if hi == 0.0 { check((8..34).all(|i| i % 7 == 0 || i % 7 == 6 || out.as_raw()[i] == 255), "canny: nothing is below a threshold of zero") }
    if hi == f32::INFINITY { check(out.as_raw().iter().all(|p| *p == 0), "canny: nothing reaches infinity") }
}
#[no_mangle] pub extern "C" fn q_flat() {
    let (w, h) = (pick(0, 4) as u32, pick(0, 4) as u32);
    let img = GrayImage::from_pixel(w, h, Luma([u8s()]));
    let (lo, hi) = (0.5, 1.0);
    let out = canny(&img, lo, hi);
    check(out.dimensions() == (w, h), "canny: dimensions");
    check(out.as_raw().iter().all(|p| *p == 0), "a flat image has no edges");
}
/// larger images: noise, blobs, long edges; one pixel arbitrary
#[no_mangle] pub extern "C" fn q_large() {
    merging(false);
    let (w, h) = [(19u32, 12u32), (40, 5), (5, 40)][pick(0, 2) as usize];
    let k = pick(0, 2);
    let mut img = big(w, h, 17, 0);
    for y in 0..h { for x in 0..w { let v = at(&img, x, y); img[(x, y)][0] = match k { 0 => v, 1 => if (x / 6 + y / 5) % 2 == 0 { 40 + v / 16 } else { 200 - v / 16 }, _ => ((x * 5 + y * 9) as u8).wrapping_add(v / 8) } } }
    img[(w / 2, h / 2)][0] = [0u8, 252][pick(0, 1) as usize] + bits(2) as u8;
    let (lo, hi) = [(20., 90.), (100., 220.)][pick(0, 1) as usize];
    judge(&img, lo, hi)
}
