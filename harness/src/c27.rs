//! Seam carving.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::gradients::gradients;
use imageproc::kernel;
use imageproc::seam_carving::*;

/// where a seam runs, top to bottom: an image that holds its own column numbers loses them there
fn columns(seam: &VerticalSeam, w: u32, h: u32) -> Vec<u32> {
    let ids = GrayImage::from_fn(w, h, |x, _| Luma([x as u8]));
    let out = remove_vertical_seam(&ids, seam);
    check(out.dimensions() == (w - 1, h), "one column fewer");
    (0..h).map(|y| {
        let mut gone = w - 1;
        for x in (0..w - 1).rev() { if at(&out, x, y) as u32 != x { gone = x } }
        let mut ok = true;
        for x in 0..w - 1 { ok &= at(&out, x, y) as u32 == if x < gone { x } else { x + 1 } }
        check(ok, "each row loses one pixel and keeps the order of the others");
        gone
    }).collect()
}
fn energy(img: &GrayImage) -> Vec<Vec<u32>> {
    let g = gradients(img, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, |p| Luma([p[0] as u32]));
    (0..img.height()).map(|y| (0..img.width()).map(|x| g.get_pixel(x, y)[0]).collect()).collect()
}
/// the least total of a path that moves by at most one column per row
fn least(e: &[Vec<u32>]) -> u32 {
    let w = e[0].len();
    let mut best = e[0].clone();
    for row in &e[1..] {
        let mut next = row.clone();
        for x in 0..w {
            let mut m = best[x];
            if x > 0 && best[x - 1] < m { m = best[x - 1] }
            if x + 1 < w && best[x + 1] < m { m = best[x + 1] }
            next[x] += m;
        }
        best = next;
    }
    let mut m = best[0];
    for b in best { if b < m { m = b } }
    m
}
fn judge(img: &GrayImage) {
    let (w, h) = img.dimensions();
    let seam = find_vertical_seam(img);
    let c = columns(&seam, w, h);
    let mut joined = true;
    for y in 1..h as usize { joined &= c[y].abs_diff(c[y - 1]) <= 1 }
    check(joined, "the seam moves by at most one column per row");
    let e = energy(img);
    let mut total = 0;
    for y in 0..h as usize { total += e[y][c[y] as usize] }
    check(total == least(&e), "no other such path has a smaller sum of gradient magnitudes");
}
fn spread(w: u32, h: u32, levels: &[u8]) -> GrayImage {
    GrayImage::from_fn(w, h, |_, _| { let b = split(bools()); Luma([levels[b as usize]]) })
}
#[no_mangle] pub extern "C" fn q_2x3() { forking(); judge(&spread(2, 3, &[0, 90])) }
#[no_mangle] pub extern "C" fn q_3x2() { forking(); judge(&spread(3, 2, &[10, 200])) }
#[no_mangle] pub extern "C" fn q_3x3() { forking(); judge(&spread(3, 3, &[0, 90])) }
#[no_mangle] pub extern "C" fn q_4x3() {
    forking();
    let base = [[3u8, 50, 9, 200], [70, 0, 120, 31], [5, 255, 14, 90]];
    let mut img = GrayImage::from_fn(4, 3, |x, y| Luma([base[y as usize][x as usize]]));
    for (x, y) in [(0, 0), (2, 0), (1, 1), (3, 1), (0, 2), (2, 2)] { if bools() { img.put_pixel(x, y, Luma([60])) } }
    judge(&img)
}
#[no_mangle] pub extern "C" fn q_5x5() {
    forking();
    let mut s = 77u32 + pick(0, 5) as u32;
    let mut img = GrayImage::from_fn(5, 5, |_, _| { s = s.wrapping_mul(1664525).wrapping_add(1013904223); Luma([(s >> 24) as u8]) });
    for (x, y) in [(1, 1), (3, 2), (2, 3), (0, 4)] { if bools() { img.put_pixel(x, y, Luma([128])) } }
    judge(&img)
}
#[no_mangle] pub extern "C" fn q_one_row() { forking(); let w = pick(2, 4) as u32; judge(&spread(w, 1, &[0, 77])) }
#[no_mangle] pub extern "C" fn t_4x4() { forking(); judge(&spread(4, 4, &[0, 90])) }
#[no_mangle] pub extern "C" fn t_3x5() { forking(); judge(&spread(3, 4, &[0, 90])) }
/// one free pixel value
#[no_mangle] pub extern "C" fn q_value() {
    forking();
    let mut img = GrayImage::from_raw(4, 3, vec![3, 50, 9, 200, 70, 0, 120, 31, 5, 255, 14, 90]).unwrap();
    let v = u8s();
    img.put_pixel(pick(0, 3) as u32, 1, Luma([v]));
    judge(&img)
}
/// colours: the mean of the channels' magnitudes
#[no_mangle] pub extern "C" fn q_rgb() {
    forking();
    let img = RgbImage::from_fn(3, 3, |x, y| { let b = (x + y) % 2 == 0 && bools(); if b { Rgb([200, 10, (x * 40) as u8]) } else { Rgb([(y * 30) as u8, 90, 7]) } });
    let seam = find_vertical_seam(&img);
    let c = columns(&seam, 3, 3);
    let g = gradients(&img, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, |p| Luma([(p[0] as u32 + p[1] as u32 + p[2] as u32) / 3]));
    let e: Vec<Vec<u32>> = (0..3).map(|y| (0..3).map(|x| g.get_pixel(x, y)[0]).collect()).collect();
    let mut total = 0;
    let mut joined = true;
    for y in 0..3usize { total += e[y][c[y] as usize]; if y > 0 { joined &= c[y].abs_diff(c[y - 1]) <= 1 } }
    check(joined && total == least(&e), "colour images: the cheapest path of the mean magnitude");
}
/// shrinking removes a best seam as often as asked
#[no_mangle] pub extern "C" fn q_shrink() {
    forking();
    let img = spread(4, 2, &[0, 90]);
    let t = pick(1, 4) as u32;
    let out = shrink_width(&img, t);
    check(out.dimensions() == (t, 2), "the width asked for, the same height");
    let mut want = img.clone();
    for _ in 0..4 - t { let s = find_vertical_seam(&want); want = remove_vertical_seam(&want, &s) }
    check(same(out.as_raw(), want.as_raw()), "one seam after the other");
}
#[no_mangle] pub extern "C" fn q_too_wide() {
    merging(false);
    let (w, t) = (range(1, 4) as u32, range(1, 6) as u32);
    if t > w { expect_panic(true) }
    let out = shrink_width(&GrayImage::new(w, 2), t);
    check(t <= w && out.dimensions() == (t, 2), "an image cannot be shrunk to more than its width");
}
/// removal keeps every other pixel, in order
#[no_mangle] pub extern "C" fn q_remove() {
    forking();
    let seam = find_vertical_seam(&spread(3, 3, &[0, 90]));
    let c = columns(&seam, 3, 3);
    let img = RgbImage::from_fn(3, 3, |_, _| rgb_px());
    let out = remove_vertical_seam(&img, &seam);
    let mut ok = out.dimensions() == (2, 3);
    for y in 0..3u32 { for x in 0..2u32 { ok &= out.get_pixel(x, y).0 == img.get_pixel(x + (x >= c[y as usize]) as u32, y).0 } }
    check(ok, "exactly the seam's pixels are removed");
    let wrong = pick(0, 1);
    if wrong == 1 { expect_panic(true); remove_vertical_seam(&GrayImage::new(3, 2), &seam); check(false, "a seam of another height is refused") }
}
/// drawing: the pixels that successive seams removed from the original are red, all others unchanged
#[no_mangle] pub extern "C" fn q_draw() {
    forking();
    let img = GrayImage::from_fn(4, 3, |x, y| Luma([if (x + y) % 3 == 0 { 20 + 9 * y as u8 } else if split(bools()) { 90 } else { 20 }]));
    let n = 3;
    let mut seams = vec![];
    let mut cur = img.clone();
    let mut left: Vec<Vec<u32>> = (0..3).map(|_| (0..4).collect()).collect();
    for _ in 0..n {
        let s = find_vertical_seam(&cur);
        let c = columns(&s, cur.width(), 3);
        for y in 0..3usize { left[y].remove(c[y] as usize); }
        cur = remove_vertical_seam(&cur, &s);
        seams.push(s);
    }
    let out = draw_vertical_seams(&img, &seams);
    check(out.dimensions() == (4, 3), "dimensions");
    let mut ok = true;
    for y in 0..3u32 { for x in 0..4u32 {
        let v = at(&img, x, y);
        let want = if left[y as usize].contains(&x) { [v, v, v] } else { [255, 0, 0] };
        ok &= out.get_pixel(x, y).0 == want;
    } }
    check(ok, "exactly the removed pixels are red");
}
/// images beyond the usual block sizes
#[no_mangle] pub extern "C" fn q_large() {
    forking(); step_limit(400_000_000);
    let (w, h) = [(20, 12), (70, 4), (4, 70), (200, 2), (2, 200), (33, 17)][pick(0, 5) as usize];
    let mut img = if split(bools()) { big(w, h, 21, 0) } else { big_binary(w, h, 22, 0) };
    for i in 0..3u32 { if split(bools()) { img.put_pixel((w - 1) * i / 2, (h - 1) * i / 2, Luma([128])) } }
    judge(&img)
}
#[no_mangle] pub extern "C" fn q_large_shrink() {
    forking(); step_limit(400_000_000);
    let (w, h, t) = [(20, 6, 9), (50, 3, 44), (6, 40, 2)][pick(0, 2) as usize];
    let mut img = big(w, h, 23, 0);
    if split(bools()) { img.put_pixel(w / 2, h / 2, Luma([0])) }
    let out = shrink_width(&img, t);
    check(out.dimensions() == (t, h), "the width asked for, the same height");
    let mut want = img.clone();
    let mut seams = vec![];
    let mut left: Vec<Vec<u32>> = (0..h).map(|_| (0..w).collect()).collect();
    for _ in 0..w - t {
        let s = find_vertical_seam(&want);
        let c = columns(&s, want.width(), h);
        for y in 0..h as usize { left[y].remove(c[y] as usize); }
        want = remove_vertical_seam(&want, &s);
        seams.push(s);
    }
    check(same(out.as_raw(), want.as_raw()), "one seam after the other");
    let drawn = draw_vertical_seams(&img, &seams);
    let mut ok = drawn.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let v = at(&img, x, y);
        let want = if left[y as usize].contains(&x) { [v, v, v] } else { [255, 0, 0] };
        ok &= drawn.get_pixel(x, y).0 == want;
    } }
    check(ok, "the removed pixels are red");
}
