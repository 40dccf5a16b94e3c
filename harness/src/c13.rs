//! Grayscale morphology and masks.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::morphology::*;

/// the points of a mask, from which it is built and by which results are judged
struct M { mask: Mask, pts: Vec<(i32, i32)> }
fn from(w: u32, h: u32, bits: u32, cx: u8, cy: u8) -> M {
    let img = GrayImage::from_fn(w, h, |x, y| Luma([if bits >> (y * w + x) & 1 == 1 { 200 } else { 0 }]));
    let mut pts = vec![];
    for y in 0..h { for x in 0..w { if bits >> (y * w + x) & 1 == 1 { pts.push((x as i32 - cx as i32, y as i32 - cy as i32)) } } }
    M { mask: Mask::from_image(&img, cx, cy), pts }
}
fn covered(img: &GrayImage, m: &[(i32, i32)], x: u32, y: u32) -> Vec<u8> {
    let mut r = vec![];
    for (dx, dy) in m { let (u, v) = (x as i32 + dx, y as i32 + dy); if u >= 0 && v >= 0 && u < img.width() as i32 && v < img.height() as i32 { r.push(at(img, u as u32, v as u32)) } }
    r
}
fn extreme(img: &GrayImage, m: &[(i32, i32)], max: bool) -> GrayImage {
    let mut out = GrayImage::new(img.width(), img.height());
    for y in 0..img.height() { for x in 0..img.width() {
        let mut b = if max { 0 } else { 255 };
        for p in covered(img, m, x, y) { b = if max { b.max(p) } else { b.min(p) } }
        out.put_pixel(x, y, Luma([b]));
    } }
    out
}
fn ops(img: &GrayImage, m: &M) {
    let (d, e) = (extreme(img, &m.pts, true), extreme(img, &m.pts, false));
    let (gd, ge) = (grayscale_dilate(img, &m.mask), grayscale_erode(img, &m.mask));
    check(gd.dimensions() == img.dimensions() && same(gd.as_raw(), d.as_raw()), "dilation is the maximum under the mask");
    check(ge.dimensions() == img.dimensions() && same(ge.as_raw(), e.as_raw()), "erosion is the minimum under the mask");
    check(same(grayscale_open(img, &m.mask).as_raw(), grayscale_dilate(&ge, &m.mask).as_raw()), "opening: erosion, then dilation");
    check(same(grayscale_close(img, &m.mask).as_raw(), grayscale_erode(&gd, &m.mask).as_raw()), "closing: dilation, then erosion");
}
#[no_mangle] pub extern "C" fn q_small_masks() {
    // all masks of three pixels in a row or column, centred anywhere around them
    let (w, h) = (pick(1, 3) as u32, pick(1, 3) as u32);
    let v = pick(0, 1) == 1; let b = pick(0, 7) as u32; let c = pick(0, 4) as u8;
    let m = if v { from(1, 3, b, 0, c) } else { from(3, 1, b, c, 0) };
    let img = gray_bits(w, h, 2);
    ops(&img, &m);
}
#[no_mangle] pub extern "C" fn q_standard_masks() {
    let k = pick(0, 2);
    let m = match k {
        0 => M { mask: Mask::square(1), pts: (0..9).map(|i| (i % 3 - 1, i / 3 - 1)).collect() },
        1 => M { mask: Mask::diamond(1), pts: vec![(0, -1), (-1, 0), (0, 0), (1, 0), (0, 1)] },
        _ => M { mask: Mask::disk(2), pts: (0..25).map(|i| (i % 5 - 2, i / 5 - 2)).filter(|(x, y)| x * x + y * y <= 4).collect() },
    };
    ops(&gray_bits(pick(1, 3) as u32, pick(1, 3) as u32, 1), &m);
}
#[no_mangle] pub extern "C" fn q_full_range() {
    // all 8-bit contents, asymmetric two-point masks
    let m = [from(2, 2, 0b0110, 0, 0), from(2, 2, 0b1001, 1, 0), from(3, 1, 0b101, 2, 0), from(2, 2, 0b1000, 3, 3)];
    let m = &m[pick(0, 3) as usize];
    let img = gray(3, 2);
    let (gd, ge) = (grayscale_dilate(&img, &m.mask), grayscale_erode(&img, &m.mask));
    let mut r = true;
    for y in 0..2 { for x in 0..3 {
        let c = covered(&img, &m.pts, x, y);
        let (d, e) = (at(&gd, x, y), at(&ge, x, y));
        if c.is_empty() { r &= d == 0 && e == 255 } else {
            let (mut hd, mut he) = (false, false);
            for p in &c { r &= d >= *p && e <= *p; hd |= d == *p; he |= e == *p }
            r &= hd && he;
        }
    } }
    check(r, "extremes of the covered pixels, neutral where none is covered");
}
#[no_mangle] pub extern "C" fn q_duality() {
    let m = from(2, 2, pick(1, 15) as u32, pick(0, 1) as u8, pick(0, 1) as u8);
    let img = gray(2, 2);
    let inv = GrayImage::from_raw(2, 2, img.as_raw().iter().map(|p| 255 - p).collect()).unwrap();
    let (d, e) = (grayscale_dilate(&img, &m.mask), grayscale_erode(&inv, &m.mask));
    let mut r = true;
    for i in 0..4 { r &= d.as_raw()[i] == 255 - e.as_raw()[i] }
    check(r, "eroding the negative is the negative of dilating");
}
#[no_mangle] pub extern "C" fn q_empty() {
    let (w, h) = (pick(0, 1) as u32, pick(0, 1) as u32 * 3);
    let img = gray(w, h);
    let none = Mask::from_image(&GrayImage::new(2, 2), 0, 0);
    let m = if pick(0, 1) == 0 { Mask::square(1) } else { none.clone() };
    check(grayscale_dilate(&img, &m).dimensions() == (w, h) && grayscale_erode(&img, &m).dimensions() == (w, h), "empty images and masks");
    let mut r = true;
    for p in grayscale_dilate(&img, &none).as_raw() { r &= *p == 0 }
    for p in grayscale_erode(&img, &none).as_raw() { r &= *p == 255 }
    check(r, "an empty mask yields the neutral value");
    check(Mask::from_image(&GrayImage::new(0, 5), 7, 7) == none, "masks without points are equal");
}
fn shape(k: i64, r: i32) -> (Mask, GrayImage) {
    let d = 2 * r as u32 + 1;
    let img = GrayImage::from_fn(d, d, |x, y| { let (x, y) = (x as i32 - r, y as i32 - r); let inside = match k { 0 => true, 1 => x.abs() + y.abs() <= r, _ => x * x + y * y <= r * r }; Luma([if inside { 1 } else { 0 }]) });
    (match k { 0 => Mask::square(r as u8), 1 => Mask::diamond(r as u8), _ => Mask::disk(r as u8) }, img)
}
#[no_mangle] pub extern "C" fn q_shapes() {
    let (k, r) = (pick(0, 2), pick(0, 9) as i32);
    let (m, img) = shape(k, r);
    check(m == Mask::from_image(&img, r as u8, r as u8), "square, diamond and disk contain exactly the points within the radius");
}
#[no_mangle] pub extern "C" fn t_shapes_large() {
    let (k, r) = (pick(0, 2), pick(10, 40) as i32);
    let (m, img) = shape(k, r);
    check(m == Mask::from_image(&img, r as u8, r as u8), "square, diamond and disk contain exactly the points within the radius");
}
#[no_mangle] pub extern "C" fn q_mask_size() {
    let (w, h) = [(511, 1), (512, 1), (1, 511), (1, 512), (0, 512), (600, 0)][pick(0, 5) as usize];
    let ok = w < 512 && h < 512;
    if !ok { expect_panic(true) }
    let m = Mask::from_image(&GrayImage::new(w, h), 0, 0);
    check(ok && m == Mask::from_image(&GrayImage::new(1, 1), 0, 0), "mask images are at most 511 pixels wide and high");
}
/// points and centres far into the mask image
#[no_mangle] pub extern "C" fn q_far_centre() {
    merging(false);
    let tall = pick(0, 1) == 1;
    let ps = [0u32, 3, 127, 128, 200, 254, 256, 258];
    let (p, c) = (ps[pick(0, 7) as usize], [0u8, 1, 126, 127, 128, 129, 199, 254, 255][pick(0, 8) as usize]);
    let (w, h) = if tall { (1, 259) } else { (259, 1) };
    let mut m = GrayImage::new(w, h);
    if tall { m.put_pixel(0, p, Luma([1])) } else { m.put_pixel(p, 0, Luma([1])) }
    let m = if tall { Mask::from_image(&m, 0, c) } else { Mask::from_image(&m, c, 0) };
    let img = if tall { gray(1, 5) } else { gray(5, 1) };
    let (d, e) = (grayscale_dilate(&img, &m), grayscale_erode(&img, &m));
    let shift = p as i32 - c as i32;
    let mut ok = true;
    for i in 0..5i32 {
        let k = i + shift;
        let (x, y) = if k >= 0 && k < 5 { (img.as_raw()[k as usize], img.as_raw()[k as usize]) } else { (0, 255) };
        ok &= d.as_raw()[i as usize] == x && e.as_raw()[i as usize] == y;
    }
    check(ok, "a mask of one point shifts the image by its distance from the centre");
}
/// shapes and masks beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_grayscale() {
    let (w, h) = [(37, 13), (70, 5), (5, 70), (130, 2), (2, 130)][pick(0, 4) as usize];
    let r = |k: i32| (0..(2 * k + 1) * (2 * k + 1)).map(move |i| (i % (2 * k + 1) - k, i / (2 * k + 1) - k));
    let m = match pick(0, 4) {
        0 => M { mask: Mask::square(2), pts: r(2).collect() },
        1 => M { mask: Mask::diamond(4), pts: r(4).filter(|(x, y)| x.abs() + y.abs() <= 4).collect() },
        2 => M { mask: Mask::disk(5), pts: r(5).filter(|(x, y)| x * x + y * y <= 25).collect() },
        3 => { let img = big_binary(40, 3, 5, 0); let mut pts = vec![]; for y in 0..3 { for x in 0..40 { if at(&img, x, y) > 0 { pts.push((x as i32 - 17, y as i32 - 2)) } } } M { mask: Mask::from_image(&img, 17, 2), pts } }
        _ => { let img = big_binary(2, 50, 6, 0); let mut pts = vec![]; for y in 0..50 { for x in 0..2 { if at(&img, x, y) > 0 { pts.push((x as i32 - 1, y as i32 - 60)) } } } M { mask: Mask::from_image(&img, 1, 60), pts } }
    };
    let img = big(w, h, 1, 1);
    let (gd, ge) = (grayscale_dilate(&img, &m.mask), grayscale_erode(&img, &m.mask));
    let mut ok = gd.dimensions() == (w, h) && ge.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let (mut d, mut e) = (0u8, 255u8);
        for (dx, dy) in &m.pts { let (u, v) = (x as i32 + dx, y as i32 + dy); if u >= 0 && v >= 0 && u < w as i32 && v < h as i32 { let p = at(&img, u as u32, v as u32); d = d.max(p); e = e.min(p) } }
        ok &= at(&gd, x, y) == d && at(&ge, x, y) == e;
    } }
    check(ok, "extremes under the mask in a large image");
}
