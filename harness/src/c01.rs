//! Geometric rearrangements: flips, quarter turns, crop, replace, overlay.
use crate::sym::*;
use image::{math::Rect, GrayImage, ImageBuffer, Pixel, RgbImage, Rgba};
use imageproc::compose::*;
use imageproc::geometric_transformations::*;

const N: i64 = 4;
fn dims() -> (u32, u32) { (pick(0, N) as u32, pick(0, N) as u32) }
/// out is (ow,oh) and out(x,y) = img(f(x,y))
fn mapped(img: &GrayImage, out: &GrayImage, ow: u32, oh: u32, l: &'static str, f: impl Fn(u32, u32) -> (u32, u32)) {
    check(out.dimensions() == (ow, oh), "dimensions");
    let mut r = true;
    for y in 0..oh { for x in 0..ow { let (a, b) = f(x, y); r &= at(out, x, y) == at(img, a, b) } }
    check(r, l);
    cover(ow > 1 && oh > 1, "two by two at least");
    observe_img(out);
}
#[no_mangle] pub extern "C" fn q_flip_horizontal() {
    let (w, h) = dims(); let img = gray(w, h);
    mapped(&img, &flip_horizontal(&img), w, h, "flip_horizontal", |x, y| (w - 1 - x, y));
    let mut m = img.clone(); flip_horizontal_mut(&mut m); mapped(&img, &m, w, h, "flip_horizontal_mut", |x, y| (w - 1 - x, y));
}
#[no_mangle] pub extern "C" fn q_flip_vertical() {
    let (w, h) = dims(); let img = gray(w, h);
    mapped(&img, &flip_vertical(&img), w, h, "flip_vertical", |x, y| (x, h - 1 - y));
    let mut m = img.clone(); flip_vertical_mut(&mut m); mapped(&img, &m, w, h, "flip_vertical_mut", |x, y| (x, h - 1 - y));
}
#[no_mangle] pub extern "C" fn q_rotate180() {
    let (w, h) = dims(); let img = gray(w, h);
    mapped(&img, &rotate180(&img), w, h, "rotate180", |x, y| (w - 1 - x, h - 1 - y));
    let mut m = img.clone(); rotate180_mut(&mut m); mapped(&img, &m, w, h, "rotate180_mut", |x, y| (w - 1 - x, h - 1 - y));
}
#[no_mangle] pub extern "C" fn q_rotate90() {
    let (w, h) = dims(); let img = gray(w, h);
    mapped(&img, &rotate90(&img), h, w, "rotate90 turns clockwise", |x, y| (y, h - 1 - x));
}
#[no_mangle] pub extern "C" fn q_rotate270() {
    let (w, h) = dims(); let img = gray(w, h);
    mapped(&img, &rotate270(&img), h, w, "rotate270 turns anticlockwise", |x, y| (w - 1 - y, x));
}
#[no_mangle] pub extern "C" fn q_rgb_rearrange() {
    let (w, h) = (pick(1, 3) as u32, pick(1, 3) as u32);
    let img = rgb(w, h);
    let ok = |o: &RgbImage, ow: u32, oh: u32, f: &dyn Fn(u32, u32) -> (u32, u32)| {
        let mut r = o.dimensions() == (ow, oh);
        if r { for y in 0..oh { for x in 0..ow { let (a, b) = f(x, y); r &= same(&o.get_pixel(x, y).0, &img.get_pixel(a, b).0) } } }
        r
    };
    check(ok(&flip_horizontal(&img), w, h, &|x, y| (w - 1 - x, y)), "rgb flip_horizontal");
    check(ok(&flip_vertical(&img), w, h, &|x, y| (x, h - 1 - y)), "rgb flip_vertical");
    check(ok(&rotate90(&img), h, w, &|x, y| (y, h - 1 - x)), "rgb rotate90");
    check(ok(&rotate180(&img), w, h, &|x, y| (w - 1 - x, h - 1 - y)), "rgb rotate180");
    check(ok(&rotate270(&img), h, w, &|x, y| (w - 1 - y, x)), "rgb rotate270");
}
#[no_mangle] pub extern "C" fn q_crop() {
    let (w, h) = (pick(1, 3) as u32, pick(1, 3) as u32);
    let img = gray(w, h);
    let r = Rect { x: pick(0, 3) as u32, y: pick(0, 3) as u32, width: pick(0, 3) as u32, height: pick(0, 3) as u32 };
    let fits = r.x + r.width <= w && r.y + r.height <= h;
    let par = split(bools());
    if !fits { expect_panic(true) }
    let out = if par { crop_parallel(&img, r) } else { crop(&img, r) };
    check(fits, "crop outside the image is refused");
    cover(r.width > 1 && r.height > 1 && par, "crop parallel");
    mapped(&img, &out, r.width, r.height, "crop", |x, y| (r.x + x, r.y + y));
}
fn ends(n: u32, at: u32, len: u32) -> u32 { (at + len).min(n) }
#[no_mangle] pub extern "C" fn q_replace() {
    let (w, h) = (pick(1, 3) as u32, pick(1, 3) as u32);
    let (tw, th) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let (x, y) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let (b, t) = (gray(w, h), gray(tw, th));
    let ok = x < w && y < h;
    if !ok { expect_panic(true) }
    let out = replace(&b, &t, x, y);
    check(ok, "replace outside the image is refused");
    check(out.dimensions() == (w, h), "replace keeps the dimensions");
    let mut m = b.clone();
    replace_mut(&mut m, &t, x, y);
    let (mut r, mut r2) = (true, true);
    for j in 0..h { for i in 0..w {
        let want = if i >= x && j >= y && i < ends(w, x, tw) && j < ends(h, y, th) { at(&t, i - x, j - y) } else { at(&b, i, j) };
        r &= at(&out, i, j) == want; r2 &= at(&m, i, j) == want;
    } }
    check(r, "replace"); check(r2, "replace_mut");
    cover(tw > 1 && th > 1, "top larger than one pixel");
    observe_img(&out);
}
#[no_mangle] pub extern "C" fn q_overlay() {
    let (w, h) = (pick(1, 2) as u32, pick(1, 2) as u32);
    let (tw, th) = (pick(0, 2) as u32, pick(0, 2) as u32);
    let (x, y) = (pick(0, 1) as u32, pick(0, 1) as u32);
    // the top pixel is opaque, transparent or a fixed translucent one; everything else is arbitrary
    let mid = pick(0, 4);
    let mut b: ImageBuffer<Rgba<u8>, Vec<u8>> = ImageBuffer::new(w, h);
    let mut t: ImageBuffer<Rgba<u8>, Vec<u8>> = ImageBuffer::new(tw, th);
    for j in 0..h { for i in 0..w { b.put_pixel(i, j, if mid == 4 { rgba_px() } else { Rgba([30, 90 + i as u8, 7, 255 - j as u8]) }) } }
    for j in 0..th { for i in 0..tw {
        let a = if mid == (j * tw + i) as i64 { 128 } else { (bits(1) as u8).wrapping_neg() };
        t.put_pixel(i, j, if mid == 4 { Rgba([u8s(), u8s(), u8s(), a]) } else { Rgba([200, 10, 3 + i as u8, a]) });
    } }
    let ok = x < w && y < h;
    if !ok { expect_panic(true) }
    let out = overlay(&b, &t, x, y);
    check(ok, "overlay outside the image is refused");
    let mut m = b.clone();
    overlay_mut(&mut m, &t, x, y);
    let (mut r, mut r2) = (out.dimensions() == (w, h), true);
    for j in 0..h { for i in 0..w {
        let mut want = *b.get_pixel(i, j);
        if i >= x && j >= y && i < ends(w, x, tw) && j < ends(h, y, th) { want.blend(t.get_pixel(i - x, j - y)) }
        r &= same(&out.get_pixel(i, j).0, &want.0); r2 &= same(&m.get_pixel(i, j).0, &want.0);
    } }
    check(r, "overlay"); check(r2, "overlay_mut");
    cover(tw > 1 && th > 1 && w > 1, "overlay of several pixels");
}
/// shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_rearrange() {
    let (w, h) = large();
    let img = big(w, h, 1, 8);
    mapped(&img, &flip_horizontal(&img), w, h, "flip_horizontal", |x, y| (w - 1 - x, y));
    mapped(&img, &flip_vertical(&img), w, h, "flip_vertical", |x, y| (x, h - 1 - y));
    mapped(&img, &rotate90(&img), h, w, "rotate90 turns clockwise", |x, y| (y, h - 1 - x));
    mapped(&img, &rotate180(&img), w, h, "rotate180", |x, y| (w - 1 - x, h - 1 - y));
    mapped(&img, &rotate270(&img), h, w, "rotate270 turns anticlockwise", |x, y| (w - 1 - y, x));
    let mut m = img.clone(); rotate180_mut(&mut m); mapped(&img, &m, w, h, "rotate180_mut", |x, y| (w - 1 - x, h - 1 - y));
    let (x0, y0) = (w / 3, h / 3);
    let r = Rect { x: x0, y: y0, width: w - x0, height: h - y0 - h / 4 };
    mapped(&img, &crop(&img, r), r.width, r.height, "crop", |x, y| (x0 + x, y0 + y));
    any_fixed_order();
    mapped(&img, &crop_parallel(&img, r), r.width, r.height, "crop_parallel", |x, y| (x0 + x, y0 + y));
}
#[no_mangle] pub extern "C" fn q_large_compose() {
    let (w, h) = large();
    let (tw, th) = large();
    let (b, t) = (big(w, h, 1, 8), big(tw, th, 2, 8));
    let (x, y) = [(0, 0), (w / 2, h / 2), (w - 1, h - 1), (1, h / 3)][pick(0, 3) as usize];
    let out = replace(&b, &t, x, y);
    let mut m = b.clone(); replace_mut(&mut m, &t, x, y);
    let (tb, tt) = (image::RgbaImage::from_raw(w / 2, h, big_raw((w / 2 * h * 4) as usize, 3, 0)).unwrap(), image::RgbaImage::from_raw(tw / 2, th, big_raw((tw / 2 * th * 4) as usize, 4, 0)).unwrap());
    let (mut r, mut r2) = (out.dimensions() == (w, h), m.dimensions() == (w, h));
    for j in 0..h { for i in 0..w {
        let want = if i >= x && j >= y && i < ends(w, x, tw) && j < ends(h, y, th) { at(&t, i - x, j - y) } else { at(&b, i, j) };
        r &= at(&out, i, j) == want; r2 &= at(&m, i, j) == want;
    } }
    check(r, "replace"); check(r2, "replace_mut");
    let x = x / 2;
    if x < w / 2 {
        let o = overlay(&tb, &tt, x, y);
        let mut r = o.dimensions() == (w / 2, h);
        for j in 0..h { for i in 0..w / 2 {
            let mut want = *tb.get_pixel(i, j);
            if i >= x && j >= y && i < ends(w / 2, x, tw / 2) && j < ends(h, y, th) { want.blend(tt.get_pixel(i - x, j - y)) }
            r &= same(&o.get_pixel(i, j).0, &want.0);
        } }
        check(r, "overlay");
    }
}
