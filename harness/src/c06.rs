//! Image gradients.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb};
use imageproc::gradients::*;
use imageproc::kernel::Kernel;

fn corr3(img: &GrayImage, k: &[i32; 9], x: u32, y: u32) -> i32 {
    let mut s = 0;
    for j in 0..3i32 { for i in 0..3i32 { s += k[(j * 3 + i) as usize] * atc(img, x as i32 + i - 1, y as i32 + j - 1) as i32 } }
    s
}
const SH: [i32; 9] = [-1, 0, 1, -2, 0, 2, -1, 0, 1];
const PH: [i32; 9] = [-1, 0, 1, -1, 0, 1, -1, 0, 1];
const CH: [i32; 9] = [-3, 0, 3, -10, 0, 10, -3, 0, 3];
fn tr(k: &[i32; 9]) -> [i32; 9] { let mut t = [0; 9]; for j in 0..3 { for i in 0..3 { t[i * 3 + j] = k[j * 3 + i] } } t }
fn sq(a: i32, b: i32) -> u32 { a.wrapping_mul(a).wrapping_add(b.wrapping_mul(b)) as u32 }
/// m is the integer part of sqrt(n); the common ways of computing it are accepted syntactically
fn isqrt(m: u32, n: u32) -> bool { m == (n as f32).sqrt() as u32 || (m.wrapping_mul(m) <= n && n < (m + 1).wrapping_mul(m + 1)) }
fn same16(a: &Gray16i, img: &GrayImage, k: &[i32; 9]) -> bool {
    let mut r = a.dimensions() == img.dimensions();
    for y in 0..img.height() { for x in 0..img.width() { r &= a.get_pixel(x, y)[0] as i32 == corr3(img, k, x, y) } }
    r
}
#[no_mangle] pub extern "C" fn q_components() {
    let (w, h) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let img = gray(w, h);
    check(same16(&horizontal_sobel(&img), &img, &SH), "horizontal sobel"); check(same16(&vertical_sobel(&img), &img, &tr(&SH)), "vertical sobel");
    check(same16(&horizontal_scharr(&img), &img, &CH), "horizontal scharr"); check(same16(&vertical_scharr(&img), &img, &tr(&CH)), "vertical scharr");
    check(same16(&horizontal_prewitt(&img), &img, &PH), "horizontal prewitt"); check(same16(&vertical_prewitt(&img), &img, &tr(&PH)), "vertical prewitt");
    cover(w == 3 && h == 3, "an interior pixel");
}
fn magnitude(out: &Gray16, img: &GrayImage, k: &[i32; 9]) -> bool {
    let t = tr(k);
    let mut r = out.dimensions() == img.dimensions();
    for y in 0..img.height() { for x in 0..img.width() {
        let (a, b) = (corr3(img, k, x, y), corr3(img, &t, x, y));
        r &= isqrt(out.get_pixel(x, y)[0] as u32, sq(a, b));
    } }
    r
}
#[no_mangle] pub extern "C" fn q_magnitude() {
    let (w, h) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let img = gray(w, h);
    check(magnitude(&sobel_gradients(&img), &img, &SH), "sobel magnitude");
    check(magnitude(&prewitt_gradients(&img), &img, &PH), "prewitt magnitude");
    cover(w == 3 && h == 3, "an interior pixel");
}
#[no_mangle] pub extern "C" fn q_custom_kernels() {
    let img = gray(2, 2);
    let (h, v) = ([0, 0, 0, 0, -1, 1, 0, 0, 0], [0, 0, 0, 0, -1, 0, 0, 1, 0]);
    let out = gradients_grayscale(&img, Kernel::new(&h, 3, 3), Kernel::new(&v, 3, 3));
    let mut r = out.dimensions() == (2, 2);
    for y in 0..2 { for x in 0..2 {
        let (a, b) = (corr3(&img, &h, x, y), corr3(&img, &v, x, y));
        r &= isqrt(out.get_pixel(x, y)[0] as u32, sq(a, b));
    } }
    check(r, "gradients with given kernels");
}
#[no_mangle] pub extern "C" fn q_rgb_map() {
    let img = rgb(2, 2);
    let out: image::ImageBuffer<Rgb<u16>, Vec<u16>> = sobel_gradient_map(&img, |p| p);
    let sum: Gray16 = sobel_gradient_map(&img, |p| Luma([p.0[0].max(p.0[2])]));
    let mut ok = true; let mut ok2 = true;
    let t = tr(&SH);
    for c in 0..3 {
        let ch = GrayImage::from_fn(2, 2, |x, y| Luma([img.get_pixel(x, y)[c]]));
        for y in 0..2 { for x in 0..2 {
            let (a, b) = (corr3(&ch, &SH, x, y), corr3(&ch, &t, x, y));
            ok &= isqrt(out.get_pixel(x, y)[c] as u32, sq(a, b));
            let p = out.get_pixel(x, y);
            ok2 &= sum.get_pixel(x, y)[0] == p[0].max(p[2]);
        } }
    }
    check(ok, "channels have their own gradients"); check(ok2, "the mapping function is applied to each pixel");
}
/// strong gradients: black and white with one free pixel, kernels with large responses
#[no_mangle] pub extern "C" fn q_strong() {
    let big: [i32; 9] = [-40, 0, 40, -120, 0, 120, -40, 0, 40];
    let k = [SH, PH, CH, big][pick(0, 3) as usize];
    let t = tr(&k);
    let white = [0b011001000u32, 0b110100000, 0b111100100, 0b000110111, 0b101010101][pick(0, 4) as usize];
    let free = pick(0, 8) as u32;
    let v = u8s();
    let img = GrayImage::from_fn(3, 3, |x, y| Luma([if y * 3 + x == free { v } else if white >> (y * 3 + x) & 1 == 1 { 255 } else { 0 }]));
    let out = gradients_grayscale(&img, Kernel::new(&k, 3, 3), Kernel::new(&t, 3, 3));
    let mut ok = out.dimensions() == (3, 3);
    let cl = |v: i32| v.max(i16::MIN as i32).min(i16::MAX as i32);
    for y in 0..3 { for x in 0..3 {
        let (a, b) = (cl(corr3(&img, &k, x, y)), cl(corr3(&img, &t, x, y)));
        let m = out.get_pixel(x, y)[0];
        ok &= m == ((a as f32) * (a as f32) + (b as f32) * (b as f32)).sqrt() as u16;
    } }
    check(ok, "magnitude of strong gradients");
}
/// shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_gradients() {
    let (w, h) = large();
    let img = big(w, h, 1, 4);
    check(same16(&horizontal_sobel(&img), &img, &SH), "horizontal sobel"); check(same16(&vertical_sobel(&img), &img, &tr(&SH)), "vertical sobel");
    check(same16(&horizontal_scharr(&img), &img, &CH), "horizontal scharr"); check(same16(&vertical_scharr(&img), &img, &tr(&CH)), "vertical scharr");
    check(same16(&horizontal_prewitt(&img), &img, &PH), "horizontal prewitt"); check(same16(&vertical_prewitt(&img), &img, &tr(&PH)), "vertical prewitt");
    let flat = big(w, h, 2, 0);
    check(magnitude(&sobel_gradients(&flat), &flat, &SH), "sobel magnitude");
    check(magnitude(&prewitt_gradients(&flat), &flat, &PH), "prewitt magnitude");
}
