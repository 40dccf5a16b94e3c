//! Linear filters against the definition of correlation with replicated borders.
use crate::sym::*;
use image::{GrayImage, ImageBuffer, Luma, RgbImage};
use imageproc::filter::*;
use imageproc::kernel::{self, Kernel};

/// correlation with the centre at (kw/2, kh/2) and replicated borders
fn corr(img: &GrayImage, k: &[i32], kw: u32, kh: u32, x: u32, y: u32) -> i32 {
    let mut s = 0;
    for j in 0..kh as i32 { for i in 0..kw as i32 {
        s += k[(j * kw as i32 + i) as usize] * atc(img, x as i32 + i - kw as i32 / 2, y as i32 + j - kh as i32 / 2) as i32;
    } }
    s
}
fn kern(n: u32) -> Vec<i32> { (0..n).map(|_| range(-3, 4) as i32).collect() }
fn clamp8(v: i32) -> u8 { if v < 0 { 0 } else if v > 255 { 255 } else { v as u8 } }
fn clamp16(v: i32) -> i16 { if v < i16::MIN as i32 { i16::MIN } else if v > i16::MAX as i32 { i16::MAX } else { v as i16 } }

#[no_mangle] pub extern "C" fn q_filter_arbitrary_kernel() {
    // image and kernel both arbitrary
    let (w, h) = (pick(1, 2) as u32, pick(1, 2) as u32);
    let (kw, kh) = (pick(1, 3) as u32, pick(1, 2) as u32);
    let img = gray_bits(w, h, 4);
    let k = kern(kw * kh);
    let out: Gray32i = filter(&img, Kernel::new(&k, kw, kh), |x: i32| x);
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { r &= out.get_pixel(x, y)[0] == corr(&img, &k, kw, kh, x, y) } }
    check(r, "filter is correlation with replicated borders");
    cover(w == 2 && kw == 3, "kernel wider than the image");
}
fn kset(i: usize) -> (Vec<i32>, u32, u32) {
    match i {
        0 => (vec![1], 1, 1), 1 => (vec![1, -2, 3], 3, 1), 2 => (vec![2, 5, -1], 1, 3), 3 => (vec![1, 2, 3, -4, 5, 6, 7, 8, -9], 3, 3),
        4 => (vec![1, -1, 2, 3], 2, 2), 5 => ((1..=15).collect(), 5, 3), 6 => (vec![1, 2, 3, 4, 5, 6, 7, 8], 4, 2), _ => ((-4..=0).collect(), 5, 1),
    }
}
#[no_mangle] pub extern "C" fn q_filter_sizes() {
    let (w, h) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let (k, kw, kh) = kset(pick(0, 7) as usize);
    let img = gray(w, h);
    let mode = pick(0, 1);
    any_fixed_order();
    let kk = Kernel::new(&k, kw, kh);
    let out: Gray32i = if mode == 0 { filter(&img, kk, |x: i32| x) } else { filter_parallel(&img, kk, |x: i32| x) };
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { r &= out.get_pixel(x, y)[0] == corr(&img, &k, kw, kh, x, y) } }
    check(r, "serial and parallel filter are correlation");
    cover(w > 1 && kw > 3, "wide kernel");
}
#[no_mangle] pub extern "C" fn q_filter_parallel_orders() {
    let img = gray(2, 3);
    par_threads(4); par_order(2);
    let (k, kw, kh) = kset(3);
    let out: Gray32i = filter_parallel(&img, Kernel::new(&k, kw, kh), |x: i32| x);
    let mut r = out.dimensions() == (2, 3);
    for y in 0..3 { for x in 0..2 { r &= out.get_pixel(x, y)[0] == corr(&img, &k, kw, kh, x, y) } }
    check(r, "parallel filter under every task order");
}
#[no_mangle] pub extern "C" fn q_filter_clamped() {
    let img = gray(2, 2);
    let (k, kw, kh) = kset(pick(1, 4) as usize);
    let par = pick(0, 1) == 1;
    let kk = Kernel::new(&k, kw, kh);
    let a: GrayImage = if par { filter_clamped_parallel(&img, kk) } else { filter_clamped(&img, kk) };
    let b: Gray16i = if par { filter_clamped_parallel(&img, kk) } else { filter_clamped(&img, kk) };
    let (mut r, mut r2) = (true, true);
    for y in 0..2 { for x in 0..2 {
        let v = corr(&img, &k, kw, kh, x, y);
        r &= at(&a, x, y) == clamp8(v); r2 &= b.get_pixel(x, y)[0] == clamp16(v);
    } }
    check(r, "filter_clamped saturates to u8"); check(r2, "filter_clamped saturates to i16");
}
#[no_mangle] pub extern "C" fn q_filter_rgb() {
    let img = rgb(2, 2);
    let (k, kw, kh) = kset(3);
    let out: ImageBuffer<image::Rgb<i16>, Vec<i16>> = filter_clamped(&img, Kernel::new(&k, kw, kh));
    let par: ImageBuffer<image::Rgb<i16>, Vec<i16>> = filter_clamped_parallel(&img, Kernel::new(&k, kw, kh));
    let mut r = true;
    for c in 0..3 {
        let ch = GrayImage::from_fn(2, 2, |x, y| Luma([img.get_pixel(x, y)[c]]));
        for y in 0..2 { for x in 0..2 { let v = clamp16(corr(&ch, &k, kw, kh, x, y)); r &= out.get_pixel(x, y)[c] == v && par.get_pixel(x, y)[c] == v } }
    }
    check(r, "channels are filtered independently");
}
/// two and four channels
#[no_mangle] pub extern "C" fn q_filter_alpha() {
    let (k, kw, kh) = kset(pick(1, 4) as usize);
    let kk = Kernel::new(&k, kw, kh);
    any_fixed_order();
    let raw = |n: usize| (0..n).map(|_| u8s()).collect::<Vec<u8>>();
    let (a, b) = (image::RgbaImage::from_raw(2, 2, raw(16)).unwrap(), image::GrayAlphaImage::from_raw(2, 2, raw(8)).unwrap());
    let (s, p): (image::RgbaImage, image::RgbaImage) = (filter_clamped(&a, kk), filter_clamped_parallel(&a, kk));
    let (t, q): (image::GrayAlphaImage, image::GrayAlphaImage) = (filter_clamped(&b, kk), filter_clamped_parallel(&b, kk));
    let mut r = s.dimensions() == (2, 2) && p.dimensions() == (2, 2) && t.dimensions() == (2, 2) && q.dimensions() == (2, 2);
    for c in 0..4 {
        let ch = GrayImage::from_fn(2, 2, |x, y| Luma([a.get_pixel(x, y)[c]]));
        for y in 0..2 { for x in 0..2 { let v = clamp8(corr(&ch, &k, kw, kh, x, y)); r &= s.get_pixel(x, y)[c] == v && p.get_pixel(x, y)[c] == v } }
    }
    for c in 0..2 {
        let ch = GrayImage::from_fn(2, 2, |x, y| Luma([b.get_pixel(x, y)[c]]));
        for y in 0..2 { for x in 0..2 { let v = clamp8(corr(&ch, &k, kw, kh, x, y)); r &= t.get_pixel(x, y)[c] == v && q.get_pixel(x, y)[c] == v } }
    }
    check(r, "alpha is a channel like the others");
}
#[no_mangle] pub extern "C" fn q_filter_1d_rgba() {
    let n = pick(1, 4) as u32;
    let raw: Vec<u8> = (0..n * 4).map(|_| u8s()).collect();
    let k = [3i32, -1, 2];
    let (a, b) = (image::RgbaImage::from_raw(n, 1, raw.clone()).unwrap(), image::RgbaImage::from_raw(1, n, raw.clone()).unwrap());
    let (h, v) = (horizontal_filter(&a, &k), vertical_filter(&b, &k));
    let mut r = true;
    for c in 0..4 {
        let ch = GrayImage::from_fn(n, 1, |x, _| Luma([raw[(x * 4) as usize + c]]));
        for x in 0..n { let e = clamp8(corr(&ch, &k, 3, 1, x, 0)); r &= h.get_pixel(x, 0)[c] == e && v.get_pixel(0, x)[c] == e }
    }
    check(r, "one-dimensional filters treat alpha like the others");
}
fn one_d(horizontal: bool) {
    let n = pick(0, 5) as u32;
    let (w, h) = if horizontal { (n, pick(0, 2) as u32) } else { (pick(0, 2) as u32, n) };
    let len = pick(1, 7) as usize;
    let k: Vec<i32> = [3, -1, 2, 5, -2, 1, 4][..len].to_vec();
    let img = gray(w, h);
    let out = if horizontal { horizontal_filter(&img, &k) } else { vertical_filter(&img, &k) };
    let mut r = out.dimensions() == (w, h);
    let (kw, kh) = if horizontal { (len as u32, 1) } else { (1, len as u32) };
    for y in 0..h { for x in 0..w { r &= at(&out, x, y) == clamp8(corr(&img, &k, kw, kh, x, y)) } }
    check(r, "one-dimensional filter is saturated correlation");
    cover(n == 5 && len == 3, "interior"); cover(n == 3 && len == 7, "kernel longer than the image"); cover(n == 5 && len == 4, "even kernel");
}
#[no_mangle] pub extern "C" fn q_horizontal_filter() { one_d(true) }
#[no_mangle] pub extern "C" fn q_vertical_filter() { one_d(false) }
#[no_mangle] pub extern "C" fn q_filter_1d_float_rgb() {
    // dyadic float kernels are exact; three channels
    let n = pick(1, 4) as u32;
    let img = rgb(n, 1);
    let k = [0.25f32, 0.5, 0.25];
    let out = horizontal_filter(&img, &k);
    let t = RgbImage::from_raw(1, n, img.as_raw().clone()).unwrap();
    let outv = vertical_filter(&t, &k);
    let mut r = true;
    for x in 0..n as i32 { for c in 0..3 {
        let p = |i: i32| img.as_raw()[(i.max(0).min(n as i32 - 1) * 3) as usize + c] as u32;
        let v = ((p(x - 1) + 2 * p(x) + p(x + 1)) / 4) as u8;
        r &= out.as_raw()[x as usize * 3 + c] == v && outv.as_raw()[x as usize * 3 + c] == v;
    } }
    check(r, "binomial smoothing of rgb");
}
#[no_mangle] pub extern "C" fn q_separable() {
    let (w, h) = (pick(1, 3) as u32, pick(1, 3) as u32);
    let img = gray(w, h);
    let (hk, vk) = ([1, 2, 1], [-1, 3, 1]);
    let out = separable_filter(&img, &hk, &vk);
    let eq = separable_filter_equal(&img, &hk);
    let mut mid = GrayImage::new(w, h);
    for y in 0..h { for x in 0..w { mid.put_pixel(x, y, Luma([clamp8(corr(&img, &hk, 3, 1, x, y))])) } }
    let (mut r, mut r2) = (true, true);
    for y in 0..h { for x in 0..w { r &= at(&out, x, y) == clamp8(corr(&mid, &vk, 1, 3, x, y)); r2 &= at(&eq, x, y) == clamp8(corr(&mid, &hk, 1, 3, x, y)) } }
    check(r, "separable filter is the horizontal then the vertical pass"); check(r2, "separable_filter_equal uses one kernel for both");
}
#[no_mangle] pub extern "C" fn q_laplacian_sharpen() {
    let (w, h) = (pick(1, 3) as u32, pick(1, 3) as u32);
    let img = gray(w, h);
    any_fixed_order();
    let (l, lp, s, sp) = (laplacian_filter(&img), laplacian_filter_parallel(&img), sharpen3x3(&img), sharpen3x3_parallel(&img));
    let (mut r, mut r2) = (true, true);
    for y in 0..h { for x in 0..w {
        let c = at(&img, x, y) as i32;
        let n = atc(&img, x as i32 - 1, y as i32) as i32 + atc(&img, x as i32 + 1, y as i32) as i32 + atc(&img, x as i32, y as i32 - 1) as i32 + atc(&img, x as i32, y as i32 + 1) as i32;
        r &= l.get_pixel(x, y)[0] as i32 == n - 4 * c && lp.get_pixel(x, y)[0] as i32 == n - 4 * c;
        r2 &= at(&s, x, y) == clamp8(5 * c - n) && at(&sp, x, y) == clamp8(5 * c - n);
    } }
    check(r, "laplacian"); check(r2, "sharpen3x3");
}
#[no_mangle] pub extern "C" fn q_kernel_constants() {
    // the documented kernels applied to an arbitrary 3x3 neighbourhood
    let img = gray(3, 3);
    let p = |x, y| at(&img, x, y) as i32;
    let g = |k: Kernel<i32>| -> i32 { let o: Gray32i = filter(&img, k, |v| v); o.get_pixel(1, 1)[0] };
    check(g(kernel::SOBEL_HORIZONTAL_3X3) == p(2, 0) + 2 * p(2, 1) + p(2, 2) - p(0, 0) - 2 * p(0, 1) - p(0, 2), "sobel horizontal");
    check(g(kernel::SOBEL_VERTICAL_3X3) == p(0, 2) + 2 * p(1, 2) + p(2, 2) - p(0, 0) - 2 * p(1, 0) - p(2, 0), "sobel vertical");
    check(g(kernel::SCHARR_HORIZONTAL_3X3) == 3 * p(2, 0) + 10 * p(2, 1) + 3 * p(2, 2) - 3 * p(0, 0) - 10 * p(0, 1) - 3 * p(0, 2), "scharr horizontal");
    check(g(kernel::SCHARR_VERTICAL_3X3) == 3 * p(0, 2) + 10 * p(1, 2) + 3 * p(2, 2) - 3 * p(0, 0) - 10 * p(1, 0) - 3 * p(2, 0), "scharr vertical");
    check(g(kernel::PREWITT_HORIZONTAL_3X3) == p(2, 0) + p(2, 1) + p(2, 2) - p(0, 0) - p(0, 1) - p(0, 2), "prewitt horizontal");
    check(g(kernel::PREWITT_VERTICAL_3X3) == p(0, 2) + p(1, 2) + p(2, 2) - p(0, 0) - p(1, 0) - p(2, 0), "prewitt vertical");
    check(g(kernel::ROBERTS_HORIZONTAL_2X2) == p(0, 0) - p(1, 1), "roberts horizontal");
    check(g(kernel::ROBERTS_VERTICAL_2X2) == p(1, 0) - p(0, 1), "roberts vertical");
    let n4 = p(1, 0) + p(0, 1) + p(2, 1) + p(1, 2); let n8 = n4 + p(0, 0) + p(2, 0) + p(0, 2) + p(2, 2);
    let l = |k: Kernel<i16>| -> i32 { let o: Gray16i = filter(&img, k, |v: i16| v); o.get_pixel(1, 1)[0] as i32 };
    check(l(kernel::FOUR_LAPLACIAN_3X3) == n4 - 4 * p(1, 1), "four neighbour laplacian");
    check(l(kernel::EIGHT_LAPLACIAN_3X3) == n8 - 8 * p(1, 1), "eight neighbour laplacian");
}
/// shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_filter() {
    step_limit(400_000_000);
    let (w, h) = [(37, 13), (70, 5), (5, 70), (130, 2), (2, 260)][pick(0, 4) as usize];
    let img = big(w, h, 1, 8);
    let (k, kw, kh) = match pick(0, 3) { 0 => kset(3), 1 => kset(5), 2 => ((0..81).map(|i| (i * 7) % 19 - 9).collect(), 9, 9), _ => ((0..33).map(|i| (i * 5) % 17 - 8).collect(), 33, 1) };
    any_fixed_order();
    let kk = Kernel::new(&k, kw, kh);
    let a: Gray32i = filter(&img, kk, |x: i32| x);
    let b: Gray32i = filter_parallel(&img, kk, |x: i32| x);
    let c: GrayImage = filter_clamped(&img, kk);
    let d: GrayImage = filter_clamped_parallel(&img, kk);
    let mut r = a.dimensions() == (w, h) && b.dimensions() == (w, h) && c.dimensions() == (w, h) && d.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let e = corr(&img, &k, kw, kh, x, y);
        r &= a.get_pixel(x, y)[0] == e && b.get_pixel(x, y)[0] == e && at(&c, x, y) == clamp8(e) && at(&d, x, y) == clamp8(e);
    } }
    check(r, "filters of a large image");
}
#[no_mangle] pub extern "C" fn q_large_filter_1d() {
    step_limit(400_000_000);
    let (w, h) = large();
    // one arbitrary pixel away from the border
    let mut img = big(w, h, 1, 0);
    img[(w / 2, h / 2)][0] = u8s();
    let len = [3usize, 9, 16, 33][pick(0, 3) as usize];
    let k: Vec<i32> = (0..len as i32).map(|i| (i * 5) % 17 - 8).collect();
    let (a, b) = (horizontal_filter(&img, &k), vertical_filter(&img, &k));
    let s = separable_filter(&img, &k[..3], &k[..3]);
    let mut mid = GrayImage::new(w, h);
    let mut r = a.dimensions() == (w, h) && b.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        r &= at(&a, x, y) == clamp8(corr(&img, &k, len as u32, 1, x, y)) && at(&b, x, y) == clamp8(corr(&img, &k, 1, len as u32, x, y));
        mid.put_pixel(x, y, Luma([clamp8(corr(&img, &k[..3], 3, 1, x, y))]));
    } }
    check(r, "one-dimensional filters of a large image");
    let mut r = s.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { r &= at(&s, x, y) == clamp8(corr(&mid, &k[..3], 1, 3, x, y)) } }
    check(r, "separable filter of a large image");
}
#[no_mangle] pub extern "C" fn q_large_laplacian_sharpen() {
    let (w, h) = large();
    let img = big(w, h, 1, 8);
    any_fixed_order();
    let (l, lp, s, sp) = (laplacian_filter(&img), laplacian_filter_parallel(&img), sharpen3x3(&img), sharpen3x3_parallel(&img));
    let mut r = true;
    for y in 0..h { for x in 0..w {
        let c = at(&img, x, y) as i32;
        let n = atc(&img, x as i32 - 1, y as i32) as i32 + atc(&img, x as i32 + 1, y as i32) as i32 + atc(&img, x as i32, y as i32 - 1) as i32 + atc(&img, x as i32, y as i32 + 1) as i32;
        r &= l.get_pixel(x, y)[0] as i32 == n - 4 * c && lp.get_pixel(x, y)[0] as i32 == n - 4 * c;
        r &= at(&s, x, y) == clamp8(5 * c - n) && at(&sp, x, y) == clamp8(5 * c - n);
    } }
    check(r, "laplacian and sharpening of a large image");
}
