//! Integral images, region sums, variances, running sums.
use crate::sym::*;
use image::{GrayImage, Luma, RgbImage, Rgba};
use imageproc::integral_image::*;

#[no_mangle] pub extern "C" fn q_integral() {
    let (w, h) = (pick(0, 4) as u32, pick(0, 4) as u32);
    let img = gray(w, h);
    let a: Gray32 = integral_image(&img);
    let b: Gray32 = integral_squared_image(&img);
    let (mut r, mut r2) = (a.dimensions() == (w + 1, h + 1), b.dimensions() == (w + 1, h + 1));
    for y in 0..=h { for x in 0..=w {
        let (mut s, mut q) = (0u32, 0u32);
        for v in 0..y { for u in 0..x { let p = at(&img, u, v) as u32; s += p; q += p * p } }
        r &= a.get_pixel(x, y)[0] == s; r2 &= b.get_pixel(x, y)[0] == q;
    } }
    check(r, "integral image: sum of everything above and to the left"); check(r2, "integral image of squares");
    cover(w == 4 && h == 4, "4x4"); cover(w == 0 && h > 0, "empty");
}
#[no_mangle] pub extern "C" fn q_integral_types() {
    // wider and narrower accumulators, several channels
    let img = rgb(3, 2);
    let a: image::ImageBuffer<image::Rgb<u16>, Vec<u16>> = integral_image(&img);
    let b: image::ImageBuffer<image::Rgb<u32>, Vec<u32>> = integral_squared_image(&img);
    let c: image::ImageBuffer<image::Rgb<u64>, Vec<u64>> = integral_image(&img);
    let (mut r, mut r2, mut r3) = (true, true, true);
    for y in 0..=2 { for x in 0..=3 { for k in 0..3 {
        let (mut s, mut q) = (0u32, 0u32);
        for v in 0..y { for u in 0..x { let p = img.get_pixel(u, v)[k] as u32; s += p; q += p * p } }
        r &= a.get_pixel(x, y)[k] as u32 == s; r2 &= b.get_pixel(x, y)[k] == q; r3 &= c.get_pixel(x, y)[k] == s as u64;
    } } }
    check(r, "rgb integral u16"); check(r2, "rgb squares u32"); check(r3, "rgb integral u64");
}
#[no_mangle] pub extern "C" fn q_region_sums() {
    let (w, h) = (3u32, 3u32);
    let img = gray(w, h);
    let a: Gray32 = integral_image(&img);
    let b: Gray32 = integral_squared_image(&img);
    let (l, t) = (pick(0, w as i64 - 1) as u32, pick(0, h as i64 - 1) as u32);
    let (r, m) = (pick(l as i64, w as i64 - 1) as u32, pick(t as i64, h as i64 - 1) as u32);
    let (mut s, mut q) = (0u32, 0u32);
    for y in t..=m { for x in l..=r { let p = at(&img, x, y) as u32; s += p; q += p * p } }
    check(sum_image_pixels(&a, l, t, r, m)[0] == s, "region sum, both ends included");
    check(sum_image_pixels(&b, l, t, r, m)[0] == q, "region sum of squares");
}
#[no_mangle] pub extern "C" fn q_region_sums_rgb() {
    let img = RgbImage::from_fn(2, 2, |_, _| rgb_px());
    let a: image::ImageBuffer<image::Rgb<u32>, Vec<u32>> = integral_image(&img);
    let i4 = image::RgbaImage::from_fn(2, 2, |_, _| rgba_px());
    let a4: image::ImageBuffer<Rgba<u32>, Vec<u32>> = integral_image(&i4);
    let (l, t) = (pick(0, 1) as u32, pick(0, 1) as u32);
    let (r, m) = (pick(l as i64, 1) as u32, pick(t as i64, 1) as u32);
    let (s, s4) = (sum_image_pixels(&a, l, t, r, m), sum_image_pixels(&a4, l, t, r, m));
    let mut ok = true;
    for c in 0..4 {
        let (mut e, mut e4) = (0u32, 0u32);
        for y in t..=m { for x in l..=r { if c < 3 { e += img.get_pixel(x, y)[c] as u32 } e4 += i4.get_pixel(x, y)[c] as u32 } }
        if c < 3 { ok &= s[c] == e } ok &= s4[c] == e4;
    }
    check(ok, "region sums per channel");
}
#[no_mangle] pub extern "C" fn q_variance_one_unknown() {
    // one arbitrary pixel among fixed ones: exact up to rounding
    let v = u8s();
    let fixed = [[0u8, 0, 0], [255, 255, 255], [10, 20, 200]][pick(0, 2) as usize];
    let img = GrayImage::from_raw(2, 2, vec![fixed[0], v, fixed[1], fixed[2]]).unwrap();
    let a: Gray32 = integral_image(&img);
    let b: Gray32 = integral_squared_image(&img);
    let (l, t) = (pick(0, 1) as u32, pick(0, 1) as u32);
    let (r, m) = (pick(l as i64, 1) as u32, pick(t as i64, 1) as u32);
    let got = variance(&a, &b, l, t, r, m);
    let n = ((r - l + 1) * (m - t + 1)) as i64;
    let (mut s, mut q) = (0i64, 0i64);
    for y in t..=m { for x in l..=r { let p = at(&img, x, y) as i64; s += p; q += p * p } }
    let want = (n * q - s * s) as f64 / (n * n) as f64;
    check((got - want).abs() <= 1e-6, "variance of the region");
    cover(n == 4, "2x2 region");
}
#[no_mangle] pub extern "C" fn q_running_sums() {
    let (n, m) = (pick(1, 4) as u32, pick(1, 3) as u32);
    let (pad, extra) = (pick(0, 3) as u32, pick(0, 1) as usize);
    let img = gray(n, m); let timg = gray(m, n);
    let line = pick(0, m as i64 - 1) as u32;
    let len = n as usize + 2 * pad as usize + extra;
    let (mut a, mut b) = (vec![7u32; len], vec![9u32; len]);
    row_running_sum(&img, line, &mut a, pad);
    column_running_sum(&timg, line, &mut b, pad);
    let (mut r, mut r2) = (true, true);
    let (mut s, mut s2) = (0u32, 0u32);
    for i in 0..n as i32 + 2 * pad as i32 {
        s += atc(&img, i - pad as i32, line as i32) as u32; s2 += atc(&timg, line as i32, i - pad as i32) as u32;
        r &= a[i as usize] == s; r2 &= b[i as usize] == s2;
    }
    check(r, "row running sum over the padded row"); check(r2, "column running sum over the padded column");
}
#[no_mangle] pub extern "C" fn q_running_sums_refused() {
    // unusable buffers, rows, columns and empty images are refused
    let (w, h) = (pick(0, 2) as u32, pick(0, 2) as u32);
    let (pad, len, line) = (pick(0, 1) as u32, pick(0, 4) as usize, pick(0, 2) as u32);
    let row = pick(0, 1) == 1;
    let img = gray(w, h);
    let n = if row { w } else { h };
    let ok = n > 0 && len >= (n + 2 * pad) as usize && line < if row { h } else { w };
    if !ok { expect_panic(true) }
    let mut buf = vec![0u32; len];
    if row { row_running_sum(&img, line, &mut buf, pad) } else { column_running_sum(&img, line, &mut buf, pad) }
    check(ok, "an unusable request is refused");
}
/// shapes beyond the usual block and chunk sizes; sums beyond 16 bits
#[no_mangle] pub extern "C" fn q_large_integral() {
    let (w, h) = large();
    let mut img = big(w, h, 1, 0);
    img[(w / 2, h / 2)][0] = u8s();
    let a: Gray32 = integral_image(&img);
    let b: Gray32 = integral_squared_image(&img);
    let (mut r, mut r2) = (a.dimensions() == (w + 1, h + 1), b.dimensions() == (w + 1, h + 1));
    let (mut cs, mut cq) = (vec![0u32; w as usize], vec![0u32; w as usize]);
    for y in 0..=h {
        let (mut s, mut q) = (0u32, 0u32);
        for x in 0..=w {
            if x > 0 { s += cs[x as usize - 1]; q += cq[x as usize - 1] }
            r &= a.get_pixel(x, y)[0] == s; r2 &= b.get_pixel(x, y)[0] == q;
        }
        if y < h { for x in 0..w { let p = at(&img, x, y) as u32; cs[x as usize] += p; cq[x as usize] += p * p } }
    }
    check(r, "integral image of a large image"); check(r2, "integral image of squares of a large image");
    let (l, t, rr, m) = [(0, 0, w - 1, h - 1), (w / 3, h / 2, w - 1, h - 1), (w / 2, 0, w / 2 + (w > 20) as u32 * 7, h / 2)][pick(0, 2) as usize];
    let (mut s, mut q) = (0u32, 0u32);
    for y in t..=m { for x in l..=rr { let p = at(&img, x, y) as u32; s += p; q += p * p } }
    check(sum_image_pixels(&a, l, t, rr, m)[0] == s && sum_image_pixels(&b, l, t, rr, m)[0] == q, "region sums of a large image");
    let line = pick(0, 1) as u32;
    let pad = [0u32, 3, 300][pick(0, 2) as usize];
    let (mut ra, mut ca) = (vec![7u32; (w + 2 * pad) as usize], vec![9u32; (h + 2 * pad) as usize]);
    row_running_sum(&img, line * (h - 1), &mut ra, pad);
    column_running_sum(&img, line * (w - 1), &mut ca, pad);
    let (mut ok, mut s) = (true, 0u32);
    for i in 0..(w + 2 * pad) as i32 { s += atc(&img, i - pad as i32, (line * (h - 1)) as i32) as u32; ok &= ra[i as usize] == s }
    s = 0;
    for i in 0..(h + 2 * pad) as i32 { s += atc(&img, (line * (w - 1)) as i32, i - pad as i32) as u32; ok &= ca[i as usize] == s }
    check(ok, "running sums of long rows and columns");
}
#[no_mangle] pub extern "C" fn q_large_bright() {
    // a bright image: the sums need all their bits
    let (w, h) = large();
    let v = u8s();
    let img = GrayImage::from_fn(w, h, |x, y| Luma([if x == w / 2 && y == h / 2 { v } else { 254 + ((x + y) % 2) as u8 }]));
    let a: Gray32 = integral_image(&img);
    let b: Gray32 = integral_squared_image(&img);
    let mut s = 0u32; let mut q = 0u32;
    for p in img.as_raw() { s += *p as u32; q += *p as u32 * *p as u32 }
    check(a.get_pixel(w, h)[0] == s && b.get_pixel(w, h)[0] == q, "totals of a bright image");
    check(sum_image_pixels(&a, 0, 0, w - 1, h - 1)[0] == s, "region total of a bright image");
    let got = variance(&a, &b, 0, 0, w - 1, h - 1);
    let n = (w * h) as i64;
    let want = (n * q as i64 - s as i64 * s as i64) as f64 / (n * n) as f64;
    check((got - want).abs() <= 1e-5, "variance of a bright image");
}
