//! Translation, warping and interpolation.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::geometric_transformations::{Interpolation::*, *};

#[no_mangle] pub extern "C" fn q_translate() {
    let (w, h) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let img = gray(w, h);
    // small shifts one by one, plus the extremes of the type
    let pickt = || match pick(-4, 6) { 5 => i32::MAX, 6 => i32::MIN, t => t as i32 };
    let (tx, ty) = (pickt(), pickt());
    let out = translate(&img, (tx, ty));
    check(out.dimensions() == (w, h), "translate keeps the dimensions");
    let mut r = true;
    for y in 0..h { for x in 0..w {
        let sx = (x as i64 - tx as i64).max(0).min(w as i64 - 1) as u32;
        let sy = (y as i64 - ty as i64).max(0).min(h as i64 - 1) as u32;
        r &= at(&out, x, y) == at(&img, sx, sy);
    } }
    check(r, "translate replicates the border");
    cover(w > 1 && h > 1 && tx == 1 && ty == -1, "interior shift");
    observe_img(&out);
}
#[no_mangle] pub extern "C" fn q_translate_rgb() {
    let img = rgb(3, 2);
    let (tx, ty) = (pick(-3, 3) as i32, pick(-2, 2) as i32);
    let out = translate(&img, (tx, ty));
    let mut r = out.dimensions() == (3, 2);
    for y in 0..2i32 { for x in 0..3i32 { r &= same(&out.get_pixel(x as u32, y as u32).0, &img.get_pixel((x - tx).max(0).min(2) as u32, (y - ty).max(0).min(1) as u32).0) } }
    check(r, "translate rgb");
}
fn ramp(w: u32, h: u32) -> GrayImage { GrayImage::from_fn(w, h, |x, y| Luma([(10 + 30 * x + 7 * y) as u8])) }

// ---- arbitrary coordinates (every f32 bit pattern, NaN and infinities included)
fn nearest_any(w: u32, h: u32) {
    let img = ramp(w, h);
    merging(false);
    let (fx, fy) = (f32s(), f32s());
    let mut out = GrayImage::new(1, 1);
    warp_into_with(&img, |_, _| (fx, fy), Nearest, Luma([3]), &mut out);
    let o = at(&out, 0, 0);
    observe(o as u64);
    // 1e-6 absorbs the rounding of the coordinate itself
    const D: f32 = 0.500001;
    let inside = fx > -0.499999 && fx < w as f32 - D && fy > -0.499999 && fy < h as f32 - D;
    let outside = !(fx >= -0.5 && fx <= w as f32 - 0.5 && fy >= -0.5 && fy <= h as f32 - 0.5);
    let mut hit = o == 3 && !inside;
    for y in 0..h { for x in 0..w {
        hit |= o == at(&img, x, y) && fx >= x as f32 - D && fx <= x as f32 + D && fy >= y as f32 - D && fy <= y as f32 + D
    } }
    check(!outside || o == 3, "nearest: the default outside the image");
    check(hit, "nearest: the closest pixel inside the image");
    cover(o != 3, "inside"); cover(o == 3, "outside");
}
#[no_mangle] pub extern "C" fn q_nearest_any() { nearest_any(2, 2) }
#[no_mangle] pub extern "C" fn q_nearest_any_narrow() { nearest_any(3, 1) }
#[no_mangle] pub extern "C" fn q_nearest_empty() {
    let img = GrayImage::new(pick(0, 1) as u32, 0);
    let mode = [Nearest, Bilinear, Bicubic][pick(0, 2) as usize];
    merging(false);
    let (fx, fy) = (f32s(), f32s());
    let mut out = GrayImage::new(1, 1);
    warp_into_with(&img, |_, _| (fx, fy), mode, Luma([3]), &mut out);
    check(at(&out, 0, 0) == 3, "an empty source yields the default");
}
/// no coordinate reads outside the image; unusable coordinates give the default
fn bounds_any(w: u32, h: u32, m: Interpolation) {
    // f32 pixels: no clamping branches after the bounds decision
    let img = Gray32f::from_pixel(w, h, Luma([0.0]));
    merging(false);
    let (fx, fy) = (f32s(), f32s());
    let mut out = Gray32f::new(1, 1);
    warp_into_with(&img, |_, _| (fx, fy), m, Luma([9.0]), &mut out);
    let is_default = out.as_raw()[0].to_bits() == 9f32.to_bits();
    let outside = !(fx >= 0.0 && fx <= (w - 1) as f32 && fy >= 0.0 && fy <= (h - 1) as f32);
    if outside { check(is_default, "the default outside the image"); cover(true, "outside") } else { cover(true, "inside") }
}
#[no_mangle] pub extern "C" fn q_bilinear_bounds() { bounds_any(2, 2, Bilinear) }
#[no_mangle] pub extern "C" fn q_bicubic_bounds() { bounds_any(6, 5, Bicubic) }

// ---- coordinates on a quarter grid, arbitrary pixels
#[no_mangle] pub extern "C" fn q_bilinear_quarter() { bilinear_quarter(8) }
fn bilinear_quarter(b: u32) {
    // pixels from 2^b levels spread over the whole range
    let img = GrayImage::from_fn(2, 2, |_, _| Luma([(bits(b) * if b == 4 { 17 } else { 1 }) as u8]));
    let (qx, qy) = (pick(-2, 6) as i32, pick(-2, 6) as i32);
    let (fx, fy) = (qx as f32 / 4.0, qy as f32 / 4.0);
    let mut out = GrayImage::new(1, 1);
    warp_into_with(&img, |_, _| (fx, fy), Bilinear, Luma([77]), &mut out);
    let o = at(&out, 0, 0) as u32;
    let p = |x: u32, y: u32| at(&img, x, y) as u32;
    if qx >= 0 && qx < 4 && qy >= 0 && qy < 4 {
        let (a, b) = (qx as u32, qy as u32);
        let exact16 = (4 - b) * ((4 - a) * p(0, 0) + a * p(1, 0)) + b * ((4 - a) * p(0, 1) + a * p(1, 1));
        // rows truncated before the columns are blended, or anything within the same rounding
        let rows = ((4 - b) * (((4 - a) * p(0, 0) + a * p(1, 0)) / 4) + b * (((4 - a) * p(0, 1) + a * p(1, 1)) / 4)) / 4;
        check(o == rows || (o * 16 <= exact16 + 16 && exact16 < o * 16 + 32), "bilinear is the weighted mean of the four neighbours");
        if a == 0 && b == 0 { check(o == p(0, 0), "bilinear at a pixel centre is that pixel") }
        cover(a != 0 && b != 0, "between pixels");
    } else if qx < 0 || qy < 0 || qx > 4 || qy > 4 { check(o == 77, "bilinear: default outside") }
    observe(o as u64);
}
#[no_mangle] pub extern "C" fn q_bicubic_centres() {
    // rows and columns with all four taps inside: the kernel interpolates, so centres are exact
    let img = gray(6, 6);
    let (x, y) = (pick(-1, 6) as i32, pick(-1, 6) as i32);
    let mut out = GrayImage::new(1, 1);
    warp_into_with(&img, |_, _| (x as f32, y as f32), Bicubic, Luma([77]), &mut out);
    let o = at(&out, 0, 0);
    let inner = |v: i32| v >= 1 && v < 3;
    if inner(x) && inner(y) { check(o == at(&img, x as u32, y as u32), "bicubic at a pixel centre is that pixel"); cover(true, "inner") }
    else if x < 0 || y < 0 || x > 5 || y > 5 { check(o == 77, "bicubic: default outside") }
    else { check(o == 77 || o == at(&img, x as u32, y as u32), "bicubic near the border") }
}
#[no_mangle] pub extern "C" fn q_bicubic_constant() {
    // a constant patch stays constant between pixels
    let v = u8s();
    let img = GrayImage::from_pixel(6, 6, Luma([v]));
    let (x, y) = (1.0 + pick(0, 7) as f32 / 4.0, 1.0 + pick(0, 7) as f32 / 4.0);
    let mut out = GrayImage::new(1, 1);
    warp_into_with(&img, |_, _| (x, y), Bicubic, Luma([77]), &mut out);
    check(at(&out, 0, 0) == v, "bicubic preserves constants");
}
// ---- projections
fn m(i: usize) -> [i32; 9] {
    match i {
        0 => [1, 0, 0, 0, 1, 0, 0, 0, 1], 1 => [1, 0, 1, 0, 1, -1, 0, 0, 1], 2 => [0, -1, 2, 1, 0, 0, 0, 0, 1], 3 => [-1, 0, 2, 0, 1, 0, 0, 0, 1],
        4 => [1, 1, 0, 0, 1, 0, 0, 0, 1], 5 => [1, 0, 0, -1, 1, 1, 0, 0, 1], 6 => [-1, 0, 2, 0, -1, 2, 0, 0, 1], _ => [0, 1, 0, 1, 0, 0, 0, 0, 1],
    }
}
#[no_mangle] pub extern "C" fn q_warp_integer_maps() {
    let t = m(pick(0, 7) as usize);
    let mut f = [0f32; 9];
    for i in 0..9 { f[i] = t[i] as f32 }
    let p = Projection::from_matrix(f).unwrap();
    let mode = [Nearest, Bilinear, Bicubic][pick(0, 2) as usize];
    let into = pick(0, 1) == 1;
    let (w, h) = (3u32, 3u32);
    let img = gray(w, h);
    any_fixed_order();
    let (ow, oh) = if into { (4, 2) } else { (w, h) };
    let mut out = GrayImage::new(ow, oh);
    if into { warp_into(&img, &p, mode, Luma([77]), &mut out) } else { out = warp(&img, &p, mode, Luma([77])) }
    check(out.dimensions() == (ow, oh), "warp keeps the size of its target");
    let (mut ok, mut inner) = (true, true);
    for y in 0..oh as i32 { for x in 0..ow as i32 {
        // find the pre-image among the integer points (the maps are unimodular)
        let mut src = None;
        for v in 0..h as i32 { for u in 0..w as i32 { if t[0] * u + t[1] * v + t[2] == x && t[3] * u + t[4] * v + t[5] == y { src = Some((u, v)) } } }
        let o = at(&out, x as u32, y as u32);
        match src {
            None => ok &= o == 77,
            Some((u, v)) => {
                let e = at(&img, u as u32, v as u32);
                let full = match mode { Nearest => true, Bilinear => u + 1 < w as i32 && v + 1 < h as i32, Bicubic => false };
                if full { inner &= o == e } else { inner &= o == e || o == 77 }
            }
        }
    } }
    check(ok, "warp: default where the pre-image is outside");
    check(inner, "warp: the pixel at the pre-image");
    observe_img(&out);
}
#[no_mangle] pub extern "C" fn q_warp_horizon() {
    // a projective map whose denominator vanishes on a line of the output
    let k = pick(0, 2) as f32;
    let p = Projection::from_matrix([1., 0., 0., 0., 1., 0., 1., 0., -k - 1.]).map(|p| p.invert());
    let img = gray(2, 2);
    if let Some(p) = p {
        for mode in [Nearest, Bilinear, Bicubic] {
            let out = warp(&img, &p, mode, Luma([77]));
            check(out.dimensions() == (2, 2), "projective warp keeps the size");
            observe_img(&out);
        }
    }
}
#[no_mangle] pub extern "C" fn q_warp_orders() {
    // every interleaving of row tasks gives the same image
    let img = gray(3, 3);
    let p = Projection::translate(1.0, 0.0);
    par_threads(4);
    par_order(2);
    let out = warp(&img, &p, Nearest, Luma([7]));
    let mut r = true;
    for y in 0..3 { for x in 0..3 { r &= at(&out, x, y) == if x == 0 { 7 } else { at(&img, x - 1, y) } } }
    check(r, "warp under every task order");
}
#[no_mangle] pub extern "C" fn q_rotate_right_angles() {
    let k = pick(0, 3);
    let n = 3u32;
    let img = gray(n, n);
    let about = pick(0, 1) == 1;
    let theta = k as f32 * std::f32::consts::FRAC_PI_2;
    let out = if about { rotate_about_center(&img, theta, Nearest, Luma([77])) } else { rotate(&img, (1.0, 1.0), theta, Nearest, Luma([77])) };
    // rotate_about_center turns about (w/2, h/2): the pixel grid shifts by one for odd sizes
    let mut r = out.dimensions() == (n, n);
    if !about {
        for y in 0..n { for x in 0..n {
            let (sx, sy) = match k { 0 => (x, y), 1 => (y, n - 1 - x), 2 => (n - 1 - x, n - 1 - y), _ => (n - 1 - y, x) };
            r &= at(&out, x, y) == at(&img, sx, sy);
        } }
    } else if k == 0 { r &= same(out.as_raw(), img.as_raw()) }
    check(r, "rotation by right angles is clockwise and exact");
    observe_img(&out);
}
#[no_mangle] pub extern "C" fn q_warp_rgb() {
    let img = rgb(2, 2);
    let d = Rgb([1, 2, 3]);
    let out: RgbImage = warp(&img, &Projection::translate(0.0, 1.0), Nearest, d);
    let mut r = true;
    for x in 0..2 { r &= same(&out.get_pixel(x, 0).0, &d.0) && same(&out.get_pixel(x, 1).0, &img.get_pixel(x, 0).0) }
    check(r, "warp rgb");
}
#[no_mangle] pub extern "C" fn q_warp_empty() {
    let (w, h) = (pick(0, 1) as u32, pick(0, 1) as u32);
    let img = gray(w, h);
    let mode = [Nearest, Bilinear, Bicubic][pick(0, 2) as usize];
    let out = warp(&img, &Projection::translate(0.0, 0.0), mode, Luma([7]));
    check(out.dimensions() == (w, h), "empty and single-pixel images warp");
    let o2 = warp_with(&img, |x, y| (x, y), mode, Luma([7]));
    check(o2.dimensions() == (w, h), "warp_with on empty images");
}
/// shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_translate() {
    let (w, h) = large();
    let img = big(w, h, 1, 8);
    let (tx, ty) = [(1, 1), (-1, 0), (33, -2), (-64, 5), (w as i32 - 1, -(h as i32 - 1)), (-(w as i32), 0), (17, 65)][pick(0, 6) as usize];
    let out = translate(&img, (tx, ty));
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { r &= at(&out, x, y) == atc(&img, x as i32 - tx, y as i32 - ty) } }
    check(r, "translate replicates the border");
}
#[no_mangle] pub extern "C" fn q_large_warp() {
    let (w, h) = large();
    let img = big(w, h, 1, 8);
    let (tx, ty) = [(1, 1), (-1, 0), (33, -2), (-64, 5), (0, 17)][pick(0, 4) as usize];
    any_fixed_order();
    let p = Projection::translate(tx as f32, ty as f32);
    let near = warp(&img, &p, Nearest, Luma([77]));
    let (mut r, mut r2) = (near.dimensions() == (w, h), true);
    let bil = warp(&img, &p, Bilinear, Luma([77]));
    let mut into = GrayImage::new(h, w);
    warp_into_with(&img, |x, y| (y, x), Nearest, Luma([77]), &mut into);
    for y in 0..h as i32 { for x in 0..w as i32 {
        let (u, v) = (x - tx, y - ty);
        let (ww, hh) = (w as i32, h as i32);
        let e = if u >= 0 && v >= 0 && u < ww && v < hh { at(&img, u as u32, v as u32) } else { 77 };
        r &= at(&near, x as u32, y as u32) == e;
        if u < ww - 1 && v < hh - 1 || u > ww - 1 || v > hh - 1 { r &= at(&bil, x as u32, y as u32) == e }
        r2 &= at(&into, y as u32, x as u32) == at(&img, x as u32, y as u32);
    } }
    check(r, "warp of a large image"); check(r2, "warp_into_with transposes a large image");
}
/// turns about the centre, exactly: pixel (x, y) comes from the point turned back about (w/2, h/2)
#[no_mangle] pub extern "C" fn q_large_rotate() {
    let n = [8u32, 21, 66][pick(0, 2) as usize];
    let img = big(n, n, 1, 8);
    let k = pick(0, 3);
    let c = (n as f32) / 2.0;
    let theta = k as f32 * std::f32::consts::FRAC_PI_2;
    let out = if n % 2 == 0 && pick(0, 1) == 1 { rotate_about_center(&img, theta, Nearest, Luma([77])) } else { rotate(&img, (c.floor(), c.floor()), theta, Nearest, Luma([77])) };
    let m = (n / 2) as i32;
    let mut r = out.dimensions() == (n, n);
    for y in 0..n as i32 { for x in 0..n as i32 {
        let (dx, dy) = (x - m, y - m);
        let (u, v) = match k { 0 => (dx, dy), 1 => (dy, -dx), 2 => (-dx, -dy), _ => (-dy, dx) };
        let (u, v) = (u + m, v + m);
        let e = if u >= 0 && v >= 0 && u < n as i32 && v < n as i32 { at(&img, u as u32, v as u32) } else { 77 };
        r &= at(&out, x as u32, y as u32) == e;
    } }
    check(r, "rotation by right angles about an integer point");
}
