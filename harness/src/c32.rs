//! Histograms of oriented gradients.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::drawing::draw_line_segment_mut;
use imageproc::hog::*;
use std::f64::consts::PI;

fn options(o: usize, signed: bool, cell: usize, block: usize, stride: usize) -> HogOptions { HogOptions::new(o, signed, cell, block, stride) }
/// options are accepted exactly if cells tile the image and blocks tile the cells
#[no_mangle] pub extern "C" fn q_spec() {
    merging(false);
    let (cell, block, stride) = (pick(0, 3) as usize, pick(0, 3) as usize, pick(0, 2) as usize);
    let (w, h) = (range(0, 9) as u32, [0u32, 4, 6][pick(0, 2) as usize]);
    spec(w, h, pick(0, 1) as usize * 9, cell, block, stride)
}
#[no_mangle] pub extern "C" fn q_spec_large() {
    merging(false);
    let (w, h) = ([0u32, 12, 4096, u32::MAX][pick(0, 3) as usize], [12u32, 4095, u32::MAX][pick(0, 2) as usize]);
    let cell = [1usize, 5, 12, usize::MAX][pick(0, 3) as usize];
    spec(w, h, 8, cell, [1usize, 3, usize::MAX][pick(0, 2) as usize], [1usize, 2, usize::MAX][pick(0, 2) as usize])
}
fn spec(w: u32, h: u32, o: usize, cell: usize, block: usize, stride: usize) {
    let got = HogSpec::from_options(w, h, options(o, true, cell, block, stride));
    let fits = |len: u32| -> Option<usize> {
        if cell == 0 || stride == 0 || o == 0 || len as usize % cell != 0 { return None }
        let cells = len as usize / cell;
        if cells < block || (cells - block) % stride != 0 { return None }
        Some((cells - block) / stride + 1)
    };
    match (fits(w), fits(h)) {
        (Some(a), Some(b)) => match got {
            Ok(s) => check(a > 1000 || b > 1000 || s.descriptor_length() == a * b * o * block * block, "descriptor_length counts blocks, cells and orientations"),
            Err(_) => check(false, "options that tile the image are accepted"),
        },
        _ => check(got.is_err(), "options that do not tile the image are an error"),
    }
}
/// the histograms by definition, in f64
fn hist(img: &GrayImage, o: HogOptions) -> (Vec<f64>, usize, usize) {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let c = o.cell_side;
    let (cw, ch) = (w as usize / c, h as usize / c);
    let mut g = vec![0f64; cw * ch * o.orientations];
    let px = |x: i64, y: i64| { let x = if x < 0 { 0 } else if x >= w { w - 1 } else { x }; let y = if y < 0 { 0 } else if y >= h { h - 1 } else { y }; img.get_pixel(x as u32, y as u32)[0] as i64 };
    let full = if o.signed { 2.0 * PI } else { PI };
    for y in 0..h { for x in 0..w {
        let gx = px(x + 1, y - 1) - px(x - 1, y - 1) + 2 * px(x + 1, y) - 2 * px(x - 1, y) + px(x + 1, y + 1) - px(x - 1, y + 1);
        let gy = px(x - 1, y + 1) - px(x - 1, y - 1) + 2 * px(x, y + 1) - 2 * px(x, y - 1) + px(x + 1, y + 1) - px(x + 1, y - 1);
        if gx == 0 && gy == 0 { continue }
        let m = ((gx * gx + gy * gy) as f64).sqrt();
        let mut d = (gy as f64).atan2(gx as f64);
        if d < 0.0 { d += full }
        if d >= full { d -= full }
        let b = d / full * o.orientations as f64;
        let b0 = (b as usize) % o.orientations;
        let fb = b - b.floor();
        for (iy, wy) in [(y as usize / c, 1.0 - (y as usize % c) as f64 / c as f64), (y as usize / c + 1, (y as usize % c) as f64 / c as f64)] {
            for (ix, wx) in [(x as usize / c, 1.0 - (x as usize % c) as f64 / c as f64), (x as usize / c + 1, (x as usize % c) as f64 / c as f64)] {
                if ix >= cw || iy >= ch { continue }
                let at = (iy * cw + ix) * o.orientations;
                g[at + b0] += (1.0 - fb) * wx * wy * m / (c * c) as f64;
                g[at + (b0 + 1) % o.orientations] += fb * wx * wy * m / (c * c) as f64;
            }
        }
    } }
    (g, cw, ch)
}
fn near(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d <= tol && d >= -tol }
fn judge(img: &GrayImage, o: HogOptions) {
    let got = hog(img, o).unwrap();
    let (g, cw, ch) = hist(img, o);
    let (bs, st, n) = (o.block_side, o.block_stride, o.orientations);
    let (bw, bh) = ((cw - bs) / st + 1, (ch - bs) / st + 1);
    check(got.len() == bw * bh * n * bs * bs, "one descriptor per block");
    if got.len() != bw * bh * n * bs * bs { return }
    let mut ok = true;
    let mut i = 0;
    for by in 0..bh { for bx in 0..bw {
        let mut v = vec![];
        for cy in 0..bs { for cx in 0..bs { for k in 0..n { v.push(g[((by * st + cy) * cw + bx * st + cx) * n + k]) } } }
        let mut q = 0f64;
        for a in &v { q += a * a }
        let norm = q.sqrt();
        for a in &v { ok &= near(got[i] as f64, if norm > 0.0 { a / norm } else { 0.0 }, 2e-4); i += 1 }
    } }
    check(ok, "histograms of gradient directions, shared bilinearly, of unit length in every block");
}
/// an image with one free pixel
fn image(w: u32, h: u32, vary: u32) -> GrayImage {
    let v = bits(8) as u8;
    let at = (vary % w, vary / w % h);
    GrayImage::from_fn(w, h, |x, y| if (x, y) == at { Luma([v]) } else { Luma([((x * 37 + y * 101 + x * y * 13 + 5) % 251) as u8]) })
}
fn some_options() -> (u32, u32, HogOptions) {
    let k = pick(0, 5) as usize;
    [(4, 4, options(8, true, 2, 1, 1)), (4, 4, options(9, false, 2, 2, 1)), (6, 4, options(4, true, 2, 2, 1)), (3, 3, options(8, false, 3, 1, 1)),
     (4, 2, options(6, true, 1, 2, 2)), (3, 6, options(1, false, 3, 1, 1))][k]
}
#[no_mangle] pub extern "C" fn q_hog() {
    forking();
    let (w, h, o) = some_options();
    judge(&image(w, h, 5), o);
}
#[no_mangle] pub extern "C" fn q_flat() {
    let (w, h, o) = some_options();
    let img = GrayImage::from_pixel(w, h, Luma([u8s()]));
    let mut ok = true;
    for v in hog(&img, o).unwrap() { ok &= v == 0.0 }
    check(ok, "images without gradients have a zero descriptor");
}
/// gradients along the axes fall wholly into one bin
#[no_mangle] pub extern "C" fn q_axes() {
    forking();
    let k = pick(0, 3);
    let v = range(1, 255) as u8;
    let img = GrayImage::from_fn(4, 4, |x, y| { let on = [x >= 2, x < 2, y >= 2, y < 2][k as usize]; Luma([if on { v } else { 0 }]) });
    let d = hog(&img, options(4, true, 4, 1, 1)).unwrap();
    let bin = [0usize, 2, 1, 3][k as usize];
    check(d[bin] > 0.999 && d[(bin + 1) % 4] < 0.001 && d[(bin + 2) % 4] < 0.001 && d[(bin + 3) % 4] < 0.001, "signed directions");
    let d = hog(&img, options(4, false, 4, 1, 1)).unwrap();
    let bin = [0usize, 0, 2, 2][k as usize];
    check(d[bin] > 0.999, "unsigned directions");
}
/// the rendering: one star for each cell, in its own square
fn render(img: &GrayImage, o: HogOptions, side: u32) {
    let spec = HogSpec::from_options(img.width(), img.height(), o).unwrap();
    let (g, cw, ch) = hist(img, o);
    let mut grid = cell_histograms(img, spec);
    let out = render_hist_grid(side, &grid.view_mut(), o.signed);
    check(out.dimensions() == (cw as u32 * side, ch as u32 * side), "a square for every cell");
    let mut ok = true;
    for cy in 0..ch { for cx in 0..cw {
        let mut star = GrayImage::new(side, side);
        let n = o.orientations;
        for b in 0..n {
            let v = g[(cy * cw + cx) * n + b];
            let c = Luma([if v > 255.0 { 255 } else { v as u8 }]);
            let range = if o.signed { 2.0 } else { 1.0 };
            for turn in 0..if o.signed { 1 } else { 2 } {
                let dir = (range * std::f32::consts::PI * b as f32) / n as f32 + turn as f32 * std::f32::consts::PI;
                let (s, r) = ((side / 2) as f32, side as f32 / 2.0);
                draw_line_segment_mut(&mut star, (s, s), (s - r * dir.sin(), s + r * dir.cos()), c);
            }
        }
        for y in 0..side { for x in 0..side {
            let (a, b) = (at(&out, cx as u32 * side + x, cy as u32 * side + y), at(&star, x, y));
            ok &= a == b || a == b.wrapping_add(1) || b == a.wrapping_add(1);
        } }
    } }
    check(ok, "each square shows the rays of its own cell");
}
#[no_mangle] pub extern "C" fn q_render() {
    forking();
    let (w, h, o) = some_options();
    render(&image(w, h, 2), o, 5);
}
/// larger images: many cells and blocks
#[no_mangle] pub extern "C" fn q_large() {
    forking(); step_limit(400_000_000);
    let (w, h, o) = [(24, 16, options(9, false, 4, 2, 1)), (40, 8, options(8, true, 8, 1, 1)), (8, 40, options(6, true, 4, 2, 2)), (64, 3, options(4, false, 1, 3, 1)), (20, 30, options(12, true, 5, 2, 2)), (32, 32, options(18, false, 16, 2, 1))][pick(0, 5) as usize];
    let mut img = big(w, h, 61, 0);
    if split(bools()) { img.put_pixel(w / 2, h / 2, Luma([130])) }
    judge(&img, o)
}
