//! Canvases: plain images, blending ones and those of the user.
use crate::sym::*;
use image::{GrayImage, Luma, Pixel, Rgba, RgbaImage};
use imageproc::drawing::*;
use imageproc::pixelops::interpolate;
use imageproc::point::Point;
use imageproc::rect::Rect;

/// a canvas that counts and refuses what lies outside
struct Counting { w: u32, h: u32, hits: Vec<u32>, background: Luma<u8>, strange: bool }
impl Canvas for Counting {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> { if x >= self.w || y >= self.h { panic!("read outside the canvas") } self.background }
    fn draw_pixel(&mut self, x: u32, y: u32, c: Luma<u8>) {
        if x >= self.w || y >= self.h { panic!("drawn outside the canvas") }
        self.strange |= c != Luma([200]);
        self.hits[(y * self.w + x) as usize] += 1;
    }
}
const SHAPES: i64 = 10;
/// every shape that can be drawn on any canvas, at a place of which parts may lie outside
fn draw<C: Canvas>(c: &mut C, k: i64, x: i32, y: i32, color: C::Pixel) {
    let f = |dx: i32, dy: i32| ((x + dx) as f32, (y + dy) as f32);
    let p = |dx: i32, dy: i32| Point::new(x + dx, y + dy);
    match k {
        0 => draw_cross_mut(c, color, x, y),
        1 => draw_hollow_rect_mut(c, Rect::at(x, y).of_size(3, 4), color),
        2 => draw_filled_rect_mut(c, Rect::at(x, y).of_size(4, 2), color),
        3 => draw_line_segment_mut(c, f(0, 0), f(5, -3), color),
        4 => draw_hollow_ellipse_mut(c, (x, y), 3, 2, color),
        5 => draw_filled_ellipse_mut(c, (x, y), 2, 3, color),
        6 => draw_hollow_circle_mut(c, (x, y), 3, color),
        7 => draw_filled_circle_mut(c, (x, y), 2, color),
        8 => draw_cubic_bezier_curve_mut(c, f(0, 0), f(4, 4), f(5, -1), f(-2, 3), color),
        9 => draw_polygon_mut(c, &[p(0, 0), p(4, 1), p(1, 5)], color),
        _ => draw_hollow_polygon_mut(c, &[Point::new((x) as f32, y as f32), Point::new((x + 4) as f32, (y + 1) as f32), Point::new((x + 1) as f32, (y + 5) as f32)], color),
    }
}
/// the same by the variants that return a new image
fn copy(i: &mut RgbaImage, k: i64, x: i32, y: i32, color: Rgba<u8>) -> RgbaImage {
    let f = |dx: i32, dy: i32| ((x + dx) as f32, (y + dy) as f32);
    let p = |dx: i32, dy: i32| Point::new(x + dx, y + dy);
    match k {
        0 => draw_cross(i, color, x, y),
        1 => draw_hollow_rect(i, Rect::at(x, y).of_size(3, 4), color),
        2 => draw_filled_rect(i, Rect::at(x, y).of_size(4, 2), color),
        3 => draw_line_segment(i, f(0, 0), f(5, -3), color),
        4 => draw_hollow_ellipse(i, (x, y), 3, 2, color),
        5 => draw_filled_ellipse(i, (x, y), 2, 3, color),
        6 => draw_hollow_circle(i, (x, y), 3, color),
        7 => draw_filled_circle(i, (x, y), 2, color),
        8 => draw_cubic_bezier_curve(i, f(0, 0), f(4, 4), f(5, -1), f(-2, 3), color),
        9 => draw_polygon(i, &[p(0, 0), p(4, 1), p(1, 5)], color),
        _ => draw_hollow_polygon(i, &[Point::new((x) as f32, y as f32), Point::new((x + 4) as f32, (y + 1) as f32), Point::new((x + 1) as f32, (y + 5) as f32)], color),
    }
}
fn place() -> (u32, u32, i32, i32) {
    let (w, h) = [(5u32, 4u32), (1, 6), (0, 3), (3, 0), (7, 8)][pick(0, 4) as usize];
    (w, h, [-4, -1, 1, 3, 6][pick(0, 4) as usize], [-5, 0, 2, 5][pick(0, 3) as usize])
}
fn rgba(w: u32, h: u32) -> RgbaImage { RgbaImage::from_fn(w, h, |_, _| rgba_px()) }
fn hits(k: i64, w: u32, h: u32, x: i32, y: i32) -> Counting {
    let mut c = Counting { w, h, hits: vec![0; (w * h) as usize], background: Luma([9]), strange: false };
    draw(&mut c, k, x, y, Luma([200]));
    c
}
/// any canvas: nothing is touched outside, and inside the pixels that change on an image
#[no_mangle] pub extern "C" fn q_any_canvas() {
    let (k, (w, h, x, y)) = (pick(0, SHAPES), place());
    let c = hits(k, w, h, x, y);
    check(!c.strange, "pixels are drawn in the colour given");
    let img = rgba(w, h);
    let color = rgba_px();
    let mut out = img.clone();
    draw(&mut out, k, x, y, color);
    let mut ok = true;
    for v in 0..h { for u in 0..w { ok &= *out.get_pixel(u, v) == if c.hits[(v * w + u) as usize] > 0 { color } else { *img.get_pixel(u, v) } } }
    check(ok, "an image takes the colour where any canvas is drawn on, and keeps the rest");
    // lines, filled rectangles and crosses touch a pixel once
    if k == 0 || k == 2 || k == 3 { check(c.hits.iter().all(|n| *n <= 1), "each pixel once") }
}
/// the place as an unknown, for the shapes with whole coordinates
#[no_mangle] pub extern "C" fn q_anywhere() {
    forking();
    let k = [0i64, 1, 2, 4, 6, 7][pick(0, 5) as usize];
    let (x, y) = (range(-6, 9) as i32, range(-6, 8) as i32);
    let c = hits(k, 4, 3, x, y);
    let img = GrayImage::from_fn(4, 3, |x, y| Luma([(y * 4 + x) as u8 + 1]));
    let mut out = img.clone();
    draw(&mut out, k, x, y, Luma([200]));
    let mut ok = !c.strange;
    for v in 0..3 { for u in 0..4 { ok &= (c.hits[(v * 4 + u) as usize] > 0) == (at(&out, u, v) == 200) && (at(&out, u, v) == 200 || at(&out, u, v) == at(&img, u, v)) } }
    check(ok, "an image takes the colour where any canvas is drawn on");
}
#[no_mangle] pub extern "C" fn q_copies() {
    let (k, (w, h, x, y)) = (pick(0, SHAPES), place());
    let mut img = rgba(w, h);
    let before = img.clone();
    let color = rgba_px();
    let out = copy(&mut img, k, x, y, color);
    let mut inplace = before.clone();
    draw(&mut inplace, k, x, y, color);
    let mut ok = out.dimensions() == (w, h);
    for v in 0..h { for u in 0..w { ok &= out.get_pixel(u, v) == inplace.get_pixel(u, v) && img.get_pixel(u, v) == before.get_pixel(u, v) } }
    check(ok, "the variants returning an image draw the same and leave their argument alone");
}
#[no_mangle] pub extern "C" fn q_antialiased_copies() {
    let (w, h) = (6u32, 5u32);
    let (x, y) = (pick(-2, 3) as i32, pick(-1, 2) as i32);
    let img = gray(w, h);
    let color = Luma([[0u8, 255][pick(0, 1) as usize]]);
    let (a, b) = if pick(0, 1) == 0 {
        let mut m = img.clone();
        draw_antialiased_line_segment_mut(&mut m, (x, y), (x + 4, y + 3), color, interpolate);
        (draw_antialiased_line_segment(&img, (x, y), (x + 4, y + 3), color, interpolate), m)
    } else {
        let p = [Point::new(x, y), Point::new(x + 4, y + 1), Point::new(x + 1, y + 3)];
        let mut m = img.clone();
        draw_antialiased_polygon_mut(&mut m, &p, color, interpolate);
        (draw_antialiased_polygon(&img, &p, color, interpolate), m)
    };
    check(a == b, "antialiased variants agree");
}
/// blending: opaque colours replace, transparent ones do nothing
#[no_mangle] pub extern "C" fn q_blend_ends() {
    let (k, (w, h, x, y)) = (pick(0, SHAPES), place());
    let img = rgba(w, h);
    let mut color = rgba_px();
    color[3] = 255;
    let mut plain = img.clone();
    draw(&mut plain, k, x, y, color);
    let mut blend = Blend(img.clone());
    draw(&mut blend, k, x, y, color);
    check(blend.0 == plain, "an opaque colour replaces");
    let mut blend = Blend(img.clone());
    color[3] = 0;
    draw(&mut blend, k, x, y, color);
    check(blend.0 == img, "a transparent colour leaves everything");
}
/// translucent colours, as often as the canvas is drawn on
#[no_mangle] pub extern "C" fn q_blend() {
    let (k, (w, h, x, y)) = (pick(0, SHAPES), place());
    let c = hits(k, w, h, x, y);
    let img = RgbaImage::from_fn(w, h, |x, y| Rgba([(x * 50) as u8, (y * 31) as u8, 77, [255u8, 100, 0][(x + y) as usize % 3]]));
    let color = Rgba([200, 20, 255, [1u8, 128, 254][pick(0, 2) as usize]]);
    let mut blend = Blend(img.clone());
    draw(&mut blend, k, x, y, color);
    let mut ok = blend.dimensions() == (w, h);
    for v in 0..h { for u in 0..w {
        let mut p = *img.get_pixel(u, v);
        for _ in 0..c.hits[(v * w + u) as usize] { p.blend(&color) }
        ok &= *blend.0.get_pixel(u, v) == p && Canvas::get_pixel(&blend, u, v) == p;
    } }
    check(ok, "each drawing of a pixel blends the colour onto it");
}
/// every level of the background
#[no_mangle] pub extern "C" fn q_blend_pixel() {
    forking();
    let v = bits(8) as u8;
    let (a, b) = ([255u8, 60][pick(0, 1) as usize], [40u8, 200][pick(0, 1) as usize]);
    let color = Rgba([v, 10, 250, b]);
    let mut c = Blend(RgbaImage::from_pixel(2, 1, Rgba([90, 160, 0, a])));
    c.draw_pixel(1, 0, color);
    let mut p = Rgba([90u8, 160, 0, a]);
    p.blend(&color);
    check(*c.0.get_pixel(1, 0) == p && *c.0.get_pixel(0, 0) == Rgba([90, 160, 0, a]), "draw_pixel blends that pixel only");
    check(c.width() == 2 && c.height() == 1, "with the dimensions of the image");
    let mut g = GrayImage::new(2, 2);
    Canvas::draw_pixel(&mut g, 0, 1, Luma([v]));
    check(at(&g, 0, 1) == v && at(&g, 0, 0) == 0 && Canvas::get_pixel(&g, 0, 1)[0] == v && Canvas::dimensions(&g) == (2, 2), "an image is a canvas that replaces");
}
