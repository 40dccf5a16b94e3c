//! Rectangles, and drawing rectangles and crosses.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::drawing::*;
use imageproc::rect::{Rect, Region};

fn any_rect() -> Rect {
    let (l, t, w, h) = (i32s(), i32s(), u32s(), u32s());
    assume(w > 0 && h > 0);
    Rect::at(l, t).of_size(w, h)
}
fn within(r: Rect, x: i32, y: i32) -> bool {
    let (l, t) = (r.left() as i64, r.top() as i64);
    let (x, y) = (x as i64, y as i64);
    l <= x && x < l + r.width() as i64 && t <= y && y < t + r.height() as i64
}
#[no_mangle] pub extern "C" fn q_accessors() {
    let (l, t, w, h) = (i32s(), i32s(), u32s(), u32s());
    let ok = w > 0 && h > 0;
    if !split(ok) { expect_panic(true); let _ = Rect::at(l, t).of_size(w, h); check(false, "of_size refuses empty rectangles"); return }
    let r = Rect::at(l, t).of_size(w, h);
    check(r.left() == l && r.top() == t && r.width() == w && r.height() == h, "a rectangle keeps its position and size");
    let right = (l as i64 + w as i64 - 1).min(i32::MAX as i64);
    let bottom = (t as i64 + h as i64 - 1).min(i32::MAX as i64);
    check(r.right() as i64 == right, "right is the greatest x reached");
    check(r.bottom() as i64 == bottom, "bottom is the greatest y reached");
    cover(l as i64 + w as i64 > i32::MAX as i64, "reaching past i32");
}
#[no_mangle] pub extern "C" fn q_contains() {
    let r = any_rect();
    let (x, y) = (i32s(), i32s());
    check(Region::<i32>::contains(&r, x, y) == within(r, x, y), "contains is membership of the pixel rectangle");
    cover(within(r, x, y), "inside");
}
#[no_mangle] pub extern "C" fn q_contains_float() {
    let (l, t, w, h) = (range(-2000, 2000) as i32, pick(-2, 2) as i32, range(1, 1000) as u32, pick(1, 3) as u32);
    let r = Rect::at(l, t).of_size(w, h);
    let (x, y) = (f32s(), pick(-12, 12) as f32 * 0.5);
    let e = x >= l as f32 && x <= (l + w as i32 - 1) as f32 && y >= t as f32 && y <= (t + h as i32 - 1) as f32;
    check(Region::<f32>::contains(&r, x, y) == e, "contains of a real point");
    cover(e, "inside");
}
#[no_mangle] pub extern "C" fn q_intersect() {
    let (a, b) = (any_rect(), any_rect());
    let end = |s: i32, n: u32| s as i64 + n as i64;
    let (l, t) = (a.left().max(b.left()), a.top().max(b.top()));
    let r = end(a.left(), a.width()).min(end(b.left(), b.width()));
    let d = end(a.top(), a.height()).min(end(b.top(), b.height()));
    let common = (l as i64) < r && (t as i64) < d;
    match a.intersect(b) {
        Some(i) => {
            check(common, "intersecting rectangles have a common point");
            check(i.left() == l && end(i.left(), i.width()) == r, "columns of the intersection are the common ones");
            check(i.top() == t && end(i.top(), i.height()) == d, "rows of the intersection are the common ones");
            cover(r > i32::MAX as i64, "past i32");
            cover(l < 0 && r > 5, "some");
        }
        None => { check(!common, "disjoint rectangles have no common point"); cover(true, "none") }
    }
}
#[no_mangle] pub extern "C" fn q_intersect_self() {
    let a = any_rect();
    check(a.intersect(a) == Some(a), "intersecting with itself");
}
fn backdrop(w: u32, h: u32) -> GrayImage { gray(w, h) }
#[no_mangle] pub extern "C" fn q_filled() {
    merging(false);
    let (w, h) = [(3u32, 2u32), (1, 3), (0, 2), (2, 0), (0, 0)][pick(0, 4) as usize];
    let img = backdrop(w, h);
    let r = any_rect();
    let c = u8s();
    let out = draw_filled_rect(&img, r, Luma([c]));
    check(out.dimensions() == (w, h), "dimensions");
    let mut ok = true;
    for y in 0..h { for x in 0..w { ok &= at(&out, x, y) == if within(r, x as i32, y as i32) { c } else { at(&img, x, y) } } }
    check(ok, "exactly the pixels of the rectangle are coloured");
    let mut m = img.clone();
    draw_filled_rect_mut(&mut m, r, Luma([c]));
    check(same(m.as_raw(), out.as_raw()), "in place and copying agree");
}
/// counts how often each pixel is drawn
struct Count { w: u32, h: u32, n: Vec<u32>, outside: bool }
impl Canvas for Count {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn get_pixel(&self, _: u32, _: u32) -> Luma<u8> { Luma([0]) }
    fn draw_pixel(&mut self, x: u32, y: u32, _: Luma<u8>) {
        if x >= self.w || y >= self.h { self.outside = true } else { self.n[(y * self.w + x) as usize] += 1 }
    }
}
#[no_mangle] pub extern "C" fn q_once() {
    merging(false);
    let (w, h) = (3, 3);
    let r = any_rect();
    let mut c = Count { w, h, n: vec![0; 9], outside: false };
    draw_filled_rect_mut(&mut c, r, Luma([1]));
    let mut ok = !c.outside;
    for y in 0..h { for x in 0..w { ok &= c.n[(y * w + x) as usize] == within(r, x as i32, y as i32) as u32 } }
    check(ok, "every pixel of a filled rectangle is drawn once, so that blending is even");
}
#[no_mangle] pub extern "C" fn q_hollow() {
    merging(false);
    let (w, h) = [(5u32, 4u32), (1, 1), (2, 5), (0, 3)][pick(0, 3) as usize];
    let img = gray(w, h);
    let c = u8s();
    let (l, t) = (pick(-3, 5) as i32, pick(-3, 4) as i32);
    let (rw, rh) = (pick(1, 5) as u32, pick(1, 4) as u32);
    let r = Rect::at(l, t).of_size(rw, rh);
    let out = draw_hollow_rect(&img, r, Luma([c]));
    let mut ok = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let (a, b) = (x as i32, y as i32);
        let edge = within(r, a, b) && (a == l || a == l + rw as i32 - 1 || b == t || b == t + rh as i32 - 1);
        ok &= at(&out, x, y) == if edge { c } else { at(&img, x, y) };
    } }
    check(ok, "exactly the boundary inside the image is coloured");
}
#[no_mangle] pub extern "C" fn q_hollow_position() {
    forking();
    let img = gray(3, 3);
    let c = u8s();
    let (l, t) = (range(-100, 100) as i32, range(-100, 100) as i32);
    let (rw, rh) = [(1u32, 1u32), (2, 3), (4, 2), (30, 3)][pick(0, 3) as usize];
    let r = Rect::at(l, t).of_size(rw, rh);
    let out = draw_hollow_rect(&img, r, Luma([c]));
    let mut ok = true;
    for y in 0..3 { for x in 0..3 {
        let (a, b) = (x as i32, y as i32);
        let edge = within(r, a, b) && (a == l || a == l + rw as i32 - 1 || b == t || b == t + rh as i32 - 1);
        ok &= at(&out, x, y) == if edge { c } else { at(&img, x, y) };
    } }
    check(ok, "the boundary of a rectangle anywhere");
}
#[no_mangle] pub extern "C" fn q_cross() {
    merging(false);
    let (w, h) = [(3u32, 3u32), (1, 2), (4, 1), (0, 2), (2, 0)][pick(0, 4) as usize];
    let img = gray(w, h);
    let (c, x, y) = (u8s(), i32s(), i32s());
    let out = draw_cross(&img, Luma([c]), x, y);
    let mut ok = out.dimensions() == (w, h);
    for j in 0..h { for i in 0..w {
        let d = (i as i64 - x as i64).abs() + (j as i64 - y as i64).abs();
        ok &= at(&out, i, j) == if d <= 1 { c } else { at(&img, i, j) };
    } }
    check(ok, "a cross colours its centre and the four pixels beside it");
}
/// rectangles and crosses on larger canvases
#[no_mangle] pub extern "C" fn q_large_canvas() {
    let (w, h) = large();
    let img = big(w, h, 41, 2);
    let c = u8s();
    let (l, t) = [(0, 0), (-3, 1), (w as i32 / 2, h as i32 / 2), (1, -5), (w as i32 - 1, 0)][pick(0, 4) as usize];
    let (rw, rh) = [(w, h), (7, 40), (150, 2), (65, 66), (1, h)][pick(0, 4) as usize];
    let r = Rect::at(l, t).of_size(rw, rh);
    let (f, o, x) = (draw_filled_rect(&img, r, Luma([c])), draw_hollow_rect(&img, r, Luma([c])), draw_cross(&img, Luma([c]), l, t));
    let mut ok = f.dimensions() == (w, h) && o.dimensions() == (w, h) && x.dimensions() == (w, h);
    for y in 0..h { for u in 0..w {
        let (a, b) = (u as i32, y as i32);
        let p = at(&img, u, y);
        let edge = within(r, a, b) && (a == l || a == l + rw as i32 - 1 || b == t || b == t + rh as i32 - 1);
        ok &= at(&f, u, y) == if within(r, a, b) { c } else { p };
        ok &= at(&o, u, y) == if edge { c } else { p };
        ok &= at(&x, u, y) == if (a - l).abs() + (b - t).abs() <= 1 { c } else { p };
    } }
    check(ok, "rectangles and crosses on a large canvas");
}
