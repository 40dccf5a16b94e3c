//! Circles, ellipses and Bezier curves.
use crate::sym::*;
use image::Luma;
use imageproc::drawing::*;

/// records the pixels drawn on a large surface
struct Rec { w: u32, h: u32, p: Vec<(i32, i32)>, ok: bool }
impl Rec { fn new(w: u32, h: u32) -> Rec { Rec { w, h, p: vec![], ok: true } } }
impl Canvas for Rec {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn get_pixel(&self, _: u32, _: u32) -> Luma<u8> { Luma([0]) }
    fn draw_pixel(&mut self, x: u32, y: u32, c: Luma<u8>) { self.ok &= x < self.w && y < self.h && c[0] == 7; self.p.push((x as i32, y as i32)) }
}
const C: Luma<u8> = Luma([7]);
/// offsets from the centre on a grid of half size n: how often each is drawn
fn offsets(r: &Rec, c: (i32, i32), n: i32) -> (bool, Vec<u32>) {
    let s = 2 * n + 1;
    let mut v = vec![0u32; (s * s) as usize];
    let mut ok = r.ok;
    for p in &r.p {
        let (x, y) = (concrete((p.0 - c.0) as u32 as u64) as u32 as i32, concrete((p.1 - c.1) as u32 as u64) as u32 as i32);
        if x < -n || x > n || y < -n || y > n { ok = false } else { v[((y + n) * s + x + n) as usize] += 1 }
    }
    (ok, v)
}
/// is the offset within d of the curve, measured along a row or a column?
fn near(x: i32, y: i32, a: i32, b: i32, d: f64) -> bool {
    let (x, y, a, b) = (x as f64, y as f64, a as f64, b as f64);
    let (x, y) = (x.abs(), y.abs());
    x <= a && (y - b * (1.0 - x * x / (a * a)).sqrt()).abs() <= d || y <= b && (x - a * (1.0 - y * y / (b * b)).sqrt()).abs() <= d
}
fn outline(c: (i32, i32), a: i32, b: i32, circle: bool) -> (Vec<u32>, i32) {
    let n = a.max(b) + 1;
    let s = 2 * n + 1;
    let mut r = Rec::new(1000, 1000);
    if circle { draw_hollow_circle_mut(&mut r, c, a, C) } else { draw_hollow_ellipse_mut(&mut r, c, a, b, C) }
    let (ok, v) = offsets(&r, c, n);
    check(ok, "an outline stays within its radii");
    let on = |x: i32, y: i32| v[((y + n) * s + x + n) as usize] > 0;
    let (mut close, mut even, mut joined, mut all) = (true, true, true, true);
    for y in -n..=n { for x in -n..=n {
        if !on(x, y) { continue }
        if a > 0 && b > 0 { close &= near(x, y, a, b, 0.8) }
        all &= x.abs() <= a && y.abs() <= b;
        even &= on(-x, y) && on(x, -y);
    } }
    check(all, "an outline stays within its radii");
    check(close, "every pixel of an outline is within a pixel of the curve");
    check(even, "an outline is symmetric about both axes");
    // flood from the right extreme
    let mut seen = vec![false; v.len()];
    let mut todo = vec![(a, 0)];
    while let Some((x, y)) = todo.pop() {
        let i = ((y + n) * s + x + n) as usize;
        if seen[i] || v[i] == 0 { continue }
        seen[i] = true;
        for j in -1..=1 { for i in -1..=1 { if (x + i).abs() <= n && (y + j).abs() <= n { todo.push((x + i, y + j)) } } }
    }
    for i in 0..v.len() { joined &= seen[i] == (v[i] > 0) }
    check(joined, "an outline is connected");
    check(on(a, 0) && on(-a, 0) && on(0, b) && on(0, -b), "an outline reaches its four extremes");
    // every row and column between the extremes is met
    let mut rows = true;
    for y in -b..=b { let mut m = false; for x in -a..=a { m |= on(x, y) } rows &= m }
    for x in -a..=a { let mut m = false; for y in -b..=b { m |= on(x, y) } rows &= m }
    check(rows, "an outline crosses every row and column between its extremes");
    (v, n)
}
fn shape(c: (i32, i32), a: i32, b: i32, circle: bool) {
    let (v, n) = outline(c, a, b, circle);
    let s = 2 * n + 1;
    let mut r = Rec::new(1000, 1000);
    if circle { draw_filled_circle_mut(&mut r, c, a, C) } else { draw_filled_ellipse_mut(&mut r, c, a, b, C) }
    let (ok, f) = offsets(&r, c, n);
    check(ok, "a filled shape stays within its radii");
    let mut same = true;
    for y in -n..=n {
        let mut ext = -1;
        for x in 0..=n { if v[((y + n) * s + x + n) as usize] > 0 { ext = x } }
        for x in -n..=n { same &= (f[((y + n) * s + x + n) as usize] > 0) == (x.abs() <= ext) }
    }
    check(same, "a filled shape is everything between the ends of its outline in each row");
}
fn centre() -> (i32, i32) { (range(200, 455) as i32, pick(300, 301) as i32) }
#[no_mangle] pub extern "C" fn q_circle() { merging(false); let r = pick(0, 12) as i32; shape((pick(300, 301) as i32, 300), r, r, true) }
#[no_mangle] pub extern "C" fn q_circle_any_centre() { merging(false); let r = [0, 1, 4][pick(0, 2) as usize]; outline(centre(), r, r, true); }
#[no_mangle] pub extern "C" fn q_ellipse() { merging(false); let (a, b) = (pick(0, 9) as i32, pick(0, 9) as i32); shape((300, 300), a, b, false) }
#[no_mangle] pub extern "C" fn q_ellipse_flat() { merging(false); let (a, b) = (pick(10, 25) as i32, pick(1, 3) as i32); if pick(0, 1) == 0 { shape((300, 300), a, b, false) } else { shape((300, 300), b, a, false) } }
#[no_mangle] pub extern "C" fn q_ellipse_any_centre() { merging(false); let (a, b) = [(4, 2), (2, 5), (1, 3)][pick(0, 2) as usize]; outline(centre(), a, b, false); }
#[no_mangle] pub extern "C" fn q_circle_ellipse() {
    merging(false);
    let r = pick(0, 7) as i32;
    let (mut p, mut q) = (Rec::new(99, 99), Rec::new(99, 99));
    if pick(0, 1) == 0 { draw_hollow_circle_mut(&mut p, (40, 40), r, C); draw_hollow_ellipse_mut(&mut q, (40, 40), r, r, C) }
    else { draw_filled_circle_mut(&mut p, (40, 40), r, C); draw_filled_ellipse_mut(&mut q, (40, 40), r, r, C) }
    check(p.p == q.p, "an ellipse of equal radii is a circle");
}
fn draw(k: i64, img: &image::GrayImage, c: (i32, i32), a: i32, b: i32, v: Luma<u8>) -> image::GrayImage {
    let (mut m, out) = match k {
        0 => { let mut m = img.clone(); draw_hollow_circle_mut(&mut m, c, a, v); (m, draw_hollow_circle(img, c, a, v)) }
        1 => { let mut m = img.clone(); draw_filled_circle_mut(&mut m, c, a, v); (m, draw_filled_circle(img, c, a, v)) }
        2 => { let mut m = img.clone(); draw_hollow_ellipse_mut(&mut m, c, a, b, v); (m, draw_hollow_ellipse(img, c, a, b, v)) }
        _ => { let mut m = img.clone(); draw_filled_ellipse_mut(&mut m, c, a, b, v); (m, draw_filled_ellipse(img, c, a, b, v)) }
    };
    check(same(m.as_raw(), out.as_raw()), "in place and copying agree");
    let _ = &mut m;
    out
}
fn record(k: i64, c: (i32, i32), a: i32, b: i32) -> Rec {
    let mut r = Rec::new(1000, 1000);
    match k { 0 => draw_hollow_circle_mut(&mut r, c, a, C), 1 => draw_filled_circle_mut(&mut r, c, a, C), 2 => draw_hollow_ellipse_mut(&mut r, c, a, b, C), _ => draw_filled_ellipse_mut(&mut r, c, a, b, C) }
    r
}
fn clipped(k: i64, w: u32, h: u32, c: (i32, i32), a: i32, b: i32) {
    let img = gray(w, h);
    let v = u8s();
    let out = draw(k, &img, c, a, b, Luma([v]));
    let r = record(k, (500, 500), a, b);
    let mut ok = out.dimensions() == (w, h);
    for y in 0..h as i32 { for x in 0..w as i32 {
        let mut on = false;
        for p in &r.p { on |= (p.0 - 500 + c.0 == x) & (p.1 - 500 + c.1 == y) }
        ok &= at(&out, x as u32, y as u32) == if on { v } else { at(&img, x as u32, y as u32) };
    } }
    check(ok, "exactly the part of the shape inside the image is coloured");
}
#[no_mangle] pub extern "C" fn q_clip() {
    merging(false);
    let (w, h) = [(4u32, 3u32), (1, 2), (0, 3), (5, 0)][pick(0, 3) as usize];
    let (a, b) = [(2, 2), (3, 1), (0, 0), (1, 4)][pick(0, 3) as usize];
    clipped(pick(0, 3), w, h, (pick(-3, 5) as i32, pick(-4, 4) as i32), a, b)
}
#[no_mangle] pub extern "C" fn q_clip_anywhere() {
    forking();
    let (a, b) = [(2, 2), (3, 1)][pick(0, 1) as usize];
    clipped(pick(0, 3), 2, 2, (range(-500, 500) as i32, pick(-1, 2) as i32), a, b)
}
#[no_mangle] pub extern "C" fn q_far() {
    merging(false);
    let img = gray(2, 2);
    let e = [i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 2][pick(0, 3) as usize];
    let c = [(e, 0), (1, e), (e, e)][pick(0, 2) as usize];
    let (a, b) = [(3, 3), (2, 4), (5, 2)][pick(0, 2) as usize];
    let out = draw(pick(0, 3), &img, c, a, b, Luma([u8s()]));
    check(same(out.as_raw(), img.as_raw()), "nothing is drawn from far away");
}
#[no_mangle] pub extern "C" fn q_large() {
    merging(false);
    // the topmost pixel of an ellipse wider than 2^15.5
    let (a, b) = [(46341, 2), (60000, 1), (3, 46400)][pick(0, 2) as usize];
    let img = gray(3, 2);
    let v = u8s();
    step_limit(400_000_000);
    let out = draw(2, &img, (1, b), a, b, Luma([v]));
    check(at(&out, 1, 0) == v, "ellipses with radii beyond 46340 are drawn");
}
fn bez(a: (f32, f32), b: (f32, f32), c: (f32, f32), d: (f32, f32)) { bez_n(a, b, c, d, 64) }
fn bez_n(a: (f32, f32), b: (f32, f32), c: (f32, f32), d: (f32, f32), n: u32) {
    let mut r = Rec::new(2000, 2000);
    draw_cubic_bezier_curve_mut(&mut r, a, b, c, d, C);
    check(r.ok, "a curve is drawn in its colour");
    let f = |v: f32| v.round() as i32;
    let (mut s, mut e, mut hull) = (false, false, true);
    let lo = |p: f32, q: f32, r: f32, s: f32| f(p.min(q).min(r).min(s));
    let hi = |p: f32, q: f32, r: f32, s: f32| f(p.max(q).max(r).max(s));
    let (x0, x1, y0, y1) = (lo(a.0, b.0, c.0, d.0), hi(a.0, b.0, c.0, d.0), lo(a.1, b.1, c.1, d.1), hi(a.1, b.1, c.1, d.1));
    for p in &r.p {
        s |= *p == (f(a.0), f(a.1)); e |= *p == (f(b.0), f(b.1));
        hull &= p.0 >= x0 && p.0 <= x1 && p.1 >= y0 && p.1 <= y1;
    }
    check(s && e, "a curve joins its end points");
    check(hull, "a curve stays within the box of its control points");
    // each pixel is near the polynomial
    let pt = |t: f32| { let m = 1.0 - t; let w = [m * m * m, 3.0 * m * m * t, 3.0 * m * t * t, t * t * t]; (a.0 * w[0] + c.0 * w[1] + d.0 * w[2] + b.0 * w[3], a.1 * w[0] + c.1 * w[1] + d.1 * w[2] + b.1 * w[3]) };
    let mut curve = vec![];
    for i in 0..=n { curve.push(pt(i as f32 / n as f32)) }
    let mut near = true;
    for p in &r.p { let mut m = false; for q in &curve { m |= (p.0 as f32 - q.0).abs() <= 1.75 && (p.1 as f32 - q.1).abs() <= 1.75 } near &= m }
    check(near, "every pixel is near the curve");
    let mut cover = true;
    for q in &curve { let mut m = false; for p in &r.p { m |= (p.0 as f32 - q.0).abs() <= 1.75 && (p.1 as f32 - q.1).abs() <= 1.75 } cover &= m }
    check(cover, "every part of the curve is drawn");
}
#[no_mangle] pub extern "C" fn q_bezier() {
    forking();
    let x = range(0, 15) as f32 * 2.0 + 100.0;
    let k = pick(0, 3);
    let (c, d) = [((110., 90.), (120., 140.)), ((100., 100.), (100., 100.)), ((140., 130.), (90., 95.)), ((104.5, 119.25), (112.75, 101.5))][pick(0, 3) as usize];
    match k { 0 => bez((x, 110.), (115., 105.), c, d), 1 => bez((104., x), (121., 118.), c, d), 2 => bez((100., 100.), (x, x), c, d), _ => bez((101.25, 120.), (130., 99.25), (x, c.1), d) }
}
#[no_mangle] pub extern "C" fn q_bezier_point() {
    forking();
    let x = range(0, 127) as f32 + [0.0, 0.25, -0.25][pick(0, 2) as usize] + 10.0;
    let mut r = Rec::new(2000, 2000);
    draw_cubic_bezier_curve_mut(&mut r, (x, 20.), (x, 20.), (x, 20.), (x, 20.), C);
    check(!r.p.is_empty() && r.p.iter().all(|p| *p == (x.round() as i32, 20)), "a curve of one point is that point");
}
/// larger radii and longer curves
#[no_mangle] pub extern "C" fn q_large_circle() { merging(false); step_limit(400_000_000); let r = [17, 31, 50, 66][pick(0, 3) as usize]; shape((300 + bits(1) as i32, 300), r, r, true) }
#[no_mangle] pub extern "C" fn q_large_ellipse() { merging(false); step_limit(400_000_000); let (a, b) = [(40, 15), (15, 40), (70, 3), (2, 66), (33, 32)][pick(0, 4) as usize]; shape((300, 300 + bits(1) as i32), a, b, false) }
#[no_mangle] pub extern "C" fn q_large_clip() {
    merging(false);
    let (w, h) = [(37u32, 23u32), (70, 9), (9, 70)][pick(0, 2) as usize];
    let img = big(w, h, 47, 2);
    let v = u8s();
    let (a, b) = [(20, 20), (40, 10), (5, 33)][pick(0, 2) as usize];
    let c = [(w as i32 / 2, h as i32 / 2), (-4, 3), (w as i32 + 2, h as i32 - 1)][pick(0, 2) as usize];
    let k = pick(0, 3);
    let out = draw(k, &img, c, a, b, Luma([v]));
    let r = record(k, (500, 500), a, b);
    let mut e = img.clone();
    for p in &r.p { let (x, y) = (p.0 - 500 + c.0, p.1 - 500 + c.1); if x >= 0 && y >= 0 && x < w as i32 && y < h as i32 { e.put_pixel(x as u32, y as u32, Luma([v])) } }
    check(out.dimensions() == (w, h) && same(out.as_raw(), e.as_raw()), "exactly the part of the shape inside the image is coloured");
}
#[no_mangle] pub extern "C" fn q_large_bezier() {
    forking();
    step_limit(400_000_000);
    let x = range(0, 1) as f32;
    match pick(0, 3) {
        0 => bez_n((100. + x, 110.), (500., 130.), (200., 400.), (350., 90.), 1200),
        1 => bez_n((300., 100.), (300. + x, 600.), (900., 200.), (100., 300.), 1500),
        2 => bez_n((100., 100.), (101., 100. + x), (400., 100.), (100., 400.), 1000),
        _ => bez_n((700., 700.), (100., 120. + x), (500., 500.), (300., 310.), 1200),
    }
}
