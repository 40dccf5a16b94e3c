//! Line segments.
use crate::sym::*;
use image::{GenericImage, GenericImageView, GrayImage, Luma, Rgba};
use imageproc::drawing::*;

type P = (f32, f32);
fn collect(a: P, b: P) -> Vec<(i32, i32)> { BresenhamLineIter::new(a, b).collect() }
/// start + (dx, dy) for integer points: the ideal line, within half a pixel, connected, both ends
fn judge_integer(s: (i32, i32), dx: i32, dy: i32) {
    let a = (s.0 as f32, s.1 as f32);
    let b = ((s.0 + dx) as f32, (s.1 + dy) as f32);
    let l = collect(a, b);
    let n = dx.abs().max(dy.abs());
    check(l.len() as i32 == n + 1, "one pixel for each step along the longer side");
    if l.len() as i32 != n + 1 { return }
    let steep = dy.abs() > dx.abs();
    let first = l[0] == s || l[0] == (s.0 + dx, s.1 + dy);
    let e = l[n as usize];
    check(first && (e == s || e == (s.0 + dx, s.1 + dy)) && (n == 0 || l[0] != e), "a line joins its two end points");
    let mut joined = true; let mut near = true;
    for i in 0..l.len() {
        let (x, y) = (l[i].0 - s.0, l[i].1 - s.1);
        if i > 0 {
            let (u, v) = (l[i].0 - l[i - 1].0, l[i].1 - l[i - 1].1);
            joined &= if steep { v == 1 && u.abs() <= 1 } else { u == 1 && v.abs() <= 1 };
        }
        // distance from the ideal line along the minor axis, times 2n
        near &= (2 * (x * dy - y * dx)).abs() <= n;
        near &= x.abs() <= dx.abs() && y.abs() <= dy.abs() && x * dx >= 0 && y * dy >= 0;
    }
    check(joined, "consecutive pixels are neighbours, one step along the longer side each");
    check(near, "every pixel is within half a pixel of the ideal line");
    check(collect(b, a) == l, "a line is the same in both directions");
}
#[no_mangle] pub extern "C" fn q_iter_shapes() {
    merging(false);
    let (dx, dy) = (pick(-8, 8) as i32, pick(-8, 8) as i32);
    judge_integer((range(-512, 511) as i32, [0, -3, 7][pick(0, 2) as usize]), dx, dy);
}
#[no_mangle] pub extern "C" fn q_iter_position() {
    merging(false);
    let (dx, dy) = [(5, 3), (-4, 6), (7, -2), (-3, -5), (0, 4), (6, 0), (0, 0), (4, 4)][pick(0, 7) as usize];
    judge_integer((pick(-2, 2) as i32, range(-2048, 2047) as i32), dx, dy);
}
#[no_mangle] pub extern "C" fn q_iter_long() {
    merging(false);
    let (dx, dy) = (40, range(0, 40) as i32);
    let f = [(1, 1), (1, -1), (-1, 1), (-1, -1)][pick(0, 3) as usize];
    judge_integer((3, -2), dx * f.0, dy * f.1);
}
/// end points off the grid
#[no_mangle] pub extern "C" fn q_iter_fraction() {
    merging(false);
    let x0 = range(-64, 63) as i32;
    let a = (x0 as f32 * 0.25, [0.0, 1.75, -2.25][pick(0, 2) as usize]);
    let (b0, b1) = [(3.5, 1.0), (-4.75, 2.5), (0.25, -7.5), (2.0, 9.0)][pick(0, 3) as usize];
    let b: P = (b0, b1);
    let l = collect(a, b);
    let steep = (b.1 - a.1).abs() > (b.0 - a.0).abs();
    let (m0, m1, s0, s1) = if steep { (a.1, b.1, a.0, b.0) } else { (a.0, b.0, a.1, b.1) };
    let (lo, hi) = if m0 <= m1 { (m0, m1) } else { (m1, m0) };
    check(l.len() as i32 == hi as i32 - lo as i32 + 1, "covers the integer coordinates between the end points");
    let slope = if m1 == m0 { 0.0 } else { (s1 - s0) / (m1 - m0) };
    let mut ok = true; let mut near = true;
    for (i, p) in l.iter().enumerate() {
        let (m, s) = if steep { (p.1, p.0) } else { (p.0, p.1) };
        ok &= m == lo as i32 + i as i32;
        near &= (s as f32 - (s0 + (m as f32 - m0) * slope)).abs() < 2.0;
    }
    check(ok, "one pixel for each coordinate in order");
    check(near, "pixels stay close to the line");
}
/// coordinates at the limits of i32 end
#[no_mangle] pub extern "C" fn q_iter_limits() {
    merging(false);
    let e = i32::MAX as f32;
    let (a, b): (P, P) = [((e, 0.), (e, 0.)), ((e, e), (e, e)), ((-e, 2.), (-e, 2.)), ((4., e), (4., e)), ((1., -e), (1., -e)), ((e - 1000., 3.), (e, 3.)), ((1., e), (1., e - 300.))][pick(0, 6) as usize];
    let l = collect(a, b);
    check(!l.is_empty() && l.len() < 2000, "a line at the limits of the coordinates ends");
    let img = gray(2, 2);
    let out = draw_line_segment(&img, a, b, Luma([u8s()]));
    check(same(out.as_raw(), img.as_raw()), "nothing is drawn from far away");
}
fn line_draws(w: u32, h: u32, a: P, b: P) {
    let img = gray(w, h);
    let c = u8s();
    let out = draw_line_segment(&img, a, b, Luma([c]));
    check(out.dimensions() == (w, h), "dimensions");
    let l = collect(a, b);
    let mut ok = true;
    for y in 0..h { for x in 0..w {
        let mut on = false;
        for p in &l { on |= *p == (x as i32, y as i32) }
        ok &= at(&out, x, y) == if on { c } else { at(&img, x, y) };
    } }
    check(ok, "exactly the line's pixels inside the image are coloured");
    let mut m = img.clone();
    draw_line_segment_mut(&mut m, a, b, Luma([c]));
    check(same(m.as_raw(), out.as_raw()), "in place and copying agree");
}
#[no_mangle] pub extern "C" fn q_draw() {
    merging(false);
    let (w, h) = [(4u32, 3u32), (1, 1), (0, 2), (2, 5)][pick(0, 3) as usize];
    let a = (pick(-2, 4) as f32, pick(-2, 3) as f32);
    let b = (pick(-2, 5) as f32, pick(-1, 4) as f32);
    line_draws(w, h, a, b)
}
#[no_mangle] pub extern "C" fn q_draw_anywhere() {
    forking();
    let (dx, dy) = [(3, 1), (-2, 4), (5, -3), (-1, -1)][pick(0, 3) as usize];
    let (x, y) = (range(-1000, 1000) as i32, pick(-4, 4) as i32);
    line_draws(3, 3, (x as f32, y as f32), ((x + dx) as f32, (y + dy) as f32))
}
fn clamp(p: P, w: u32, h: u32) -> P { (p.0.max(0.0).min((w - 1) as f32), p.1.max(0.0).min((h - 1) as f32)) }
/// the pixel iterators visit the pixels of the line between the clamped end points
#[no_mangle] pub extern "C" fn q_pixels() {
    merging(false);
    let (w, h) = [(4u32, 3u32), (1, 1), (2, 5), (0, 2), (3, 0)][pick(0, 4) as usize];
    let mut img = gray(w, h);
    let a = (pick(-2, 4) as f32, pick(-2, 3) as f32);
    let b = (pick(-2, 5) as f32, pick(-1, 4) as f32);
    if w == 0 || h == 0 { expect_panic(true); let n = BresenhamLinePixelIter::new(&img, a, b).count(); observe(n as u64); check(false, "empty images are refused"); return }
    let l = collect(clamp(a, w, h), clamp(b, w, h));
    let r: Vec<u8> = BresenhamLinePixelIter::new(&img, a, b).map(|p| p[0]).collect();
    let mut ok = r.len() == l.len();
    for (p, q) in l.iter().zip(&r) { ok &= p.0 >= 0 && p.1 >= 0 && (p.0 as u32) < w && (p.1 as u32) < h && at(&img, p.0 as u32, p.1 as u32) == *q }
    check(ok, "the pixel iterator yields the pixels of the line in order");
    let before = img.clone();
    let c = u8s();
    for p in BresenhamLinePixelIterMut::new(&mut img, a, b) { *p = Luma([c.wrapping_add(p[0])]) }
    let mut e = before.clone();
    for p in &l { let v = at(&e, p.0 as u32, p.1 as u32); e.put_pixel(p.0 as u32, p.1 as u32, Luma([v.wrapping_add(c)])) }
    check(same(img.as_raw(), e.as_raw()), "the mutable iterator yields each of them once");
}
/// any coordinates, including NaN and infinities
#[no_mangle] pub extern "C" fn q_pixels_any() {
    merging(false);
    let img = gray(3, 2);
    let v = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e30, -1e30, 0.5, 1.0][pick(0, 6) as usize];
    let u = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 2.5, 0.0][pick(0, 4) as usize];
    let (a, b) = if pick(0, 1) == 0 { ((v, u), (1.0, 1.0)) } else { ((0.0, u), (v, 0.5)) };
    let n = BresenhamLinePixelIter::new(&img, a, b).count();
    check(n <= 3, "no more pixels than the image is wide");
}
/// a surface that records what is blended where
struct Rec { w: u32, h: u32, v: Vec<f32> }
impl GenericImageView for Rec {
    type Pixel = Luma<f32>;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<f32> { Luma([self.v[(y * self.w + x) as usize]]) }
}
#[allow(deprecated)]
impl GenericImage for Rec {
    fn get_pixel_mut(&mut self, _: u32, _: u32) -> &mut Luma<f32> { panic!() }
    fn put_pixel(&mut self, x: u32, y: u32, p: Luma<f32>) { self.v[(y * self.w + x) as usize] = p[0] }
    fn blend_pixel(&mut self, _: u32, _: u32, _: Luma<f32>) { panic!() }
}
fn smooth(w: u32, h: u32, a: (i32, i32), b: (i32, i32)) {
    let v = |x: u32, y: u32| (10 * (y * w + x)) as f32;
    let mut r = Rec { w, h, v: vec![] };
    for y in 0..h { for x in 0..w { r.v.push(v(x, y)) } }
    let colour = std::cell::Cell::new(true);
    draw_antialiased_line_segment_mut(&mut r, a, b, Luma([0.5]), |l: Luma<f32>, o: Luma<f32>, k: f32| { colour.set(colour.get() & (l[0] == 0.5) & (k >= 0.0) & (k <= 1.0)); Luma([o[0] + k]) });
    check(colour.get(), "the blend receives the line's colour and a weight between 0 and 1");
    let steep = (b.1 - a.1).abs() > (b.0 - a.0).abs();
    let t = |p: (i32, i32)| if steep { (p.1, p.0) } else { p };
    let (p, q) = (t(a), t(b));
    let (p, q) = if p.0 <= q.0 { (p, q) } else { (q, p) };
    let mut ok = true;
    for y in 0..h { for x in 0..w {
        let (m, s) = t((x as i32, y as i32));
        let e = if m < p.0 || m > q.0 { 0.0 } else if p == q { if s == p.1 { 1.0 } else { 0.0 } } else {
            let ideal = p.1 as f32 + (q.1 - p.1) as f32 * (m - p.0) as f32 / (q.0 - p.0) as f32;
            (1.0 - (s as f32 - ideal).abs()).max(0.0)
        };
        if p == q { continue } // a point has no direction: see q_smooth_point
        ok &= (r.v[(y * w + x) as usize] - v(x, y) - e).abs() < 1e-3;
    } }
    check(ok, "each pixel is weighted by its closeness to the ideal line");
}
#[no_mangle] pub extern "C" fn q_smooth() {
    merging(false);
    let a = ([-4, 0, 3][pick(0, 2) as usize], range(-8, 7) as i32);
    let b = ([-3, 1, 3, 6][pick(0, 3) as usize], pick(-2, 4) as i32);
    smooth(4, 4, a, b);
}
#[no_mangle] pub extern "C" fn q_smooth_long() {
    merging(false);
    let a = (0, range(-20, 20) as i32);
    let b = ([17, -9][pick(0, 1) as usize], [3, -5, 0][pick(0, 2) as usize]);
    if pick(0, 1) == 0 { smooth(3, 3, a, b) } else { smooth(3, 3, (a.1, a.0), (b.1, b.0)) }
}
#[no_mangle] pub extern "C" fn q_smooth_point() {
    merging(false);
    let img = gray(3, 3);
    let (x, y, c) = (pick(-1, 3) as i32, pick(-1, 3) as i32, u8s());
    let out = draw_antialiased_line_segment(&img, (x, y), (x, y), Luma([c]), |l: Luma<u8>, o: Luma<u8>, k: f32| if k > 0.5 { l } else { o });
    let mut ok = true;
    for j in 0..3 { for i in 0..3 { ok &= at(&out, i, j) == if (i as i32, j as i32) == (x, y) { c } else { at(&img, i, j) } } }
    check(ok, "a line of one point colours that point");
}
/// horizontal, vertical and diagonal lines need no smoothing
#[no_mangle] pub extern "C" fn q_smooth_exact() {
    merging(false);
    let img = gray(4, 4);
    let c = u8s();
    let (x, y, n) = (pick(-2, 3) as i32, pick(-2, 3) as i32, pick(1, 4) as i32);
    let (u, v) = [(1, 0), (0, 1), (1, 1), (-1, 1), (-1, 0), (0, -1), (-1, -1), (1, -1)][pick(0, 7) as usize];
    let f = |l: Luma<u8>, o: Luma<u8>, k: f32| if k == 1.0 { l } else if k == 0.0 { o } else { Luma([l[0] ^ 1]) };
    let out = draw_antialiased_line_segment(&img, (x, y), (x + n * u, y + n * v), Luma([c]), f);
    let mut ok = true;
    for j in 0..4 { for i in 0..4 {
        let mut on = false;
        for k in 0..=n { on |= (x + k * u, y + k * v) == (i, j) }
        ok &= at(&out, i as u32, j as u32) == if on { c } else { at(&img, i as u32, j as u32) };
    } }
    check(ok, "axis-parallel and diagonal lines are drawn plainly");
    let _ = Rgba([0u8; 4]); let _: Option<GrayImage> = None;
}
/// long lines
#[no_mangle] pub extern "C" fn q_large_iter() {
    merging(false);
    let n = [100, 300, 1000][pick(0, 2) as usize];
    let m = [0, 1, n / 3, n / 2 + 1, n - 1, n][pick(0, 5) as usize];
    let f = [(1, 1), (1, -1), (-1, 1), (-1, -1)][pick(0, 3) as usize];
    let s = ([-5i32, 700][pick(0, 1) as usize], 3 + bits(1) as i32);
    if pick(0, 1) == 0 { judge_integer(s, n * f.0, m * f.1) } else { judge_integer(s, m * f.0, n * f.1) }
}
#[no_mangle] pub extern "C" fn q_large_draw() {
    merging(false);
    let (w, h) = large();
    let img = big(w, h, 43, 2);
    let c = u8s();
    let (x, y) = (w as f32, h as f32);
    let (a, b) = [((0., 0.), (x - 1., y - 1.)), ((-3., y + 4.), (x + 20., -7.)), ((x / 2., -40.), (x / 3., y + 90.)), ((x + 70., 1.), (-80., y - 2.))][pick(0, 3) as usize];
    let out = draw_line_segment(&img, a, b, Luma([c]));
    let l = collect(a, b);
    let mut e = img.clone();
    for p in &l { if p.0 >= 0 && p.1 >= 0 && p.0 < w as i32 && p.1 < h as i32 { e.put_pixel(p.0 as u32, p.1 as u32, Luma([c])) } }
    check(out.dimensions() == (w, h) && same(out.as_raw(), e.as_raw()), "exactly the line's pixels inside the image are coloured");
    let l = collect(clamp(a, w, h), clamp(b, w, h));
    let r: Vec<u8> = BresenhamLinePixelIter::new(&img, a, b).map(|p| p[0]).collect();
    let mut ok = r.len() == l.len();
    for (p, q) in l.iter().zip(&r) { ok &= p.0 >= 0 && p.1 >= 0 && (p.0 as u32) < w && (p.1 as u32) < h && at(&img, p.0 as u32, p.1 as u32) == *q }
    check(ok, "the pixel iterator yields the pixels of the line in order");
}
#[no_mangle] pub extern "C" fn q_large_smooth() {
    merging(false);
    let (w, h) = [(70u32, 40u32), (9, 130)][pick(0, 1) as usize];
    let (x, y) = (w as i32, h as i32);
    let (a, b) = [((0, 0), (x - 1, y - 1)), ((-30, y), (x + 20, 3)), ((x / 2, -4), (x / 3, y + 9)), ((x + 70, 1), (-80, y - 2))][pick(0, 3) as usize];
    smooth(w, h, (a.0, a.1 + range(0, 1) as i32), b)
}
