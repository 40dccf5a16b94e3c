//! Non-maximum suppression.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::definitions::{Position, Score};
use imageproc::suppress::{local_maxima, suppress_non_maximum};

fn expected(img: &GrayImage, r: u32) -> Vec<u8> {
    let (w, h) = img.dimensions();
    let mut out = vec![];
    for y in 0..h { for x in 0..w {
        let v = at(img, x, y);
        let mut keep = true;
        for b in 0..h { for a in 0..w {
            if a.abs_diff(x) <= r && b.abs_diff(y) <= r && (a, b) != (x, y) {
                let u = at(img, a, b);
                keep &= !(u > v || (u == v && (a, b) < (x, y)));
            }
        } }
        out.push(if keep { v } else { 0 });
    } }
    out
}
fn grid(w: u32, h: u32, r: u32, img: GrayImage) {
    let out = suppress_non_maximum(&img, r);
    check(out.dimensions() == (w, h), "suppression: dimensions");
    check(same(out.as_raw(), &expected(&img, r)), "suppression keeps exactly the block maxima");
}
#[no_mangle] pub extern "C" fn q_grid() {
    forking();
    let (w, h) = [(0, 3), (3, 0), (1, 1), (3, 1), (1, 4), (2, 2), (4, 1)][pick(0, 6) as usize];
    grid(w, h, pick(0, 3) as u32, gray(w, h))
}
#[no_mangle] pub extern "C" fn q_ties() {
    let (w, h) = [(3, 3), (4, 3), (3, 4)][pick(0, 2) as usize];
    forking();
    let img = GrayImage::from_raw(w, h, (0..w * h).map(|_| if split(bools()) { 7 } else { 3 }).collect()).unwrap();
    grid(w, h, pick(1, 2) as u32, img)
}
#[no_mangle] pub extern "C" fn t_ties() {
    let (w, h) = [(4, 4), (5, 3), (7, 2)][pick(0, 2) as usize];
    forking();
    let img = GrayImage::from_raw(w, h, (0..w * h).map(|_| if split(bools()) { 7 } else { 3 }).collect()).unwrap();
    grid(w, h, pick(1, 3) as u32, img)
}
#[no_mangle] pub extern "C" fn t_grid() { forking(); grid(3, 2, 1, gray_bits(3, 2, 2)) }
/// three bright pixels anywhere in a larger image
#[no_mangle] pub extern "C" fn q_sparse() {
    let (w, h) = (7u32, 5u32);
    let mut img = GrayImage::from_pixel(w, h, Luma([1]));
    forking();
    let (x, y) = (pick(0, 6) as u32, pick(0, 4) as u32);
    img.put_pixel(3, 2, Luma([u8s()]));
    img.put_pixel(x, y, Luma([u8s()]));
    grid(w, h, pick(1, 2) as u32, img)
}
#[no_mangle] pub extern "C" fn q_extreme_radius() {
    let r = [u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32, u32::MAX - 3][pick(0, 4) as usize];
    forking();
    let (w, h) = [(2, 2), (1, 3), (3, 1)][pick(0, 2) as usize];
    grid(w, h, r, gray(w, h))
}
#[derive(Clone, Copy)] struct Spot { id: u32, x: u32, y: u32, s: f32 }
impl Position for Spot { fn x(&self) -> u32 { self.x } fn y(&self) -> u32 { self.y } }
impl Score for Spot { fn score(&self) -> f32 { self.s } }
fn spots(t: &[Spot], r: u32) {
    let out = local_maxima(t, r);
    let mut ok = true;
    for (i, a) in t.iter().enumerate() {
        let mut keep = true;
        for (j, b) in t.iter().enumerate() {
            if i == j { continue }
            if a.x.abs_diff(b.x) <= r && a.y.abs_diff(b.y) <= r {
                keep &= !(b.s > a.s || (b.s == a.s && (b.y, b.x) < (a.y, a.x)));
            }
        }
        let n = out.iter().filter(|o| o.id == a.id).count();
        ok &= n == keep as usize;
    }
    check(ok, "local_maxima keeps exactly the items that are greatest in their block");
}
fn distinct(t: &[Spot]) -> bool {
    let mut d = true;
    for i in 0..t.len() { for j in 0..i { d &= t[i].x != t[j].x || t[i].y != t[j].y } }
    d
}
fn items(n: u32, side: i64) -> Vec<Spot> {
    (0..n).map(|id| Spot { id, x: pick(0, side) as u32, y: pick(0, side) as u32, s: bits(2) as f32 }).collect()
}
#[no_mangle] pub extern "C" fn q_items_2() {
    forking();
    let t = items(2, 3);
    if !distinct(&t) { return }
    spots(&t, pick(0, 3) as u32)
}
#[no_mangle] pub extern "C" fn q_items_3() {
    forking();
    let mut p = || pick(0, 2) as u32;
    let t: Vec<Spot> = [(p(), 1), (p(), p()), (1, p())].iter().enumerate().map(|(i, q)| Spot { id: i as u32, x: q.0, y: q.1, s: bits(2) as f32 }).collect();
    if !distinct(&t) { return }
    spots(&t, pick(1, 2) as u32)
}
#[no_mangle] pub extern "C" fn t_items_4() {
    forking();
    let mut p = || pick(0, 2) as u32;
    let t: Vec<Spot> = [(1, 1), (1, p()), (p(), 0), (0, p())].iter().enumerate().map(|(i, q)| Spot { id: i as u32, x: q.0, y: q.1, s: bits(2) as f32 }).collect();
    if !distinct(&t) { return }
    spots(&t, pick(1, 2) as u32)
}
/// any finite scores
#[no_mangle] pub extern "C" fn q_scores() {
    forking();
    let mut t = items(3, 1);
    for s in t.iter_mut() { s.s = f32s(); assume(s.s.is_finite()) }
    t[0].x = 0; t[0].y = 0; t[2].x = 3;
    if !distinct(&t) { return }
    spots(&t, pick(0, 2) as u32)
}
/// far apart columns and extreme radii
#[no_mangle] pub extern "C" fn q_far() {
    forking();
    let x = [0u32, 5, u32::MAX - 1, u32::MAX];
    let r = [0u32, 1, 4, 5, u32::MAX - 1, u32::MAX][pick(0, 5) as usize];
    let t: Vec<Spot> = (0..2).map(|id| Spot { id, x: x[pick(0, 3) as usize], y: pick(0, 1) as u32, s: bits(1) as f32 }).collect();
    if !distinct(&t) { return }
    spots(&t, r)
}
#[no_mangle] pub extern "C" fn q_none() { check(local_maxima::<Spot>(&[], pick(0, 2) as u32).is_empty(), "no items"); }
/// shapes beyond the usual block sizes, many ties, two pixels arbitrary
#[no_mangle] pub extern "C" fn q_large_grid() {
    forking();
    let (w, h) = [(37u32, 9u32), (70, 4), (4, 70), (130, 2), (1, 200)][pick(0, 4) as usize];
    let r = [1u32, 2, 5, 40][pick(0, 3) as usize];
    let levels = [4u8, 255][pick(0, 1) as usize];
    let mut img = big(w, h, 5, 0);
    for p in img.iter_mut() { *p = *p % levels }
    img[(w / 2, h / 2)][0] = (levels / 2 - 2) + bits(2) as u8;
    let out = suppress_non_maximum(&img, r);
    let mut ok = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let v = at(&img, x, y);
        let mut keep = true;
        for b in y.saturating_sub(r)..=(y + r).min(h - 1) { for a in x.saturating_sub(r)..=(x + r).min(w - 1) {
            if (a, b) != (x, y) { let u = at(&img, a, b); keep &= !(u > v || (u == v && (a, b) < (x, y))) }
        } }
        ok &= at(&out, x, y) == if keep { v } else { 0 };
    } }
    check(ok, "suppression keeps exactly the block maxima");
}
/// many items with many equal scores
#[no_mangle] pub extern "C" fn q_large_items() {
    forking();
    let side = [10u32, 40, 200][pick(0, 2) as usize];
    let raw = big_raw(300, 9, 0);
    let mut t: Vec<Spot> = vec![];
    for i in 0..100usize {
        let (x, y) = (raw[3 * i] as u32 % side, raw[3 * i + 1] as u32 % side);
        if t.iter().all(|s| s.x != x || s.y != y) { t.push(Spot { id: i as u32, x, y, s: (raw[3 * i + 2] % 5) as f32 }) }
    }
    t[7].s = bits(3) as f32;
    spots(&t, [1, 3, 8, 70][pick(0, 3) as usize])
}
