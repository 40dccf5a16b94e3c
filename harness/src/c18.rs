//! FAST corners.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::corners::*;

const CIRCLE: [(i32, i32); 16] = [(0, -3), (1, -3), (2, -2), (3, -1), (3, 0), (3, 1), (2, 2), (1, 3), (0, 3), (-1, 3), (-2, 2), (-3, 1), (-3, 0), (-3, -1), (-2, -2), (-1, -3)];
/// some `len` consecutive circle pixels are all brighter than centre + t or all darker than centre - t
fn corner(img: &GrayImage, x: u32, y: u32, t: i32, len: usize) -> bool {
    let (w, h) = img.dimensions();
    if x < 3 || y < 3 || x + 3 >= w || y + 3 >= h { return false }
    let c = at(img, x, y) as i32;
    let mut up = [false; 16]; let mut down = [false; 16];
    for (i, (dx, dy)) in CIRCLE.iter().enumerate() {
        let p = at(img, (x as i32 + dx) as u32, (y as i32 + dy) as u32) as i32;
        up[i] = p > c + t; down[i] = p < c - t;
    }
    let mut r = false;
    for s in 0..16 {
        let (mut a, mut b) = (true, true);
        for k in 0..len { a &= up[(s + k) % 16]; b &= down[(s + k) % 16] }
        r |= a | b;
    }
    r
}
fn detect(img: &GrayImage, t: u8, len: usize) -> Vec<Corner> { if len == 9 { corners_fast9(img, t) } else { corners_fast12(img, t) } }
fn variant(len: usize) -> Fast { if len == 9 { Fast::Nine } else { Fast::Twelve } }
/// every assignment of darker, equal and brighter to the circle, at the exact threshold
fn detection(len: usize) {
    let (c, t) = [(100u8, 10u8), (0, 0), (1, 254), (200, 30)][pick(0, 3) as usize];
    let mut img = GrayImage::from_pixel(7, 7, Luma([c]));
    for (dx, dy) in CIRCLE {
        let k = bits(2);
        let v = if k == 0 { c.saturating_sub(t).saturating_sub(1) } else if k == 1 { c.saturating_add(t).saturating_add(1) } else if k == 2 { c.saturating_add(t) } else { c.saturating_sub(t) };
        img.put_pixel((3 + dx) as u32, (3 + dy) as u32, Luma([v]));
    }
    lockstep_strict();
    let found = detect(&img, t, len);
    lockstep();
    let want = corner(&img, 3, 3, t as i32, len);
    check(found.len() == want as usize, "a corner is reported exactly for a long enough uniform arc");
    if !found.is_empty() { check(found[0].x == 3 && found[0].y == 3, "corner position") }
    cover(want, "corner");
    cover(!want, "no corner");
}
#[no_mangle] pub extern "C" fn q_detect9() { detection(9) }
#[no_mangle] pub extern "C" fn q_detect12() { detection(12) }
/// one of centre, arc and rest arbitrary
fn score(len: usize) {
    forking();
    let any = u8s();
    let (c, v, rest) = match pick(0, 4) { 0 => (any, 90, 90), 1 => (100, any, 100), 2 => (30, any, 80), 3 => (120, 255, any), _ => (any, 0, 60) };
    let mut img = GrayImage::from_pixel(7, 7, Luma([rest]));
    img.put_pixel(3, 3, Luma([c]));
    let start = [0, 11][pick(0, 1) as usize];
    let arc = [len, 15][pick(0, 1) as usize];
    for k in 0..arc { let (dx, dy) = CIRCLE[(start + k) % 16]; img.put_pixel((3 + dx) as u32, (3 + dy) as u32, Luma([v])) }
    let t = [0u8, 20][pick(0, 1) as usize];
    let found = detect(&img, t, len);
    if found.is_empty() { check(!corner(&img, 3, 3, t as i32, len), "no corner"); return }
    let s = found[0].score;
    let n = s as i32;
    check(s == n as f32 && n >= t as i32 && n <= 255, "score: a level of at least the threshold");
    check(corner(&img, 3, 3, n, len) && !corner(&img, 3, 3, n + 1, len), "score: greatest threshold for which this is a corner");
    check(fast_corner_score(&img, t, 3, 3, variant(len)) as i32 == n, "fast_corner_score agrees");
}
/// corners of larger images: every interior position, raster order, none near the border
#[no_mangle] pub extern "C" fn q_positions() {
    lockstep_strict();
    let (w, h) = [(7, 9), (9, 8), (6, 20), (7, 6), (3, 3), (0, 5), (5, 0), (8, 7)][pick(0, 7) as usize];
    let mut img = GrayImage::from_pixel(w, h, Luma([50]));
    let dots = [(3u32, 3u32), (4, 4), (3, 5), (5, 3), (2, 3), (3, 2), (4, 3)];
    for (x, y) in dots { if x < w && y < h { let v = if pick(0, 1) == 1 { 200 } else { 50 }; img.put_pixel(x, y, Luma([v])) } }
    if w == 0 || h == 0 { check(corners_fast9(&img, 9).is_empty() && corners_fast12(&img, 9).is_empty(), "empty images"); return }
    for len in [9usize, 12] {
        let found = detect(&img, 40, len);
        let mut k = 0;
        let mut ok = true;
        for y in 0..h { for x in 0..w { if corner(&img, x, y, 40, len) { ok &= k < found.len() && found[k].x == x && found[k].y == y; k += 1 } } }
        check(ok && k == found.len(), "all corners of the image are found");
    }
}
#[no_mangle] pub extern "C" fn q_score9() { score(9) }
#[no_mangle] pub extern "C" fn q_score12() { score(12) }
/// direction of the intensity centroid of the 31x31 patch around a pixel, clipped to the image
fn orientation(img: &GrayImage, x: u32, y: u32) -> f32 {
    let (mut mx, mut my) = (0i32, 0i32);
    for v in 0..img.height() { for u in 0..img.width() {
        if u.abs_diff(x) <= 15 && v.abs_diff(y) <= 15 {
            let p = at(img, u, v) as i32;
            mx = mx.wrapping_add((u as i32 - x as i32).wrapping_mul(p));
            my = my.wrapping_add((v as i32 - y as i32).wrapping_mul(p));
        }
    } }
    -((my.wrapping_neg()) as f32).atan2(mx as f32)
}
fn oriented(img: &GrayImage, t: u8, n: usize, edge: u32, found: &[OrientedFastCorner]) {
    let (w, h) = img.dimensions();
    let mut all = vec![];
    for y in 0..h { for x in 0..w { if x >= edge && y >= edge && x + edge < w && y + edge < h && corner(img, x, y, t as i32, 9) { all.push((x, y, fast_corner_score(img, t, x, y, Fast::Nine) as f32)) } } }
    check(found.len() == n.min(all.len()), "oriented_fast: as many corners as asked for, if there are");
    let mut ok = true;
    for (k, f) in found.iter().enumerate() {
        ok &= all.iter().any(|a| a.0 == f.corner.x && a.1 == f.corner.y && a.2 == f.corner.score);
        ok &= found[..k].iter().all(|g| (g.corner.x, g.corner.y) != (f.corner.x, f.corner.y) && g.corner.score >= f.corner.score);
    }
    for a in &all {
        let taken = found.iter().any(|f| f.corner.x == a.0 && f.corner.y == a.1);
        ok &= taken || found.iter().all(|f| f.corner.score >= a.2);
    }
    check(ok, "oriented_fast: the corners with the highest scores");
    let mut dir = true;
    for f in found { dir &= f.orientation.to_bits() == orientation(img, f.corner.x, f.corner.y).to_bits() }
    check(dir, "oriented_fast: orientation of the intensity centroid");
}
#[no_mangle] pub extern "C" fn q_oriented() {
    forking();
    let (w, h) = [(9, 8), (8, 10)][pick(0, 1) as usize];
    let mut img = GrayImage::from_fn(w, h, |x, y| Luma([40 + ((x * 3 + y * 5) % 7) as u8]));
    img.put_pixel(3, 3, Luma([200]));
    img.put_pixel(w - 4, h - 4, Luma([150]));
    let (x, y) = [(3, 3), (0, 0), (w - 1, 2), (4, 4), (1, h - 1)][pick(0, 4) as usize];
    img.put_pixel(x, y, Luma([u8s()]));
    let (n, edge) = ([0usize, 1, 2, 5][pick(0, 3) as usize], [0u32, 3, 4, 5, 9, u32::MAX][pick(0, 5) as usize]);
    if (edge > 3 && (x, y) != (4, 4)) || (edge == 0 && x > 0) || (n != 1 && (x, y) != (0, 0) && (x, y) != (3, 3)) { return }
    oriented(&img, 30, n, edge, &oriented_fast(&img, Some(30), n, edge, None));
}
/// patches cut off by the image border on any side
#[no_mangle] pub extern "C" fn q_centroid() {
    forking();
    let (w, h) = (34u32, 36u32);
    let (x, y) = [(3, 3), (30, 4), (16, 32), (14, 17), (17, 15)][pick(0, 4) as usize];
    let mut img = GrayImage::from_pixel(w, h, Luma([10]));
    img.put_pixel(x, y, Luma([90]));
    let (a, b) = [(0u32, 0u32), (33, 0), (5, 35), (33, 33), (1, 16), (32, 17), (18, 2)][pick(0, 6) as usize];
    img.put_pixel(a, b, Luma([u8s()]));
    let found = oriented_fast(&img, Some(50), 1, 3, None);
    check(found.len() == 1, "oriented_fast: the brightest corner");
    let f = &found[0];
    check(f.orientation.to_bits() == orientation(&img, f.corner.x, f.corner.y).to_bits(), "oriented_fast: centroid of a clipped patch");
}
/// threshold chosen from sampled pixels
#[no_mangle] pub extern "C" fn q_sampled() {
    forking();
    let (w, h) = [(7, 7), (8, 9), (7, 40)][pick(0, 2) as usize];
    let mut img = GrayImage::from_fn(w, h, |x, y| Luma([40 + ((x * 3 + y * 5) % 7) as u8]));
    img.put_pixel(3, 3, Luma([[200, 40, 0][pick(0, 2) as usize]]));
    let (n, edge) = ([0usize, 1, 60, 100_000][pick(0, 3) as usize], [0u32, 3, 4][pick(0, 2) as usize]);
    let found = oriented_fast(&img, None, n, edge, Some(7));
    check(found.len() <= n, "oriented_fast: at most as many corners as asked for");
    let mut ok = true;
    for f in &found { ok &= corner(&img, f.corner.x, f.corner.y, f.corner.score as i32, 9); ok &= f.corner.x >= edge && f.corner.x + edge < w && f.corner.y >= edge && f.corner.y + edge < h }
    check(ok, "oriented_fast: reported corners are corners away from the border");
}
/// larger images: noise and blobs; one pixel arbitrary
#[no_mangle] pub extern "C" fn q_large() {
    forking();
    let (w, h) = [(37u32, 23u32), (70, 8), (8, 70)][pick(0, 2) as usize];
    let k = pick(0, 1);
    let mut img = big(w, h, 19, 0);
    for y in 0..h { for x in 0..w { let v = at(&img, x, y); img[(x, y)][0] = if k == 0 { v } else if (x / 5 + y / 4) % 3 == 0 { 150 + v / 8 } else { 60 + v / 8 } } }
    img[(w / 2, h / 2)][0] = [0u8, 252][pick(0, 1) as usize] + bits(2) as u8;
    let t = [5u8, 40][pick(0, 1) as usize];
    for len in [9usize, 12] {
        let found = detect(&img, t, len);
        let (mut k, mut ok) = (0, true);
        for y in 0..h { for x in 0..w { if corner(&img, x, y, t as i32, len) {
            ok &= k < found.len() && found[k].x == x && found[k].y == y;
            if ok { let n = found[k].score as i32; ok &= n >= t as i32 && corner(&img, x, y, n, len) && !corner(&img, x, y, n + 1, len) }
            k += 1
        } } }
        check(ok && k == found.len(), "all corners of a large image with their scores");
    }
    oriented(&img, t, 6, 5, &oriented_fast(&img, Some(t), 6, 5, None));
}
