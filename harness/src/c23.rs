//! Polygons.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::drawing::*;
use imageproc::point::Point;

type Q = (i32, i32);
fn pts(v: &[Q]) -> Vec<Point<i32>> { v.iter().map(|p| Point::new(p.0, p.1)).collect() }
fn closed(v: &[Q]) -> Vec<(Q, Q)> {
    let mut e = vec![];
    for i in 1..v.len() { e.push((v[i - 1], v[i])) }
    if v[0] != v[v.len() - 1] { e.push((v[v.len() - 1], v[0])) }
    e
}
fn on_lines(e: &[(Q, Q)], x: i32, y: i32) -> bool {
    let mut on = false;
    for (a, b) in e { for p in BresenhamLineIter::new((a.0 as f32, a.1 as f32), (b.0 as f32, b.1 as f32)) { on |= p == (x, y) } }
    on
}
/// (strictly inside by the even-odd rule, touched by a span of the row when its ends are rounded)
fn inside(e: &[(Q, Q)], x: i32, y: i32) -> (bool, bool) {
    let (mut left, mut exact, mut near, mut left_half, mut left_half2) = (0, false, false, 0, 0);
    for (a, b) in e {
        let (a, b) = if a.1 <= b.1 { (a, b) } else { (b, a) };
        if !(a.1 <= y && y < b.1) { continue }
        // crossing at a.0 + n / d
        let (n, d) = ((y - a.1) * (b.0 - a.0), b.1 - a.1);
        let s = a.0 * d + n - x * d; // (crossing - x) * d
        if s < 0 { left += 1 } else if s == 0 { exact = true }
        if 2 * s.abs() <= d { near = true }
        if 2 * s < d { left_half += 1 }
        if 2 * s < -d { left_half2 += 1 }
    }
    (!exact && left % 2 == 1, near || left % 2 == 1 || left_half % 2 == 1 || left_half2 % 2 == 1)
}
fn judge(v: &[Q], w: u32, h: u32) -> GrayImage {
    let img = gray(w, h);
    let c = u8s();
    let out = draw_polygon(&img, &pts(v), Luma([c]));
    let e = closed(v);
    let mut m = GrayImage::new(w, h);
    draw_polygon_mut(&mut m, &pts(v), Luma([1]));
    let (mut fill, mut tight, mut plain) = (true, true, true);
    for y in 0..h { for x in 0..w {
        let on = at(&m, x, y) == 1;
        plain &= at(&out, x, y) == if on { c } else { at(&img, x, y) };
        let line = on_lines(&e, x as i32, y as i32);
        let (i, t) = inside(&e, x as i32, y as i32);
        fill &= !(line || i) || on;
        tight &= !on || line || t;
    } }
    check(plain, "drawn pixels take the colour, others are unchanged");
    check(fill, "the outline and every pixel inside the polygon are drawn");
    check(tight, "nothing further than half a pixel from the polygon is drawn");
    m
}
fn template(k: i64) -> Vec<Q> {
    match k {
        0 => vec![(1, 0), (5, 4)],
        1 => vec![(0, 0), (5, 0), (5, 4), (0, 4)],
        2 => vec![(0, 4), (2, 1), (4, 4)],
        3 => vec![(1, 1), (4, 1), (4, 3), (2, 3), (2, 4)],
        4 => vec![(-2, 2), (3, -2), (7, 2), (3, 6)],
        5 => vec![(0, 0), (4, 4), (4, 0), (0, 4)],
        _ => vec![(0, 1), (1, 1), (1, 3), (3, 3), (3, 1), (5, 1), (5, 4), (0, 4)],
    }
}
/// one more vertex, arbitrary, somewhere among those of a template
fn with_vertex(k: i64, x: i32, y: i32) -> Vec<Q> {
    let mut v = template(k);
    let i = pick(0, v.len() as i64) as usize;
    v.insert(i, (x, y));
    v
}
#[no_mangle] pub extern "C" fn q_vertex() { forking(); let v = with_vertex(pick(0, 2), [-2, 1, 3, 7][pick(0, 3) as usize], range(-4, 7) as i32); judge(&v, 6, 5); }
#[no_mangle] pub extern "C" fn q_vertex_concave() { forking(); let v = with_vertex(pick(3, 6), [2, -3][pick(0, 1) as usize], range(-4, 7) as i32); judge(&v, 6, 5); }
#[no_mangle] pub extern "C" fn q_vertex_x() { forking(); let v = with_vertex(pick(0, 6), range(-4, 11) as i32, [2, 4][pick(0, 1) as usize]); judge(&v, 6, 5); }
#[no_mangle] pub extern "C" fn q_triangle() {
    forking();
    let v = vec![(1, 0), (pick(-2, 6) as i32, pick(1, 4) as i32), ([0, 3, 5][pick(0, 2) as usize], range(-2, 5) as i32)];
    judge(&v, 5, 4);
}
/// the polygon does not depend on where its list of vertices starts, or on its direction
#[no_mangle] pub extern "C" fn q_order() {
    forking();
    let mut v = with_vertex(pick(1, 6), 2, range(-4, 7) as i32);
    let (mut a, mut b, mut c) = (GrayImage::new(6, 5), GrayImage::new(6, 5), GrayImage::new(6, 5));
    draw_polygon_mut(&mut a, &pts(&v), Luma([1]));
    let first = v[0];
    v.push(first);
    draw_polygon_mut(&mut c, &pts(&v), Luma([1]));
    check(same(a.as_raw(), c.as_raw()), "open and closed lists of vertices give the same polygon");
    v.pop();
    v.rotate_left(2);
    if pick(0, 1) == 1 { v.reverse() }
    if v[0] == v[v.len() - 1] { return }
    draw_polygon_mut(&mut b, &pts(&v), Luma([1]));
    check(same(a.as_raw(), b.as_raw()), "rotating or reversing the list of vertices changes nothing");
}
#[no_mangle] pub extern "C" fn q_empty() {
    merging(false);
    let (w, h) = [(0u32, 3u32), (4, 0), (0, 0), (1, 1)][pick(0, 3) as usize];
    let k = pick(0, 6);
    judge(&template(k), w, h);
    let img = gray(w, h);
    let out = draw_polygon(&img, &[], Luma([u8s()]));
    check(same(out.as_raw(), img.as_raw()), "no vertices, no polygon");
}
#[no_mangle] pub extern "C" fn q_outside() {
    merging(false);
    let img = gray(3, 3);
    let (dx, dy) = [(100, 0), (-100, 1), (0, 100), (1, -100), (-50, 70), (8, 0), (-9, 0), (0, -9), (0, 8)][pick(0, 8) as usize];
    let v: Vec<Q> = template(pick(0, 6)).iter().map(|p| (p.0 + dx, p.1 + dy)).collect();
    let out = draw_polygon(&img, &pts(&v), Luma([u8s()]));
    check(same(out.as_raw(), img.as_raw()), "a polygon outside the image draws nothing");
}
#[no_mangle] pub extern "C" fn q_hollow() {
    forking();
    let v = with_vertex(pick(0, 6), [2, -3][pick(0, 1) as usize], range(-4, 7) as i32);
    let f: Vec<Point<f32>> = v.iter().map(|p| Point::new(p.0 as f32, p.1 as f32)).collect();
    let mut img = gray(6, 5);
    let c = u8s();
    let out = draw_hollow_polygon(&mut img, &f, Luma([c]));
    let e = closed(&v);
    let mut ok = true;
    for y in 0..5 { for x in 0..6 { ok &= at(&out, x, y) == if on_lines(&e, x as i32, y as i32) { c } else { at(&img, x, y) } } }
    check(ok, "a hollow polygon is its closed outline");
    let mut g = f.clone();
    g.push(f[0]);
    let o2 = draw_hollow_polygon(&mut img, &g, Luma([c]));
    check(same(out.as_raw(), o2.as_raw()), "open and closed lists of vertices give the same outline");
}
#[no_mangle] pub extern "C" fn q_hollow_degenerate() {
    merging(false);
    let mut img = gray(2, 2);
    let k = pick(0, 1);
    let out = if k == 0 { draw_hollow_polygon(&mut img, &[], Luma([u8s()])) } else {
        expect_panic(true);
        let o = draw_hollow_polygon(&mut img, &[Point::new(1.0, 1.0)], Luma([u8s()]));
        check(false, "a hollow polygon of one point is refused");
        o
    };
    check(same(out.as_raw(), img.as_raw()), "no vertices, no outline");
}
/// smoothing affects only the outline
#[no_mangle] pub extern "C" fn q_smooth() {
    forking();
    let v = with_vertex(pick(1, 4), [2, -2][pick(0, 1) as usize], range(-4, 7) as i32);
    let e = closed(&v);
    let m = draw_antialiased_polygon(&GrayImage::new(6, 5), &pts(&v), Luma([200]), |l: Luma<u8>, o: Luma<u8>, k: f32| if k > 0.01 { l } else { o });
    let (mut fill, mut tight) = (true, true);
    for y in 0..5i32 { for x in 0..6i32 {
        let on = at(&m, x as u32, y as u32) == 200;
        let (i, t) = inside(&e, x, y);
        fill &= !i || on;
        let mut close = t;
        for (a, b) in &e {
            // closer than a pixel to the ideal edge, along its minor axis
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let n = dx.abs().max(dy.abs());
            let in_box = x >= a.0.min(b.0) - 1 && x <= a.0.max(b.0) + 1 && y >= a.1.min(b.1) - 1 && y <= a.1.max(b.1) + 1;
            close |= in_box && ((x - a.0) * dy - (y - a.1) * dx).abs() <= n;
        }
        tight &= !on || close;
    } }
    check(fill, "the inside of a smoothed polygon is filled");
    check(tight, "nothing further than a pixel from a smoothed polygon is drawn");
}
/// many vertices on larger canvases: combs, stars, zigzags; two overlapping turns
#[no_mangle] pub extern "C" fn q_large() {
    forking();
    let (w, h) = [(40u32, 30u32), (70, 9), (9, 70)][pick(0, 2) as usize];
    let n = [12i32, 40][pick(0, 1) as usize];
    let (cx, cy) = (w as i32 / 2, h as i32 / 2);
    let r = big_raw(2 * n as usize, 53, 0);
    let k = pick(0, 3);
    let mut v: Vec<Q> = (0..n).map(|i| match k {
        0 => { let t = i as f64 * 6.283185307179586 / n as f64; let q = if i % 2 == 0 { 0.6 } else { 0.2 }; (cx + (w as f64 * q * t.cos()) as i32, cy + (h as f64 * q * t.sin()) as i32) }
        1 => (i * w as i32 / n, if i % 2 == 0 { 1 } else { h as i32 - 2 }),
        2 => (r[2 * i as usize] as i32 % (w as i32 + 8) - 4, r[2 * i as usize + 1] as i32 % (h as i32 + 8) - 4),
        _ => { let t = i as f64 * 12.566370614359172 / n as f64; let q = 0.2 + 0.3 * i as f64 / n as f64; (cx + (w as f64 * q * t.cos()) as i32, cy + (h as f64 * q * t.sin()) as i32) }
    }).collect();
    v[5] = (v[5].0, v[5].1 + range(0, 3) as i32);
    let img = big(w, h, 59, 1);
    let c = u8s();
    let out = draw_polygon(&img, &pts(&v), Luma([c]));
    let e = closed(&v);
    let mut m = GrayImage::new(w, h);
    draw_polygon_mut(&mut m, &pts(&v), Luma([1]));
    let mut line = vec![false; (w * h) as usize];
    for (a, b) in &e { for p in BresenhamLineIter::new((a.0 as f32, a.1 as f32), (b.0 as f32, b.1 as f32)) { if p.0 >= 0 && p.1 >= 0 && p.0 < w as i32 && p.1 < h as i32 { line[(p.1 * w as i32 + p.0) as usize] = true } } }
    let (mut fill, mut tight, mut plain) = (out.dimensions() == (w, h), true, true);
    for y in 0..h { for x in 0..w {
        let on = at(&m, x, y) == 1;
        plain &= at(&out, x, y) == if on { c } else { at(&img, x, y) };
        let line = line[(y * w + x) as usize];
        let (i, t) = inside(&e, x as i32, y as i32);
        fill &= !(line || i) || on;
        tight &= !on || line || t;
    } }
    check(plain, "drawn pixels take the colour, others are unchanged");
    check(fill, "the outline and every pixel inside the polygon are drawn");
    check(tight, "nothing further than half a pixel from the polygon is drawn");
    let f: Vec<Point<f32>> = v.iter().map(|p| Point::new(p.0 as f32, p.1 as f32)).collect();
    let mut copy = img.clone();
    let out = draw_hollow_polygon(&mut copy, &f, Luma([c]));
    let mut ok = true;
    for y in 0..h { for x in 0..w { ok &= at(&out, x, y) == if line[(y * w + x) as usize] { c } else { at(&img, x, y) } } }
    check(ok, "a hollow polygon is its closed outline");
}
