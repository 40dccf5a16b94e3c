//! Convex hulls, areas, lengths, bounding rectangles and curve simplification.
use crate::sym::*;
use imageproc::geometry::*;
use imageproc::point::Point;

type P = Point<i32>;
fn turn(a: P, b: P, c: P) -> i64 { (b.x as i64 - a.x as i64).wrapping_mul(c.y as i64 - a.y as i64).wrapping_sub((b.y as i64 - a.y as i64).wrapping_mul(c.x as i64 - a.x as i64)) }
/// a point with both coordinates below 2^b, in one variable
fn point(b: u32) -> P { let v = bits(2 * b) as i32; Point::new(v & ((1 << b) - 1), v >> b) }
fn hull_ok(pts: &[P], hull: &[P]) {
    let n = hull.len();
    check(hull.iter().all(|p| pts.contains(p)), "hull vertices are input points");
    check(n > 0 && (0..n).all(|i| (0..i).all(|j| hull[i] != hull[j])), "hull vertices are distinct");
    let first = hull[0];
    check(pts.iter().all(|p| (first.y, first.x) <= (p.y, p.x)), "hull starts at the topmost, then leftmost point");
    if n == 1 { check(pts.iter().all(|p| *p == first), "hull of one point"); return }
    if n == 2 {
        let (a, b) = (hull[0], hull[1]);
        check(pts.iter().all(|p| turn(a, b, *p) == 0 && p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y)), "hull of collinear points: the two ends");
        return
    }
    let (mut convex, mut all) = (true, true);
    for i in 0..n {
        let (a, b, c) = (hull[i], hull[(i + 1) % n], hull[(i + 2) % n]);
        convex &= turn(a, b, c) > 0;
        for p in pts { all &= turn(a, b, *p) >= 0 }
    }
    check(convex, "hull is strictly convex, in one orientation");
    check(all, "hull contains every point");
}
fn hull_case(fixed: &[P], b: u32, at: usize) {
    forking();
    let mut pts = fixed.to_vec();
    pts.insert(at.min(fixed.len()), point(b));
    let h = convex_hull(&pts[..]);
    hull_ok(&pts, &h);
}
fn grid_point(n: i64) -> P { let k = pick(0, n * n - 1) as i32; Point::new(k % n as i32, k / n as i32) }
#[no_mangle] pub extern "C" fn q_hull_3() { forking(); let f = [grid_point(3), grid_point(3)]; hull_case(&f, 2, pick(0, 2) as usize) }
#[no_mangle] pub extern "C" fn q_hull_4() { forking(); let f = [Point::new(1, 1), grid_point(3), grid_point(3)]; hull_case(&f, 2, pick(0, 1) as usize * 3) }
#[no_mangle] pub extern "C" fn q_hull_shapes() {
    let shapes: [&[(i32, i32)]; 7] = [
        &[(0, 0), (6, 0), (6, 6), (0, 6)], &[(0, 3), (3, 0), (6, 3), (3, 6), (3, 3)], &[(0, 0), (1, 1), (2, 2), (3, 3), (4, 4)],
        &[(0, 0), (2, 0), (4, 0), (6, 0), (6, 2), (6, 4), (0, 4), (0, 2)], &[(5, 5), (5, 5), (5, 5)], &[(7, 0), (0, 1), (7, 2), (0, 3), (7, 4)], &[(3, 7), (3, 5), (3, 3), (3, 1), (1, 4)]];
    let s: Vec<P> = shapes[pick(0, 6) as usize].iter().map(|p| Point::new(p.0, p.1)).collect();
    hull_case(&s, 3, pick(0, 1) as usize * 8)
}
#[no_mangle] pub extern "C" fn t_hull_4() { forking(); let f = [grid_point(3), grid_point(3), grid_point(3)]; hull_case(&f, 2, 1) }
#[no_mangle] pub extern "C" fn t_hull_5() { forking(); let f = [Point::new(0, 2), grid_point(3), grid_point(3), Point::new(2, 1)]; hull_case(&f, 2, 2) }
/// many equal points: the sort needs a consistent order
#[no_mangle] pub extern "C" fn q_hull_many() {
    forking();
    let n = pick(20, 25);
    let p = [Point::new(0, 0), Point::new(3, 1), Point::new(1, 3), Point::new(3, 3)];
    let (m, k) = (pick(1, 4) as usize, pick(1, 3) as usize);
    let mut pts: Vec<P> = (0..n as usize).map(|i| p[(i * k) % m]).collect();
    pts[7] = point(2);
    let h = convex_hull(&pts[..]);
    hull_ok(&pts, &h);
}
/// coordinates of any size
#[no_mangle] pub extern "C" fn q_hull_large() {
    let m = [i32::MIN, -70000, 0, 70000, i32::MAX];
    let mut any = || Point::new(m[pick(0, 4) as usize], m[pick(0, 4) as usize]);
    let pts = [any(), any(), Point::new(5, i32::MIN)];
    let h = convex_hull(&pts[..]);
    let t = (pts[1].x as i128 - pts[0].x as i128) * (pts[2].y as i128 - pts[0].y as i128) - (pts[1].y as i128 - pts[0].y as i128) * (pts[2].x as i128 - pts[0].x as i128);
    check((h.len() == 3) == (t != 0), "hull of three points: a triangle unless collinear");
    check(h.iter().all(|p| pts.contains(p)), "hull vertices are input points");
}
#[no_mangle] pub extern "C" fn q_area() {
    let n = pick(0, 5) as usize;
    let mut pts: Vec<Point<i32>> = [(3, 1), (-7, 20), (40, -5), (11, 11), (-30, -9)][..n].iter().map(|p| Point::new(p.0, p.1)).collect();
    if n > 0 { let k = pick(0, n as i64 - 1) as usize; pts[k] = Point::new(i16s() as i32, i16s() as i32) }
    let a = oriented_contour_area(&pts);
    let mut t = 0i32;
    for i in 0..n { let (p, q) = (pts[i], pts[(i + 1) % n]); t = t.wrapping_add(p.x.wrapping_mul(q.y)).wrapping_sub(p.y.wrapping_mul(q.x)) }
    if n < 3 { t = 0 }
    check(a * 2.0 == t as f64, "oriented area: shoelace formula");
    check(contour_area(&pts) == a.abs(), "area: size of the oriented area");
}
#[no_mangle] pub extern "C" fn q_length() {
    merging(false);
    let n = pick(0, 4) as usize;
    let mut pts: Vec<Point<i32>> = (0..n).map(|i| Point::new([3, -2, 40, 7][i], [0, 12, -9, 5][i])).collect();
    if n > 0 { let k = pick(0, n as i64 - 1) as usize; pts[k] = { let p = point(4); Point::new(p.x * 5 - 30, p.y * 3 - 20) } }
    let closed = pick(0, 1) == 1;
    let mut want = 0.0f64;
    let d = |p: Point<i32>, q: Point<i32>| { let (x, y) = (p.x as f64 - q.x as f64, p.y as f64 - q.y as f64); (x * x + y * y).sqrt() };
    for i in 1..n { want += d(pts[i - 1], pts[i]) }
    if closed && n > 2 { want += d(pts[0], pts[n - 1]) }
    let got = arc_length(&pts, closed);
    let e = got - want;
    check(e < 1e-9 && e > -1e-9, "arc length: sum of the distances");
    if n < 2 { check(got == 0.0, "arc length of a point") }
}
/// the returned corners are (rounded outwards) those of a rectangle of least area
fn rect_case(pts: Vec<P>) {
    let r = min_area_rect(&pts);
    let hull = convex_hull(&pts[..]);
    let n = hull.len();
    if n == 1 { check(r.iter().all(|p| *p == hull[0]), "rectangle of one point"); return }
    if n == 2 { check(r == [hull[0], hull[1], hull[1], hull[0]], "rectangle of a segment"); return }
    let mut best = f64::MAX;
    let mut rects = vec![];
    for i in 0..n {
        let (a, b) = (hull[i], hull[(i + 1) % n]);
        let (ux, uy) = ((b.x - a.x) as f64, (b.y - a.y) as f64);
        let l = ux * ux + uy * uy;
        let (mut s0, mut s1, mut t0, mut t1) = (f64::MAX, f64::MIN, f64::MAX, f64::MIN);
        for p in &hull { let (s, t) = (p.x as f64 * ux + p.y as f64 * uy, p.y as f64 * ux - p.x as f64 * uy); s0 = s0.min(s); s1 = s1.max(s); t0 = t0.min(t); t1 = t1.max(t) }
        let area = (s1 - s0) * (t1 - t0) / l;
        best = best.min(area);
        let corner = |s: f64, t: f64| ((s * ux - t * uy) / l, (s * uy + t * ux) / l);
        rects.push((area, [corner(s0, t0), corner(s1, t0), corner(s1, t1), corner(s0, t1)]));
    }
    let mut found = false;
    for (area, c) in &rects {
        if *area > best + 1e-6 { continue }
        let near = |p: &P, c: &(f64, f64)| (p.x as f64 - c.0).abs() < 1.0 + 1e-6 && (p.y as f64 - c.1).abs() < 1.0 + 1e-6;
        found |= r.iter().all(|p| c.iter().any(|c| near(p, c))) && c.iter().all(|c| r.iter().any(|p| near(p, c)));
    }
    check(found, "the rectangle of least area around the points");
    check(r[0].x <= r[1].x && r[3].x <= r[2].x && r[0].y <= r[3].y && r[1].y <= r[2].y, "corners: top left, top right, bottom right, bottom left");
}
#[no_mangle] pub extern "C" fn q_rect() {
    forking();
    let mut g = || { let k = pick(0, 3); Point::new([0, 12, 20, 3][k as usize], [0, 9, 30, 21][k as usize]) };
    let v = bits(6) as i32;
    let pts = vec![Point::new(0, 10), g(), Point::new(10, 0), g(), Point::new((v & 7) * 4, (v >> 3) * 5)];
    rect_case(pts)
}
#[no_mangle] pub extern "C" fn q_rect_thin() {
    forking();
    // the longest edge may be any edge of the hull, also the one back to the start
    let base = [[(0, 0), (1, 12), (10, 40)], [(10, 0), (0, 30), (12, 4)], [(0, 0), (30, 3), (31, 8)], [(20, 0), (0, 5), (18, 3)]][pick(0, 3) as usize];
    let mut pts: Vec<P> = base.iter().map(|p| Point::new(p.0, p.1)).collect();
    let v = bits(6) as i32;
    pts.push(Point::new((v & 7) * 5, (v >> 3) * 5));
    rect_case(pts)
}
fn dist(a: P, b: P, p: P) -> f64 {
    if a == b { let (x, y) = ((p.x - a.x) as f64, (p.y - a.y) as f64); return (x * x + y * y).sqrt() }
    let (ux, uy) = ((b.x - a.x) as f64, (b.y - a.y) as f64);
    ((p.x - a.x) as f64 * uy - (p.y - a.y) as f64 * ux).abs() / (ux * ux + uy * uy).sqrt()
}
/// the simplified curve is a part of the curve, and what is left out is within epsilon of it
fn simplify(pts: Vec<P>, eps: f64) {
    let n = pts.len();
    let open = approximate_polygon_dp(&pts, eps, false);
    // curves whose points are distinct up to the ends: match greedily
    let mut at = vec![0usize];
    let mut sub = open.len() >= 1 && open[0] == pts[0] && open[open.len() - 1] == pts[n - 1];
    for (k, q) in open.iter().enumerate().skip(1) {
        let from = at[k - 1] + (n > 1) as usize;
        match if k + 1 == open.len() { Some(n - 1) } else { (from..n).find(|i| pts[*i] == *q) } { Some(i) => at.push(i), None => { sub = false; break } }
    }
    check(sub, "simplified curve: points of the curve in order, with both ends");
    let mut close = true;
    for w in at.windows(2) { for i in w[0]..=w[1].max(w[0]) { close &= dist(pts[w[0]], pts[w[1]], pts[i]) <= eps * (1.0 + 1e-9) } }
    check(close, "simplified curve: left out points are within epsilon");
    let closed = approximate_polygon_dp(&pts, eps, true);
    check(closed[..] == open[..open.len() - 1], "closed curves do not repeat the last point");
}
#[no_mangle] pub extern "C" fn q_simplify() {
    forking();
    let n = pick(1, 5) as usize;
    let mut pts: Vec<P> = [(0, 0), (9, 20), (22, 17), (30, 40), (44, 1)][..n].iter().map(|p| Point::new(p.0, p.1)).collect();
    let k = pick(0, n as i64 - 1) as usize;
    let v = bits(6) as i32;
    pts[k] = Point::new((v & 7) * 7 + 1, (v >> 3) * 5 + 1);
    simplify(pts, [0.5, 6.0, 12.0, 100.0][pick(0, 3) as usize])
}
#[no_mangle] pub extern "C" fn q_simplify_loop() {
    forking();
    let v = bits(6) as i32;
    let p = Point::new((v & 7) * 3 + 1, (v >> 3) * 3 + 1);
    let e = [0.5, 4.0, 12.0, 100.0][pick(0, 3) as usize];
    simplify([vec![Point::new(0, 0), Point::new(10, 0), p, Point::new(0, 10), Point::new(0, 0)], vec![Point::new(5, 5), p, Point::new(5, 5)], vec![Point::new(-1, 4), Point::new(2, -3), p, Point::new(-1, 4)]][pick(0, 2) as usize].clone(), e)
}
#[no_mangle] pub extern "C" fn q_epsilon() {
    let e = f64::from_bits(bits(64));
    let p = [Point::new(0, 0), Point::new(1, 5), Point::new(3, 0)];
    if split(e <= 0.0) { expect_panic(true) } else { assume(!e.is_nan()) }
    let r = approximate_polygon_dp(&p, e, false);
    check(!(e <= 0.0), "epsilon must be positive");
    check(r.len() == if split(e < 5.0) { 3 } else { 2 }, "points further away than epsilon are kept");
}
/// many points: scattered, on a circle, on a grid, on few columns; one arbitrary
fn cloud(k: i64, n: usize) -> Vec<P> {
    let r = big_raw(2 * n, 31, 0);
    (0..n).map(|i| { let (a, b) = (r[2 * i] as i32, r[2 * i + 1] as i32); match k {
        0 => Point::new(a - 100, b - 100),
        1 => { let t = i as f64 * 6.283185307179586 / n as f64; Point::new((500.0 * t.cos()) as i32, (500.0 * t.sin()) as i32) }
        2 => Point::new(a % 9, b % 7),
        3 => Point::new(a % 3 * 10, b),
        _ => Point::new(a * 3, a * 3 + (b % 2)),
    } }).collect()
}
#[no_mangle] pub extern "C" fn q_large_hull() {
    forking();
    let mut pts = cloud(pick(0, 4), [40usize, 120][pick(0, 1) as usize]);
    let p = point(2);
    pts[17] = [Point::new(-99 + p.x, 20 + p.y), Point::new(3 + p.x, p.y), Point::new(600 + p.x, 5 - p.y)][pick(0, 2) as usize];
    let h = convex_hull(&pts[..]);
    hull_ok(&pts, &h);
}
#[no_mangle] pub extern "C" fn q_large_rect() {
    forking();
    let mut pts = cloud(pick(0, 4), 50);
    let p = point(2);
    pts[17] = Point::new(3 + p.x * 40, p.y * 30 - 9);
    rect_case(pts)
}
#[no_mangle] pub extern "C" fn q_large_curve() {
    forking();
    let k = pick(0, 2);
    let n = 60usize;
    let r = big_raw(n, 37, 0);
    // a noisy line, a noisy circle, a zigzag: all points distinct
    let mut pts: Vec<P> = (0..n).map(|i| { let e = r[i] as i32 % 7; match k {
        0 => Point::new(5 * i as i32, 2 * i as i32 + e),
        1 => { let t = i as f64 * 6.0 / n as f64; Point::new((300.0 * t.cos()) as i32 + e, (300.0 * t.sin()) as i32) }
        _ => Point::new(7 * i as i32, if i % 2 == 0 { e } else { 40 - e * e }),
    } }).collect();
    let p = point(2);
    pts[23] = Point::new(pts[23].x + p.x, pts[23].y - 5 * p.y);
    let mut want = 0.0f64;
    let d = |p: Point<i32>, q: Point<i32>| { let (x, y) = (p.x as f64 - q.x as f64, p.y as f64 - q.y as f64); (x * x + y * y).sqrt() };
    for i in 1..n { want += d(pts[i - 1], pts[i]) }
    check((arc_length(&pts, false) - want).abs() < 1e-6 && (arc_length(&pts, true) - want - d(pts[0], pts[n - 1])).abs() < 1e-6, "arc length: sum of the distances");
    let mut t = 0i64;
    for i in 0..n { let (p, q) = (pts[i], pts[(i + 1) % n]); t += p.x as i64 * q.y as i64 - p.y as i64 * q.x as i64 }
    check(oriented_contour_area(&pts) * 2.0 == t as f64 && contour_area(&pts) * 2.0 == t.abs() as f64, "oriented area: shoelace formula");
    simplify(pts, [0.7, 5.0, 30.0][pick(0, 2) as usize])
}
