//! Hough lines.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::drawing::draw_line_segment;
use imageproc::hough::*;

/// how many foreground pixels certainly / possibly vote for each line: the distance
/// x cos m + y sin m, cut off towards zero, is the bucket
fn oracle(img: &GrayImage, rmax: i32) -> (Vec<u32>, Vec<u32>) {
    let n = (2 * rmax + 1) as usize;
    let (mut lo, mut hi) = (vec![0u32; 180 * n], vec![0u32; 180 * n]);
    for (x, y, p) in img.enumerate_pixels() {
        if p[0] == 0 { continue }
        for m in 0..180usize {
            let (s, c) = (m as f64).to_radians().sin_cos();
            let v = x as f64 * c + y as f64 * s;
            let (a, b) = ((v - 1e-4) as i32, (v + 1e-4) as i32);
            if a == b { lo[m * n + (a + rmax) as usize] += 1 }
            hi[m * n + (a + rmax) as usize] += 1;
            if a != b && b <= rmax { hi[m * n + (b + rmax) as usize] += 1 }
        }
    }
    (lo, hi)
}
fn diagonal(w: u32, h: u32) -> i32 { ((w * w + h * h) as f64).sqrt() as i32 }
fn judge(img: &GrayImage, t: u32) {
    let rmax = diagonal(img.width(), img.height());
    let n = 2 * rmax + 1;
    let lines = detect_lines(img, LineDetectionOptions { vote_threshold: t, suppression_radius: 0 });
    let (lo, hi) = oracle(img, rmax);
    let mut seen = vec![false; (180 * n) as usize];
    let (mut shape, mut once, mut enough) = (true, true, true);
    for l in &lines {
        let d = l.r as i32 + rmax;
        let good = l.angle_in_degrees < 180 && d >= 0 && d < n && l.r == (l.r as i32) as f32;
        shape &= good;
        if good {
            let i = (l.angle_in_degrees as i32 * n + d) as usize;
            once &= !seen[i];
            seen[i] = true;
            enough &= hi[i] >= t;
        }
    }
    check(shape, "a whole distance within the diagonal and an angle of 0..180 degrees");
    check(once, "no line is reported twice");
    check(enough, "every reported line has enough votes");
    let mut all = true;
    for i in 0..seen.len() { all &= lo[i] < t || seen[i] }
    check(all, "every line with enough votes is reported");
}
fn dots(w: u32, h: u32, at: &[(u32, u32)]) -> GrayImage {
    let mut img = GrayImage::new(w, h);
    for &(x, y) in at { let on = bools(); let v = u8s(); assume(v > 0); if on { img.put_pixel(x, y, Luma([v])) } }
    img
}
#[no_mangle] pub extern "C" fn q_votes() {
    forking();
    let k = pick(0, 2);
    let img = match k {
        0 => dots(3, 2, &[(0, 0), (2, 1), (1, 1)]),
        1 => dots(2, 4, &[(1, 3), (0, 3), (1, 0)]),
        _ => dots(4, 3, &[(0, 2), (1, 1), (2, 0)]),
    };
    judge(&img, range(1, 4) as u32)
}
#[no_mangle] pub extern "C" fn q_row() { forking(); let img = dots(5, 1, &[(0, 0), (2, 0), (4, 0)]); judge(&img, range(1, 4) as u32) }
#[no_mangle] pub extern "C" fn q_column() { forking(); let img = dots(1, 5, &[(0, 1), (0, 3), (0, 4)]); judge(&img, range(1, 4) as u32) }
#[no_mangle] pub extern "C" fn t_votes_5x5() { forking(); let img = dots(5, 5, &[(0, 0), (1, 1), (3, 3), (4, 4), (0, 4), (4, 0), (2, 2)]); judge(&img, range(1, 8) as u32) }
/// only lines whose vote is the greatest of the block around them survive suppression
#[no_mangle] pub extern "C" fn q_suppression() {
    forking();
    let img = dots(3, 2, &[(0, 0), (2, 1), (1, 1)]);
    let (t, s) = (pick(1, 2) as u32, pick(1, 2) as u32);
    let rmax = diagonal(3, 2);
    let n = 2 * rmax + 1;
    let mut votes = vec![0u32; (180 * n) as usize];
    for v in 1..=3 {
        for l in detect_lines(&img, LineDetectionOptions { vote_threshold: v, suppression_radius: 0 }) {
            votes[(l.angle_in_degrees as i32 * n + l.r as i32 + rmax) as usize] = v;
        }
    }
    let lines = detect_lines(&img, LineDetectionOptions { vote_threshold: t, suppression_radius: s });
    let mut kept = vec![false; votes.len()];
    for l in &lines { kept[(l.angle_in_degrees as i32 * n + l.r as i32 + rmax) as usize] = true }
    let (mut greatest, mut all, mut apart) = (true, true, true);
    let s = s as i32;
    for m in 0..180i32 { for d in 0..n {
        let i = (m * n + d) as usize;
        if votes[i] < t { check(!kept[i], "lines below the threshold are not reported"); continue }
        let mut strict = true;
        for mm in (m - s).max(0)..=(m + s).min(179) { for dd in (d - s).max(0)..=(d + s).min(n - 1) {
            let j = (mm * n + dd) as usize;
            if j == i { continue }
            if votes[j] >= votes[i] { strict = false }
            if kept[i] { greatest &= votes[j] <= votes[i]; apart &= !kept[j] }
        } }
        if strict { all &= kept[i] }
    } }
    check(greatest, "a reported line has the greatest vote in the block centred on it");
    check(apart, "no two reported lines in one block");
    check(all, "a line with strictly the greatest vote in its block is reported");
}
/// the part of the line inside the box, by clipping its parametric form
fn chord(r: f64, m: u32, w: f64, h: f64) -> Option<((f64, f64), (f64, f64))> {
    let (s, c) = match m { 0 => (0.0, 1.0), 90 => (1.0, 0.0), _ => (m as f64).to_radians().sin_cos() };
    let (mut lo, mut hi) = (-1e9f64, 1e9f64);
    for (p, d, l) in [(r * c, -s, w), (r * s, c, h)] {
        if d == 0.0 { if p < 0.0 || p > l { return None } }
        else { let (a, b) = (-p / d, (l - p) / d); lo = lo.max(a.min(b)); hi = hi.min(a.max(b)) }
    }
    if lo > hi { return None }
    Some(((r * c - s * lo, r * s + c * lo), (r * c - s * hi, r * s + c * hi)))
}
fn near(a: (f32, f32), b: (f64, f64)) -> bool { (a.0 as f64 - b.0).abs() < 1e-2 && (a.1 as f64 - b.1).abs() < 1e-2 }
fn meets(r: f32, m: u32, w: u32, h: u32) {
    let got = intersection_points(PolarLine { r, angle_in_degrees: m }, w, h);
    let want = chord(r as f64, m, w as f64, h as f64);
    match got {
        None => {
            // touching a corner may be lost to rounding, crossing the image may not
            let long = match want { Some((a, b)) => (a.0 - b.0).abs() + (a.1 - b.1).abs() > 1e-2, None => false };
            check(!long, "a line crossing the image has intersection points");
        }
        Some((p, q)) => {
            let inside = |p: (f32, f32)| p.0 >= 0.0 && p.0 <= w as f32 && p.1 >= 0.0 && p.1 <= h as f32;
            check(inside(p) && inside(q), "the intersection points lie in the closed image rectangle");
            match want {
                Some((a, b)) => check((near(p, a) && near(q, b)) || (near(p, b) && near(q, a)), "the two points are the ends of the part of the line within the image"),
                None => {
                    // a miss by no more than rounding
                    let (s, c) = (m as f64).to_radians().sin_cos();
                    let off = |p: (f32, f32)| (p.0 as f64 * c + p.1 as f64 * s - r as f64).abs();
                    check(off(p) < 1e-3 && off(q) < 1e-3, "a line disjoint from the image has no intersection points")
                }
            }
        }
    }
}
fn any_line(ms: &[u32], w: u32, h: u32) {
    forking();
    let m = ms[pick(0, ms.len() as i64 - 1) as usize];
    let d = diagonal(w, h) as i64 + 1;
    let r = range(-d, d) as i32;
    meets(r as f32, m, w, h)
}
fn all(from: u32) -> Vec<u32> { (from..180).step_by(7).collect() }
#[no_mangle] pub extern "C" fn q_meets_5x4() { any_line(&all(0), 5, 4) }
#[no_mangle] pub extern "C" fn q_meets_4x4() { any_line(&[0, 30, 44, 45, 46, 60, 89, 90, 91, 120, 135, 150, 179], 4, 4) }
#[no_mangle] pub extern "C" fn q_meets_14x14() { any_line(&[0, 30, 45, 60, 90, 135, 150], 14, 14) }
#[no_mangle] pub extern "C" fn q_meets_2x7() { any_line(&all(1), 2, 7) }
#[no_mangle] pub extern "C" fn q_meets_9x1() { any_line(&all(3), 9, 1) }
/// distances that are not whole
#[no_mangle] pub extern "C" fn q_meets_parts() {
    forking();
    let ms = [0u32, 17, 45, 90, 101, 171];
    let m = ms[pick(0, 5) as usize];
    let r = range(-105, 150) as i32;
    meets(r as f32 / 16.0, m, 6, 4)
}
/// through each corner
#[no_mangle] pub extern "C" fn q_corners() {
    forking();
    let m = range(0, 179) as u32;
    let (w, h) = [(5u32, 4u32), (7, 7), (3, 8)][pick(0, 2) as usize];
    let (x, y) = [(0.0f32, 0.0f32), (w as f32, 0.0), (0.0, h as f32), (w as f32, h as f32)][pick(0, 3) as usize];
    let (s, c) = (m as f32).to_radians().sin_cos();
    meets(x * c + y * s, m, w, h)
}
#[no_mangle] pub extern "C" fn t_meets_all() { any_line(&(0..180).collect::<Vec<_>>(), 13, 10) }
#[no_mangle] pub extern "C" fn t_meets_square() { any_line(&(0..180).collect::<Vec<_>>(), 28, 28) }
/// drawing: the segments between the intersection points, one after the other
#[no_mangle] pub extern "C" fn q_draw() {
    forking();
    let (w, h) = [(5u32, 4u32), (3, 6), (0, 3), (4, 0)][pick(0, 3) as usize];
    let img = gray(w, h);
    let ms = [0u32, 20, 45, 90, 110, 135, 170];
    let a = PolarLine { r: pick(-3, 4) as f32, angle_in_degrees: ms[pick(0, 6) as usize] };
    let b = PolarLine { r: 2.0, angle_in_degrees: 70 };
    let (k, l) = (Luma([u8s()]), [a, b]);
    let out = draw_polar_lines(&img, &l, k);
    let mut want = img.clone();
    for l in l { if let Some((p, q)) = intersection_points(l, w, h) { want = draw_line_segment(&want, p, q, k) } }
    check(out.dimensions() == (w, h) && same(out.as_raw(), want.as_raw()), "each line is drawn between its intersection points");
    check(same(draw_polar_lines(&img, &[], k).as_raw(), img.as_raw()), "no lines: unchanged");
    let mut m = img.clone();
    draw_polar_lines_mut(&mut m, &l, k);
    check(same(m.as_raw(), out.as_raw()), "in place and copying agree");
}
/// larger images: accumulators wider than a byte; rows, columns, diagonals and noise
#[no_mangle] pub extern "C" fn q_large() {
    forking();
    step_limit(400_000_000);
    let (w, h) = [(37u32, 23u32), (90, 4), (4, 90)][pick(0, 2) as usize];
    let k = pick(0, 2);
    let noise = big(w, h, 67, 0);
    let mut img = GrayImage::from_fn(w, h, |x, y| Luma([match k { 0 => (at(&noise, x, y) < 8) as u8 * 9, 1 => (y == h / 2 || x == w / 2) as u8 * 255, _ => (x * h == y * w) as u8 }]));
    if split(bools()) { img.put_pixel(w - 1, h - 1, Luma([u8s() | 1])) } else { img.put_pixel(w - 1, h - 1, Luma([0])) }
    judge(&img, [2, 4, 9, 30][pick(0, 3) as usize])
}
/// more votes than fit a byte
#[no_mangle] pub extern "C" fn q_large_votes() {
    forking();
    step_limit(400_000_000);
    let tall = pick(0, 1) == 1;
    let n = 300u32;
    let mut img = if tall { GrayImage::from_pixel(2, n, Luma([255])) } else { GrayImage::from_pixel(n, 2, Luma([255])) };
    for i in 0..n { if tall { img.put_pixel(1, i, Luma([(i < 280) as u8])) } else { img.put_pixel(i, 1, Luma([(i < 280) as u8])) } }
    img.put_pixel(0, 0, Luma([if split(bools()) { u8s() | 1 } else { 0 }]));
    judge(&img, [256, 281, 300][pick(0, 2) as usize])
}
/// intersections with larger images
#[no_mangle] pub extern "C" fn q_large_meets() {
    forking();
    let (w, h) = [(640u32, 480u32), (33, 1000), (100, 100)][pick(0, 2) as usize];
    let ms = [0u32, 1, 30, 45, 89, 90, 91, 135, 144, 179];
    let m = ms[pick(0, 9) as usize];
    meets([-600f32, -37., -1., 0., 5., 99., 333., 479., 641., 900.][pick(0, 9) as usize] + range(0, 1) as f32, m, w, h)
}
