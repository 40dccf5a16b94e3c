//! Thresholding: fixed, adaptive, Otsu, Kapur.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::contrast::*;

fn kind(k: i64) -> ThresholdType { match k { 0 => ThresholdType::Binary, 1 => ThresholdType::BinaryInverted, 2 => ThresholdType::Truncate, 3 => ThresholdType::ToZero, _ => ThresholdType::ToZeroInverted } }
#[no_mangle] pub extern "C" fn q_threshold() {
    let (w, h, k) = (pick(0, 3) as u32, pick(0, 2) as u32, pick(0, 4));
    let img = gray(w, h);
    let t = u8s();
    let out = threshold(&img, t, kind(k));
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w {
        let p = at(&img, x, y); let above = p > t;
        r &= at(&out, x, y) == match k { 0 => if above { 255 } else { 0 }, 1 => if above { 0 } else { 255 }, 2 => if above { t } else { p }, 3 => if above { 0 } else { p }, _ => if above { p } else { 0 } };
    } }
    check(r, "every pixel is compared with the threshold");
    let mut m = img.clone();
    threshold_mut(&mut m, t, kind(k));
    check(same(m.as_raw(), out.as_raw()), "in-place variant agrees");
    cover(w == 3 && h == 2, "3x2");
}
fn adaptive(img: &GrayImage, r: u32, delta: i32) -> bool {
    let (w, h) = img.dimensions();
    let out = adaptive_threshold(img, r, delta);
    let mut ok = out.dimensions() == (w, h);
    for y in 0..h as i64 { for x in 0..w as i64 {
        let (mut s, mut n) = (0u32, 0u32);
        for v in 0..h as i64 { for u in 0..w as i64 { if (u - x).abs() <= r as i64 && (v - y).abs() <= r as i64 { s += at(img, u as u32, v as u32) as u32; n += 1 } } }
        // division rounds down
        let white = at(img, x as u32, y as u32) as i64 >= (s / n) as i64 - delta as i64;
        ok &= at(&out, x as u32, y as u32) == if white { 255 } else { 0 };
    } }
    ok
}
#[no_mangle] pub extern "C" fn q_adaptive() {
    let (w, h) = (pick(0, 3) as u32, pick(0, 3) as u32);
    let r = pick(1, 3) as u32;
    let img = gray(w, h);
    let d = range(-300, 300) as i32;
    check(adaptive(&img, r, d), "white where at least the block mean minus delta");
    cover(w == 3 && h == 3 && r == 1, "interior");
}
#[no_mangle] pub extern "C" fn q_adaptive_wide() {
    let (w, h) = ([5, 1, 4][pick(0, 2) as usize], [1, 5, 4][pick(0, 2) as usize]);
    let img = gray(w, h);
    check(adaptive(&img, pick(1, 4) as u32, 0), "blocks of several radii");
}
#[no_mangle] pub extern "C" fn q_adaptive_extreme() {
    let img = gray(2, 1);
    let r = [1u32, 0x7fff_ffff, 0x8000_0000, u32::MAX][pick(0, 3) as usize];
    let d = [0, i32::MAX, i32::MIN, 1 << 20][pick(0, 3) as usize];
    check(adaptive(&img, r, d), "any radius and delta");
}
#[no_mangle] pub extern "C" fn q_adaptive_radius() {
    let r = pick(0, 1) as u32;
    if r == 0 { expect_panic(true) }
    let o = adaptive_threshold(&gray(1, 1), r, 0);
    check(r > 0 && at(&o, 0, 0) == 255, "radius zero is refused");
}
/// a few pixels, one of them arbitrary within a window of the grey range
fn sample() -> Vec<u8> {
    let n = pick(1, 4) as usize;
    let v = [0u8, 96, 248][pick(0, 2) as usize] + bits(3) as u8;
    let mut px = vec![v];
    for _ in 1..n { px.push([0u8, 100, 255][pick(0, 2) as usize]) }
    px
}
fn classes(px: &[u8], t: u32) -> (f64, f64, f64, f64) {
    let (mut n0, mut s0, mut n1, mut s1) = (0u32, 0u32, 0u32, 0u32);
    for p in px { if *p as u32 <= t { n0 += 1; s0 += *p as u32 } else { n1 += 1; s1 += *p as u32 } }
    (n0 as f64, s0 as f64, n1 as f64, s1 as f64)
}
fn between(px: &[u8], t: u32) -> f64 {
    let (n0, s0, n1, s1) = classes(px, t);
    if n0 == 0.0 || n1 == 0.0 { return 0.0 }
    let d = s0 / n0 - s1 / n1;
    n0 * n1 * d * d
}
#[no_mangle] pub extern "C" fn q_otsu() {
    let px = sample();
    let img = GrayImage::from_raw(px.len() as u32, 1, px.clone()).unwrap();
    let l = concrete(otsu_level(&img) as u64) as u32;
    let v = between(&px, l);
    let mut best = true; let mut first = true;
    for t in [0u32, 1, 5, 7, 50, 95, 96, 97, 98, 99, 100, 101, 102, 103, 200, 247, 248, 250, 254, 255] {
        let b = between(&px, t);
        best &= b <= v * 1.000001; first &= t >= l || b < v * 1.000001;
    }
    for t in [l.wrapping_sub(1), l + 1] { if t < 256 { best &= between(&px, t) <= v * 1.000001 } }
    check(best, "the Otsu level maximises the variance between the classes");
    let mut flat = true; for p in &px { flat &= *p == px[0] }
    check(!flat || l == 0, "a constant image has level zero");
    let _ = first;
    cover(px.len() > 1 && l > 100, "an upper split");
}
fn entropy(px: &[u8], t: u32) -> f64 {
    let n = px.len() as f64;
    // sum over distinct values of each class of -p/P ln(p/P)
    let (mut a, mut b) = (0f64, 0f64);
    let (n0, _, n1, _) = classes(px, t);
    let _ = n;
    for (i, p) in px.iter().enumerate() {
        let mut c = 0u32; let mut first = true;
        for (j, q) in px.iter().enumerate() { let e = q == p; c += e as u32; if j < i && e { first = false } }
        let low = *p as u32 <= t;
        let f = c as f64 / if low { n0 } else { n1 };
        let term = if first { -f * f.ln() } else { 0.0 };
        if low { a += term } else { b += term }
    }
    a + b
}
#[no_mangle] pub extern "C" fn q_kapur() {
    let px = sample();
    let img = GrayImage::from_raw(px.len() as u32, 1, px.clone()).unwrap();
    let l = concrete(kapur_level(&img) as u64) as u32;
    let mut flat = true; for p in &px { flat &= *p == px[0] }
    if split(flat) { check(l == 0, "a constant image has level zero"); return }
    let (n0, _, n1, _) = classes(&px, l);
    check(n0 > 0.0 && n1 > 0.0, "the Kapur level separates two nonempty classes");
    let v = entropy(&px, l);
    let mut best = true;
    for t in [0u32, 1, 5, 7, 96, 98, 100, 103, 247, 248, 251, 254] {
        let (m0, _, m1, _) = classes(&px, t);
        best &= m0 == 0.0 || m1 == 0.0 || entropy(&px, t) <= v + 1e-9;
    }
    check(best, "the Kapur level maximises the total entropy");
    cover(px.len() > 2, "three pixels");
}
/// several pixels on the lowest levels, one arbitrary among them
#[no_mangle] pub extern "C" fn q_level_counts() {
    let (a, b, c) = (pick(0, 3), pick(1, 4), pick(0, 2));
    let mut px = vec![bits(3) as u8];
    for _ in 0..a { px.push(0) } for _ in 0..b { px.push(1) } for _ in 0..c { px.push(2) }
    let img = GrayImage::from_raw(px.len() as u32, 1, px.clone()).unwrap();
    let mut flat = true; for p in &px { flat &= *p == px[0] }
    if split(flat) { return }
    let l = concrete(kapur_level(&img) as u64) as u32;
    let v = entropy(&px, l);
    let mut best = true;
    for t in 0..8u32 { let (m0, _, m1, _) = classes(&px, t); best &= m0 == 0.0 || m1 == 0.0 || entropy(&px, t) <= v + 1e-9 }
    check(best, "the Kapur level maximises the total entropy");
}
#[no_mangle] pub extern "C" fn q_levels_empty_split() {
    // two-valued images are split between the values
    let (a, b) = ([0u8, 13, 120, 248][pick(0, 3) as usize] + bits(3) as u8, [0u8, 17, 200, 255][pick(0, 3) as usize]);
    let img = GrayImage::from_fn(2, 2, |x, _| Luma([if x == 0 { a } else { b }]));
    let (lo, hi) = (a.min(b), a.max(b));
    let o = otsu_level(&img); let k = kapur_level(&img);
    check(lo == hi || (lo <= o && o < hi), "Otsu splits two values"); check(lo == hi || (lo <= k && k < hi), "Kapur splits two values");
}
/// shapes beyond the usual block and chunk sizes
#[no_mangle] pub extern "C" fn q_large_threshold() {
    let (w, h) = large();
    let img = big(w, h, 1, 8);
    let t = u8s();
    let out = threshold(&img, t, ThresholdType::Binary);
    let mut r = out.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { r &= at(&out, x, y) == if at(&img, x, y) > t { 255 } else { 0 } } }
    check(r, "every pixel is compared with the threshold");
}
#[no_mangle] pub extern "C" fn q_large_adaptive() {
    let (w, h) = [(37, 13), (70, 5), (5, 70), (130, 2)][pick(0, 3) as usize];
    let img = big(w, h, 1, 4);
    let rad = [1, 3, 8][pick(0, 2) as usize];
    let d = [0, 5, -7][pick(0, 2) as usize];
    any_fixed_order();
    let out = adaptive_threshold(&img, rad, d);
    let mut ok = out.dimensions() == (w, h);
    let (r, w, h) = (rad as i32, w as i32, h as i32);
    for y in 0..h { for x in 0..w {
        let (mut s, mut n) = (0u32, 0u32);
        for v in (y - r).max(0)..=(y + r).min(h - 1) { for u in (x - r).max(0)..=(x + r).min(w - 1) { s += at(&img, u as u32, v as u32) as u32; n += 1 } }
        let white = at(&img, x as u32, y as u32) as i32 >= (s / n) as i32 - d;
        ok &= at(&out, x as u32, y as u32) == if white { 255 } else { 0 };
    } }
    check(ok, "white where at least the block mean minus delta");
}
/// many pixels on many levels, one arbitrary: the exact maximisers
#[no_mangle] pub extern "C" fn q_large_levels() {
    let seed = pick(1, 4) as u32;
    let (w, h) = [(20, 20), (130, 4), (16, 3)][pick(0, 2) as usize];
    let mut px = big_raw((w * h) as usize, seed, 0);
    // uneven histograms: squared, dark, bright
    for p in px.iter_mut() { *p = match seed { 1 => *p, 2 => ((*p as u32 * *p as u32) >> 8) as u8, 3 => *p >> 2, _ => 255 - (*p >> 3) } }
    px[0] = [0u8, 16, 252][pick(0, 2) as usize] + bits(2) as u8;
    let img = GrayImage::from_raw(w, h, px.clone()).unwrap();
    let (o, k) = (concrete(otsu_level(&img) as u64) as usize, concrete(kapur_level(&img) as u64) as usize);
    let mut hist = [0u64; 256];
    for p in &px { hist[*p as usize] += 1 }
    let n = px.len() as f64;
    let (mut bo, mut bk) = ([0f64; 256], [-1f64; 256]);
    for t in 0..256usize {
        let (mut n0, mut s0, mut n1, mut s1) = (0u64, 0u64, 0u64, 0u64);
        for i in 0..256usize { if i <= t { n0 += hist[i]; s0 += hist[i] * i as u64 } else { n1 += hist[i]; s1 += hist[i] * i as u64 } }
        if n0 == 0 || n1 == 0 { continue }
        let d = s0 as f64 / n0 as f64 - s1 as f64 / n1 as f64;
        bo[t] = n0 as f64 / n * (n1 as f64 / n) * d * d;
        let mut e = 0f64;
        for i in 0..256usize { if hist[i] > 0 { let f = hist[i] as f64 / if i <= t { n0 } else { n1 } as f64; e -= f * f.ln() } }
        bk[t] = e;
    }
    let (mut r, mut r2) = (true, true);
    for t in 0..256 { r &= bo[t] <= bo[o] * 1.0001; r2 &= bk[t] <= bk[k] + 1e-6 }
    check(r, "the Otsu level maximises the variance between the classes"); check(r2, "the Kapur level maximises the total entropy");
}
