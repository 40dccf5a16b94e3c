//! Local binary patterns.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::local_binary_patterns::*;

/// the neighbours in the order of the documentation
const RING: [(i32, i32); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];
fn judge(img: &GrayImage, x: u32, y: u32) {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let inside = x >= 1 && y >= 1 && (x as i64) < w - 1 && (y as i64) < h - 1;
    match local_binary_pattern(img, x, y) {
        None => check(!inside, "a pattern for every pixel with eight neighbours"),
        Some(p) => {
            check(inside, "no pattern next to the border or outside the image");
            if !inside { return }
            let mut want = 0u8;
            for (i, (dx, dy)) in RING.iter().enumerate() {
                let n = at(img, (x as i32 + dx) as u32, (y as i32 + dy) as u32);
                want |= ((at(img, x, y) > n) as u8) << i;
            }
            check(p == want, "bit n is set iff the pixel is strictly brighter than neighbour n");
        }
    }
}
#[no_mangle] pub extern "C" fn q_pattern() { judge(&gray(3, 3), 1, 1) }
#[no_mangle] pub extern "C" fn q_positions() {
    let (w, h) = [(4u32, 3u32), (3, 5), (4, 4), (2, 4), (4, 1), (1, 1), (2, 2), (3, 2)][pick(0, 7) as usize];
    let img = gray(w, h);
    judge(&img, pick(0, w as i64) as u32, pick(0, h as i64) as u32)
}
#[no_mangle] pub extern "C" fn q_empty() {
    merging(false);
    let (w, h) = [(0u32, 0u32), (0, 3), (3, 0)][pick(0, 2) as usize];
    let img = GrayImage::new(w, h);
    check(local_binary_pattern(&img, u32s(), u32s()).is_none(), "no pattern in an image without pixels");
}
/// any coordinates, however far
#[no_mangle] pub extern "C" fn q_anywhere() {
    merging(false);
    let img = GrayImage::from_pixel(3, 3, Luma([7]));
    let (x, y) = (u32s(), u32s());
    let p = local_binary_pattern(&img, x, y);
    check(p == if x == 1 && y == 1 { Some(0) } else { None }, "only the centre of a 3x3 image has a pattern");
}
fn turned(b: u8, k: u32) -> u8 { if k == 0 { b } else { (b << k) | (b >> (8 - k)) } }
fn transitions(b: u8) -> u32 { let mut n = 0; for k in 0..8 { n += ((b >> k) & 1 != (b >> ((k + 1) % 8)) & 1) as u32 } n }
#[no_mangle] pub extern "C" fn q_min_shift() {
    let b = u8s();
    let m = min_shift(b);
    let (mut least, mut one) = (true, false);
    for k in 0..8 { least &= m <= turned(b, k); one |= m == turned(b, k) }
    check(least && one, "min_shift is the least rotation");
    check(MIN_SHIFT[b as usize] == m, "MIN_SHIFT tabulates it");
    let k = pick(0, 7) as u32;
    check(min_shift(turned(b, k)) == m, "all rotations have the same least one");
}
#[no_mangle] pub extern "C" fn q_transitions() {
    let b = u8s();
    check(count_transitions(b) == transitions(b), "number of bit changes around the byte");
    check(count_transitions(!b) == transitions(b), "the same for the complement");
}
#[no_mangle] pub extern "C" fn q_uniform() {
    let b = u8s();
    let u = UNIFORM_REPRESENTATIVE_2[b as usize];
    let mut m = b;
    for k in 0..8 { if turned(b, k) < m { m = turned(b, k) } }
    check(u == if transitions(b) <= 2 { m } else { 0b10101010 }, "uniform bytes map to their least rotation, others to 10101010");
}
/// brightness: adding a constant or scaling changes no pattern
#[no_mangle] pub extern "C" fn q_invariant() {
    let img = gray_bits(3, 3, 6);
    let k = bits(7) as u8;
    let brighter = GrayImage::from_fn(3, 3, |x, y| Luma([at(&img, x, y) + k]));
    check(local_binary_pattern(&img, 1, 1) == local_binary_pattern(&brighter, 1, 1), "patterns do not depend on overall brightness");
}
/// patterns deep inside and along the borders of larger images
#[no_mangle] pub extern "C" fn q_large() {
    let (w, h) = large();
    let img = big(w, h, 31, 5);
    let (x, y) = ([0, 1, w / 2, w.saturating_sub(2), w - 1, w][pick(0, 5) as usize], [0, 1, h / 2, h.saturating_sub(2), h - 1, h][pick(0, 5) as usize]);
    judge(&img, x, y)
}
