//! Flood fill.
use crate::sym::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::drawing::*;

/// the pixels joined to (x, y) by 4-neighbours of the same colour
fn region(img: &GrayImage, x: u32, y: u32) -> Vec<bool> {
    let (w, h) = (img.width() as i32, img.height() as i32);
    let t = at(img, x, y);
    let mut r = vec![false; (w * h) as usize];
    let mut todo = vec![(x as i32, y as i32)];
    while let Some((x, y)) = todo.pop() {
        if x < 0 || y < 0 || x >= w || y >= h { continue }
        let i = (y * w + x) as usize;
        if r[i] || at(img, x as u32, y as u32) != t { continue }
        r[i] = true;
        todo.push((x + 1, y)); todo.push((x - 1, y)); todo.push((x, y + 1)); todo.push((x, y - 1));
    }
    r
}
fn judge(img: &GrayImage, x: u32, y: u32, c: u8) {
    let out = flood_fill(img, x, y, Luma([c]));
    check(out.dimensions() == img.dimensions(), "dimensions");
    let r = region(img, x, y);
    let mut ok = true;
    for i in 0..r.len() { ok &= out.as_raw()[i] == if r[i] { c } else { img.as_raw()[i] } }
    check(ok, "exactly the connected region of the start pixel's colour is filled");
    let mut m = img.clone();
    flood_fill_mut(&mut m, x, y, Luma([c]));
    check(same(m.as_raw(), out.as_raw()), "in place and copying agree");
}
fn any_start(w: u32, h: u32) -> (u32, u32) { (pick(0, w as i64 - 1) as u32, pick(0, h as i64 - 1) as u32) }
/// all contents, and any colour including that of the region or of its surroundings
#[no_mangle] pub extern "C" fn q_contents() {
    forking();
    let (w, h) = [(3u32, 2u32), (2, 3), (1, 4), (4, 1)][pick(0, 3) as usize];
    let img = gray(w, h);
    let (x, y) = any_start(w, h);
    judge(&img, x, y, u8s())
}
fn two(w: u32, h: u32, x: u32, y: u32) { forking(); let img = binary(w, h); judge(&img, x, y, 9) }
#[no_mangle] pub extern "C" fn q_3x3() { let (x, y) = any_start(3, 3); two(3, 3, x, y) }
#[no_mangle] pub extern "C" fn q_4x3() { let (x, y) = [(0, 0), (1, 1), (3, 2), (2, 0)][pick(0, 3) as usize]; two(4, 3, x, y) }
#[no_mangle] pub extern "C" fn q_3x4() { let (x, y) = [(2, 0), (1, 2), (0, 3), (0, 1)][pick(0, 3) as usize]; two(3, 4, x, y) }
#[no_mangle] pub extern "C" fn q_5x3() { let (x, y) = [(2, 1), (4, 0)][pick(0, 1) as usize]; two(5, 3, x, y) }
#[no_mangle] pub extern "C" fn t_4x4() { let (x, y) = any_start(4, 4); two(4, 4, x, y) }
#[no_mangle] pub extern "C" fn t_5x4() { let (x, y) = [(2, 1), (4, 0), (0, 3)][pick(0, 2) as usize]; two(5, 4, x, y) }
#[no_mangle] pub extern "C" fn t_3x6() { let (x, y) = [(1, 1), (0, 5), (2, 3)][pick(0, 2) as usize]; two(3, 6, x, y) }
/// spirals and combs with free cells
#[no_mangle] pub extern "C" fn q_maze() {
    forking();
    let rows: [[&str; 7]; 3] = [
        ["0000000", "111111?", "0000000", "?11111?", "0000000", "1111?11", "0000000"],
        ["0?01010", "0101010", "0101?10", "?101010", "0101010", "01?1010", "000?000"],
        ["0000000", "?11111?", "0100010", "01010?0", "01?1110", "010000?", "0111111"],
    ];
    let p = rows[pick(0, 2) as usize];
    let v: Vec<u8> = p.iter().flat_map(|r| r.bytes()).map(|b| if b == b'?' { bits(1) as u8 } else { b - b'0' }).collect();
    let img = GrayImage::from_raw(7, 7, v).unwrap();
    let (x, y) = [(0, 0), (6, 6), (3, 2)][pick(0, 2) as usize];
    judge(&img, x, y, 5)
}
#[no_mangle] pub extern "C" fn q_rgb() {
    forking();
    // colours differing in a single channel are different
    let mut img = RgbImage::new(3, 2);
    let v = rgb_px();
    for (i, p) in img.pixels_mut().enumerate() { if bools() { *p = v } else { let mut q = v; q.0[i % 3] ^= 1; *p = q } }
    let c = Rgb([v[0] ^ 2, v[1], v[2]]);
    let out = flood_fill(&img, 1, 0, c);
    let t = *img.get_pixel(1, 0);
    // two-colour view
    let k = GrayImage::from_fn(3, 2, |x, y| Luma([(*img.get_pixel(x, y) == t) as u8]));
    let r = region(&k, 1, 0);
    let mut ok = true;
    for y in 0..2 { for x in 0..3 { ok &= *out.get_pixel(x, y) == if r[(y * 3 + x) as usize] { c } else { *img.get_pixel(x, y) } } }
    check(ok, "colours are compared in all channels");
}
#[no_mangle] pub extern "C" fn q_outside() {
    merging(false);
    let img = gray(2, 2);
    let (x, y) = (pick(0, 3) as u32, pick(0, 3) as u32);
    if x > 1 || y > 1 { expect_panic(true); let o = flood_fill(&img, x, y, Luma([1])); observe(o.len() as u64); check(false, "a start outside the image is refused"); return }
    forking();
    judge(&img, x, y, 7)
}
/// noise at several densities, mazes and spirals on larger images
#[no_mangle] pub extern "C" fn q_large() {
    forking();
    let (w, h) = large();
    let k = pick(0, 4);
    let mut img = big(w, h, 61, 0);
    for y in 0..h { for x in 0..w {
        let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
        let v = at(&img, x, y);
        img[(x, y)][0] = match k { 0 => (v < 100) as u8, 1 => (v < 40) as u8, 2 => (d % 2 == 1 && !(x == w / 2)) as u8, 3 => (x % 4 == 1 && y != 0 || x % 4 == 3 && y != h - 1) as u8, _ => (y % 4 == 1 && x != 0 || y % 4 == 3 && x != w - 1) as u8 };
    } }
    img[(w / 2, h / 2)][0] = bits(1) as u8;
    img[(0, 0)][0] = 0;
    let (x, y) = [(0, 0), (w - 1, h - 1), (w / 2, h / 2)][pick(0, 2) as usize];
    judge(&img, x, y, 5)
}
