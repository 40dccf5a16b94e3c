//! Mapping functions.
use crate::sym::*;
use image::{GrayImage, Luma, LumaA, Pixel, Rgb, RgbImage, Rgba};
use imageproc::definitions::Image;
use imageproc::map::*;

/// any order of the parallel tasks for small images, both extreme orders for the others
fn orders() -> (u32, u32) { let o = pick(0, 2) as u32; par_order(o); if o == 2 { [(2, 1), (1, 2)][pick(0, 1) as usize] } else { sizes() } }
fn sizes() -> (u32, u32) { [(3, 2), (1, 4), (4, 1), (0, 0), (0, 2), (3, 0), (2, 2)][pick(0, 6) as usize] }
fn rgbs(w: u32, h: u32) -> RgbImage { let mut i = RgbImage::new(w, h); for p in i.pixels_mut() { *p = rgb_px() } i }
fn sub(k: u8, v: u8) -> u16 { (v as u16).wrapping_mul(257) ^ k as u16 }
/// every channel of every pixel through the function, at its place
fn subpixels<P>(img: &Image<P>, k: u8)
where P: Pixel<Subpixel = u8> + WithChannel<u16> + WithChannel<u8> + WithChannel<i16> + Send + Sync, ChannelMap<P, u16>: Pixel<Subpixel = u16>, ChannelMap<P, u8>: Pixel<Subpixel = u8> {
    let a: Image<ChannelMap<P, u16>> = map_subpixels(img, |v| sub(k, v));
    let b: Image<ChannelMap<P, u16>> = map_subpixels_parallel(img, |v| sub(k, v));
    let (mut c, mut d) = (img.clone(), img.clone());
    map_subpixels_mut(&mut c, |v| v.wrapping_add(k));
    map_subpixels_mut_parallel(&mut d, |v| v.wrapping_add(k));
    let n = img.as_raw().len();
    let size = a.dimensions() == img.dimensions() && b.dimensions() == img.dimensions() && c.dimensions() == img.dimensions() && d.dimensions() == img.dimensions();
    check(size && a.as_raw().len() == n && b.as_raw().len() == n, "mapping keeps the size");
    let (mut copy, mut par, mut place, mut ppar) = (true, true, true, true);
    for i in 0..n {
        let v = img.as_raw()[i];
        copy &= a.as_raw()[i] == sub(k, v);
        par &= b.as_raw()[i] == sub(k, v);
        place &= c.as_raw()[i] == v.wrapping_add(k);
        ppar &= d.as_raw()[i] == v.wrapping_add(k);
    }
    check(copy, "map_subpixels applies the function to every channel");
    check(place, "map_subpixels_mut applies the function to every channel");
    check(par && ppar, "the parallel versions agree");
}
#[no_mangle] pub extern "C" fn q_subpixels_gray() { let (w, h) = orders(); subpixels(&gray(w, h), u8s()) }
#[no_mangle] pub extern "C" fn q_subpixels_rgb() { let (w, h) = orders(); subpixels(&rgbs(w, h), u8s()) }
#[no_mangle] pub extern "C" fn q_subpixels_alpha() {
    par_order(pick(0, 1) as u32);
    let (w, h) = [(2, 1), (1, 2), (2, 2)][pick(0, 2) as usize];
    let mut i = Image::<Rgba<u8>>::new(w, h);
    for p in i.pixels_mut() { *p = rgba_px() }
    subpixels(&i, u8s());
    let mut i = Image::<LumaA<u8>>::new(w, h);
    for p in i.pixels_mut() { *p = luma_a_px() }
    subpixels(&i, u8s());
}
fn f(k: u8, p: Rgb<u8>) -> Rgb<u8> { Rgb([p[1].wrapping_add(k), p[2] ^ k, p[0]]) }
fn g(k: u8, p: Rgb<u8>) -> LumaA<u16> { LumaA([p[0] as u16 * 3 + p[2] as u16, p[1] as u16 ^ k as u16]) }
fn at_place(k: u8, x: u32, y: u32, p: Rgb<u8>) -> Rgb<u8> { Rgb([p[1].wrapping_add(x as u8), p[2].wrapping_sub(y as u8), p[0] ^ k]) }
#[no_mangle] pub extern "C" fn q_pixels() { let (w, h) = orders(); pixels(w, h, rgbs(w, h), u8s()) }
fn pixels(w: u32, h: u32, img: RgbImage, k: u8) {
    let (a, b) = (map_pixels(&img, |p| g(k, p)), map_pixels_parallel(&img, |p| g(k, p)));
    let (mut c, mut d) = (img.clone(), img.clone());
    map_pixels_mut(&mut c, |p| f(k, p));
    map_pixels_mut_parallel(&mut d, |p| f(k, p));
    check(a.dimensions() == (w, h) && b.dimensions() == (w, h) && c.dimensions() == (w, h) && d.dimensions() == (w, h), "mapping keeps the size");
    let (mut copy, mut par, mut place, mut ppar) = (true, true, true, true);
    for y in 0..h { for x in 0..w {
        let p = *img.get_pixel(x, y);
        copy &= a.get_pixel(x, y).0 == g(k, p).0;
        par &= b.get_pixel(x, y).0 == g(k, p).0;
        place &= c.get_pixel(x, y).0 == f(k, p).0;
        ppar &= d.get_pixel(x, y).0 == f(k, p).0;
    } }
    check(copy, "map_pixels applies the function to every pixel at its place");
    check(place, "map_pixels_mut applies the function to every pixel");
    check(par && ppar, "the parallel versions agree");
}
#[no_mangle] pub extern "C" fn q_enumerated() { let (w, h) = orders(); enumerated(w, h, rgbs(w, h), u8s()) }
fn enumerated(w: u32, h: u32, img: RgbImage, k: u8) {
    let (a, b) = (map_enumerated_pixels(&img, |x, y, p| at_place(k, x, y, p)), map_enumerated_pixels_parallel(&img, |x, y, p| at_place(k, x, y, p)));
    let (mut c, mut d) = (img.clone(), img.clone());
    map_enumerated_pixels_mut(&mut c, |x, y, p| at_place(k, x, y, p));
    map_enumerated_pixels_mut_parallel(&mut d, |x, y, p| at_place(k, x, y, p));
    check(a.dimensions() == (w, h) && b.dimensions() == (w, h) && c.dimensions() == (w, h) && d.dimensions() == (w, h), "mapping keeps the size");
    let (mut copy, mut par, mut place, mut ppar) = (true, true, true, true);
    for y in 0..h { for x in 0..w {
        let want = at_place(k, x, y, *img.get_pixel(x, y)).0;
        copy &= a.get_pixel(x, y).0 == want;
        par &= b.get_pixel(x, y).0 == want;
        place &= c.get_pixel(x, y).0 == want;
        ppar &= d.get_pixel(x, y).0 == want;
    } }
    check(copy, "map_enumerated_pixels passes each pixel with its coordinates");
    check(place, "map_enumerated_pixels_mut passes each pixel with its coordinates");
    check(par && ppar, "the parallel versions agree");
}
#[no_mangle] pub extern "C" fn q_pixels2() { let (w, h) = sizes(); pixels2(w, h, rgbs(w, h), gray(w, h)) }
fn pixels2(w: u32, h: u32, a: RgbImage, b: GrayImage) {
    let o = map_pixels2(&a, &b, |p, q| Luma([p[0] as u32 + 2 * p[2] as u32 + 1000 * q[0] as u32]));
    let mut ok = o.dimensions() == (w, h);
    for y in 0..h { for x in 0..w { let (p, q) = (a.get_pixel(x, y), at(&b, x, y)); ok &= o.get_pixel(x, y)[0] == p[0] as u32 + 2 * p[2] as u32 + 1000 * q as u32 } }
    check(ok, "map_pixels2 combines the pixels of the same place");
}
#[no_mangle] pub extern "C" fn q_pixels2_sizes() {
    merging(false);
    let (w, h, u, v) = (range(0, 3) as u32, range(0, 3) as u32, range(0, 3) as u32, range(0, 3) as u32);
    let same = w == u && h == v;
    if !same { expect_panic(true) }
    let o: GrayImage = map_pixels2(&GrayImage::new(w, h), &GrayImage::new(u, v), |p: Luma<u8>, _: Luma<u8>| p);
    check(same && o.dimensions() == (w, h), "images of different sizes are refused");
}
#[no_mangle] pub extern "C" fn q_channels() { let (w, h) = sizes(); channels(w, h, rgbs(w, h)) }
fn channels(w: u32, h: u32, img: RgbImage) {
    let parts = [into_red_channel(&img), into_green_channel(&img), into_blue_channel(&img)];
    let back = [from_red_channel(&parts[0]), from_green_channel(&parts[1]), from_blue_channel(&parts[2])];
    let (mut into, mut from) = (true, true);
    for c in 0..3 {
        into &= parts[c].dimensions() == (w, h);
        from &= back[c].dimensions() == (w, h);
        for y in 0..h { for x in 0..w {
            let p = img.get_pixel(x, y);
            into &= at(&parts[c], x, y) == p[c];
            for k in 0..3 { from &= back[c].get_pixel(x, y)[k] == if k == c { p[c] } else { 0 } }
        } }
    }
    check(into, "into_*_channel takes that channel");
    check(from, "from_*_channel puts it back with the others zero");
}
/// images beyond the usual block and chunk sizes
fn large_rgb() -> (u32, u32, RgbImage, u8) {
    any_fixed_order();
    let (w, h) = large();
    (w, h, RgbImage::from_raw(w, h, big_raw((w * h * 3) as usize, 41, 4)).unwrap(), bits(2) as u8)
}
#[no_mangle] pub extern "C" fn q_large_subpixels() { let (_, _, img, k) = large_rgb(); subpixels(&img, k) }
#[no_mangle] pub extern "C" fn q_large_pixels() { let (w, h, img, k) = large_rgb(); pixels(w, h, img, k) }
#[no_mangle] pub extern "C" fn q_large_enumerated() { let (w, h, img, k) = large_rgb(); enumerated(w, h, img, k) }
#[no_mangle] pub extern "C" fn q_large_channels() { let (w, h, img, _) = large_rgb(); channels(w, h, img) }
#[no_mangle] pub extern "C" fn q_large_pixels2() { let (w, h, img, _) = large_rgb(); pixels2(w, h, img, big(w, h, 42, 3)) }
