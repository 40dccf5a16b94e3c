//! Symbolic inputs and assertions. The extern functions are interpreted by the symbolic
//! executor; in a native replay they are provided by the replay process.
#![allow(dead_code)]
use image::{GrayImage, ImageBuffer, Luma, LumaA, Primitive, Rgb, RgbImage, Rgba};

mod ffi {
    extern "C" {
        pub fn symx_u64(w: u32) -> u64;
        pub fn symx_assume(c: bool);
        pub fn symx_check(c: bool, p: *const u8, n: usize);
        pub fn symx_cover(c: bool, p: *const u8, n: usize);
        pub fn symx_observe(x: u64);
        pub fn symx_expect_panic(b: u32);
        pub fn symx_merge(b: u32);
        pub fn symx_limit(n: u64);
        pub fn symx_known(c: bool, p: *const u8, n: usize);
        pub fn symx_split(c: bool) -> bool;
        pub fn symx_concrete(x: u64) -> u64;
        pub fn symx_choose(n: u64) -> u64;
        pub fn symx_native() -> u32;
        pub fn symx_print(x: u64);
    }
}
#[inline(always)] pub fn bits(w: u32) -> u64 { unsafe { ffi::symx_u64(w) } }
#[inline(always)] pub fn u8s() -> u8 { bits(8) as u8 }
#[inline(always)] pub fn u16s() -> u16 { bits(16) as u16 }
#[inline(always)] pub fn u32s() -> u32 { bits(32) as u32 }
#[inline(always)] pub fn u64s() -> u64 { bits(64) }
#[inline(always)] pub fn i8s() -> i8 { bits(8) as u8 as i8 }
#[inline(always)] pub fn i16s() -> i16 { bits(16) as u16 as i16 }
#[inline(always)] pub fn i32s() -> i32 { bits(32) as u32 as i32 }
#[inline(always)] pub fn f32s() -> f32 { f32::from_bits(bits(32) as u32) }
#[inline(always)] pub fn bools() -> bool { bits(1) == 1 }
#[inline(always)] pub fn assume(c: bool) { unsafe { ffi::symx_assume(c) } }
#[inline(always)] pub fn check(c: bool, l: &'static str) { unsafe { ffi::symx_check(c, l.as_ptr(), l.len()) } }
/// vacuity guard: some explored path must satisfy the condition
#[inline(always)] pub fn cover(c: bool, l: &'static str) { unsafe { ffi::symx_cover(c, l.as_ptr(), l.len()) } }
#[inline(always)] pub fn observe(x: u64) { unsafe { ffi::symx_observe(x) } }
#[inline(always)] pub fn expect_panic(b: bool) { unsafe { ffi::symx_expect_panic(b as u32) } }
/// true (default): join states at control-flow joins; false: one state per path
#[inline(always)] pub fn merging(b: bool) { unsafe { ffi::symx_merge(b as u32) } }
/// one state per path, and one path per outcome of a conditional move
#[inline(always)] pub fn forking() { unsafe { ffi::symx_merge(2) } }
/// join states at every block they meet in, also inside loops with several exits
#[inline(always)] pub fn lockstep() { unsafe { ffi::symx_merge(3) } }
/// as lockstep, but states with different concrete values stay apart
#[inline(always)] pub fn lockstep_strict() { unsafe { ffi::symx_merge(4) } }
#[inline(always)] pub fn step_limit(n: u64) { unsafe { ffi::symx_limit(n) } }
#[inline(always)] pub fn known(c: bool, l: &'static str) { unsafe { ffi::symx_known(c, l.as_ptr(), l.len()) } }
#[inline(always)] pub fn split(c: bool) -> bool { unsafe { ffi::symx_split(c) } }
#[inline(always)] pub fn concrete(x: u64) -> u64 { unsafe { ffi::symx_concrete(x) } }
#[inline(always)] pub fn print(x: u64) { unsafe { ffi::symx_print(x) } }
/// a symbolic value in lo..=hi
#[inline(never)] pub fn range(lo: i64, hi: i64) -> i64 {
    let n = (hi - lo) as u64;
    let w = (64 - n.leading_zeros()).max(1);
    let v = bits(w);
    if n + 1 != 1u64 << w { assume(v <= n) }
    lo + v as i64
}
/// a value in lo..=hi, one path per value
#[inline(never)] pub fn pick(lo: i64, hi: i64) -> i64 { lo + unsafe { ffi::symx_choose((hi - lo + 1) as u64) } as i64 }

pub type Gray16 = ImageBuffer<Luma<u16>, Vec<u16>>;
pub type Gray32 = ImageBuffer<Luma<u32>, Vec<u32>>;
pub type Gray16i = ImageBuffer<Luma<i16>, Vec<i16>>;
pub type Gray32i = ImageBuffer<Luma<i32>, Vec<i32>>;
pub type Gray32f = ImageBuffer<Luma<f32>, Vec<f32>>;
/// grayscale image with b-bit symbolic pixels
#[inline(never)] pub fn gray_bits(w: u32, h: u32, b: u32) -> GrayImage {
    let n = (w * h) as usize;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(bits(b) as u8) }
    GrayImage::from_raw(w, h, v).unwrap()
}
pub fn gray(w: u32, h: u32) -> GrayImage { gray_bits(w, h, 8) }
/// image of 0 / 255 pixels
#[inline(never)] pub fn binary(w: u32, h: u32) -> GrayImage {
    let n = (w * h) as usize;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push((bits(1) as u8).wrapping_neg()) }
    GrayImage::from_raw(w, h, v).unwrap()
}
#[inline(never)] pub fn rgb(w: u32, h: u32) -> RgbImage {
    let n = (w * h * 3) as usize;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(u8s()) }
    RgbImage::from_raw(w, h, v).unwrap()
}
#[inline(never)] pub fn gray16(w: u32, h: u32) -> Gray16 {
    let n = (w * h) as usize;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(u16s()) }
    Gray16::from_raw(w, h, v).unwrap()
}
#[inline(always)] pub fn at(i: &GrayImage, x: u32, y: u32) -> u8 { i.as_raw()[(y * i.width() + x) as usize] }
/// pixel with coordinates clamped into the image (replicated border)
#[inline(always)] pub fn atc(i: &GrayImage, x: i32, y: i32) -> u8 {
    let cx = x.max(0).min(i.width() as i32 - 1) as u32;
    let cy = y.max(0).min(i.height() as i32 - 1) as u32;
    at(i, cx, cy)
}
pub fn observe_img(i: &GrayImage) { for p in i.as_raw() { observe(*p as u64) } }
pub fn rgb_px() -> Rgb<u8> { Rgb([u8s(), u8s(), u8s()]) }
pub fn rgba_px() -> Rgba<u8> { Rgba([u8s(), u8s(), u8s(), u8s()]) }
pub fn luma_a_px() -> LumaA<u8> { LumaA([u8s(), u8s()]) }
pub fn same<T: Primitive>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for i in 0..a.len() { r &= a[i] == b[i] }
    r
}
/// the order in which the two sides of every rayon join run: 0, 1 fixed; 2 every combination
pub fn par_order(o: u32) { rayon_core::symx_set_order(o) }
pub fn par_threads(n: u32) { rayon_core::symx_set_threads(n) }
/// one path per fixed order
pub fn any_fixed_order() { par_order(pick(0, 1) as u32) }
/// pseudo-random pixels of the given seed, k of them (first, last, evenly between) arbitrary
#[inline(never)] pub fn big_raw(n: usize, seed: u32, k: usize) -> Vec<u8> {
    let mut s = seed.wrapping_mul(2654435761).wrapping_add(12345);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { s ^= s << 13; s ^= s >> 17; s ^= s << 5; v.push((s >> 11) as u8) }
    for i in 0..k { if n > 0 { v[i * (n - 1) / (k.max(2) - 1)] = u8s() } }
    v
}
pub fn big(w: u32, h: u32, seed: u32, k: usize) -> GrayImage { GrayImage::from_raw(w, h, big_raw((w * h) as usize, seed, k)).unwrap() }
/// as big, with 0 and 255 only
#[inline(never)] pub fn big_binary(w: u32, h: u32, seed: u32, k: usize) -> GrayImage {
    let n = (w * h) as usize;
    let mut v = big_raw(n, seed, 0);
    for p in v.iter_mut() { *p = if *p & 1 == 1 { 255 } else { 0 } }
    for i in 0..k { v[i * (n - 1) / (k.max(2) - 1)] = (bits(1) as u8).wrapping_neg() }
    GrayImage::from_raw(w, h, v).unwrap()
}
/// shapes beyond the usual block and chunk sizes
pub fn large() -> (u32, u32) { [(37, 23), (70, 9), (9, 70), (130, 3), (3, 130), (260, 2), (2, 260)][pick(0, 6) as usize] }
