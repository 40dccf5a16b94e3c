//! Clamping and pixel arithmetic.
use crate::sym::*;
use image::{Luma, LumaA, Rgb, Rgba};
use imageproc::definitions::{Clamp, HasBlack, HasWhite};
use imageproc::pixelops::*;

macro_rules! ints { ($($n:ident $from:ty, $to:ty, $b:expr;)*) => { $( #[no_mangle] pub extern "C" fn $n() {
    let x = bits($b) as $from;
    let c = <$to as Clamp<$from>>::clamp(x) as i64;
    let (lo, hi) = (<$to>::MIN as i64, <$to>::MAX as i64);
    check(c == if (x as i64) < lo { lo } else if x as i64 > hi { hi } else { x as i64 }, "the nearest value of the type");
} )* } }
ints! { q_i16_u8 i16, u8, 16; q_u16_u8 u16, u8, 16; q_i32_u8 i32, u8, 32; q_u32_u8 u32, u8, 32; q_i32_u16 i32, u16, 32; q_i32_i16 i32, i16, 32;
    q_same_u8 u8, u8, 8; q_same_i8 i8, i8, 8; q_same_u16 u16, u16, 16; q_same_i16 i16, i16, 16; q_same_u32 u32, u32, 32; q_same_i32 i32, i32, 32; q_same_i64 i64, i64, 64; }
#[no_mangle] pub extern "C" fn q_same_u64() { let x = bits(64); check(<u64 as Clamp<u64>>::clamp(x) == x, "the same value") }
#[no_mangle] pub extern "C" fn q_same_floats() {
    let x = bits(32) as u32;
    check(<f32 as Clamp<f32>>::clamp(f32::from_bits(x)).to_bits() == x, "the same f32");
    let y = bits(64);
    check(<f64 as Clamp<f64>>::clamp(f64::from_bits(y)).to_bits() == y, "the same f64");
}
/// every float: the integer part, or the nearest end of the range
macro_rules! floats { ($($n:ident $from:ty, $to:ty, $b:expr, $bt:ty;)*) => { $( #[no_mangle] pub extern "C" fn $n() {
    merging(false);
    let x = <$from>::from_bits(bits($b) as $bt);
    assume(x == x);
    let c = <$to as Clamp<$from>>::clamp(x);
    let hi = <$to>::MAX;
    let v = c as $from;
    if x <= 0.0 { check(c == 0, "zero below the range") }
    else if x >= hi as $from { check(c == hi, "the greatest value above the range") }
    else { check(v <= x && x < v + 1.0, "the integer part within it") }
} )* } }
floats! { q_f32_u8 f32, u8, 32, u32; q_f32_u16 f32, u16, 32, u32; q_f64_u8 f64, u8, 64, u64; q_f64_u16 f64, u16, 64, u64; }

/// weights in sixteenths: the exact sum, cut off and saturated
fn exact(l: u8, r: u8, a: i32, b: i32) -> u8 {
    let s = l as i32 * a + r as i32 * b;
    if s < 0 { 0 } else if s / 16 > 255 { 255 } else { (s / 16) as u8 }
}
#[no_mangle] pub extern "C" fn q_weighted() {
    let (l, r) = (u8s(), u8s());
    let ws = [0, 1, 4, 8, 11, 16, 24, -8, -1, 40];
    let (a, b) = (ws[pick(0, 9) as usize], ws[pick(0, 9) as usize]);
    let o = weighted_sum(Luma([l]), Luma([r]), a as f32 / 16.0, b as f32 / 16.0);
    check(o.0[0] == exact(l, r, a, b), "the weighted sum, saturated");
}
#[no_mangle] pub extern "C" fn q_interpolate() {
    let (l, r) = (u8s(), u8s());
    let a = pick(-4, 20) as i32;
    let o = interpolate(Luma([l]), Luma([r]), a as f32 / 16.0);
    check(o.0[0] == exact(l, r, a, 16 - a), "weight and one minus the weight");
    if a >= 0 && a <= 16 {
        let (lo, hi) = if l < r { (l, r) } else { (r, l) };
        check(o.0[0] >= lo && o.0[0] <= hi, "between the two values");
    }
    if a == 0 { check(o.0[0] == r, "weight zero gives the right pixel") }
    if a == 16 { check(o.0[0] == l, "weight one gives the left pixel") }
}
/// any weight between nought and one, for chosen values
#[no_mangle] pub extern "C" fn q_any_weight() {
    forking();
    let k = bits(8) as u32;
    let w = k as f32 / 255.0;
    let vs = [(0u8, 255u8), (255, 0), (7, 7), (100, 101), (255, 255), (3, 200)];
    let (l, r) = vs[pick(0, 5) as usize];
    let o = interpolate(Luma([l]), Luma([r]), w).0[0] as f64;
    let e = l as f64 * w as f64 + r as f64 * (1.0 - w as f64);
    check(o <= e + 1e-3 && o > e - 1.001, "the interpolated value, cut off");
}
/// channels are treated alike and apart
#[no_mangle] pub extern "C" fn q_channels() {
    let a = pick(0, 4) as i32 * 4;
    let (p, q) = (rgba_px(), rgba_px());
    let o = weighted_sum(p, q, a as f32 / 16.0, 0.5);
    let mut ok = true;
    for c in 0..4 { ok &= o.0[c] == exact(p.0[c], q.0[c], a, 8) }
    let (p, q) = (rgb_px(), rgb_px());
    let o = interpolate(p, q, a as f32 / 16.0);
    for c in 0..3 { ok &= o.0[c] == exact(p.0[c], q.0[c], a, 16 - a) }
    check(ok, "every channel by itself");
}
#[no_mangle] pub extern "C" fn q_u16() {
    let (l, r) = (u16s(), u16s());
    let a = pick(0, 4) as i64 * 4;
    let o = weighted_sum(Luma([l]), Luma([r]), a as f32 / 16.0, 0.75);
    let s = (l as i64 * a + r as i64 * 12) / 16;
    check(o.0[0] as i64 == if s > 65535 { 65535 } else { s }, "16-bit pixels");
}
#[no_mangle] pub extern "C" fn q_black_white() {
    let k = pick(0, 7);
    let ok = match k {
        0 => Luma::<u8>::black().0 == [0] && Luma::<u8>::white().0 == [255],
        1 => Luma::<u16>::black().0 == [0] && Luma::<u16>::white().0 == [65535],
        2 => LumaA::<u8>::black().0 == [0, 255] && LumaA::<u8>::white().0 == [255, 255],
        3 => LumaA::<u16>::black().0 == [0, 65535] && LumaA::<u16>::white().0 == [65535, 65535],
        4 => Rgb::<u8>::black().0 == [0; 3] && Rgb::<u8>::white().0 == [255; 3],
        5 => Rgb::<u16>::black().0 == [0; 3] && Rgb::<u16>::white().0 == [65535; 3],
        6 => Rgba::<u8>::black().0 == [0, 0, 0, 255] && Rgba::<u8>::white().0 == [255; 4],
        _ => Rgba::<u16>::black().0 == [0, 0, 0, 65535] && Rgba::<u16>::white().0 == [65535; 4],
    };
    check(ok, "black is zero and opaque, white is full and opaque");
}
