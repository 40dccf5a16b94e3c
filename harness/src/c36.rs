//! Text, drawn in a font of boxes.
use crate::sym::*;
use ab_glyph::{point, v2, CodepointIdIter, Font, GlyphId, Outline, OutlineCurve, PxScale, Rect};
use image::{GrayImage, Luma, RgbImage};
use imageproc::definitions::{HasBlack, HasWhite};
use imageproc::drawing::*;

/// glyphs that are boxes (left, bottom, right, top), with advances and kerning; ten units high, eight of them above the base line
struct Boxes { ab: f32, ba: f32 }
const A: [f32; 4] = [0.0, 0.0, 2.0, 3.0];
const B: [f32; 4] = [0.5, -1.0, 2.0, 1.5];
const C: [f32; 4] = [-1.0, 0.0, 1.0, 8.0];
fn shape(id: u16) -> Option<[f32; 4]> { match id { 1 => Some(A), 2 => Some(B), 3 => Some(C), _ => None } }
fn advance(id: u16) -> f32 { [0.0, 3.0, 2.5, 2.0, 2.0][id as usize] }
impl Font for Boxes {
    fn units_per_em(&self) -> Option<f32> { None }
    fn ascent_unscaled(&self) -> f32 { 8.0 }
    fn descent_unscaled(&self) -> f32 { -2.0 }
    fn line_gap_unscaled(&self) -> f32 { 0.0 }
    fn glyph_id(&self, c: char) -> GlyphId { GlyphId(match c { 'a' => 1, 'b' => 2, 'c' => 3, ' ' => 4, _ => 0 }) }
    fn h_advance_unscaled(&self, id: GlyphId) -> f32 { advance(id.0) }
    fn h_side_bearing_unscaled(&self, _: GlyphId) -> f32 { 0.0 }
    fn v_advance_unscaled(&self, _: GlyphId) -> f32 { 0.0 }
    fn v_side_bearing_unscaled(&self, _: GlyphId) -> f32 { 0.0 }
    fn kern_unscaled(&self, first: GlyphId, second: GlyphId) -> f32 { match (first.0, second.0) { (1, 2) => self.ab, (2, 1) => self.ba, _ => 0.0 } }
    fn outline(&self, id: GlyphId) -> Option<Outline> {
        let [l, b, r, t] = shape(id.0)?;
        let (p, q, s, u) = (point(l, b), point(r, b), point(r, t), point(l, t));
        Some(Outline { bounds: Rect { min: point(l, t), max: point(r, b) }, curves: vec![OutlineCurve::Line(p, q), OutlineCurve::Line(q, s), OutlineCurve::Line(s, u), OutlineCurve::Line(u, p)] })
    }
    fn glyph_count(&self) -> usize { 5 }
    fn codepoint_ids(&self) -> CodepointIdIter<'_> { unimplemented!() }
    fn glyph_raster_image2(&self, _: GlyphId, _: u16) -> Option<v2::GlyphImage<'_>> { None }
}
const PLAIN: Boxes = Boxes { ab: 0.0, ba: 0.0 };
/// where the glyphs go and how wide the text is
fn layout(font: &Boxes, sx: f32, text: &str) -> (Vec<(f32, u16)>, f32) {
    let (mut pen, mut v, mut prev) = (0.0f32, vec![], 0u16);
    for ch in text.chars() {
        let id = font.glyph_id(ch).0;
        pen += sx * font.kern_unscaled(GlyphId(prev), GlyphId(id));
        v.push((pen, id));
        pen += sx * advance(id);
        prev = id;
    }
    (v, pen)
}
fn overlap(a: f32, b: f32, p: f32) -> f32 { let (lo, hi) = (if a > p { a } else { p }, if b < p + 1.0 { b } else { p + 1.0 }); if hi > lo { hi - lo } else { 0.0 } }
/// the layout of the known finding: pairs the wrong way round, and moving only the glyphs after them
fn reversed(font: &Boxes, sx: f32, text: &str) -> (Vec<(f32, u16)>, f32) {
    let (mut pen, mut v, mut prev) = (0.0f32, vec![], 0u16);
    for ch in text.chars() {
        let id = font.glyph_id(ch).0;
        v.push((pen, id));
        pen += sx * advance(id);
        if shape(id).is_some() { pen += sx * font.kern_unscaled(GlyphId(id), GlyphId(prev)); prev = id }
    }
    (v, pen)
}
fn picture(img: &GrayImage, color: u8, glyphs: Vec<(f32, u16)>, x: i32, y: i32, (sx, sy): (f32, f32)) -> Vec<i32> {
    let (w, h) = img.dimensions();
    let mut want: Vec<i32> = img.pixels().map(|p| p[0] as i32).collect();
    for (pen, id) in glyphs {
        let Some([l, b, r, t]) = shape(id) else { continue };
        for py in 0..h { for px in 0..w {
            let (dx, dy) = ((px as i64 - x as i64) as f32, (py as i64 - y as i64) as f32);
            let cover = overlap(pen + l * sx, pen + r * sx, dx) * overlap(8.0 * sy - t * sy, 8.0 * sy - b * sy, dy);
            let k = (cover * 16.0) as i32;
            let at = (py * w + px) as usize;
            want[at] = (want[at] * (16 - k) + color as i32 * k) / 16;
        } }
    }
    want
}
fn judge(font: &Boxes, w: u32, h: u32, x: i32, y: i32, scale: PxScale, text: &str) {
    let (img, color) = (gray(w, h), Luma([u8s()]));
    let s = (scale.x / 10.0, scale.y / 10.0);
    let out = draw_text(&img, color, x, y, scale, font, text);
    let mut inplace = img.clone();
    draw_text_mut(&mut inplace, color, x, y, scale, font, text);
    let same = |want: Vec<i32>| { let mut ok = out.dimensions() == (w, h); for py in 0..h { for px in 0..w { let e = want[(py * w + px) as usize]; ok &= at(&out, px, py) as i32 == e && at(&inplace, px, py) as i32 == e } } ok };
    let ok = same(picture(&img, color[0], layout(font, s.0, text).0, x, y, s));
    if font.ab != 0.0 || font.ba != 0.0 { known(!ok && same(picture(&img, color[0], reversed(font, s.0, text).0, x, y, s)), "kerning reversed") }
    check(ok, "every pixel is mixed with the colour by the share of it that each glyph covers, all else is kept");
}
fn texts() -> &'static str { ["", "a", "ab", " a", "aa c", "ca", "b\u{e9}b", "c"][pick(0, 7) as usize] }
#[no_mangle] pub extern "C" fn q_glyphs() {
    let s = [10.0f32, 5.0, 20.0][pick(0, 2) as usize];
    judge(&PLAIN, 9, 9, pick(0, 1) as i32, 0, PxScale::from(s), texts());
}
#[no_mangle] pub extern "C" fn q_unequal_scale() { judge(&PLAIN, 8, 9, 0, 0, PxScale { x: [20.0, 5.0][pick(0, 1) as usize], y: [10.0, 5.0][pick(0, 1) as usize] }, texts()) }
#[no_mangle] pub extern "C" fn q_kerning() {
    let font = Boxes { ab: [-1.0, 0.5, 0.0][pick(0, 2) as usize], ba: [0.0, 1.0, -0.5][pick(0, 2) as usize] };
    let text = ["ab", "ba", "aba", "bab", "a b", "acb"][pick(0, 5) as usize];
    judge(&font, 9, 9, 1, 0, PxScale::from(10.0), text);
    size(&font, PxScale::from(10.0), text);
}
/// clipping on every side, up to the furthest positions
#[no_mangle] pub extern "C" fn q_clip() {
    let (x, y) = (pick(-6, 6) as i32, pick(-9, 5) as i32);
    judge(&PLAIN, 5, 4, x, y, PxScale::from(10.0), "ab");
}
#[no_mangle] pub extern "C" fn q_far() {
    let far = [i32::MIN, i32::MIN + 1, i32::MAX - 1, i32::MAX, 0];
    judge(&PLAIN, 3, 2, far[pick(0, 4) as usize], far[pick(0, 4) as usize], PxScale::from(10.0), ["ab", "c"][pick(0, 1) as usize]);
}
#[no_mangle] pub extern "C" fn q_empty() {
    let (w, h) = [(0u32, 0u32), (0, 4), (4, 0)][pick(0, 2) as usize];
    judge(&PLAIN, w, h, pick(-1, 1) as i32, 0, PxScale::from(10.0), texts());
}
fn size(font: &Boxes, scale: PxScale, text: &str) {
    let (_, width) = layout(font, scale.x / 10.0, text);
    let of = |width: f32| if text.is_empty() { (0, 0) } else { (1 + width.ceil() as u32, scale.y.ceil() as u32) };
    let got = text_size(scale, font, text);
    known(got != of(width) && got == of(reversed(font, scale.x / 10.0, text).1), "kerning reversed");
    check(got == of(width), "as wide as the advances with their kerning, as high as the font");
}
#[no_mangle] pub extern "C" fn q_size() {
    forking();
    let s = bits(8) as u32 as f32 / 8.0;
    size(&PLAIN, if pick(0, 1) == 0 { PxScale { x: s, y: 12.0 } } else { PxScale { x: 10.0, y: s } }, texts());
}
/// three channels alike
#[no_mangle] pub extern "C" fn q_rgb() {
    let img = RgbImage::from_fn(4, 9, |_, _| rgb_px());
    let color = rgb_px();
    let out = draw_text(&img, color, 1, 0, 10.0, &PLAIN, "b");
    let mut ok = true;
    for c in 0..3 {
        let plane = GrayImage::from_fn(4, 9, |x, y| Luma([img.get_pixel(x, y)[c]]));
        let o = draw_text(&plane, Luma([color[c]]), 1, 0, 10.0, &PLAIN, "b");
        for y in 0..9 { for x in 0..4 { ok &= out.get_pixel(x, y)[c] == at(&o, x, y) } }
    }
    check(ok, "channels are drawn alike and apart");
    let _ = (Luma::<u8>::black(), Luma::<u8>::white());
}
