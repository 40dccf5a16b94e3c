//! Binary descriptors: BRIEF, bit strings and matching.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::binary_descriptors::brief::*;
use imageproc::binary_descriptors::*;
use imageproc::corners::Corner;
use imageproc::point::Point;

/// test pairs over the whole 31x31 patch; the first and last of each 128 lie around the free pixel
fn pairs(n: usize) -> Vec<TestPair> {
    (0..n).map(|i| {
        let k = i as u32;
        if i % 128 == 0 { return TestPair { p0: Point::new(14, 14), p1: Point::new(20, 3) } }
        if i % 128 == 127 { return TestPair { p0: Point::new(30, 30), p1: Point::new(13, 15) } }
        let p = |a: u32| (a * 7919 + a / 3 * 104729) % 31;
        TestPair { p0: Point::new(p(k), p(k * 3 + 1)), p1: Point::new(p(k * 5 + 2), if i % 9 == 0 { 0 } else { p(k * 2 + 7) }) }
    }).collect()
}
fn background(x: u32, y: u32) -> u8 { ((x * 37 + y * 101 + x * y * 13 + x * x * 7) % 211) as u8 }
/// rounded-down mean of the part of the 5x5 square inside the image
fn mean(img: &GrayImage, x: i64, y: i64) -> u32 {
    let (mut s, mut n) = (0u32, 0);
    for b in y - 2..=y + 2 { for a in x - 2..=x + 2 {
        if a >= 0 && b >= 0 && a < img.width() as i64 && b < img.height() as i64 { s += at(img, a as u32, b as u32) as u32; n += 1 }
    } }
    if n == 0 { 0 } else { s / n }
}
fn judge(img: &GrayImage, kps: &[Point<u32>], tp: &Vec<TestPair>) {
    match brief(img, kps, tp.len(), Some(tp)) {
        Err(_) => check(false, "keypoints at least 17 pixels from the edges are accepted"),
        Ok((ds, used)) => {
            check(used == *tp && ds.len() == kps.len(), "one descriptor per keypoint, and the test pairs used");
            if ds.len() != kps.len() { return }
            let mut ok = true;
            for (d, k) in ds.iter().zip(kps) {
                ok &= d.bits.len() * 128 == tp.len() && d.get_size() as usize == tp.len() && d.position() == *k;
                for (i, t) in tp.iter().enumerate() {
                    let at = |p: Point<u32>| mean(img, k.x as i64 - 14 + p.x as i64, k.y as i64 - 14 + p.y as i64);
                    let bit = (d.bits[i / 128] >> (127 - i % 128)) & 1 == 1;
                    ok &= bit == (at(t.p0) < at(t.p1));
                }
            }
            check(ok, "every bit, from the most significant, is the outcome of its test");
        }
    }
}
#[no_mangle] pub extern "C" fn q_brief() {
    let v = u8s();
    let (x0, y0) = [(16u32, 16u32), (18, 17), (30, 30), (3, 3)][pick(0, 3) as usize];
    let img = GrayImage::from_fn(34, 35, |x, y| Luma([if (x, y) == (x0, y0) { v } else { background(x, y) }]));
    judge(&img, &[Point::new(16, 16)], &pairs(128))
}
#[no_mangle] pub extern "C" fn q_brief_two() {
    let v = u8s();
    let img = GrayImage::from_fn(35, 35, |x, y| Luma([if (x, y) == (17, 17) { v } else { background(x, y) }]));
    judge(&img, &[Point::new(17, 16), Point::new(16, 18), Point::new(17, 16)], &pairs(256))
}
/// contrast at its greatest, so that sums are large
#[no_mangle] pub extern "C" fn q_brief_bright() {
    let v = u8s();
    let img = GrayImage::from_fn(33, 33, |x, y| Luma([if x / 5 % 2 == 0 && y < 30 { 255 } else if x == 16 { v } else { 0 }]));
    judge(&img, &[Point::new(16, 16)], &pairs(128))
}
/// which keypoints are accepted
#[no_mangle] pub extern "C" fn q_edges() {
    merging(false);
    let (w, h) = [(33u32, 33u32), (40, 36), (32, 40), (5, 5), (1, 70)][pick(0, 4) as usize];
    let img = GrayImage::from_pixel(w, h, Luma([9]));
    let (mut x, mut y) = (range(0, 70) as u32, [0u32, 15, 16, 17, 23, u32::MAX][pick(0, 5) as usize]);
    if pick(0, 1) == 1 { std::mem::swap(&mut x, &mut y) }
    let tp = pairs(128);
    let ok = x >= 16 && y >= 16 && x <= 1000 && x + 17 <= w && y <= 1000 && y + 17 <= h;
    let ok2 = x >= 16 && y >= 16 && x <= 1000 && x + 17 <= w && y <= 1000 && y + 17 <= h;
    let kps = if pick(0, 1) == 0 { vec![Point::new(x, y)] } else if w >= 33 && h >= 33 { vec![Point::new(16, 16), Point::new(x, y)] } else { vec![Point::new(x, y), Point::new(16, 16)] };
    let ok = ok && (ok2 || kps.len() == 1);
    check(brief(&img, &kps, 128, Some(&tp)).is_ok() == ok, "an error exactly for keypoints less than 17 pixels from an edge");
}
#[no_mangle] pub extern "C" fn q_lengths() {
    let img = GrayImage::from_pixel(33, 33, Luma([9]));
    let n = [128usize, 127, 129, 1, 256, 64][pick(0, 5) as usize];
    let len = [128usize, 256, 127, 1, 100][pick(0, 4) as usize];
    let none: [Point<u32>; 0] = [];
    let r = brief(&img, &none, len, Some(&pairs(n)));
    check(r.is_ok() == (len == n && len % 128 == 0), "lengths must be multiples of 128 and that of the test pairs");
}
fn words(n: usize) -> Vec<u128> { (0..n).map(|_| (bits(64) as u128) << 64 | bits(64) as u128).collect() }
fn descriptor(bits: Vec<u128>) -> BriefDescriptor { BriefDescriptor { bits, corner: Corner::new(3, 4, 5.0) } }
#[no_mangle] pub extern "C" fn q_hamming() {
    let n = pick(1, 2) as usize;
    let few = |n: usize| -> Vec<u128> { let mut v = vec![0x5a5a_0000_ffff_1234_8000_0000_0000_0001u128; n]; for i in [0usize, 1, 63, 64, 100, 127] { for w in v.iter_mut() { *w ^= (bools() as u128) << i } } v };
    let (a, b) = (few(n), few(n));
    let mut want = 0u32;
    for i in 0..n { let x = a[i] ^ b[i]; for k in 0..128 { want += ((x >> k) & 1) as u32 } }
    let (p, q) = (descriptor(a), descriptor(b));
    check(p.hamming_distance(&q) == want, "number of differing bits");
    check(p.hamming_distance(&p) == 0, "no distance to itself");
    check(p.get_size() == 128 * n as u32 && p.position() == Point::new(3, 4), "size and position");
}
#[no_mangle] pub extern "C" fn q_hamming_sizes() {
    let (n, m) = (pick(1, 3) as usize, pick(1, 3) as usize);
    if n != m { expect_panic(true) }
    let d = descriptor(words(n)).hamming_distance(&descriptor(words(m)));
    check(n == m && d <= 128 * n as u32, "descriptors of unequal length are refused");
}
#[no_mangle] pub extern "C" fn q_subset() {
    let w = words(2);
    let idx: Vec<u32> = match pick(0, 4) {
        0 => vec![], 1 => vec![pick(0, 255) as u32], 2 => vec![0, 255, 127, 128], 3 => vec![5, 5, 200, 5],
        _ => (0..128).map(|i| (i * 77 + 3) % 256).collect(),
    };
    let mut want = 0u128;
    for b in &idx { want = (want << 1) | ((w[*b as usize / 128] >> (b % 128)) & 1) }
    check(descriptor(w).get_bit_subset(&idx) == want, "the chosen bits, in order");
}
#[no_mangle] pub extern "C" fn q_subset_long() {
    let n = pick(127, 130) as usize;
    if n > 128 { expect_panic(true) }
    let idx = vec![1u32; n];
    let s = descriptor(vec![2]).get_bit_subset(&idx);
    check(n <= 128 && s == if n == 128 { u128::MAX } else { (1 << n) - 1 }, "more than 128 bits are refused");
}

/// a descriptor of a few bits that remembers by which bits it was hashed
struct D { id: u32, v: Vec<bool> }
static mut ASKED: Vec<Vec<u32>> = Vec::new();
impl BinaryDescriptor for D {
    fn get_size(&self) -> u32 { 128 }
    fn hamming_distance(&self, other: &Self) -> u32 { let mut n = 0; for i in 0..self.v.len() { n += (self.v[i] != other.v[i]) as u32 } n }
    fn get_bit_subset(&self, bits: &[u32]) -> u128 {
        #[allow(static_mut_refs)]
        unsafe { if !ASKED.iter().any(|a| a == bits) { ASKED.push(bits.to_vec()) } }
        let mut s = 0; for b in bits { s = s << 1 | self.v[*b as usize % self.v.len()] as u128 } s
    }
    fn position(&self) -> Point<u32> { Point::new(self.id, 0) }
}
fn some(n: usize, k: usize, from: u32) -> Vec<D> { (0..n).map(|i| D { id: from + i as u32, v: (0..k).map(|_| split(bools())).collect() }).collect() }
fn matching(n1: usize, n2: usize, k: usize) {
    forking();
    #[allow(static_mut_refs)]
    unsafe { ASKED.clear() }
    let (d1, d2) = (some(n1, k, 0), some(n2, k, 100));
    let threshold = [0u32, 1, 9][pick(0, 2) as usize];
    let got = match_binary_descriptors(&d1, &d2, threshold, Some(pick(0, 1) as u64 * 77));
    #[allow(static_mut_refs)]
    let asked = unsafe { ASKED.clone() };
    let mut ok = true;
    for (a, b) in &got {
        ok &= d1.iter().any(|d| std::ptr::eq(d, *a)) && d2.iter().any(|d| std::ptr::eq(d, *b));
        ok &= a.hamming_distance(b) < threshold;
    }
    check(ok, "pairs of a descriptor of d1 and one of d2 nearer than the threshold");
    let swapped = n1 > n2;
    let (queries, database) = if swapped { (&d2, &d1) } else { (&d1, &d2) };
    let mut i = 0;
    let mut best_ok = true;
    for q in queries.iter() {
        // the nearest of those with the same hash in one of the tables
        let mut best = u32::MAX;
        for d in database.iter() {
            let same = asked.iter().any(|bits| q.get_bit_subset(bits) == d.get_bit_subset(bits));
            if same && q.hamming_distance(d) < best { best = q.hamming_distance(d) }
        }
        let found = i < got.len() && std::ptr::eq(if swapped { got[i].1 } else { got[i].0 }, q);
        best_ok &= found == (best < threshold);
        if found { best_ok &= got[i].0.hamming_distance(got[i].1) == best; i += 1 }
    }
    check(best_ok && i == got.len(), "for each descriptor the nearest of those hashed alike, once, if below the threshold");
    if n1 > 0 && n2 > 0 { check(asked.len() <= 3 && asked.iter().all(|b| b.iter().all(|i| *i < 128)), "at most three tables of valid bits") }
    let mut copies = true;
    for a in &d1 {
        let copy = d2.iter().any(|b| a.hamming_distance(b) == 0);
        if copy && threshold > 0 { copies &= got.iter().any(|p| std::ptr::eq(p.0, a)) }
    }
    known(n1 > n2 && !copies, "d1 longer than d2");
    check(copies, "descriptors of d1 with an exact copy in d2 are matched");
}
#[no_mangle] pub extern "C" fn q_match() { let (a, b) = [(1usize, 1usize), (1, 2), (2, 2), (2, 3)][pick(0, 3) as usize]; matching(a, b, 2) }
#[no_mangle] pub extern "C" fn q_match_more() { matching(1, 4, 2) }
#[no_mangle] pub extern "C" fn q_match_wide() { matching(1, 2, 3) }
#[no_mangle] pub extern "C" fn q_match_longer() { let (a, b) = [(2usize, 1usize), (3, 2), (3, 1)][pick(0, 2) as usize]; matching(a, b, 2) }
#[no_mangle] pub extern "C" fn q_match_empty() { let (a, b) = [(0usize, 1usize), (2, 0), (0, 0)][pick(0, 2) as usize]; matching(a, b, 1) }
#[no_mangle] pub extern "C" fn t_match() { matching(2, 4, 2) }
#[no_mangle] pub extern "C" fn t_match_wide() { matching(2, 2, 3) }
