//! Border contours of binary images.
use crate::sym::*;
use image::{GrayImage, Luma};
use imageproc::contours::{find_contours, find_contours_with_threshold, BorderType, Contour};

const OUT: [(i32, i32); 4] = [(1, 0), (-1, 0), (0, 1), (0, -1)];
struct Scene { w: i32, h: i32, fg: Vec<bool>, lab: Vec<usize>, n: usize, up: Vec<usize> }
impl Scene {
    /// components of the image framed by background: 8-connected foreground, 4-connected background;
    /// component 0 is the outside, up[] the component surrounding each
    fn new(w: u32, h: u32, f: &[bool]) -> Scene {
        let (pw, ph) = (w as i32 + 2, h as i32 + 2);
        let mut fg = vec![false; (pw * ph) as usize];
        for y in 0..h as i32 { for x in 0..w as i32 { fg[((y + 1) * pw + x + 1) as usize] = f[(y * w as i32 + x) as usize] } }
        let mut s = Scene { w: pw, h: ph, lab: vec![usize::MAX; fg.len()], fg, n: 0, up: vec![] };
        let mut todo = vec![(0usize, usize::MAX)];
        while let Some((start, up)) = todo.pop() {
            if s.lab[start] != usize::MAX { continue }
            let id = s.n; s.n += 1; s.up.push(up);
            let mut q = vec![start]; s.lab[start] = id;
            while let Some(p) = q.pop() {
                let (x, y) = (p as i32 % pw, p as i32 / pw);
                for dy in -1..=1i32 { for dx in -1..=1i32 {
                    if (dx, dy) == (0, 0) { continue }
                    let (a, b) = (x + dx, y + dy);
                    if a < 0 || b < 0 || a >= pw || b >= ph { continue }
                    let i = (b * pw + a) as usize;
                    if s.fg[i] == s.fg[start] {
                        if (s.fg[start] || dx == 0 || dy == 0) && s.lab[i] == usize::MAX { s.lab[i] = id; q.push(i) }
                    } else if (dx == 0 || dy == 0) && s.lab[i] == usize::MAX { todo.push((i, id)) }
                } }
            }
        }
        s
    }
    fn at(&self, x: i32, y: i32) -> usize { ((y + 1) * self.w + x + 1) as usize }
    fn is_fg(&self, c: usize) -> bool { let i = self.lab.iter().position(|l| *l == c).unwrap(); self.fg[i] }
    /// pixels of component a with a 4-neighbour in component b
    fn border(&self, a: usize, b: usize) -> Vec<bool> {
        let mut r = vec![false; self.fg.len()];
        for y in 0..self.h { for x in 0..self.w {
            let i = (y * self.w + x) as usize;
            if self.lab[i] != a { continue }
            for (dx, dy) in OUT {
                let (u, v) = (x + dx, y + dy);
                if u >= 0 && v >= 0 && u < self.w && v < self.h && self.lab[(v * self.w + u) as usize] == b { r[i] = true }
            }
        } }
        r
    }
}
fn judge(w: u32, h: u32, f: &[bool], cs: &[Contour<i32>]) {
    let s = Scene::new(w, h, f);
    // points: foreground, and each next to the following one
    let (mut inside, mut steps) = (true, true);
    let mut sets = vec![];
    for c in cs {
        let mut set = vec![false; s.fg.len()];
        let n = c.points.len();
        inside &= n > 0;
        for (i, p) in c.points.iter().enumerate() {
            let ok = p.x >= 0 && p.y >= 0 && p.x < w as i32 && p.y < h as i32;
            inside &= ok && s.fg[s.at(p.x, p.y)];
            if ok { set[s.at(p.x, p.y)] = true }
            let q = c.points[(i + 1) % n];
            steps &= n == 1 || (p != &q && (p.x - q.x).abs() <= 1 && (p.y - q.y).abs() <= 1);
        }
        sets.push(set);
    }
    check(inside, "contour points are foreground pixels");
    check(steps, "contour points follow one another around the border");
    check(cs.len() == s.n - 1, "one contour per region and per hole");
    let mut of = vec![usize::MAX; s.n];
    let (mut found, mut tree) = (true, true);
    for c in 1..s.n {
        let fg = s.is_fg(c);
        let set = if fg { s.border(c, s.up[c]) } else { s.border(s.up[c], c) };
        let t = if fg { BorderType::Outer } else { BorderType::Hole };
        for k in 0..cs.len() { if cs[k].border_type == t && sets[k] == set { of[c] = k } }
        found &= of[c] != usize::MAX;
    }
    check(found, "each border has a contour of its type through exactly its pixels");
    if found {
        for c in 1..s.n {
            let parent = if s.up[c] == 0 { None } else { Some(of[s.up[c]]) };
            tree &= cs[of[c]].parent == parent;
        }
        check(tree, "parent: the border directly surrounding this one");
    }
}
fn scene(w: u32, h: u32, f: Vec<bool>) {
    let img = GrayImage::from_raw(w, h, f.iter().map(|b| if *b { 255 } else { 0 }).collect()).unwrap();
    judge(w, h, &f, &find_contours::<i32>(&img));
}
fn mask(n: u32) -> Vec<bool> { (0..n).map(|_| split(bools())).collect() }
#[no_mangle] pub extern "C" fn q_small() {
    forking();
    let (w, h) = [(0, 0), (0, 2), (2, 0), (1, 1), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3)][pick(0, 8) as usize];
    scene(w, h, mask(w * h))
}
#[no_mangle] pub extern "C" fn q_3x4() { forking(); scene(3, 4, mask(12)) }
#[no_mangle] pub extern "C" fn q_4x3() { forking(); scene(4, 3, mask(12)) }
#[no_mangle] pub extern "C" fn t_4x4() { forking(); scene(4, 4, mask(16)) }
#[no_mangle] pub extern "C" fn t_5x3() { forking(); scene(5, 3, mask(15)) }
#[no_mangle] pub extern "C" fn t_3x5() { forking(); scene(3, 5, mask(15)) }
fn template(w: u32, rows: &[&str]) {
    forking();
    let f: Vec<bool> = rows.concat().bytes().map(|b| match b { b'#' => true, b'.' => false, _ => split(bools()) }).collect();
    scene(w, f.len() as u32 / w, f)
}
/// a ring whose inside, outside and wall may vary
#[no_mangle] pub extern "C" fn q_ring() { template(7, &["...?...", ".##?##.", ".#.?.#.", "?#???#?", ".#.?.#.", ".#####."]) }
/// two nested rings with a core
#[no_mangle] pub extern "C" fn q_nested() { template(9, &["#########", "#.......#", "#.#####.#", "#.#...#.#", "#?#.?.#?#", "#.#...#?#", "#.##?##.#", "#...?...#", "####?####"]) }
/// neighbouring holes
#[no_mangle] pub extern "C" fn q_holes() { template(7, &["#######", "#.?.?.#", "#?#?#?#", "#.?.?.#", "##?#?##"]) }
/// the borders of the image itself
#[no_mangle] pub extern "C" fn q_edges() { template(4, &["?##?", "?..?", "?#.?", "?##?"]) }
#[no_mangle] pub extern "C" fn t_nested() { template(9, &["####?####", "#...?...#", "#.##?##.#", "#?#...#?#", "??#???#??", "#?#...#?#", "#.##?##.#", "#...?...#", "####?####"]) }
/// pixels above the threshold are the foreground
#[no_mangle] pub extern "C" fn q_threshold() {
    forking();
    let (w, h) = [(2, 2), (3, 1), (1, 4)][pick(0, 2) as usize];
    let (img, t) = (gray(w, h), u8s());
    let cs = find_contours_with_threshold::<i32>(&img, t);
    let f: Vec<bool> = img.as_raw().iter().map(|p| *p > t).collect();
    judge(w, h, &f, &cs);
    let cs = find_contours::<i32>(&img);
    let f: Vec<bool> = img.as_raw().iter().map(|p| *p > 0).collect();
    judge(w, h, &f, &cs);
}
#[no_mangle] pub extern "C" fn q_coordinates() {
    forking();
    let m = GrayImage::from_raw(3, 2, (0..6).map(|_| if split(bools()) { 1 } else { 0 }).collect()).unwrap();
    let (a, b, c) = (find_contours::<i32>(&m), find_contours::<u8>(&m), find_contours::<u32>(&m));
    let mut ok = a.len() == b.len() && a.len() == c.len();
    for i in 0..a.len() {
        ok &= a[i].points.len() == b[i].points.len() && a[i].points.len() == c[i].points.len();
        for j in 0..a[i].points.len() {
            let (p, q, r) = (a[i].points[j], b[i].points[j], c[i].points[j]);
            ok &= p.x == q.x as i32 && p.y == q.y as i32 && p.x == r.x as i32 && p.y == r.y as i32;
        }
        ok &= a[i].parent == b[i].parent && a[i].border_type == c[i].border_type;
    }
    check(ok, "the coordinate type does not matter");
}
/// noise at several densities, nested frames and spirals in larger images
#[no_mangle] pub extern "C" fn q_large() {
    forking();
    let (w, h) = [(24u32, 13u32), (60, 4), (4, 60), (130, 2)][pick(0, 3) as usize];
    let k = pick(0, 6);
    let noise = big(w, h, 13, 0);
    let mut f: Vec<bool> = vec![];
    for y in 0..h { for x in 0..w {
        let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
        let v = at(&noise, x, y);
        f.push(match k { 0 => v < 60, 1 => v < 128, 2 => v < 200, 3 => v < 240, 4 => d % 2 == 0, 5 => d % 2 == 1, _ => (x + y) % 4 == 0 || y % 6 == 0 });
    } }
    for i in [0, w * h / 2 + w / 2] { f[i as usize] = split(bools()) }
    scene(w, h, f)
}
