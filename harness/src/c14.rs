//! Connected component labelling and the disjoint set forest.
use crate::sym::*;
use image::{GrayImage, Luma, RgbImage, Rgb};
use imageproc::region_labelling::{connected_components, Connectivity};
use imageproc::union_find::DisjointSetForest;

fn conn(k: i64) -> Connectivity { [Connectivity::Four, Connectivity::Eight][k as usize] }
fn adjacent(c: Connectivity, a: (i32, i32), b: (i32, i32)) -> bool {
    let (dx, dy) = ((a.0 - b.0).abs(), (a.1 - b.1).abs());
    match c { Connectivity::Four => dx + dy == 1, Connectivity::Eight => dx.max(dy) == 1 }
}
/// component representative of every pixel by relaxation, usize::MAX for the background
fn components<F: Fn(usize) -> bool, G: Fn(usize, usize) -> bool>(w: u32, h: u32, c: Connectivity, bg: F, eq: G) -> Vec<usize> {
    let n = (w * h) as usize;
    let mut rep: Vec<usize> = (0..n).map(|i| if bg(i) { usize::MAX } else { i }).collect();
    let pos = |i: usize| ((i as u32 % w) as i32, (i as u32 / w) as i32);
    let mut edges = vec![];
    for a in 0..n { for b in 0..a {
        if rep[a] != usize::MAX && rep[b] != usize::MAX && adjacent(c, pos(a), pos(b)) && eq(a, b) { edges.push((a, b)) }
    } }
    loop {
        let mut changed = false;
        for &(a, b) in &edges {
            let m = rep[a].min(rep[b]);
            if rep[a] != m || rep[b] != m { rep[a] = m; rep[b] = m; changed = true }
        }
        if !changed { break }
    }
    rep
}
fn judge(out: &[u32], rep: &[usize]) {
    let n = rep.len();
    check(out.len() == n, "labels: size of the input");
    let (mut zero, mut part) = (true, true);
    for a in 0..n {
        zero &= (out[a] == 0) == (rep[a] == usize::MAX);
        for b in 0..a { if rep[a] != usize::MAX && rep[b] != usize::MAX { part &= (out[a] == out[b]) == (rep[a] == rep[b]) } }
    }
    check(zero, "label 0 exactly for the background");
    check(part, "same label exactly for connected pixels of one colour");
    let count = (0..n).filter(|&i| rep[i] == i).count() as u32;
    let mut max = 0;
    for l in out { if *l > max { max = *l } }
    check(max == count, "labels are 1 to the number of components");
}
fn grey(w: u32, h: u32, c: Connectivity, img: GrayImage, bg: u8) {
    let out = connected_components(&img, c, Luma([bg]));
    check(out.dimensions() == (w, h), "labels: dimensions");
    let p = img.as_raw();
    let rep = components(w, h, c, |i| p[i] == bg, |a, b| p[a] == p[b]);
    judge(out.as_raw(), &rep);
}
fn mask(w: u32, h: u32, fg: u8) -> GrayImage {
    GrayImage::from_raw(w, h, (0..w * h).map(|_| if split(bools()) { fg } else { 0 }).collect()).unwrap()
}
/// every colouring of small images with an arbitrary background colour
#[no_mangle] pub extern "C" fn q_colours() {
    let (w, h) = [(0, 0), (0, 2), (2, 0), (1, 1), (4, 1), (1, 4), (2, 2), (3, 2)][pick(0, 7) as usize];
    forking();
    grey(w, h, conn(pick(0, 1)), gray(w, h), u8s())
}
#[no_mangle] pub extern "C" fn q_masks_4x3() { forking(); grey(4, 3, conn(pick(0, 1)), mask(4, 3, 9), 0) }
#[no_mangle] pub extern "C" fn q_masks_3x4() { forking(); grey(3, 4, conn(pick(0, 1)), mask(3, 4, 255), 0) }
#[no_mangle] pub extern "C" fn t_masks_4x4() { forking(); grey(4, 4, conn(pick(0, 1)), mask(4, 4, 255), 0) }
#[no_mangle] pub extern "C" fn t_masks_7x3() { forking(); let mut m = mask(7, 3, 255); for x in [1, 3, 5] { m.put_pixel(x, 0, Luma([0])) } for x in [0,6] { m.put_pixel(x, 1, Luma([255])) } grey(7, 3, conn(pick(0, 1)), m, 0) }
#[no_mangle] pub extern "C" fn t_colours_3x3() { forking(); let (w, h) = [(3, 3), (2, 3), (5, 1)][pick(0, 2) as usize]; grey(w, h, conn(pick(0, 1)), gray(w, h), u8s()) }
/// combs: branches that meet late exercise chains of unions
#[no_mangle] pub extern "C" fn q_combs() {
    forking();
    let (w, h) = (9, 3);
    let mut img = GrayImage::new(w, h);
    for x in 0..w { img.put_pixel(x, 0, Luma([if x % 2 == 0 { 5 } else { 0 }])); }
    for x in 0..w { img.put_pixel(x, 1, Luma([if split(bools()) { 5 } else { 0 }])); }
    for x in 0..w { img.put_pixel(x, 2, Luma([if x % 2 == 1 { 5 } else { 0 }])); }
    grey(w, h, conn(pick(0, 1)), img, 0)
}
/// all pixels their own component
#[no_mangle] pub extern "C" fn q_isolated() {
    let (w, h) = (pick(1, 6) as u32, pick(1, 6) as u32);
    let four = bools();
    let img = GrayImage::from_fn(w, h, |x, y| Luma([if split(four) { 1 + ((x + y) % 2) as u8 } else { 1 + (x % 2 + 2 * (y % 2)) as u8 }]));
    let out = connected_components(&img, if split(four) { Connectivity::Four } else { Connectivity::Eight }, Luma([0]));
    let mut seen = vec![0u32; (w * h) as usize + 1];
    for l in out.as_raw() { check(*l >= 1 && *l <= w * h, "isolated pixels: label in range"); seen[*l as usize] += 1 }
    check(seen[1..].iter().all(|s| *s == 1), "isolated pixels: every label once");
}
#[no_mangle] pub extern "C" fn q_rgb() {
    forking();
    let (w, h) = [(2u32, 2u32), (3, 1)][pick(0, 1) as usize];
    // colours differ in any one channel
    let c = |k: u64| Rgb([[3u8, 4, 3, 3][k as usize], [7, 7, 8, 7][k as usize], [9, 9, 9, 10][k as usize]]);
    let px: Vec<Rgb<u8>> = (0..w * h).map(|_| c(pick(0, 3) as u64)).collect();
    let img = RgbImage::from_fn(w, h, |x, y| px[(y * w + x) as usize]);
    let bg = c(pick(0, 3) as u64);
    let cn = conn(pick(0, 1));
    let out = connected_components(&img, cn, bg);
    let rep = components(w, h, cn, |i| px[i] == bg, |a, b| px[a] == px[b]);
    judge(out.as_raw(), &rep);
}
/// the forest after any sequence of unions is the partition they generate
fn forest(n: usize, steps: usize, unions: bool) {
    let mut f = DisjointSetForest::new(n);
    let mut rep: Vec<usize> = (0..n).collect();
    for _ in 0..steps {
        let (i, j) = (pick(0, n as i64 - 1) as usize, pick(0, n as i64 - 1) as usize);
        if unions && pick(0, 3) == 0 { check(f.find(i, j) == (rep[i] == rep[j]), "find between unions"); continue }
        f.union(i, j);
        let (a, b) = (rep[i], rep[j]);
        for r in rep.iter_mut() { if *r == b { *r = a } }
    }
    let mut count = 0;
    for i in 0..n { if (0..i).all(|j| rep[j] != rep[i]) { count += 1 } }
    check(f.num_trees() == count, "number of trees");
    let mut ok = true;
    for i in 0..n { for j in 0..n { ok &= (f.root(i) == f.root(j)) == (rep[i] == rep[j]); ok &= f.find(i, j) == (rep[i] == rep[j]) } }
    for i in 0..n { let r = f.root(i); ok &= rep[r] == rep[i] && f.root(r) == r }
    check(ok, "roots identify the classes of the unions");
    check(f.num_trees() == count, "queries do not change the forest");
    let trees = f.trees();
    let mut seen = vec![0u32; n];
    let mut ok = trees.len() == count;
    for t in &trees { ok &= !t.is_empty(); for e in t { ok &= *e < n && rep[*e] == rep[t[0]]; if *e < n { seen[*e] += 1 } } }
    for s in &seen { ok &= *s == 1 }
    check(ok, "trees lists every class once");
}
#[no_mangle] pub extern "C" fn q_forest() { forking(); forest(4, 3, false) }
#[no_mangle] pub extern "C" fn q_forest_queries() { forking(); forest(3, 3, true) }
#[no_mangle] pub extern "C" fn t_forest() { forking(); forest(5, 3, true) }
#[no_mangle] pub extern "C" fn t_forest4() { forking(); forest(4, 4, false) }
/// long chains: unions of trees of any sizes
#[no_mangle] pub extern "C" fn q_chains() {
    forking();
    let n = 8usize;
    let mut f = DisjointSetForest::new(n);
    let mut rep: Vec<usize> = (0..n).collect();
    for k in [(0, 1), (2, 3), (4, 5), (6, 7), (1, 2), (5, 6), (3, 4)] {
        if split(bools()) {
            let (i, j) = if split(bools()) { k } else { (k.1, k.0) };
            f.union(i, j);
            let (a, b) = (rep[i], rep[j]);
            for r in rep.iter_mut() { if *r == b { *r = a } }
        }
    }
    let mut ok = true;
    for i in 0..n { for j in 0..n { ok &= f.find(i, j) == (rep[i] == rep[j]) } }
    check(ok, "chains of unions");
}
/// components of a large image by flooding
fn flooded(img: &GrayImage, c: Connectivity, bg: u8) {
    let (w, h) = (img.width() as i32, img.height() as i32);
    let out = connected_components(img, c, Luma([bg]));
    check(out.dimensions() == img.dimensions(), "labels: dimensions");
    let (p, l) = (img.as_raw(), out.as_raw());
    let n = p.len();
    let mut rep = vec![0u32; n];
    let mut of = vec![0u32; n + 1]; // component with a given label
    let (mut count, mut ok, mut zero, mut max) = (0u32, true, true, 0u32);
    let mut stack = vec![];
    for s in 0..n {
        zero &= (l[s] == 0) == (p[s] == bg);
        max = max.max(l[s]);
        if p[s] == bg || rep[s] != 0 { continue }
        count += 1; rep[s] = count; stack.push(s);
        if l[s] as usize > n { ok = false; continue }
        ok &= of[l[s] as usize] == 0; of[l[s] as usize] = count;
        while let Some(q) = stack.pop() {
            ok &= l[q] == l[s];
            let (x, y) = (q as i32 % w, q as i32 / w);
            for dy in -1..=1 { for dx in -1..=1i32 {
                if dx == 0 && dy == 0 || dx != 0 && dy != 0 && c == Connectivity::Four { continue }
                let (u, v) = (x + dx, y + dy);
                if u < 0 || v < 0 || u >= w || v >= h { continue }
                let t = (v * w + u) as usize;
                if rep[t] == 0 && p[t] == p[s] { rep[t] = count; stack.push(t) }
            } }
        }
    }
    check(zero, "label 0 exactly for the background");
    check(ok, "same label exactly for connected pixels of one colour");
    check(max == count, "labels are 1 to the number of components");
}
#[no_mangle] pub extern "C" fn q_large_labels() {
    forking();
    let (w, h) = large();
    let cut = [0u8, 110, 150][pick(0, 2) as usize];
    let n = (w * h) as usize;
    let mut v = big_raw(n, 11, 0);
    // noise around the percolation density, or four colours
    for p in v.iter_mut() { *p = if cut == 0 { *p & 3 } else { (*p < cut) as u8 * 9 } }
    for i in [n / 3, n / 2, n - 1] { v[i] = if split(bools()) { 9 } else { 0 } }
    flooded(&GrayImage::from_raw(w, h, v).unwrap(), conn(pick(0, 1)), 0)
}
/// spirals, combs and nested frames: late merges through long chains
#[no_mangle] pub extern "C" fn q_large_shapes() {
    forking();
    let (w, h) = [(40u32, 21u32), (21, 40), (66, 3)][pick(0, 2) as usize];
    let k = pick(0, 3);
    let mut img = GrayImage::from_fn(w, h, |x, y| {
        let fg = match k { 0 => x % 2 == 0 || y == h - 1, 1 => y % 2 == 0 || x == w - 1, 2 => { let d = x.min(y).min(w - 1 - x).min(h - 1 - y); d % 2 == 0 } _ => (x + y) % 3 == 0 || y == h / 2 };
        Luma([if fg { 200 } else { 0 }])
    });
    for (x, y) in [(w / 2, h - 1), (w - 1, h / 2), (1, 1)] { img.put_pixel(x, y, Luma([if split(bools()) { 200 } else { 0 }])) }
    flooded(&img, conn(pick(0, 1)), 0)
}
/// many elements: long and balanced unions, a few of them optional
#[no_mangle] pub extern "C" fn q_large_forest() {
    forking();
    let n = 70usize;
    let shape = pick(0, 3);
    let mut edges: Vec<(usize, usize)> = vec![];
    match shape {
        0 => for i in 1..n { edges.push((i - 1, i)) },
        1 => { let mut s = 1; while s < 64 { let mut i = 0; while i + s < 64 { edges.push((i, i + s)); i += 2 * s } s *= 2 } }
        2 => { let mut s = 1; while s < 64 { let mut i = 0; while i + s < 64 { edges.push((i + 2 * s - 1, i)); i += 2 * s } s *= 2 } }
        _ => { let r = big_raw(120, 21, 0); for i in 0..60 { edges.push((r[2 * i] as usize % n, r[2 * i + 1] as usize % n)) } }
    }
    let mut f = DisjointSetForest::new(n);
    let mut rep: Vec<usize> = (0..n).collect();
    let m = edges.len();
    for (k, (i, j)) in edges.into_iter().enumerate() {
        if (k == 0 || k == m / 2 || k == m - 1 || k == m - 2) && !split(bools()) { continue }
        f.union(i, j);
        let (a, b) = (rep[i], rep[j]);
        for r in rep.iter_mut() { if *r == b { *r = a } }
    }
    let mut count = 0;
    for i in 0..n { if (0..i).all(|j| rep[j] != rep[i]) { count += 1 } }
    let mut ok = f.num_trees() == count;
    for i in 0..n { let r = f.root(i); ok &= rep[r] == rep[i] && f.root(r) == r }
    for i in 0..n { for j in [0, i / 2, n / 2, n - 1] { ok &= f.find(i, j) == (rep[i] == rep[j]) && (f.root(i) == f.root(j)) == (rep[i] == rep[j]) } }
    check(ok && f.num_trees() == count, "roots identify the classes of the unions");
}
