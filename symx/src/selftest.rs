//! Self-validation of the expression layer: every simplification and every
//! soft-float circuit is compared with native evaluation on random values.
use crate::expr::*;
use crate::lower::Lower;
use Op::*;
pub fn run() -> bool {
    let mut s = 0x9E3779B97F4A7C15u64;
    let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let mut c = Ctx::new();
    let mut low = Lower::default();
    let mut bad = 0;
    let fl = |r: u64, w: u8, r2: u64| -> u128 {
        if w == 32 {
            let v = match r % 12 { 0 => (r2 as i64 % 300) as f32, 1 => (r2 as i64 % 100000) as f32 / 7.0, 2 => f32::from_bits(r2 as u32 & 0x807fffff), 3 => [0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.5, -0.5, 1.0, 1.5, 2.5, -2.5, 255.0][(r2 % 12) as usize], 4 => ((r2 % 17) as f32 - 8.0) * 0.5, 5 => (r2 as u32 as f32) * 1.0001, 6 => ((r2 % 1000000) as f32) * 1e-6, _ => f32::from_bits(r2 as u32) };
            v.to_bits() as u128
        } else {
            let v = match r % 12 { 0 => (r2 as i64 % 300) as f64, 1 => (r2 as i64 % 100000) as f64 / 7.0, 2 => f64::from_bits(r2 & 0x800f_ffff_ffff_ffff), 3 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, -0.5, 1.0, 1.5, 2.5, -2.5, 255.0][(r2 % 12) as usize], 4 => ((r2 % 17) as f64 - 8.0) * 0.5, 5 => (r2 as f64) * 1.0001, 6 => ((r2 % 1000000) as f64) * 1e-6, _ => f64::from_bits(r2) };
            v.to_bits() as u128
        }
    };
    let isnan = |v: u128, w: u8| tof(v, w).is_nan();
    // floats
    let mut vi = 0u32;
    let mut exprs = vec![]; let mut ind: Vec<(E, Op, E, E, u8, u8)> = vec![];
    for w in [32u8, 64] {
        let x = c.var(vi, w); let y = c.var(vi + 1, w); let ix = c.var(vi + 2, 32); let iy = c.var(vi + 3, 64); let b = c.var(vi + 4, 8);
        for op in [FAdd, FSub, FMul, FDiv] { exprs.push((c.bin(op, x, y), w, true)); }
        for op in [FEq, FLt, FLe] { exprs.push((c.fcmp(op, x, y), w, false)); }
        for op in [FSqrt, FFloor, FCeil, FTruncI, FRoundEven, FRound] { exprs.push((c.fun(op, x, w), w, true)); }
        for iw in [5u8, 8, 11, 16, 32, 64] { exprs.push((c.fun(FToS, x, iw), w, false)); exprs.push((c.fun(FToU, x, iw), w, false)); }
        for i in [ix, iy, b] { exprs.push((c.fun(FFromS, i, w), w, true)); exprs.push((c.fun(FFromU, i, w), w, true)); }
        if w == 32 { exprs.push((c.fun(FExt, x, 64), 64, true)); } else { exprs.push((c.fun(FTrunc, x, 32), 32, true)); }
        // mixed
        let f1 = c.fun(FFromU, b, w); let t = c.bin(FMul, f1, x); let t2 = c.bin(FAdd, t, y); exprs.push((t2, w, true));
        let q = c.fun(FToU, t2, 8); exprs.push((q, w, false));
        // exact dyadic arithmetic against native floats
        let b2 = c.extract(ix, 0, 8); let sb = c.extract(iy, 0, 6);
        let f2 = c.fun(FFromU, b2, w); let f3 = c.fun(FFromS, sb, w);
        let kf = |c: &mut Ctx, v: f64| if w == 32 { c.konst((v as f32).to_bits() as u128, 32) } else { c.konst(v.to_bits() as u128, 64) };
        let sgn = c.konst(1u128 << (w - 1), w); let am = c.konst(mask(w) >> 1, w);
        let mut fs = vec![f1, f2, f3];
        for (i, cst) in [0.25, -0.5, 3.0, 2.5, -1.0, 0.0625, 0.1, 1e-10].into_iter().enumerate() {
            let k = kf(&mut c, cst);
            let a = fs[i % fs.len()]; let bb = fs[(i * 5 + 1) % fs.len()];
            let p = c.bin(FMul, a, k); let q = c.bin(FSub, p, bb); let r = c.bin(FAdd, q, k);
            let g = c.bin(Xor, r, sgn); let ab = c.bin(And, q, am); let cond = c.extract(b, (i % 8) as u8, 1); let it = c.ite(cond, g, ab);
            let two = kf(&mut c, if i % 2 == 0 { 4.0 } else { -0.5 }); let dv = c.bin(FDiv, it, two); let sq = c.bin(FMul, q, q);
            for z in [p, q, r, g, ab, it, dv, sq] {
                for iw in [8u8, 32, 64] { for op in [FToS, FToU] { let e = c.fun(op, z, iw); ind.push((e, op, z, z, w, iw)); } }
                for t in [0.25, 1.0, -7.5, 0.1, 1e-10, f64::INFINITY, 2.5] { let t = kf(&mut c, t); for op in [FEq, FLt, FLe] { let e = c.fcmp(op, z, t); ind.push((e, op, z, t, w, 1)); let e = c.fcmp(op, t, z); ind.push((e, op, t, z, w, 1)); } }
                for op in [FEq, FLt, FLe] { let e = c.fcmp(op, z, p); ind.push((e, op, z, p, w, 1)); let e = c.fcmp(op, f1, z); ind.push((e, op, f1, z, w, 1)); }
                for op in [FFloor, FCeil, FTruncI, FRoundEven, FRound] { let v = c.fun(op, z, w); let e = c.fun(FToS, v, 32); ind.push((e, FToS, v, v, w, 32)); let h = kf(&mut c, 0.5); let v2 = c.bin(FMul, v, h); let e = c.fcmp(FLt, v2, z); ind.push((e, FLt, v2, z, w, 1)); }
            }
            fs.push(it);
        }
        vi += 5;
    }
    let lowered: Vec<E> = exprs.iter().map(|e| low.lower(&mut c, e.0)).collect();
    for it in 0..4000 {
        let mut vals = vec![];
        for w in [32u8, 64] {
            let (r, r2) = (rnd(), rnd()); let x = fl(r, w, r2); vals.push(x);
            let (r, r2) = (rnd(), rnd()); let y = if r % 20 == 0 { x ^ (r2 as u128 & 3) } else { fl(r, w, r2) }; vals.push(y);
            vals.push(rnd() as u32 as u128 >> (rnd() % 32)); vals.push(rnd() as u128 >> (rnd() % 64)); vals.push(rnd() as u8 as u128);
        }
        let m = Model::new(vals.clone());
        for (e, op, x, y, w, rw) in &ind {
            let (vx, vy) = (m.eval(&c, *x), m.eval(&c, *y));
            let want = match op { FToS | FToU => eval_fun(*op, vx, *w, *rw), FEq => (tof(vx, *w) == tof(vy, *w)) as u128, FLt => (tof(vx, *w) < tof(vy, *w)) as u128, _ => (tof(vx, *w) <= tof(vy, *w)) as u128 };
            let got = m.eval(&c, *e);
            if want != got { bad += 1; if bad < 20 { println!("DYADIC {op:?} w{w} x {} y {} want {want} got {got}", tof(vx, *w), tof(vy, *w)) } }
        }
        for (i, (e, w, isf)) in exprs.iter().enumerate() {
            let a = m.eval(&c, *e); let b = m.eval(&c, lowered[i]);
            let ok = a == b || (*isf && isnan(a, *w) && isnan(b, *w));
            if !ok { bad += 1; if bad < 20 { println!("MISMATCH it {it} {:?} w{w} native {:x} lowered {:x} vals {:x?}", c.n(*e), a, b, vals) } }
        }
    }
    println!("dyadic: {} comparisons and conversions", ind.len());
    println!("float: {} exprs, nodes {}", exprs.len(), c.nodes.len());
    // random integer expression DAGs: build with the simplifier while evaluating independently
    for _round in 0..3000 {
        let base = 20;
        let mut pool: Vec<(E, Vec<u128>)> = vec![];
        let nm = 6;
        let vals: Vec<Vec<u128>> = (0..nm).map(|_| (0..40).map(|_| rnd() as u128 >> (rnd() % 64)).collect()).collect();
        for i in 0..4 { let w = [8u8, 8, 32, 1][i]; let idx = base + [0u32, 1, 2, 3][i]; let e = c.var(idx, w); pool.push((e, (0..nm).map(|m| vals[m][idx as usize] & mask(w)).collect())); }
        for _ in 0..30 {
            let pick = |r: u64, pool: &Vec<(E, Vec<u128>)>| pool[(r % pool.len() as u64) as usize].clone();
            let (a, av) = pick(rnd(), &pool);
            let w = c.w(a);
            let (b, bv) = {
                let cand: Vec<_> = pool.iter().filter(|p| c.w(p.0) == w).cloned().collect();
                if rnd() % 3 == 0 { let k = (rnd() >> (rnd() % 64)) as u128 & mask(w); (c.konst(k, w), vec![k; nm]) } else { cand[(rnd() % cand.len() as u64) as usize].clone() }
            };
            let z = |f: &dyn Fn(u128, u128) -> u128| -> Vec<u128> { av.iter().zip(&bv).map(|(x, y)| f(*x, *y)).collect() };
            let r = rnd() % 20;
            let (e, v) = match r {
                0..=12 => { let op = [Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor][r as usize];
                    if matches!(op, UDiv | URem | SDiv | SRem) && c.is_const(b) == Some(0) { continue }
                    (c.bin(op, a, b), z(&|x, y| eval_bin(op, x, y, w))) }
                13 => (c.eq(a, b), z(&|x, y| (x == y) as u128)),
                14 => (c.ult(a, b), z(&|x, y| (x < y) as u128)),
                15 => (c.slt(a, b), z(&|x, y| (sx(x, w) < sx(y, w)) as u128)),
                16 if w < 64 => { let nw = w + (rnd() % (65 - w as u64)) as u8; if rnd() % 2 == 0 { (c.zext(a, nw), av.clone()) } else { (c.sext(a, nw), av.iter().map(|x| sx(*x, w) as u128 & mask(nw)).collect()) } }
                17 => { let lo = (rnd() % w as u64) as u8; let nw = 1 + (rnd() % (w - lo) as u64) as u8; (c.extract(a, lo, nw), av.iter().map(|x| (x >> lo) & mask(nw)).collect()) }
                18 if w < 50 => { let (d, dv) = pick(rnd(), &pool); let wd = c.w(d); if w + wd > 64 { continue } (c.concat(a, d), av.iter().zip(&dv).map(|(x, y)| (x << wd) | y).collect()) }
                _ => { let cand: Vec<_> = pool.iter().filter(|p| c.w(p.0) == 1).cloned().collect(); let (d, dv) = cand[(rnd() % cand.len() as u64) as usize].clone();
                    (c.ite(d, a, b), (0..nm).map(|i| if dv[i] == 1 { av[i] } else { bv[i] }).collect()) }
            };
            let le = low.lower(&mut c, e);
            for i in 0..nm {
                let m = Model::new(vals[i].clone());
                let g = m.eval(&c, e);
                if m.eval(&c, le) != g { bad += 1; if bad < 20 { println!("LOWER MISMATCH {:?}", c.n(e)) } }
                let rg = c.r(e);
                let wv = c.w(e);
                let inr = wv > 64 || ((g as u64) >= rg.lo && (g as u64) <= rg.hi && sx64(g as u64, wv) >= rg.slo && sx64(g as u64, wv) <= rg.shi);
                if g != v[i] || !inr { bad += 1; if bad < 20 { println!("INT MISMATCH op{} {:?} a={:?} b={:?} got {:x} want {:x} range {:?}", r, c.n(e), c.n(a), c.n(b), g, v[i], rg) } }
            }
            pool.push((e, v));
        }
    }
    println!("selftest mismatches: {bad}");
    bad == 0
}
