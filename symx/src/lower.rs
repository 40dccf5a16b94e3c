//! Lowering of floating-point and table nodes to pure bit-vector nodes
//! (round-to-nearest-even soft-float circuits), so that one QF_BV solver
//! decides every query.
use crate::expr::*;
use Op::*;

#[derive(Clone, Copy)]
pub struct Fmt { pub eb: u8, pub mb: u8 }
pub fn fmt(w: u8) -> Fmt { if w == 32 { Fmt { eb: 8, mb: 23 } } else { assert!(w == 64); Fmt { eb: 11, mb: 52 } } }

pub struct Unp { sign: E, nan: E, inf: E, zero: E, /// signed unbiased exponent, eb+2 bits
    e: E, /// mb+1 bits, leading one set unless zero
    sig: E }

impl Ctx {
    fn nez(&mut self, a: E) -> E { let z = self.konst(0, self.w(a)); let t = self.eq(a, z); self.not(t) }
    fn eqz(&mut self, a: E) -> E { let z = self.konst(0, self.w(a)); self.eq(a, z) }
    fn k(&mut self, v: i128, w: u8) -> E { self.konst(v as u128, w) }

    /// shift left until the top bit is set; returns (shifted, shift count as ew bits)
    pub fn normalize(&mut self, mut x: E, ew: u8) -> (E, E) {
        let w = self.w(x);
        let mut cnt = self.konst(0, ew);
        let mut s = 1u8; while (s as u16) * 2 < w as u16 { s *= 2 }
        loop {
            if s < w {
                let top = self.extract(x, w - s, s);
                let z = self.eqz(top);
                let sk = self.konst(s as u128, w);
                let sh = self.bin(Shl, x, sk);
                x = self.ite(z, sh, x);
                let ck = self.konst(s as u128, ew); let c2 = self.bin(Add, cnt, ck);
                cnt = self.ite(z, c2, cnt);
            }
            if s == 1 { break }
            s /= 2;
        }
        (x, cnt)
    }
    /// logical right shift with sticky in the lsb; `amt` has any width
    fn shr_sticky(&mut self, x: E, amt: E) -> E {
        let w = self.w(x); let aw = self.w(amt);
        let mut cur = x;
        let mut big = FALSE;
        for i in 0..aw {
            let bit = self.extract(amt, i, 1);
            if i < 8 && (1u32 << i) < w as u32 {
                let s = 1u8 << i;
                let sk = self.konst(s as u128, w);
                let sh = self.bin(LShr, cur, sk);
                let lost = self.extract(cur, 0, s); let l = self.nez(lost);
                let lz = self.zext(l, w); let r = self.bin(Or, sh, lz);
                cur = self.ite(bit, r, cur);
            } else { big = self.or(big, bit) }
        }
        let nz = self.nez(x); let all = self.zext(nz, w);
        self.ite(big, all, cur)
    }
    pub fn unpack(&mut self, x: E) -> Unp {
        let w = self.w(x); let f = fmt(w);
        let sign = self.extract(x, w - 1, 1);
        let ex = self.extract(x, f.mb, f.eb); let man = self.extract(x, 0, f.mb);
        let ones = self.konst(mask(f.eb), f.eb);
        let emax = self.eq(ex, ones); let e0 = self.eqz(ex); let m0 = self.eqz(man);
        let nm0 = self.not(m0);
        let nan = self.and(emax, nm0); let inf = self.and(emax, m0); let zero = self.and(e0, m0);
        let ew = f.eb + 2;
        let bias = (1i128 << (f.eb - 1)) - 1;
        let exz = self.zext(ex, ew); let bk = self.k(-bias, ew); let en = self.bin(Add, exz, bk);
        let h = self.konst(1, 1); let sn = self.concat(h, man);
        let mz = self.zext(man, f.mb + 1);
        let (sd, cnt) = self.normalize(mz, ew);
        let emin = self.k(1 - bias, ew); let ed = self.bin(Sub, emin, cnt);
        let e = self.ite(e0, ed, en); let sig = self.ite(e0, sd, sn);
        Unp { sign, nan, inf, zero, e, sig }
    }
    fn fnan(&mut self, w: u8) -> E { let f = fmt(w); self.konst((mask(f.eb) << f.mb) | (1 << (f.mb - 1)), w) }
    fn finf(&mut self, sign: E, w: u8) -> E { let f = fmt(w); let k = self.konst(mask(f.eb) << f.mb, w - 1); self.concat(sign, k) }
    fn fzero(&mut self, sign: E, w: u8) -> E { let k = self.konst(0, w - 1); self.concat(sign, k) }
    /// sig: leading one at the top bit (value 1.xxx * 2^e), e signed
    pub fn round_pack(&mut self, sign: E, e: E, sig: E, w: u8) -> E {
        let f = fmt(w);
        let mut sig = sig;
        let need = f.mb + 3;
        if self.w(sig) < need { let p = self.konst(0, need - self.w(sig)); sig = self.concat(sig, p) }
        let sw = self.w(sig);
        let ew = self.w(e).max(f.eb + 3) + 1;
        let e = self.sext(e, ew);
        let bias = (1i128 << (f.eb - 1)) - 1;
        let emin = self.k(1 - bias, ew);
        let sub = self.slt(e, emin);
        let z = self.konst(0, ew);
        let d0 = self.bin(Sub, emin, e); let d = self.ite(sub, d0, z);
        let s2 = self.shr_sticky(sig, d);
        let kept = self.extract(s2, sw - 1 - f.mb, f.mb + 1);
        let rb = self.extract(s2, sw - 2 - f.mb, 1);
        let rest = self.extract(s2, 0, sw - 2 - f.mb); let st = self.nez(rest);
        let lsb = self.extract(kept, 0, 1);
        let t = self.or(st, lsb); let inc = self.and(rb, t);
        let bk = self.k(bias - 1, ew); let be = self.bin(Add, e, bk);
        let base = self.ite(sub, z, be);
        // overflow
        let emaxk = self.k(bias, ew); let ovf = self.slt(emaxk, e);
        let bb = self.extract(base, 0, f.eb);
        let zm = self.konst(0, f.mb);
        let hi = self.concat(bb, zm); // eb+mb = w-1 bits
        let kz = self.zext(kept, w - 1);
        let s = self.bin(Add, hi, kz); let iz = self.zext(inc, w - 1); let p = self.bin(Add, s, iz);
        let infk = self.konst(mask(f.eb) << f.mb, w - 1);
        let p = self.ite(ovf, infk, p);
        self.concat(sign, p)
    }
    pub fn low_fadd(&mut self, x: E, y: E) -> E {
        let w = self.w(x); let f = fmt(w);
        let mx = self.extract(x, 0, w - 1); let my = self.extract(y, 0, w - 1);
        let sw = self.ult(mx, my);
        let a = self.ite(sw, y, x); let b = self.ite(sw, x, y);
        let ufields = |c: &mut Ctx, v: E| {
            let ex = c.extract(v, f.mb, f.eb); let man = c.extract(v, 0, f.mb);
            let e0 = c.eqz(ex); let ne0 = c.not(e0); let one = c.konst(1, f.eb);
            let e = c.ite(e0, one, ex);
            let sig = c.concat(ne0, man);
            (e, sig, man, ex)
        };
        let (ea, sa, ma, exa) = ufields(self, a); let (eb, sb, _mb, exb) = ufields(self, b);
        let sga = self.extract(a, w - 1, 1); let sgb = self.extract(b, w - 1, 1);
        let d = self.bin(Sub, ea, eb);
        let z3 = self.konst(0, 3);
        let sa3 = self.concat(sa, z3); let sb3 = self.concat(sb, z3);
        let sbs = self.shr_sticky(sb3, d);
        let tw = f.mb + 5;
        let wa = self.zext(sa3, tw); let wb = self.zext(sbs, tw);
        let diff = self.bin(Xor, sga, sgb);
        let s1 = self.bin(Add, wa, wb); let s2 = self.bin(Sub, wa, wb);
        let sum = self.ite(diff, s2, s1);
        let iszero = self.eqz(sum);
        let ew = f.eb + 2;
        let (nsig, cnt) = self.normalize(sum, ew);
        let bias = (1i128 << (f.eb - 1)) - 1;
        let eaz = self.zext(ea, ew);
        let k = self.k(1 - bias, ew); let e1 = self.bin(Add, eaz, k); let e = self.bin(Sub, e1, cnt);
        let r = self.round_pack(sga, e, nsig, w);
        let zs = self.and(sga, sgb); let zr = self.fzero(zs, w);
        let r = self.ite(iszero, zr, r);
        // specials (a has larger magnitude, so inf/nan shows in a first)
        let ones = self.konst(mask(f.eb), f.eb);
        let amax = self.eq(exa, ones); let bmax = self.eq(exb, ones);
        let manb = self.extract(b, 0, f.mb);
        let ma0 = self.eqz(ma); let mb0 = self.eqz(manb);
        let nma0 = self.not(ma0); let nmb0 = self.not(mb0);
        let anan = self.and(amax, nma0); let bnan = self.and(bmax, nmb0);
        let ainf = self.and(amax, ma0); let binf = self.and(bmax, mb0);
        let bothinf = self.and(ainf, binf); let inv = self.and(bothinf, diff);
        let n1 = self.or(anan, bnan); let nn = self.or(n1, inv);
        let r = self.ite(ainf, a, r);
        let nan = self.fnan(w);
        self.ite(nn, nan, r)
    }
    pub fn low_fmul(&mut self, x: E, y: E) -> E {
        let w = self.w(x); let f = fmt(w);
        let a = self.unpack(x); let b = self.unpack(y);
        let sign = self.bin(Xor, a.sign, b.sign);
        let pw = 2 * (f.mb + 1);
        let pa = self.zext(a.sig, pw); let pb = self.zext(b.sig, pw);
        let p = self.bin(Mul, pa, pb);
        let top = self.extract(p, pw - 1, 1);
        let one = self.konst(1, pw); let sh = self.bin(Shl, p, one);
        let sig = self.ite(top, p, sh);
        let ew = f.eb + 3;
        let ea = self.sext(a.e, ew); let eb = self.sext(b.e, ew);
        let e0 = self.bin(Add, ea, eb); let tz = self.zext(top, ew); let e = self.bin(Add, e0, tz);
        let r = self.round_pack(sign, e, sig, w);
        let z0 = self.or(a.zero, b.zero); let zr = self.fzero(sign, w); let r = self.ite(z0, zr, r);
        let i0 = self.or(a.inf, b.inf); let ir = self.finf(sign, w); let r = self.ite(i0, ir, r);
        let inv = self.and(i0, z0); let n0 = self.or(a.nan, b.nan); let nn = self.or(n0, inv);
        let nan = self.fnan(w); self.ite(nn, nan, r)
    }
    pub fn low_fdiv(&mut self, x: E, y: E) -> E {
        let w = self.w(x); let f = fmt(w);
        let a = self.unpack(x); let b = self.unpack(y);
        let sign = self.bin(Xor, a.sign, b.sign);
        let qw = 2 * f.mb + 4; // (mb+1) + (mb+3)
        let za = self.konst(0, f.mb + 3); let na = self.concat(a.sig, za); let nb = self.zext(b.sig, qw);
        let q = self.bin(UDiv, na, nb); let r = self.bin(URem, na, nb);
        // q has mb+3 or mb+4 significant bits
        let ql = self.extract(q, 0, f.mb + 4);
        let st = self.nez(r);
        let qs = self.concat(ql, st); // mb+5 bits
        let top = self.extract(qs, f.mb + 4, 1);
        let one = self.konst(1, f.mb + 5); let sh = self.bin(Shl, qs, one);
        let sig = self.ite(top, qs, sh);
        let ew = f.eb + 3;
        let ea = self.sext(a.e, ew); let eb = self.sext(b.e, ew);
        let e0 = self.bin(Sub, ea, eb); let ntop = self.not(top); let tz = self.zext(ntop, ew); let e = self.bin(Sub, e0, tz);
        let r = self.round_pack(sign, e, sig, w);
        let zr = self.fzero(sign, w); let ir = self.finf(sign, w);
        let r = self.ite(a.zero, zr, r); let r = self.ite(b.inf, zr, r);
        let r = self.ite(b.zero, ir, r); let r = self.ite(a.inf, ir, r);
        let zz = self.and(a.zero, b.zero); let ii = self.and(a.inf, b.inf); let n0 = self.or(a.nan, b.nan);
        let n1 = self.or(zz, ii); let nn = self.or(n0, n1);
        let nan = self.fnan(w); self.ite(nn, nan, r)
    }
    pub fn low_fsqrt(&mut self, x: E) -> E {
        let w = self.w(x); let f = fmt(w);
        let a = self.unpack(x);
        // value = sig * 2^(e-mb); make exponent even
        let odd = self.extract(a.e, 0, 1);
        let rw = f.mb + 3; // result bits
        let nw = 2 * rw; // radicand width
        // radicand R = sig << k with sig's leading one at bit nw-2 (even e) or nw-1 (odd e)
        let s = self.zext(a.sig, nw);
        let k1 = self.konst((nw - 2 - f.mb) as u128, nw); let k2 = self.konst((nw - 1 - f.mb) as u128, nw);
        let r1 = self.bin(Shl, s, k1); let r2 = self.bin(Shl, s, k2);
        let rad = self.ite(odd, r2, r1);
        let mut rem = self.konst(0, rw + 2); let mut root = self.konst(0, rw + 2);
        for i in 0..rw {
            let two = self.extract(rad, nw - 2 - 2 * i, 2);
            let rl = self.extract(rem, 0, rw); rem = self.concat(rl, two);
            let rtl = self.extract(root, 0, rw); let o = self.konst(1, 2); let trial = self.concat(rtl, o);
            let lt = self.ult(rem, trial);
            let sb = self.bin(Sub, rem, trial);
            rem = self.ite(lt, rem, sb);
            let ge = self.not(lt);
            let r1 = self.extract(root, 0, rw + 1); root = self.concat(r1, ge);
        }
        let q = self.extract(root, 0, rw); let st = self.nez(rem);
        let sig = self.concat(q, st);
        let one = self.konst(1, self.w(a.e)); let e = self.bin(AShr, a.e, one);
        let r = self.round_pack(FALSE, e, sig, w);
        let r = self.ite(a.inf, x, r);
        let nz = self.not(a.zero); let neg = self.and(a.sign, nz); let nn = self.or(neg, a.nan);
        let nan = self.fnan(w); let r = self.ite(nn, nan, r);
        self.ite(a.zero, x, r)
    }
    fn isnan(&mut self, x: E) -> E { let w = self.w(x); let f = fmt(w); let m = self.extract(x, 0, w - 1); let k = self.konst(mask(f.eb) << f.mb, w - 1); self.ult(k, m) }
    pub fn low_fcmp(&mut self, op: Op, x: E, y: E) -> E {
        let w = self.w(x);
        let nx = self.isnan(x); let ny = self.isnan(y); let nn = self.or(nx, ny); let ok = self.not(nn);
        let mx = self.extract(x, 0, w - 1); let my = self.extract(y, 0, w - 1);
        let zx = self.eqz(mx); let zy = self.eqz(my); let bothz = self.and(zx, zy);
        let e0 = self.eq(x, y); let eq = self.or(e0, bothz);
        let r = if op == FEq { eq } else {
            let sxx = self.extract(x, w - 1, 1); let syy = self.extract(y, w - 1, 1);
            let ltp = self.ult(mx, my); let ltn = self.ult(my, mx);
            let same = self.ite(sxx, ltn, ltp);
            let df = self.bin(Xor, sxx, syy);
            let l0 = self.ite(df, sxx, same);
            let nz = self.not(bothz); let lt = self.and(l0, nz);
            if op == FLt { lt } else { self.or(lt, eq) }
        };
        self.and(r, ok)
    }
    pub fn low_ffrom(&mut self, x: E, signed: bool, w: u8) -> E {
        let iw = self.w(x);
        let (sign, mag) = if signed { let s = self.extract(x, iw - 1, 1); let z = self.konst(0, iw); let n = self.bin(Sub, z, x); (s, self.ite(s, n, x)) } else { (FALSE, x) };
        let ew = fmt(w).eb + 2;
        let (sig, cnt) = self.normalize(mag, ew);
        let k = self.konst(iw as u128 - 1, ew); let e = self.bin(Sub, k, cnt);
        let r = self.round_pack(sign, e, sig, w);
        let z = self.eqz(x); let zr = self.konst(0, w);
        self.ite(z, zr, r)
    }
    pub fn low_fto(&mut self, x: E, signed: bool, iw: u8) -> E {
        let w = self.w(x); let f = fmt(w);
        let u = self.unpack(x);
        let ew = (f.eb + 2).max(10);
        let e = self.sext(u.e, ew);
        // magnitude in iw+1 bits for e <= iw
        let bw = (iw + 1).max(f.mb + 1);
        let total = bw;
        // sig placed with leading one at top bit of `total`, shift right by (total-1 - e)
        let pad = total - (f.mb + 1);
        let s = if pad > 0 { let z = self.konst(0, pad); self.concat(u.sig, z) } else { u.sig };
        let k = self.konst((total - 1) as u128, ew); let sh = self.bin(Sub, k, e); // signed; valid if 0<=sh
        let zero = self.konst(0, ew);
        let neg_e = self.slt(e, zero); // |x| < 1
        let shw = self.zext_or_trunc(sh, total);
        let m = self.bin(LShr, s, shw);
        let lim = self.konst(if signed { iw as u128 - 1 } else { iw as u128 }, ew);
        let big0 = self.slt(e, lim); let big = self.not(big0); // e >= lim -> out of range
        let mi = self.extract(m, 0, iw);
        let z = self.konst(0, iw);
        let mag = self.ite(neg_e, z, mi);
        let r = if signed {
            let n = self.bin(Sub, z, mag); let v = self.ite(u.sign, n, mag);
            let mx = self.konst(mask(iw) >> 1, iw); let mn = self.konst(1u128 << (iw - 1), iw);
            let sat = self.ite(u.sign, mn, mx);
            let nneg = self.not(neg_e); let b = self.and(big, nneg);
            let b2 = self.or(b, u.inf);
            self.ite(b2, sat, v)
        } else {
            let mx = self.konst(mask(iw), iw);
            let nneg = self.not(neg_e); let b = self.and(big, nneg); let b2 = self.or(b, u.inf);
            let v = self.ite(b2, mx, mag);
            self.ite(u.sign, z, v)
        };
        let zn = self.or(u.zero, u.nan);
        self.ite(zn, z, r)
    }
    pub fn low_fext(&mut self, x: E) -> E {
        let u = self.unpack(x);
        let r = self.round_pack(u.sign, u.e, u.sig, 64);
        let zr = self.fzero(u.sign, 64); let ir = self.finf(u.sign, 64); let nan = self.fnan(64);
        let r = self.ite(u.zero, zr, r); let r = self.ite(u.inf, ir, r); self.ite(u.nan, nan, r)
    }
    pub fn low_ftrunc(&mut self, x: E) -> E {
        let u = self.unpack(x);
        let r = self.round_pack(u.sign, u.e, u.sig, 32);
        let zr = self.fzero(u.sign, 32); let ir = self.finf(u.sign, 32); let nan = self.fnan(32);
        let r = self.ite(u.zero, zr, r); let r = self.ite(u.inf, ir, r); self.ite(u.nan, nan, r)
    }
    pub fn low_frint(&mut self, op: Op, x: E) -> E {
        let w = self.w(x); let f = fmt(w);
        let bias = (1i128 << (f.eb - 1)) - 1;
        let sign = self.extract(x, w - 1, 1);
        let mag = self.extract(x, 0, w - 1);
        let ex = self.extract(mag, f.mb, f.eb);
        // |x| >= 2^mb (or inf/nan): unchanged
        let kb = self.konst((bias + f.mb as i128) as u128, f.eb); let bigx = self.ule(kb, ex);
        // |x| < 1
        let k1 = self.konst(bias as u128, f.eb); let small = self.ult(ex, k1);
        // general: fracbits = mb - (ex - bias)
        let kf = self.konst((bias + f.mb as i128) as u128, f.eb); let fb8 = self.bin(Sub, kf, ex);
        let mw = w - 1;
        let fb = self.zext(fb8, mw);
        let one = self.konst(1, mw);
        let unit = self.bin(Shl, one, fb);
        let onesub = self.bin(Sub, unit, one);
        let frac = self.bin(And, mag, onesub);
        let nf = self.not(onesub); let tr = self.bin(And, mag, nf);
        let has = self.nez(frac);
        let half = self.bin(LShr, unit, one);
        let up = match op {
            FTruncI => FALSE,
            FFloor => self.and(has, sign),
            FCeil => { let ns = self.not(sign); self.and(has, ns) }
            FRound => self.ule(half, frac),
            _ => { let gt = self.ult(half, frac); let tie = self.eq(half, frac); let u = self.bin(And, mag, unit); let odd = self.nez(u); let k = self.konst(bias as u128, f.eb); let e1 = self.eq(ex, k); let odd = self.or(odd, e1); let t = self.and(tie, odd); self.or(gt, t) }
        };
        // when ex == bias the unit bit coincides with the hidden bit, handled by carry into exponent
        let plus = self.bin(Add, tr, unit);
        let gen = self.ite(up, plus, tr);
        // small
        let onef = self.konst((bias as u128) << f.mb, mw); let zf = self.konst(0, mw);
        let nz = self.nez(mag);
        let halff = self.konst(((bias - 1) as u128) << f.mb, mw);
        let sup = match op {
            FTruncI => FALSE,
            FFloor => self.and(nz, sign),
            FCeil => { let ns = self.not(sign); self.and(nz, ns) }
            FRound => self.ule(halff, mag),
            _ => self.ult(halff, mag),
        };
        let sm = self.ite(sup, onef, zf);
        let r = self.ite(small, sm, gen);
        let r = self.ite(bigx, mag, r);
        self.concat(sign, r)
    }
    pub fn mux(&mut self, idx: E, lo_bits: u8, vals: &[E]) -> E {
        // vals.len() <= 2^lo_bits; index bits lo_bits-1..0 of idx
        if vals.len() == 1 { return vals[0] }
        let half = 1usize << (lo_bits - 1);
        if vals.len() <= half { return self.mux(idx, lo_bits - 1, vals) }
        let bit = self.extract(idx, lo_bits - 1, 1);
        let l = self.mux(idx, lo_bits - 1, &vals[..half]); let h = self.mux(idx, lo_bits - 1, &vals[half..]);
        self.ite(bit, h, l)
    }
}

#[derive(Default)]
pub struct Lower { memo: FxMap<u32, u32>, pub uf_vars: FxMap<u32, u32> }
impl Lower {
    fn get(&self, c: &Ctx, i: u32) -> Option<E> { match c.nodes[i as usize].op { Const | Var => Some(E(i)), _ => self.memo.get(&i).map(|x| E(*x)) } }
    /// use the value ranges to compute in as few bits as possible
    fn narrow(&self, c: &mut Ctx, i: u32, n: &Node, a: E, b: E) -> Option<E> {
        let ub = |r: Rng| (64 - r.hi.leading_zeros()).max(1) as u8;
        let sb = |r: Rng| { let f = |v: i64| 65 - (if v < 0 { !v } else { v }).leading_zeros(); f(r.slo).max(f(r.shi)) as u8 };
        match n.op {
            Add | Sub | Mul | Ite if n.w > 1 && n.w <= 64 => {
                let r = c.r(E(i));
                let (ku, ks) = (ub(r), sb(r));
                let signed = ku >= n.w;
                let k = if signed { ks } else { ku };
                if k >= n.w { return None }
                let x = if n.op == Ite {
                    let d = self.get(c, n.c).unwrap();
                    let (p, q) = (c.extract(b, 0, k), c.extract(d, 0, k));
                    c.ite(a, p, q)
                } else {
                    let (p, q) = (c.extract(a, 0, k), c.extract(b, 0, k));
                    c.bin(n.op, p, q)
                };
                Some(if signed { c.sext(x, n.w) } else { c.zext(x, n.w) })
            }
            Eq | Ult | Slt => {
                let w = c.w(a);
                if w == 1 || w > 64 { return None }
                let (ra, rb) = (c.r(E(n.a)), c.r(E(n.b)));
                let ku = ub(ra).max(ub(rb)); let ks = sb(ra).max(sb(rb));
                let nonneg = ra.slo >= 0 && rb.slo >= 0;
                let (k, op) = match n.op {
                    Eq => (ku.min(ks), Eq),
                    Ult => (ku, Ult),
                    _ => if nonneg { (ku, Ult) } else { (ks, Slt) },
                };
                if k >= w { return None }
                let (p, q) = (c.extract(a, 0, k), c.extract(b, 0, k));
                Some(match op { Eq => c.eq(p, q), Ult => c.ult(p, q), _ => c.slt(p, q) })
            }
            _ => None,
        }
    }
    pub fn lower(&mut self, c: &mut Ctx, e: E) -> E {
        if let Some(x) = self.get(c, e.0) { return x }
        let was = std::mem::replace(&mut c.lowering, true);
        let r = self.lower0(c, e);
        c.lowering = was;
        r
    }
    fn lower0(&mut self, c: &mut Ctx, e: E) -> E {
        let mut st = vec![e.0];
        while let Some(&i) = st.last() {
            if self.get(c, i).is_some() { st.pop(); continue }
            let n = c.nodes[i as usize];
            let ar = arity(n.op);
            let mut ready = true;
            for ch in [n.a, n.b, n.c].iter().take(ar as usize) { if self.get(c, *ch).is_none() { st.push(*ch); ready = false } }
            if !ready { continue }
            st.pop();
            let a = if ar > 0 { self.get(c, n.a).unwrap() } else { TRUE };
            let b = if ar > 1 { self.get(c, n.b).unwrap() } else { TRUE };
            if let Some(r) = self.narrow(c, i, &n, a, b) {
                self.memo.insert(i, r.0);
                if r.0 != i { self.memo.insert(r.0, r.0); }
                continue;
            }
            let r = match n.op {
                Uf => { let v = match self.uf_vars.get(&i) { Some(v) => *v, None => { let idx = c.vars.len() as u32; self.uf_vars.insert(i, idx); idx } }; c.var(v, n.w) }
                Table => {
                    let t = c.tables[n.k as usize].clone();
                    let vals: Vec<E> = t.iter().map(|v| c.konst(*v, n.w)).collect();
                    let mut bits = 0u8; while (1usize << bits) < vals.len() { bits += 1 }
                    let iw = c.w(a); let idx = if iw < bits { c.zext(a, bits) } else { a };
                    let oob = if iw > bits { let h = c.extract(idx, bits, iw - bits); c.eqz(h) } else { TRUE };
                    let m = c.mux(idx, bits, &vals);
                    let last = *vals.last().unwrap();
                    c.ite(oob, m, last)
                }
                FAdd => c.low_fadd(a, b),
                FSub => { let w = n.w; let s = c.konst(1u128 << (w - 1), w); let nb = c.bin(Xor, b, s); c.low_fadd(a, nb) }
                FMul => c.low_fmul(a, b),
                FDiv => c.low_fdiv(a, b),
                FRem => { let v = match self.uf_vars.get(&i) { Some(v) => *v, None => { let idx = c.vars.len() as u32; self.uf_vars.insert(i, idx); idx } }; c.var(v, n.w) }
                FSqrt => c.low_fsqrt(a),
                FEq | FLt | FLe => c.low_fcmp(n.op, a, b),
                FFromS => c.low_ffrom(a, true, n.w),
                FFromU => c.low_ffrom(a, false, n.w),
                FToS => c.low_fto(a, true, n.w),
                FToU => c.low_fto(a, false, n.w),
                FExt => c.low_fext(a),
                FTrunc => c.low_ftrunc(a),
                FFloor | FCeil | FTruncI | FRoundEven | FRound => c.low_frint(n.op, a),
                Ite => { let d = self.get(c, n.c).unwrap(); c.ite(a, b, d) }
                Extract => c.extract(a, n.k as u8, n.w),
                ZExt => c.zext(a, n.w),
                SExt => c.sext(a, n.w),
                Concat => c.concat(a, b),
                Eq => c.eq(a, b),
                Ult => c.ult(a, b),
                Slt => c.slt(a, b),
                op => c.bin(op, a, b),
            };
            // a rebuilt node may contain fresh table nodes (e.g. Extract of Table); lower again if so
            let r2 = if has_fp(c, r) && r.0 != i { self.lower(c, r) } else { r };
            self.memo.insert(i, r2.0);
            if r2.0 != i { self.memo.insert(r2.0, r2.0); }
        }
        self.get(c, e.0).unwrap()
    }
}
fn has_fp(c: &Ctx, e: E) -> bool { let n = c.n(e); n.op as u8 >= FAdd as u8 || n.op == Table }
