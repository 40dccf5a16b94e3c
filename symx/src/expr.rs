//! Hash-consed bit-vector / IEEE-754 expression DAG with on-the-fly
//! simplification, unsigned, signed and floating-point interval analysis, and
//! a concrete evaluator.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type Fx = BuildHasherDefault<FxHasher>;
pub type FxMap<K, V> = HashMap<K, V, Fx>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Slt, Table,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FEq, FLt, FLe,
    FFromS, FFromU, FToS, FToU, FExt, FTrunc, FFloor, FCeil, FTruncI, FRoundEven, FRound,
    Uf,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32, pub k: u128 }

/// unsigned and signed bounds (valid for w <= 64), float bounds for float-valued ops
#[derive(Clone, Copy, Debug)]
pub struct Rng { pub lo: u64, pub hi: u64, pub slo: i64, pub shi: i64 }
/// a float expression that is exactly m * 2^-k for a 64-bit signed integer expression m (no rounding
/// anywhere below it; the sign of zero is not tracked), with bounds of m
#[derive(Clone, Copy, Debug)]
pub struct Dy { pub m: E, pub k: i32, pub lo: i128, pub hi: i128 }
#[derive(Clone, Copy, Debug)]
pub struct FR { pub lo: f64, pub hi: f64, pub nan: bool }
const FULLF: FR = FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u8) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }
pub fn sx64(v: u64, w: u8) -> i64 { let s = 64 - w as u32; ((v << s) as i64) >> s }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub rng: Vec<Rng>,
    pub frng: FxMap<u32, FR>,
    map: FxMap<Node, u32>,
    xmemo: FxMap<(u32, u8, u8), u32>,
    pub tables: Vec<Vec<u128>>,
    table_ids: HashMap<Vec<u128>, u32>,
    pub vars: Vec<u8>,
    pub ufnames: Vec<String>,
    dymemo: FxMap<u32, Option<Dy>>,
    /// 0: no variable, i + 1: only the node i (a variable), MAX: more
    sup: Vec<u32>,
    valmemo: FxMap<u32, std::rc::Rc<Vec<u128>>>,
    pub tab_ops: u64,
    lmap: FxMap<Node, u32>,
    pub lowering: bool,
    linmemo: FxMap<u32, std::rc::Rc<Lin>>,
    linmap: HashMap<(u8, std::rc::Rc<Lin>), u32>,
}
/// sum of coefficient * atom plus a constant, modulo 2^w; atoms ascending, coefficients non-zero
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin { t: Vec<(u32, u64)>, k: u64 }
const LIN_MAX: usize = 40;

pub const TRUE: E = E(1);
pub const FALSE: E = E(0);

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], rng: vec![], frng: Default::default(), map: Default::default(), xmemo: Default::default(), tables: vec![], table_ids: HashMap::new(), vars: vec![], ufnames: vec![], dymemo: Default::default(), lmap: Default::default(), lowering: false, linmemo: Default::default(), linmap: HashMap::new(), sup: vec![], valmemo: Default::default(), tab_ops: 0 };
        assert!(c.konst(0, 1) == FALSE);
        assert!(c.konst(1, 1) == TRUE);
        c
    }
    #[inline] pub fn n(&self, e: E) -> &Node { &self.nodes[e.0 as usize] }
    #[inline] pub fn w(&self, e: E) -> u8 { self.nodes[e.0 as usize].w }
    #[inline] pub fn is_const(&self, e: E) -> Option<u128> { let n = self.n(e); if n.op == Const { Some(n.k) } else { None } }
    #[inline] pub fn r(&self, e: E) -> Rng { self.rng[e.0 as usize] }

    pub fn konst(&mut self, v: u128, w: u8) -> E { self.intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, idx: u32, w: u8) -> E {
        while self.vars.len() <= idx as usize { self.vars.push(0) }
        self.vars[idx as usize] = w;
        self.intern(Node { op: Var, w, a: idx, b: 0, c: 0, k: 0 })
    }
    fn intern(&mut self, n: Node) -> E {
        // nodes made while lowering for the solver live apart: they must stay narrow and free of floats
        let low = self.lowering && !matches!(n.op, Const | Var);
        if low { if let Some(&i) = self.lmap.get(&n) { return E(i) } }
        else if let Some(&i) = self.map.get(&n) { return E(i) }
        let i = self.nodes.len() as u32;
        if i == u32::MAX - 2 { panic!("expression arena full") }
        let r = self.calc_range(&n);
        if n.op != Const && n.w <= 64 && r.lo == r.hi {
            let e = self.konst(r.lo as u128, n.w);
            if low { self.lmap.insert(n, e.0); } else { self.map.insert(n, e.0); }
            return e;
        }
        let sup = self.calc_sup(&n, i);
        if !low { if let Some(e) = self.try_tabulate(&n, sup) { self.map.insert(n, e.0); return e } }
        let i = { let _ = i; self.nodes.len() as u32 };
        self.nodes.push(n);
        self.rng.push(r);
        debug_assert!(self.sup.len() == i as usize);
        self.sup.push(if n.op == Var { i + 1 } else { sup });
        if n.op as u8 >= FAdd as u8 {
            let f = self.calc_frange(&n);
            self.frng.insert(i, f);
        }
        if low { self.lmap.insert(n, i); return E(i) }
        self.map.insert(n, i);
        if n.w > 1 && n.w <= 64 && self.linear_op(&n) {
            // nodes denoting the same linear combination become one node
            let l = self.lin(E(i));
            let m = mask(n.w) as u64;
            if let Some(x) = self.lin_range(&l, n.w) { self.rng[i as usize] = Self::meet(self.rng[i as usize], x, n.w) }
            let r = if l.t.is_empty() { Some(self.konst((l.k & m) as u128, n.w).0) }
                else if l.t.len() == 1 && l.t[0].1 == 1 && l.k == 0 { Some(l.t[0].0) }
                else { let key = (n.w, l); match self.linmap.get(&key) { Some(&j) => Some(j), None => { self.linmap.insert(key, i); None } } };
            if let Some(j) = r { if j != i {
                let rj = self.rng[j as usize];
                if self.nodes[j as usize].op != Const { self.rng[j as usize] = Self::meet(rj, self.rng[i as usize], n.w) }
                self.map.insert(n, j);
                return E(j);
            } }
        }
        E(i)
    }
    fn calc_sup(&self, n: &Node, i: u32) -> u32 {
        match n.op {
            Const => 0, Var => i + 1, Uf => u32::MAX,
            op => { let mut r = 0; for c in [n.a, n.b, n.c].iter().take(arity(op) as usize) { let s = self.sup[*c as usize]; if s != 0 { r = if r == 0 || r == s { s } else { u32::MAX } } } r }
        }
    }
    fn vals(&mut self, e: E, v: u32, n: usize) -> std::rc::Rc<Vec<u128>> {
        if let Some(t) = self.valmemo.get(&e.0) { return t.clone() }
        let x = *self.n(e);
        let t = std::rc::Rc::new(match x.op {
            Const => return std::rc::Rc::new(vec![x.k; n]),
            Var => (0..n as u128).collect(),
            _ => self.node_vals(&x, v, n),
        });
        self.valmemo.insert(e.0, t.clone());
        t
    }
    fn node_vals(&mut self, x: &Node, v: u32, n: usize) -> Vec<u128> {
        if x.op == Ite { let (c, a, b) = (self.vals(E(x.a), v, n), self.vals(E(x.b), v, n), self.vals(E(x.c), v, n)); return (0..n).map(|i| if c[i] != 0 { a[i] } else { b[i] }).collect() }
        let a = self.vals(E(x.a), v, n);
        let wa = self.w(E(x.a));
        if arity(x.op) == 2 { let b = self.vals(E(x.b), v, n); (0..n).map(|i| eval_node(self, x, a[i], b[i], wa)).collect() }
        else { (0..n).map(|i| eval_node(self, x, a[i], 0, wa)).collect() }
    }
    /// a function of one variable of at most 8 bits that involves inexact floats, division or a table becomes a table
    fn try_tabulate(&mut self, n: &Node, sup: u32) -> Option<E> {
        if sup == 0 || sup == u32::MAX || matches!(n.op, Var | Const) { return None }
        let var = E(sup - 1);
        let bw = self.w(var);
        if bw > 8 || n.w > 64 { return None }
        let istab = |s: &Self, i: u32| s.nodes[i as usize].op == Table;
        let mut go = match n.op {
            Table if n.a == var.0 => false,
            Table => true,
            UDiv | URem | SDiv | SRem => true,
            Mul => self.is_const(E(n.b)).is_none(),
            FFromS | FFromU => istab(self, n.a),
            FRem => true,
            FSqrt | FAdd | FSub | FMul | FDiv | FExt | FTrunc | FFloor | FCeil | FTruncI | FRoundEven | FRound => {
                // kept symbolic while exact
                let a = self.dy(E(n.a)).is_some(); let b = arity(n.op) < 2 || self.dy(E(n.b)).is_some();
                !(a && b) || n.op == FSqrt || n.op == FDiv && self.is_const(E(n.b)).map_or(true, |k| { let f = tof(k, n.w); f == 0.0 || f.abs().log2().fract() != 0.0 })
            }
            FToS | FToU | FEq | FLt | FLe => true,
            Eq | Ult | Slt => !(self.plain(n.a, 6) && self.plain(n.b, 6)),
            _ => false,
        };
        if !go { let ar = arity(n.op) as usize; go = n.op != Table && [n.a, n.b, n.c].iter().take(ar).any(|c| istab(self, *c)) }
        if !go { return None }
        let num = 1usize << bw;
        let t = self.node_vals(n, sup, num);
        self.tab_ops += 1;
        if n.w == 1 { return Some(self.bool_table(var, t)) }
        Some(self.table(var, t, n.w))
    }
    /// bit selection and sums of the variable only
    fn plain(&self, i: u32, d: u32) -> bool {
        let n = &self.nodes[i as usize];
        match n.op { Const | Var => true, _ if d == 0 => false, Add | Sub | Concat => self.plain(n.a, d - 1) && self.plain(n.b, d - 1), ZExt | SExt | Extract => self.plain(n.a, d - 1), _ => false }
    }
    fn bool_table(&mut self, var: E, t: Vec<u128>) -> E {
        let n = t.len(); let w = self.w(var);
        let ones = t.iter().filter(|v| **v != 0).count();
        if ones == 0 { return FALSE }
        if ones == n { return TRUE }
        let inv = 2 * ones > n || 2 * ones == n && t[0] == 0;
        let want = if inv { 0 } else { 1 };
        let cnt = if inv { n - ones } else { ones };
        let lo = t.iter().position(|v| *v == want).unwrap();
        let r = if cnt == 1 { let k = self.konst(lo as u128, w); self.eq(var, k) }
            else if t[lo..(lo + cnt).min(n)].iter().filter(|v| **v == want).count() == cnt {
                if lo == 0 { let k = self.konst(cnt as u128, w); self.ult(var, k) }
                else if lo + cnt == n { let k = self.konst(lo as u128, w); let x = self.ult(var, k); self.not(x) }
                else { let k = self.konst((lo + cnt) as u128, w); let x = self.ult(var, k); let k = self.konst(lo as u128, w); let y = self.ult(var, k); let y = self.not(y); self.and(x, y) }
            } else { return self.table(var, t, 1) };
        if inv { self.not(r) } else { r }
    }
    fn linear_op(&self, n: &Node) -> bool {
        match n.op {
            Add | Sub => true,
            Mul => self.is_const(E(n.b)).is_some(),
            Concat => { let hi = *self.n(E(n.a)); self.is_const(E(n.b)).is_some() && (self.linear_op(&hi) || hi.op == Extract && hi.k == 0 || n.w > 1 && !matches!(hi.op, Const | Ite | Table)) }
            ZExt | SExt | Extract if n.op != Extract || n.k == 0 => { let i = *self.n(E(n.a)); n.w <= 64 && i.w <= 64 && self.linear_op(&i) }
            _ => false,
        }
    }
    /// bounds of the combination when, with some sign for each coefficient, it stays within the signed or the unsigned width
    fn lin_range(&self, l: &Lin, w: u8) -> Option<Rng> {
        let (lo, hi) = self.lin_bounds(l, None, w)?;
        let f = Self::full(w);
        if lo >= 0 && hi <= mask(w) as i128 { return Some(Self::from_u(lo as u128, hi as u128, w)) }
        if lo >= f.slo as i128 && hi <= f.shi as i128 { return Some(Self::from_s(lo, hi, w)) }
        None
    }
    /// bounds of l (minus m) as an integer, coefficients signed, atoms signed or unsigned, whichever is narrower
    fn lin_bounds(&self, l: &Lin, m: Option<&Lin>, w: u8) -> Option<(i128, i128)> {
        let sg = |c: u64| sx(c as u128, w);
        let none = Lin { t: vec![], k: 0 };
        let b = m.unwrap_or(&none);
        let (mut lo, mut hi) = (sg(l.k) - sg(b.k), sg(l.k) - sg(b.k));
        let (mut i, mut j) = (0, 0);
        while i < l.t.len() || j < b.t.len() {
            let (a, c);
            if j == b.t.len() || i < l.t.len() && l.t[i].0 < b.t[j].0 { a = l.t[i].0; c = sg(l.t[i].1); i += 1 }
            else if i == l.t.len() || b.t[j].0 < l.t[i].0 { a = b.t[j].0; c = -sg(b.t[j].1); j += 1 }
            else { a = l.t[i].0; c = sg(l.t[i].1) - sg(b.t[j].1); i += 1; j += 1 }
            let r = self.rng[a as usize];
            let (p, q) = if (r.hi - r.lo) as i128 <= r.shi as i128 - r.slo as i128 { (r.lo as i128, r.hi as i128) } else { (r.slo as i128, r.shi as i128) };
            let (x, y) = (p.checked_mul(c)?, q.checked_mul(c)?);
            lo = lo.checked_add(x.min(y))?; hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// a < b decided from the difference of two linear combinations that do not wrap
    fn lin_less(&mut self, a: E, b: E, signed: bool) -> Option<bool> {
        let w = self.w(a);
        if w > 64 || self.lowering { return None }
        let (na, nb) = (*self.n(a), *self.n(b));
        if !self.linear_op(&na) && !self.linear_op(&nb) { return None }
        let (la, lb) = (self.lin(a), self.lin(b));
        let (lo, hi) = if signed { let f = Self::full(w); (f.slo as i128, f.shi as i128) } else { (0, mask(w) as i128) };
        for l in [&la, &lb] { let (p, q) = self.lin_bounds(l, None, w)?; if p < lo || q > hi { return None } }
        let (p, q) = self.lin_bounds(&la, Some(&lb), w)?;
        if q < 0 { Some(true) } else if p >= 0 { Some(false) } else { None }
    }
    fn lin_atom(e: E) -> std::rc::Rc<Lin> { std::rc::Rc::new(Lin { t: vec![(e.0, 1)], k: 0 }) }
    fn lin_add(a: &Lin, b: &Lin, cb: u64, w: u8) -> Lin {
        let m = mask(w) as u64;
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j == b.t.len() || i < a.t.len() && a.t[i].0 < b.t[j].0 { t.push(a.t[i]); i += 1 }
            else if i == a.t.len() || b.t[j].0 < a.t[i].0 { let c = b.t[j].1.wrapping_mul(cb) & m; if c != 0 { t.push((b.t[j].0, c)) } j += 1 }
            else { let c = a.t[i].1.wrapping_add(b.t[j].1.wrapping_mul(cb)) & m; if c != 0 { t.push((a.t[i].0, c)) } i += 1; j += 1 }
        }
        Lin { t, k: a.k.wrapping_add(b.k.wrapping_mul(cb)) & m }
    }
    fn lin(&mut self, e: E) -> std::rc::Rc<Lin> {
        if let Some(l) = self.linmemo.get(&e.0) { return l.clone() }
        let n = *self.n(e);
        let l = if n.w <= 64 { self.lin0(e, n) } else { Self::lin_atom(e) };
        let l = if l.t.len() > LIN_MAX { Self::lin_atom(e) } else { l };
        self.linmemo.insert(e.0, l.clone());
        l
    }
    fn lin_scaled(&mut self, a: E, k: u64, w: u8) -> Lin { let l = self.lin(a); Self::lin_add(&Lin { t: vec![], k: 0 }, &l, k, w) }
    /// each atom moved to width w by f (all arithmetic modulo 2^w afterwards)
    fn lin_map(&mut self, l: &Lin, w: u8, f: impl Fn(&mut Ctx, E) -> E, coef: impl Fn(u64) -> u64, k: u64) -> Lin {
        let mut r = Lin { t: vec![], k: k & mask(w) as u64 };
        for &(a, c) in &l.t { let x = f(self, E(a)); let lx = self.lin(x); r = Self::lin_add(&r, &lx, coef(c), w); }
        r
    }
    fn lin0(&mut self, e: E, n: Node) -> std::rc::Rc<Lin> {
        let w = n.w;
        let l = match n.op {
            Const => Lin { t: vec![], k: n.k as u64 },
            Add => { let (a, b) = (self.lin(E(n.a)), self.lin(E(n.b))); Self::lin_add(&a, &b, 1, w) }
            Sub => { let (a, b) = (self.lin(E(n.a)), self.lin(E(n.b))); Self::lin_add(&a, &b, u64::MAX, w) }
            Mul => match self.is_const(E(n.b)) { Some(k) => self.lin_scaled(E(n.a), k as u64, w), None => return Self::lin_atom(e) },
            Concat => match self.is_const(E(n.b)) {
                Some(k) if !matches!(self.n(E(n.a)).op, Const | Ite | Table) => {
                    // the high part scaled: only its value modulo 2^(w - lw) matters
                    let lw = self.w(E(n.b));
                    let h = self.lin(E(n.a));
                    let lift = |c: &mut Ctx, a: E| { let m = *c.n(a); if m.op == Extract && m.k == 0 && c.w(E(m.a)) == w { return E(m.a) } c.zext(a, w) };
                    let kk = (h.k << lw) | k as u64;
                    self.lin_map(&h, w, lift, |c| c << lw, kk)
                }
                _ => return Self::lin_atom(e),
            },
            ZExt => {
                let x = *self.n(E(n.a)); let (a, b) = (E(x.a), E(x.b)); let im = mask(x.w);
                match x.op {
                    Add if self.nowrap_u(a, b) => { let (a, b) = (self.zext(a, w), self.zext(b, w)); let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, 1, w) }
                    Sub if self.r(a).lo >= self.r(b).hi => { let (a, b) = (self.zext(a, w), self.zext(b, w)); let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, u64::MAX, w) }
                    Mul => match self.is_const(b) { Some(k) if k * self.r(a).hi as u128 <= im => { let a = self.zext(a, w); self.lin_scaled(a, k as u64, w) } _ => return Self::lin_atom(e) },
                    Concat => match self.is_const(b) { Some(k) if !matches!(self.n(a).op, Const | Ite | Table) => { let lw = self.w(b); let a = self.zext(a, w); let l = self.lin_scaled(a, 1 << lw, w); Lin { k: l.k.wrapping_add(k as u64) & mask(w) as u64, t: l.t } } _ => return Self::lin_atom(e) },
                    _ => return Self::lin_atom(e),
                }
            }
            SExt => {
                let x = *self.n(E(n.a)); let (a, b) = (E(x.a), E(x.b)); let f = Self::full(x.w);
                let (ra, rb) = (if matches!(x.op, Add | Sub | Mul) { self.r(a) } else { f }, if matches!(x.op, Add | Sub) { self.r(b) } else { f });
                let fits = |lo: i128, hi: i128| lo >= f.slo as i128 && hi <= f.shi as i128;
                match x.op {
                    Add if fits(ra.slo as i128 + rb.slo as i128, ra.shi as i128 + rb.shi as i128) => { let (a, b) = (self.sext(a, w), self.sext(b, w)); let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, 1, w) }
                    Sub if fits(ra.slo as i128 - rb.shi as i128, ra.shi as i128 - rb.slo as i128) => { let (a, b) = (self.sext(a, w), self.sext(b, w)); let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, u64::MAX, w) }
                    Mul => match self.is_const(b) {
                        Some(k) => { let k = sx(k, x.w); let (p, q) = (k * ra.slo as i128, k * ra.shi as i128); if !fits(p.min(q), p.max(q)) { return Self::lin_atom(e) } let a = self.sext(a, w); self.lin_scaled(a, k as u64, w) }
                        _ => return Self::lin_atom(e),
                    },
                    Concat => match self.is_const(b) { Some(k) if !matches!(self.n(a).op, Const | Ite | Table) => { let lw = self.w(b); let a = self.sext(a, w); let l = self.lin_scaled(a, 1 << lw, w); Lin { k: l.k.wrapping_add(k as u64) & mask(w) as u64, t: l.t } } _ => return Self::lin_atom(e) },
                    _ => return Self::lin_atom(e),
                }
            }
            Extract if n.k == 0 && self.w(E(n.a)) <= 64 => {
                let x = *self.n(E(n.a));
                if !self.linear_op(&x) { return Self::lin_atom(e) }
                let l = self.lin(E(n.a));
                if l.t.len() == 1 && l.t[0].0 == n.a { return Self::lin_atom(e) }
                self.lin_map(&l, w, |c, a| c.extract(a, 0, w), |c| c & mask(w) as u64, l.k)
            }
            _ => return Self::lin_atom(e),
        };
        std::rc::Rc::new(l)
    }
    fn full(w: u8) -> Rng {
        if w > 64 { return Rng { lo: 0, hi: u64::MAX, slo: i64::MIN, shi: i64::MAX } }
        let m = mask(w) as u64;
        Rng { lo: 0, hi: m, slo: sx64(1u64 << (w - 1), w), shi: (m >> 1) as i64 }
    }
    fn tighten(mut r: Rng, w: u8) -> Rng {
        if w > 64 { return r }
        let half = 1u64 << (w - 1);
        // unsigned -> signed
        if r.hi < half { r.slo = r.slo.max(r.lo as i64); r.shi = r.shi.min(r.hi as i64); }
        else if r.lo >= half { r.slo = r.slo.max(sx64(r.lo, w)); r.shi = r.shi.min(sx64(r.hi, w)); }
        // signed -> unsigned
        let m = mask(w) as u64;
        if r.slo >= 0 { r.lo = r.lo.max(r.slo as u64); r.hi = r.hi.min(r.shi as u64); }
        else if r.shi < 0 { r.lo = r.lo.max(r.slo as u64 & m); r.hi = r.hi.min(r.shi as u64 & m); }
        r
    }
    fn from_u(lo: u128, hi: u128, w: u8) -> Rng {
        let f = Self::full(w);
        if w > 64 || hi > mask(w) { return f }
        Self::tighten(Rng { lo: lo as u64, hi: hi as u64, ..f }, w)
    }
    fn from_s(lo: i128, hi: i128, w: u8) -> Rng {
        let f = Self::full(w);
        if w > 64 || lo < f.slo as i128 || hi > f.shi as i128 { return f }
        Self::tighten(Rng { slo: lo as i64, shi: hi as i64, ..f }, w)
    }
    fn meet(a: Rng, b: Rng, w: u8) -> Rng {
        Self::tighten(Rng { lo: a.lo.max(b.lo), hi: a.hi.min(b.hi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi) }, w)
    }
    fn calc_range(&self, n: &Node) -> Rng {
        let w = n.w;
        let f = Self::full(w);
        if w > 64 { return f }
        if n.op == Const {
            let v = n.k as u64;
            let s = sx64(v, w);
            return Rng { lo: v, hi: v, slo: s, shi: s };
        }
        if n.op == Var || n.op == Uf { return f }
        let wa = if n.op == Table { 0 } else { self.nodes[n.a as usize].w };
        if n.op == Table {
            let t = &self.tables[n.k as usize];
            let lo = *t.iter().min().unwrap(); let hi = *t.iter().max().unwrap();
            let u = Self::from_u(lo, hi, w);
            let slo = t.iter().map(|&v| sx(v, w)).min().unwrap(); let shi = t.iter().map(|&v| sx(v, w)).max().unwrap();
            return Self::meet(u, Self::from_s(slo, shi, w), w);
        }
        if wa > 64 { return f }
        let a = self.rng[n.a as usize];
        let (alo, ahi, aslo, ashi) = (a.lo as u128, a.hi as u128, a.slo as i128, a.shi as i128);
        let bb = match n.op { Add | Sub | Mul | UDiv | URem | SDiv | SRem | Shl | LShr | AShr | And | Or | Xor | Concat | Ite => Some(self.rng[n.b as usize]), _ => None };
        match n.op {
            Add => { let b = bb.unwrap(); Self::meet(Self::from_u(alo + b.lo as u128, ahi + b.hi as u128, w), Self::from_s(aslo + b.slo as i128, ashi + b.shi as i128, w), w) }
            Sub => { let b = bb.unwrap();
                let u = if alo >= b.hi as u128 { Self::from_u(alo - b.hi as u128, ahi - b.lo as u128, w) } else { f };
                Self::meet(u, Self::from_s(aslo - b.shi as i128, ashi - b.slo as i128, w), w) }
            Mul => { let b = bb.unwrap();
                let u = Self::from_u(alo.saturating_mul(b.lo as u128), ahi.saturating_mul(b.hi as u128), w);
                let mut ps = [aslo * b.slo as i128, aslo * b.shi as i128, ashi * b.slo as i128, ashi * b.shi as i128];
                if n.a == n.b { ps = [if aslo <= 0 && ashi >= 0 { 0 } else { ps[0].min(ps[3]) }, ps[0], ps[0].max(ps[3]), ps[3]] }
                Self::meet(u, Self::from_s(*ps.iter().min().unwrap(), *ps.iter().max().unwrap(), w), w) }
            UDiv => { let b = bb.unwrap(); if b.lo == 0 { f } else { Self::from_u(alo / b.hi as u128, ahi / b.lo as u128, w) } }
            URem => { let b = bb.unwrap(); if b.lo == 0 { f } else { Self::from_u(0, ahi.min(b.hi as u128 - 1), w) } }
            SDiv => { let b = bb.unwrap(); if b.slo <= 0 { f } else {
                let ps = [aslo / b.slo as i128, aslo / b.shi as i128, ashi / b.slo as i128, ashi / b.shi as i128];
                Self::from_s(*ps.iter().min().unwrap(), *ps.iter().max().unwrap(), w) } }
            SRem => { let b = bb.unwrap(); if b.slo <= 0 { f } else {
                let m = b.shi as i128 - 1;
                Self::from_s(if aslo >= 0 { 0 } else { aslo.max(-m) }, if ashi <= 0 { 0 } else { ashi.min(m) }, w) } }
            Shl => { let b = bb.unwrap(); if b.hi < 64 { Self::from_u(alo << b.lo, ahi << b.hi, w) } else { f } }
            LShr => { let b = bb.unwrap(); Self::from_u(if b.hi >= 64 { 0 } else { alo >> b.hi }, if b.lo >= 64 { 0 } else { ahi >> b.lo }, w) }
            AShr => { let b = bb.unwrap(); if b.hi >= w as u64 { f } else {
                let ps = [aslo >> b.lo, aslo >> b.hi, ashi >> b.lo, ashi >> b.hi];
                Self::from_s(*ps.iter().min().unwrap(), *ps.iter().max().unwrap(), w) } }
            And => { let b = bb.unwrap(); Self::from_u(0, ahi.min(b.hi as u128), w) }
            Or => { let b = bb.unwrap(); let m = ahi | b.hi as u128; let bits = 128 - m.leading_zeros(); Self::from_u(alo.max(b.lo as u128), if bits == 0 { 0 } else { (1u128 << bits) - 1 }, w) }
            Xor => { let b = bb.unwrap(); let m = ahi | b.hi as u128; let bits = 128 - m.leading_zeros(); Self::from_u(0, if bits == 0 { 0 } else { (1u128 << bits) - 1 }, w) }
            Concat => { let b = bb.unwrap(); let bw = self.nodes[n.b as usize].w; Self::from_u((alo << bw) | b.lo as u128, (ahi << bw) | b.hi as u128, w) }
            ZExt => Self::from_u(alo, ahi, w),
            SExt => Self::from_s(aslo, ashi, w),
            Extract => {
                let lo = n.k as u32;
                if ahi >> lo <= mask(w) { Self::from_u(alo >> lo, ahi >> lo, w) }
                else if lo == 0 { // truncation preserving signed value?
                    let ff = Self::full(w);
                    if aslo >= ff.slo as i128 && ashi <= ff.shi as i128 { Self::from_s(aslo, ashi, w) } else { f }
                } else { f }
            }
            Ite => {
                let b = bb.unwrap(); let c = self.rng[n.c as usize];
                Rng { lo: b.lo.min(c.lo), hi: b.hi.max(c.hi), slo: b.slo.min(c.slo), shi: b.shi.max(c.shi) }
            }
            FToS | FToU => {
                let fr = self.fr(E(n.a));
                if fr.nan && (fr.lo > 0.0 || fr.hi < 0.0) { return f }
                let ff = Self::full(w);
                if n.op == FToS {
                    let lo = fr.lo.trunc().max(ff.slo as f64).min(ff.shi as f64); let hi = fr.hi.trunc().max(ff.slo as f64).min(ff.shi as f64);
                    Self::from_s((lo as i128).max(ff.slo as i128), (hi as i128).min(ff.shi as i128), w)
                } else {
                    let lo = fr.lo.trunc().max(0.0).min(ff.hi as f64); let hi = fr.hi.trunc().max(0.0).min(ff.hi as f64);
                    Self::from_u((lo as u128).min(ff.hi as u128), (hi as u128).min(ff.hi as u128), w)
                }
            }
            FFromS | FFromU | FAdd | FSub | FMul | FDiv | FSqrt => f,
            _ => f,
        }
    }
    /// float interval of an expression interpreted as a float of its own width
    pub fn fr(&self, e: E) -> FR {
        if let Some(f) = self.frng.get(&e.0) { return *f }
        let n = self.n(e);
        match n.op {
            Const => { let v = tof(n.k, n.w); FR { lo: v, hi: v, nan: v.is_nan() }.fix() }
            Ite => { let a = self.fr(E(n.b)); let b = self.fr(E(n.c)); FR { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), nan: a.nan || b.nan } }
            Table => {
                let t = &self.tables[n.k as usize];
                let mut r = FR { lo: f64::INFINITY, hi: f64::NEG_INFINITY, nan: false };
                for &v in t { let v = tof(v, n.w); if v.is_nan() { r.nan = true } else { r.lo = r.lo.min(v); r.hi = r.hi.max(v) } }
                if r.lo > r.hi { FULLF } else { r }
            }
            And if self.is_const(E(n.b)) == Some(mask(n.w) >> 1) => { // fabs
                let a = self.fr(E(n.a));
                let m = a.lo.abs().max(a.hi.abs());
                FR { lo: if a.lo <= 0.0 && a.hi >= 0.0 { 0.0 } else { a.lo.abs().min(a.hi.abs()) }, hi: m, nan: a.nan }
            }
            Xor if self.is_const(E(n.b)) == Some(1u128 << (n.w - 1)) => { let a = self.fr(E(n.a)); FR { lo: -a.hi, hi: -a.lo, nan: a.nan } }
            _ => FULLF,
        }
    }
    fn calc_frange(&self, n: &Node) -> FR {
        let rd = |v: f64| if n.w == 32 { v as f32 as f64 } else { v };
        let two = |f: &dyn Fn(f64, f64) -> f64, a: FR, b: FR, zx: bool| -> FR {
            let mut r = FR { lo: f64::INFINITY, hi: f64::NEG_INFINITY, nan: a.nan || b.nan };
            let _ = zx;
            for x in [a.lo, a.hi] { for y in [b.lo, b.hi] {
                let v = f(x, y);
                if v.is_nan() { return FULLF }
                r.lo = r.lo.min(v); r.hi = r.hi.max(v);
            } }
            r
        };
        match n.op {
            FAdd => { let (a, b) = (self.fr(E(n.a)), self.fr(E(n.b))); if n.w == 32 { two(&|x, y| (x as f32 + y as f32) as f64, a, b, false) } else { two(&|x, y| x + y, a, b, false) } }
            FSub => { let (a, b) = (self.fr(E(n.a)), self.fr(E(n.b))); if n.w == 32 { two(&|x, y| (x as f32 - y as f32) as f64, a, b, false) } else { two(&|x, y| x - y, a, b, false) } }
            FMul => { let (a, b) = (self.fr(E(n.a)), self.fr(E(n.b)));
                // inf*0 inside the box is a NaN even if no corner shows it
                if (a.lo.is_infinite() || a.hi.is_infinite() || b.lo.is_infinite() || b.hi.is_infinite()) && !(a.lo > 0.0 && b.lo > 0.0) { return FULLF }
                if n.w == 32 { two(&|x, y| (x as f32 * y as f32) as f64, a, b, false) } else { two(&|x, y| x * y, a, b, false) } }
            FDiv => { let (a, b) = (self.fr(E(n.a)), self.fr(E(n.b)));
                if b.lo <= 0.0 && b.hi >= 0.0 { return FULLF }
                if a.lo.is_infinite() || a.hi.is_infinite() || b.lo.is_infinite() || b.hi.is_infinite() { return FULLF }
                if n.w == 32 { two(&|x, y| (x as f32 / y as f32) as f64, a, b, false) } else { two(&|x, y| x / y, a, b, false) } }
            FSqrt => { let a = self.fr(E(n.a)); if a.lo < 0.0 { return FULLF } FR { lo: rd(a.lo.sqrt()).min(a.lo.sqrt()), hi: rd(a.hi.sqrt()).max(a.hi.sqrt()), nan: a.nan } }
            FFromS => { let r = self.r(E(n.a)); if self.w(E(n.a)) > 64 { return FULLF } let g = |v: i64| if n.w == 32 { v as f32 as f64 } else { v as f64 }; FR { lo: g(r.slo), hi: g(r.shi), nan: false } }
            FFromU => { let r = self.r(E(n.a)); if self.w(E(n.a)) > 64 { return FULLF } let g = |v: u64| if n.w == 32 { v as f32 as f64 } else { v as f64 }; FR { lo: g(r.lo), hi: g(r.hi), nan: false } }
            FExt => self.fr(E(n.a)),
            FTrunc => { let a = self.fr(E(n.a)); FR { lo: a.lo as f32 as f64, hi: a.hi as f32 as f64, nan: a.nan } }
            FFloor => { let a = self.fr(E(n.a)); FR { lo: a.lo.floor(), hi: a.hi.floor(), nan: a.nan } }
            FCeil => { let a = self.fr(E(n.a)); FR { lo: a.lo.ceil(), hi: a.hi.ceil(), nan: a.nan } }
            FTruncI => { let a = self.fr(E(n.a)); FR { lo: a.lo.trunc(), hi: a.hi.trunc(), nan: a.nan } }
            FRoundEven => { let a = self.fr(E(n.a)); FR { lo: a.lo.round_ties_even(), hi: a.hi.round_ties_even(), nan: a.nan } }
            FRound => { let a = self.fr(E(n.a)); FR { lo: a.lo.round(), hi: a.hi.round(), nan: a.nan } }
            _ => FULLF,
        }
    }

    pub fn table(&mut self, idx: E, t: Vec<u128>, w: u8) -> E {
        // idx must be < t.len() under all values (padded by caller)
        if let Some(k) = self.is_const(idx) { return self.konst(t[(k as usize).min(t.len() - 1)], w) }
        if t.iter().all(|v| *v == t[0]) { return self.konst(t[0], w) }
        let iw = self.w(idx);
        if iw <= w && iw <= 16 && t.len() == 1usize << iw && t.iter().enumerate().all(|(i, v)| *v == i as u128) { return self.zext(idx, w) }
        let id = if let Some(&i) = self.table_ids.get(&t) { i } else { let i = self.tables.len() as u32; self.tables.push(t.clone()); self.table_ids.insert(t, i); i };
        self.intern(Node { op: Table, w, a: idx.0, b: 0, c: 0, k: id as u128 })
    }
    pub fn uf(&mut self, name: &str, args: &[E], w: u8) -> E {
        let id = match self.ufnames.iter().position(|n| n == name) { Some(i) => i, None => { self.ufnames.push(name.into()); self.ufnames.len() - 1 } };
        let g = |i: usize| args.get(i).map(|e| e.0).unwrap_or(0);
        self.intern(Node { op: Uf, w, a: g(0), b: g(1), c: g(2), k: id as u128 })
    }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.konst(mask(w), w); self.bin(Xor, a, m) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Or, a, b) }
    pub fn add(&mut self, a: E, b: E) -> E { self.bin(Add, a, b) }
    pub fn sub(&mut self, a: E, b: E) -> E { self.bin(Sub, a, b) }
    pub fn addk(&mut self, a: E, k: u128) -> E { let w = self.w(a); let k = self.konst(k, w); self.bin(Add, a, k) }
    pub fn is_not(&self, e: E) -> Option<E> { let n = self.n(e); if n.op == Xor && self.is_const(E(n.b)) == Some(mask(n.w)) { Some(E(n.a)) } else { None } }

    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        if n.op == Ite { if let (Some(x), Some(y)) = (self.is_const(E(n.b)), self.is_const(E(n.c))) { return Some((E(n.a), x, y)) } }
        None
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let v = eval_bin(op, x, y, w);
            return self.konst(v, w);
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Add | Mul | And | Or | Xor) {
            // constant to the right, otherwise order by id
            let ac = self.is_const(a).is_some(); let bc = self.is_const(b).is_some();
            if ac || (!bc && a.0 > b.0) { std::mem::swap(&mut a, &mut b) }
        }
        let m = mask(w);
        let kb = self.is_const(b);
        // distribute over ite of constants
        if let Some(y) = kb {
            if let Some((c, p, q)) = self.ite_consts(a) {
                if !matches!(op, UDiv | URem | SDiv | SRem) || y != 0 {
                    let p = self.konst(eval_bin(op, p, y, w), w); let q = self.konst(eval_bin(op, q, y, w), w);
                    return self.ite(c, p, q);
                }
            }
        }
        if let (Some(x), Some((c, p, q))) = (self.is_const(a), self.ite_consts(b)) {
            if !matches!(op, UDiv | URem | SDiv | SRem) || (p != 0 && q != 0) {
                let p = self.konst(eval_bin(op, x, p, w), w); let q = self.konst(eval_bin(op, x, q, w), w);
                return self.ite(c, p, q);
            }
        }
        match op {
            Add => {
                if kb == Some(0) { return a }
                if w == 1 { return self.bin(Xor, a, b) }
                let na = *self.n(a);
                if let Some(y) = kb {
                    if na.op == Add { if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Add, E(na.a), k) } }
                    if na.op == Sub { if let Some(x) = self.is_const(E(na.a)) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Sub, k, E(na.b)) } }
                } else {
                    // pull constants outwards
                    if na.op == Add { if self.is_const(E(na.b)).is_some() { let t = self.bin(Add, E(na.a), b); return self.bin(Add, t, E(na.b)) } }
                    let nb = *self.n(b);
                    if nb.op == Add { if self.is_const(E(nb.b)).is_some() { let t = self.bin(Add, a, E(nb.a)); return self.bin(Add, t, E(nb.b)) } }
                    // x + (y - x) = y ; 
                    if nb.op == Sub && E(nb.b) == a { return E(nb.a) }
                    if na.op == Sub && E(na.b) == b { return E(na.a) }
                }
            }
            Sub => {
                if a == b { return self.konst(0, w) }
                if w == 1 { return self.bin(Xor, a, b) }
                if let Some(y) = kb { let k = self.konst(y.wrapping_neg(), w); return self.bin(Add, a, k) }
                let na = *self.n(a); let nb = *self.n(b);
                if nb.op == Add { if let Some(y) = self.is_const(E(nb.b)) { let t = self.bin(Sub, a, E(nb.a)); let k = self.konst(y.wrapping_neg(), w); return self.bin(Add, t, k) } }
                if na.op == Add {
                    if self.is_const(E(na.b)).is_some() { let t = self.bin(Sub, E(na.a), b); return self.bin(Add, t, E(na.b)) }
                    if E(na.a) == b { return E(na.b) }
                    if E(na.b) == b { return E(na.a) }
                }
            }
            Mul => {
                if kb == Some(0) { return b }
                if kb == Some(1) { return a }
                if w == 1 { return self.bin(And, a, b) }
                if let Some(y) = kb {
                    if y.is_power_of_two() { let k = self.konst(y.trailing_zeros() as u128, w); return self.bin(Shl, a, k) }
                    let na = *self.n(a);
                    if na.op == Mul { if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(x.wrapping_mul(y), w); return self.bin(Mul, E(na.a), k) } }
                    if na.op == Add { if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(x.wrapping_mul(y), w); let t = self.bin(Mul, E(na.a), b); return self.bin(Add, t, k) } }
                }
            }
            UDiv => {
                if kb == Some(1) { return a }
                if let Some(y) = kb {
                    if y.is_power_of_two() { let k = self.konst(y.trailing_zeros() as u128, w); return self.bin(LShr, a, k) }
                    // narrow
                    if w <= 64 && w > 8 && y != 0 { if let Some(nw) = self.narrow_w(a, b) { let x = self.extract(a, 0, nw); let z = self.extract(b, 0, nw); let d = self.bin(UDiv, x, z); return self.zext(d, w) } }
                }
            }
            URem => {
                if let Some(y) = kb {
                    if y == 1 { return self.konst(0, w) }
                    if y.is_power_of_two() { let k = self.konst(y - 1, w); return self.bin(And, a, k) }
                    if w <= 64 && y != 0 && (self.r(a).hi as u128) < y { return a }
                    if w <= 64 && w > 8 && y != 0 { if let Some(nw) = self.narrow_w(a, b) { let x = self.extract(a, 0, nw); let z = self.extract(b, 0, nw); let d = self.bin(URem, x, z); return self.zext(d, w) } }
                }
            }
            SDiv => {
                if kb == Some(1) { return a }
                if w <= 64 && self.r(a).slo >= 0 && self.r(b).slo >= 0 { return self.bin(UDiv, a, b) }
            }
            SRem => {
                if w <= 64 && self.r(a).slo >= 0 && self.r(b).slo >= 0 { return self.bin(URem, a, b) }
            }
            And => {
                if a == b { return a }
                if let Some(y) = kb {
                    if y == 0 { return b }
                    if y == m { return a }
                    if self.is_float_abs(a, y) { return a }
                    // low mask: zext(extract)
                    if (y & (y + 1)) == 0 && y != m >> 1 { let nw = 128 - y.leading_zeros() as u8; let x = self.extract(a, 0, nw); return self.zext(x, w) }
                    let na = *self.n(a);
                    if na.op == And { if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(x & y, w); return self.bin(And, E(na.a), k) } }
                    if na.op == ZExt { let iw = self.w(E(na.a)); let k = self.konst(y, iw); let t = self.bin(And, E(na.a), k); return self.zext(t, w) }
                    // contiguous high-ish mask: shifted
                    let tz = y.trailing_zeros();
                    let yy = y >> tz;
                    if tz > 0 && (yy & (yy + 1)) == 0 { let nw = 128 - yy.leading_zeros() as u8; let x = self.extract(a, tz as u8, nw); let z = self.konst(0, tz as u8); let c = self.concat(x, z); return self.zext(c, w) }
                }
                if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.konst(0, w) }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == And && (E(na.a) == b || E(na.b) == b) { return a }
                if nb.op == And && (E(nb.a) == a || E(nb.b) == a) { return b }
                if w == 1 {
                    if na.op == Or && (E(na.a) == b || E(na.b) == b) { return b }
                    if nb.op == Or && (E(nb.a) == a || E(nb.b) == a) { return a }
                    // !p & !q -> !(p | q) where the disjunction is a single comparison
                    if let (Some(p), Some(q)) = (self.is_not(a), self.is_not(b)) { if let Some(r) = self.or_cmp(p, q) { return self.not(r) } }
                    // 0 <=s x & x < k -> x <u k
                    for (x, y) in [(a, b), (b, a)] { if let Some(p) = self.is_not(x) {
                        let (np, ny) = (*self.n(p), *self.n(y));
                        if np.op == Slt && self.is_const(E(np.b)) == Some(0) && matches!(ny.op, Slt | Ult) && ny.a == np.a {
                            let xw = self.w(E(np.a));
                            if let Some(k) = self.is_const(E(ny.b)) { if k <= mask(xw) >> 1 { return self.ult(E(ny.a), E(ny.b)) } }
                        }
                    } }
                }
            }
            Or => {
                if a == b { return a }
                if let Some(y) = kb { if y == 0 { return a } if y == m { return b } }
                if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.konst(m, w) }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == Or && (E(na.a) == b || E(na.b) == b) { return a }
                if nb.op == Or && (E(nb.a) == a || E(nb.b) == a) { return b }
                if w == 1 {
                    if na.op == And && (E(na.a) == b || E(na.b) == b) { return b }
                    if nb.op == And && (E(nb.a) == a || E(nb.b) == a) { return a }
                    if let Some(r) = self.or_cmp(a, b) { return r }
                    if let (Some(p), Some(q)) = (self.is_not(a), self.is_not(b)) {
                        // !p | !q with p & q a single comparison
                        for (x, y) in [(p, q), (q, p)] { let (nx, ny) = (*self.n(x), *self.n(y)); if nx.op == ny.op && matches!(nx.op, Slt | Ult) && nx.a == ny.a {
                            if let (Some(k), Some(j)) = (self.is_const(E(nx.b)), self.is_const(E(ny.b))) { let xw = self.w(E(nx.a)); let less = if nx.op == Slt { sx(k, xw) <= sx(j, xw) } else { k <= j }; if less { return self.not(x) } }
                        } }
                    }
                    // (x & y) | (!x & y) -> y
                    if na.op == And && nb.op == And {
                        for (p, q) in [(na.a, na.b), (na.b, na.a)] { for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                            if q == s && (self.is_not(E(p)) == Some(E(r)) || self.is_not(E(r)) == Some(E(p))) { return E(q) }
                        } }
                    }
                    // x | (!x & y) -> x | y
                    for (x, n) in [(a, nb), (b, na)] { if n.op == And { for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                        if self.is_not(E(p)) == Some(x) || self.is_not(x) == Some(E(p)) { return self.bin(Or, x, E(q)) }
                    } } }
                }
                // byte assembly
                for (x, y) in [(a, b), (b, a)] {
                    let nx = *self.n(x);
                    let (hi, lo) = if nx.op == Concat { (Some(E(nx.a)), E(nx.b)) } else if nx.op == ZExt && self.n(E(nx.a)).op == Concat { let c = *self.n(E(nx.a)); let h = self.zext(E(c.a), w - self.w(E(c.b))); (Some(h), E(c.b)) } else { (None, x) };
                    if let Some(h) = hi {
                        if self.is_const(lo) == Some(0) {
                            let lw = self.w(lo);
                            let top = self.extract(y, lw, w - lw);
                            if self.is_const(top) == Some(0) { let l = self.extract(y, 0, lw); return self.concat(h, l) }
                        }
                    }
                }
            }
            Xor => {
                if a == b { return self.konst(0, w) }
                if let Some(y) = kb {
                    if y == 0 { return a }
                    let na = *self.n(a);
                    if na.op == Xor { if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(x ^ y, w); return self.bin(Xor, E(na.a), k) } }
                }
            }
            Shl => {
                if let Some(y) = kb {
                    if y == 0 { return a }
                    if y >= w as u128 { return self.konst(0, w) }
                    let y = y as u8;
                    let x = self.extract(a, 0, w - y); let z = self.konst(0, y);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if let Some(y) = kb {
                    if y == 0 { return a }
                    if y >= w as u128 { return self.konst(0, w) }
                    let x = self.extract(a, y as u8, w - y as u8);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if let Some(y) = kb {
                    if y == 0 { return a }
                    let y = y.min(w as u128 - 1) as u8;
                    if w <= 64 && self.r(a).slo >= 0 { let k = self.konst(y as u128, w); return self.bin(LShr, a, k) }
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            FAdd | FMul => { if a.0 > b.0 { std::mem::swap(&mut a, &mut b) } }
            _ => {}
        }
        self.intern(Node { op, w, a: a.0, b: b.0, c: 0, k: 0 })
    }
    /// the disjunction of two comparisons of one value with constants, when it is a single comparison
    fn or_cmp(&mut self, a: E, b: E) -> Option<E> {
        for (x, y) in [(a, b), (b, a)] {
            let (nx, ny) = (*self.n(x), *self.n(y));
            if !matches!(nx.op, Slt | Ult) || !matches!(ny.op, Slt | Ult) || nx.a != ny.a { return None }
            let w = self.w(E(nx.a));
            let (k, j) = (self.is_const(E(nx.b))?, self.is_const(E(ny.b))?);
            if nx.op == ny.op { let less = if nx.op == Slt { sx(k, w) <= sx(j, w) } else { k <= j }; if less { return Some(y) } }
            // x <s 0 | x <u j -> x <s j
            if nx.op == Slt && k == 0 && ny.op == Ult && j <= mask(w) >> 1 { return Some(self.slt(E(nx.a), E(ny.b))) }
        }
        None
    }
    fn is_float_abs(&self, _a: E, _y: u128) -> bool { false }
    fn narrow_w(&self, a: E, b: E) -> Option<u8> {
        let w = self.w(a);
        let h = self.r(a).hi.max(self.r(b).hi);
        let nb = (64 - h.leading_zeros()).max(1) as u8;
        if nb < w { Some(nb) } else { None }
    }
    // ---------- exact dyadic floats
    fn dyconst(v: f64) -> Option<(i128, i32)> {
        if !v.is_finite() { return None }
        if v == 0.0 { return Some((0, 0)) }
        let b = v.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        if e == 0 { return None }
        let mut m = ((b & ((1 << 52) - 1)) | 1 << 52) as i128;
        let mut k = 1075 - e;
        while m & 1 == 0 { m >>= 1; k -= 1 }
        if k < 0 { if k < -60 { return None } m <<= -k; k = 0; if m >= 1 << 62 { return None } }
        Some((if v < 0.0 { -m } else { m }, k))
    }
    fn k64(&mut self, v: i128) -> E { self.konst(v as u128, 64) }
    fn dyshl(&mut self, d: Dy, n: i32) -> Option<Dy> {
        if n == 0 { return Some(d) }
        if n > 60 { return None }
        let f = 1i128 << n;
        if d.lo * f < -(1 << 62) || d.hi * f > 1 << 62 { return None }
        let c = self.k64(f); let m = self.bin(Mul, d.m, c);
        Some(Dy { m, k: d.k + n, lo: d.lo * f, hi: d.hi * f })
    }
    fn dyalign(&mut self, a: Dy, b: Dy) -> Option<(Dy, Dy)> {
        let k = a.k.max(b.k);
        Some((self.dyshl(a, k - a.k)?, self.dyshl(b, k - b.k)?))
    }
    fn neg0(&mut self, m: E) -> E { let z = self.k64(0); self.sub(z, m) }
    pub fn dy(&mut self, e: E) -> Option<Dy> {
        if let Some(r) = self.dymemo.get(&e.0) { return *r }
        let r = self.dy_(e);
        self.dymemo.insert(e.0, r);
        r
    }
    fn dy_(&mut self, e: E) -> Option<Dy> {
        let n = *self.n(e);
        if n.w != 32 && n.w != 64 { return None }
        let lim = if n.w == 32 { 1i128 << 24 } else { 1i128 << 53 };
        let ok = |d: Dy| if d.lo >= -lim && d.hi <= lim { Some(d) } else { None };
        match n.op {
            Const => { let (m, k) = Self::dyconst(tof(n.k, n.w))?; let c = self.k64(m); Some(Dy { m: c, k, lo: m, hi: m }) }
            FFromU => { let a = E(n.a); if self.w(a) > 64 { return None } let r = self.r(a); if r.hi as i128 > lim { return None } let m = self.zext(a, 64); Some(Dy { m, k: 0, lo: r.lo as i128, hi: r.hi as i128 }) }
            FFromS => { let a = E(n.a); if self.w(a) > 64 { return None } let r = self.r(a); if r.shi as i128 > lim || (r.slo as i128) < -lim { return None } let m = self.sext(a, 64); Some(Dy { m, k: 0, lo: r.slo as i128, hi: r.shi as i128 }) }
            FAdd | FSub => {
                let (a, b) = (self.dy(E(n.a))?, self.dy(E(n.b))?);
                let (a, b) = self.dyalign(a, b)?;
                let (lo, hi) = if n.op == FAdd { (a.lo + b.lo, a.hi + b.hi) } else { (a.lo - b.hi, a.hi - b.lo) };
                if lo < -lim || hi > lim { return None }
                let m = if n.op == FAdd { self.add(a.m, b.m) } else { self.sub(a.m, b.m) };
                ok(Dy { m, k: a.k, lo, hi })
            }
            FMul => {
                let (a, b) = (self.dy(E(n.a))?, self.dy(E(n.b))?);
                let ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
                let mut lo = *ps.iter().min().unwrap(); let hi = *ps.iter().max().unwrap();
                if a.m == b.m && lo < 0 { lo = 0 }
                if lo < -lim || hi > lim || a.k + b.k > 90 { return None }
                let m = self.bin(Mul, a.m, b.m);
                ok(Dy { m, k: a.k + b.k, lo, hi })
            }
            FDiv => {
                let c = self.is_const(E(n.b))?;
                let (m, k) = Self::dyconst(tof(c, n.w))?;
                if m == 0 || m.abs() & (m.abs() - 1) != 0 { return None }
                let s = m.trailing_zeros() as i32 - k; // divisor = +-2^s
                let mut a = self.dy(E(n.a))?;
                if m < 0 { a = Dy { m: self.neg0(a.m), k: a.k, lo: -a.hi, hi: -a.lo } }
                if s >= 0 { Some(Dy { k: a.k + s, ..a }) } else { let d = self.dyshl(a, -s)?; ok(Dy { k: d.k + s, ..d }) }
            }
            FExt => self.dy(E(n.a)),
            FTrunc => { let a = self.dy(E(n.a))?; ok(a) }
            Ite => {
                let (a, b) = (self.dy(E(n.b))?, self.dy(E(n.c))?);
                let (a, b) = self.dyalign(a, b)?;
                let m = self.ite(E(n.a), a.m, b.m);
                Some(Dy { m, k: a.k, lo: a.lo.min(b.lo), hi: a.hi.max(b.hi) })
            }
            And if self.is_const(E(n.b)) == Some(mask(n.w) >> 1) => {
                let a = self.dy(E(n.a))?;
                let g = self.neg0(a.m); let z = self.k64(0); let c = self.slt(a.m, z);
                let m = self.ite(c, g, a.m);
                Some(Dy { m, k: a.k, lo: if a.lo <= 0 && a.hi >= 0 { 0 } else { a.lo.abs().min(a.hi.abs()) }, hi: a.lo.abs().max(a.hi.abs()) })
            }
            Xor if self.is_const(E(n.b)) == Some(1u128 << (n.w - 1)) => { let a = self.dy(E(n.a))?; let m = self.neg0(a.m); Some(Dy { m, k: a.k, lo: -a.hi, hi: -a.lo }) }
            FFloor | FCeil | FTruncI | FRound | FRoundEven => { let a = self.dy(E(n.a))?; self.dyround(a, n.op) }
            Table => {
                let t = self.tables[n.k as usize].clone();
                let mut v = vec![]; let mut k = 0;
                for x in &t { let d = Self::dyconst(tof(*x, n.w))?; k = k.max(d.1); v.push(d) }
                let (mut lo, mut hi) = (i128::MAX, i128::MIN);
                let mut o = vec![];
                for (m, kk) in v { if k - kk > 60 { return None } let m = m << (k - kk); if m.abs() > lim { return None } lo = lo.min(m); hi = hi.max(m); o.push(m as u128 & mask(64)) }
                let m = self.table(E(n.a), o, 64);
                Some(Dy { m, k, lo, hi })
            }
            _ => None,
        }
    }
    /// round to an integer (k = 0)
    fn dyround(&mut self, a: Dy, op: Op) -> Option<Dy> {
        if a.k <= 0 { return Some(a) }
        if a.k > 61 { return None }
        let k = self.k64(a.k as i128);
        let half = 1i128 << (a.k - 1);
        let one = 1i128 << a.k;
        if a.lo < -(1 << 61) || a.hi > 1 << 61 { return None }
        let fl = |v: i128| v >> a.k;
        let (m, lo, hi) = match op {
            FFloor => (self.bin(AShr, a.m, k), fl(a.lo), fl(a.hi)),
            FCeil => { let c = self.k64(one - 1); let t = self.add(a.m, c); (self.bin(AShr, t, k), fl(a.lo + one - 1), fl(a.hi + one - 1)) }
            FTruncI => {
                let c = self.k64(one - 1); let t = self.add(a.m, c); let up = self.bin(AShr, t, k); let dn = self.bin(AShr, a.m, k);
                let z = self.k64(0); let neg = self.slt(a.m, z);
                (self.ite(neg, up, dn), if a.lo < 0 { fl(a.lo + one - 1) } else { fl(a.lo) }, if a.hi < 0 { fl(a.hi + one - 1) } else { fl(a.hi) })
            }
            FRound => {
                let h = self.k64(half); let t = self.add(a.m, h); let up = self.bin(AShr, t, k);
                let h1 = self.k64(half - 1); let t = self.add(a.m, h1); let dn = self.bin(AShr, t, k);
                let z = self.k64(0); let neg = self.slt(a.m, z);
                (self.ite(neg, dn, up), fl(a.lo + half - 1), fl(a.hi + half))
            }
            _ => {
                let h = self.k64(half); let t = self.add(a.m, h); let q = self.bin(AShr, t, k);
                let lowm = self.k64(one - 1); let low = self.bin(And, a.m, lowm); let tie = self.eq(low, h);
                let odd = self.extract(q, 0, 1); let dec = self.and(tie, odd); let d = self.zext(dec, 64);
                (self.sub(q, d), fl(a.lo + half) - 1, fl(a.hi + half))
            }
        };
        Some(Dy { m, k: 0, lo, hi })
    }
    fn dycmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let Some(c) = ka.or(kb) {
            let d = if ka.is_some() { self.dy(b)? } else { self.dy(a)? };
            let v = tof(c, w);
            if v.is_nan() { return Some(FALSE) }
            if d.k.abs() > 500 { return None }
            let s = if v.is_infinite() { v } else { v * 2f64.powi(d.k) };
            if !v.is_infinite() && (s == 0.0) != (v == 0.0) { return None }
            let lim = 2f64.powi(62);
            let cl = |x: f64| x.max(-lim).min(lim) as i128;
            return Some(match (op, ka.is_some()) {
                (FEq, _) => { if s != s.floor() || s.abs() > lim { FALSE } else { let t = self.k64(s as i128); self.eq(d.m, t) } }
                (FLt, false) => { let t = self.k64(cl(s.ceil())); self.slt(d.m, t) }
                (FLt, true) => { let t = self.k64(cl(s.floor())); self.slt(t, d.m) }
                (_, false) => { let t = self.k64(cl(s.floor())); self.sle(d.m, t) }
                (_, true) => { let t = self.k64(cl(s.ceil())); self.sle(t, d.m) }
            });
        }
        let x = self.dy(a)?; let y = self.dy(b)?;
        let (x, y) = self.dyalign(x, y)?;
        Some(match op { FEq => self.eq(x.m, y.m), FLt => self.slt(x.m, y.m), _ => self.sle(x.m, y.m) })
    }
    fn dyto(&mut self, op: Op, a: E, w: u8) -> Option<E> {
        if w > 64 { return None }
        let d = self.dy(a)?;
        let d = self.dyround(d, FTruncI)?;
        let d = if d.k < 0 { self.dyshl(d, -d.k)? } else { d };
        let (lo, hi) = if op == FToS { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
        let mut m = d.m;
        if d.hi > hi { let t = self.k64(hi); let c = self.slt(t, m); m = self.ite(c, t, m) }
        if d.lo < lo { let t = self.k64(lo); let c = self.slt(m, t); m = self.ite(c, t, m) }
        Some(self.extract(m, 0, w))
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let (x, y) = (tof(x, w), tof(y, w));
            let r = match op { FEq => x == y, FLt => x < y, _ => x <= y };
            return if r { TRUE } else { FALSE };
        }
        let (x, y) = (self.fr(a), self.fr(b));
        let nonan = !x.nan && !y.nan;
        match op {
            FLt => { if nonan && x.hi < y.lo { return TRUE } if x.lo >= y.hi { return FALSE } if a == b { return FALSE } }
            FLe => { if nonan && x.hi <= y.lo { return TRUE } if x.lo > y.hi { return FALSE } if a == b && nonan { return TRUE } }
            FEq => { if x.hi < y.lo || y.hi < x.lo { return FALSE } if a == b && nonan { return TRUE } }
            _ => {}
        }
        if matches!(op, FEq | FLt | FLe) { if let Some(r) = self.dycmp(op, a, b) { return r } }
        let (mut a, mut b) = (a, b);
        if op == FEq && a.0 > b.0 { std::mem::swap(&mut a, &mut b) }
        self.intern(Node { op, w: 1, a: a.0, b: b.0, c: 0, k: 0 })
    }
    /// unary float ops and conversions; `w` is the result width
    pub fn fun(&mut self, op: Op, a: E, w: u8) -> E {
        let wa = self.w(a);
        if let Some(x) = self.is_const(a) { let v = eval_fun(op, x, wa, w); return self.konst(v, w) }
        // exact int -> float -> int round trips
        if matches!(op, FToS | FToU | FFloor | FCeil | FTruncI | FRoundEven | FRound) {
            let n = *self.n(a);
            if matches!(n.op, FFromS | FFromU) {
                if matches!(op, FFloor | FCeil | FTruncI | FRoundEven | FRound) { return a }
                let iw = self.w(E(n.a));
                if iw <= 64 {
                    let r = self.r(E(n.a));
                    let prec = if wa == 32 { 1i64 << 24 } else { 1i64 << 53 };
                    let ff = Self::full(w);
                    if n.op == FFromU && r.hi <= prec as u64 {
                        let max = if op == FToS { ff.shi as u64 } else { ff.hi };
                        if r.hi <= max { return self.zext_or_trunc(E(n.a), w) }
                    }
                    if n.op == FFromS && r.slo >= -prec && r.shi <= prec && op == FToS && r.slo >= ff.slo && r.shi <= ff.shi { return self.sext_or_trunc(E(n.a), w) }
                    if n.op == FFromS && r.slo >= 0 && r.shi <= prec && op == FToU && r.shi as u64 <= ff.hi { return self.zext_or_trunc(E(n.a), w) }
                }
            }
            if matches!(n.op, FFloor | FCeil | FTruncI | FRoundEven | FRound) && matches!(op, FFloor | FCeil | FTruncI | FRoundEven | FRound) { return a }
        }
        if matches!(op, FToS | FToU) { if let Some(r) = self.dyto(op, a, w) { return r } }
        if matches!(op, FToS | FToU) && !self.lowering { // canonical: unsigned and as narrow as the range allows
            let f = self.fr(a);
            if !f.nan && f.lo >= 0.0 && f.hi < 9.0e15 {
                let k = (64 - (f.hi as u64).leading_zeros()).max(1) as u8;
                if k < w { let x = self.fun(FToU, a, k); return self.zext(x, w) }
            }
        }
        if op == FFromU { // canonical: strip zext, drop bits known to be zero
            let n = *self.n(a);
            if n.op == ZExt { return self.fun(FFromU, E(n.a), w) }
            if wa <= 64 && !self.lowering { let k = (64 - self.r(a).hi.leading_zeros()).max(1) as u8; if k < wa { let x = self.trunc_poly(a, k, 8); return self.fun(FFromU, x, w) } }
        }
        if op == FFromS {
            let n = *self.n(a);
            if wa <= 64 && self.r(a).slo >= 0 { return self.fun(FFromU, a, w) }
            if n.op == SExt { return self.fun(FFromS, E(n.a), w) }
        }
        if op == FSqrt && !self.lowering && !matches!(self.n(a).op, FFromU) && self.plus_zero(a, 6) {
            if let Some(d) = self.dy(a) { if d.k == 0 && d.lo >= 0 { let x = self.fun(FFromU, d.m, w); return self.fun(FSqrt, x, w) } }
        }
        if op == FTrunc { let n = *self.n(a); if n.op == FExt { return E(n.a) } }
        self.intern(Node { op, w, a: a.0, b: 0, c: 0, k: 0 })
    }
    /// the low k bits, with the truncation pushed through ring operations
    fn trunc_poly(&mut self, a: E, k: u8, d: u32) -> E {
        let n = *self.n(a);
        if n.w <= k || d == 0 || n.w > 64 { return self.extract(a, 0, k) }
        match n.op {
            Add | Sub | Mul => { let x = self.trunc_poly(E(n.a), k, d - 1); let y = self.trunc_poly(E(n.b), k, d - 1); self.bin(n.op, x, y) }
            ZExt if self.w(E(n.a)) >= k => self.trunc_poly(E(n.a), k, d - 1),
            ZExt => self.zext(E(n.a), k),
            SExt if self.w(E(n.a)) >= k => self.trunc_poly(E(n.a), k, d - 1),
            SExt => self.sext(E(n.a), k),
            _ => self.extract(a, 0, k),
        }
    }
    /// never minus zero
    fn plus_zero(&self, e: E, d: u32) -> bool {
        let n = *self.n(e);
        if d == 0 { return false }
        match n.op {
            Const => n.k != 1u128 << (n.w - 1), FFromU | FFromS => true, FMul => n.a == n.b,
            FAdd => self.plus_zero(E(n.a), d - 1) || self.plus_zero(E(n.b), d - 1),
            FExt => self.plus_zero(E(n.a), d - 1),
            Ite => self.plus_zero(E(n.b), d - 1) && self.plus_zero(E(n.c), d - 1),
            _ => false,
        }
    }
    pub fn zext_or_trunc(&mut self, a: E, w: u8) -> E { let x = self.w(a); if w >= x { self.zext(a, w) } else { self.extract(a, 0, w) } }
    pub fn sext_or_trunc(&mut self, a: E, w: u8) -> E { let x = self.w(a); if w >= x { self.sext(a, w) } else { self.extract(a, 0, w) } }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = *self.n(a);
        if n.w == w { return a }
        if n.op == Const { return self.konst(n.k, w) }
        if n.op == ZExt { return self.zext(E(n.a), w) }
        // truncation that loses nothing
        if n.op == Extract && n.k == 0 { let x = E(n.a); let xw = self.w(x); if xw <= w && xw <= 64 && self.r(x).hi as u128 <= mask(n.w) { return self.zext(x, w) } }
        if n.op == Ite { if let Some((c, x, y)) = self.ite_consts(a) { let x = self.konst(x, w); let y = self.konst(y, w); return self.ite(c, x, y) } }
        self.intern(Node { op: ZExt, w, a: a.0, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = *self.n(a);
        if n.w == w { return a }
        if n.op == Const { let v = sx(n.k, n.w) as u128; return self.konst(v, w) }
        if n.op == ZExt { return self.zext(E(n.a), w) }
        if n.op == SExt { return self.sext(E(n.a), w) }
        if n.w <= 64 && n.w > 1 && self.r(a).slo >= 0 { return self.zext(a, w) }
        if let Some((c, x, y)) = self.ite_consts(a) { let x = self.konst(sx(x, n.w) as u128, w); let y = self.konst(sx(y, n.w) as u128, w); return self.ite(c, x, y) }
        self.intern(Node { op: SExt, w, a: a.0, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = *self.n(a);
        debug_assert!(lo as u16 + w as u16 <= n.w as u16);
        if lo == 0 && w == n.w { return a }
        if n.op == Const { return self.konst(n.k >> lo, w) }
        if let Some(&r) = self.xmemo.get(&(a.0, lo, w)) { return E(r) }
        let r = self.extract0(a, n, lo, w);
        self.xmemo.insert((a.0, lo, w), r.0);
        r
    }
    fn extract0(&mut self, a: E, n: Node, lo: u8, w: u8) -> E {
        match n.op {
            Const => return self.konst(n.k >> lo, w),
            Extract => return self.extract(E(n.a), lo + n.k as u8, w),
            Concat => {
                let bw = self.w(E(n.b));
                if lo >= bw { return self.extract(E(n.a), lo - bw, w) }
                if lo + w <= bw { return self.extract(E(n.b), lo, w) }
                let h = self.extract(E(n.a), 0, lo + w - bw); let l = self.extract(E(n.b), lo, bw - lo);
                return self.concat(h, l);
            }
            ZExt => {
                let iw = self.w(E(n.a));
                if lo >= iw { return self.konst(0, w) }
                if lo + w <= iw { return self.extract(E(n.a), lo, w) }
                let x = self.extract(E(n.a), lo, iw - lo);
                return self.zext(x, w);
            }
            SExt => {
                let iw = self.w(E(n.a));
                if lo + w <= iw { return self.extract(E(n.a), lo, w) }
                if lo < iw { let x = self.extract(E(n.a), lo, iw - lo); return self.sext(x, w) }
                let x = self.extract(E(n.a), iw - 1, 1); return self.sext(x, w);
            }
            Ite => {
                // push through when it simplifies on a side
                let (b, c) = (E(n.b), E(n.c));
                let (bo, co) = (self.n(b).op, self.n(c).op);
                let st = |o: Op| matches!(o, Const | Concat | ZExt | SExt);
                if bo == Const || co == Const || (st(bo) && st(co)) { let x = self.extract(b, lo, w); let y = self.extract(c, lo, w); return self.ite(E(n.a), x, y) }
            }
            And | Or | Xor => {
                let (b, c) = (E(n.a), E(n.b));
                if self.is_const(c).is_some() || matches!(self.n(b).op, Concat | ZExt) || matches!(self.n(c).op, Concat | ZExt) {
                    let x = self.extract(b, lo, w); let y = self.extract(c, lo, w); return self.bin(n.op, x, y)
                }
            }
            Add | Sub | Mul if lo == 0 => {
                let ok = |s: &Self, e: E| { let m = s.n(e); match m.op { Const => true, ZExt | SExt => s.w(E(m.a)) <= w, Add | Mul | Sub => true, Concat => true, _ => false } };
                if ok(self, E(n.a)) && ok(self, E(n.b)) { let x = self.extract(E(n.a), 0, w); let y = self.extract(E(n.b), 0, w); return self.bin(n.op, x, y) }
            }
            Table => {
                let t: Vec<u128> = self.tables[n.k as usize].iter().map(|v| (v >> lo) & mask(w)).collect();
                return self.table(E(n.a), t, w);
            }
            _ => {}
        }
        if n.w <= 64 && (self.r(a).hi >> lo) == 0 { return self.konst(0, w) }
        if lo == 0 && n.w <= 64 { // known zero high part inside w: keep as is
        }
        self.intern(Node { op: Extract, w, a: a.0, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w + nb.w;
        if na.op == Const && nb.op == Const { return self.konst((na.k << nb.w) | nb.k, w) }
        if na.op == Const && na.k == 0 { return self.zext(b, w) }
        if na.op == Extract && nb.op == Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 { return self.extract(E(na.a), nb.k as u8, w) }
        // extract(x, 0..k) low part is the whole of a narrower node
        if na.op == Extract && na.a == b.0 && false { return a }
        if nb.op == Concat { // right-nested normal form is left-assoc: concat(a, concat(x,y)) -> concat(concat(a,x),y)
            let t = self.concat(a, E(nb.a));
            return self.concat(t, E(nb.b));
        }
        if na.op == Concat && nb.op == Extract {
            let nab = *self.n(E(na.b));
            if nab.op == Extract && nab.a == nb.a && nab.k == nb.k + nb.w as u128 { let t = self.extract(E(nb.a), nb.k as u8, nb.w + nab.w); return self.concat(E(na.a), t) }
        }
        if na.op == ZExt { let t = self.concat(E(na.a), b); return self.zext(t, w) }
        if na.op == Ite && nb.op == Ite && na.a == nb.a { let x = self.concat(E(na.b), E(nb.b)); let y = self.concat(E(na.c), E(nb.c)); return self.ite(E(na.a), x, y) }
        if na.op == Ite && nb.op == Const { if let Some((c, x, y)) = self.ite_consts(a) { let x = self.konst((x << nb.w) | nb.k, w); let y = self.konst((y << nb.w) | nb.k, w); return self.ite(c, x, y) } }
        if na.op == Const && nb.op == Ite { if let Some((c, x, y)) = self.ite_consts(b) { let x = self.konst((na.k << nb.w) | x, w); let y = self.konst((na.k << nb.w) | y, w); return self.ite(c, x, y) } }
        if na.op == Table && nb.op == Table && na.a == nb.a {
            let (ta, tb) = (&self.tables[na.k as usize], &self.tables[nb.k as usize]);
            if ta.len() == tb.len() { let t: Vec<u128> = ta.iter().zip(tb).map(|(x, y)| (x << nb.w) | y).collect(); return self.table(E(na.a), t, w) }
        }
        // sign extension pattern is left alone
        self.intern(Node { op: Concat, w, a: a.0, b: b.0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == TRUE { return a }
        if c == FALSE { return b }
        if a == b { return a }
        if let Some(x) = self.is_not(c) { return self.ite(x, b, a) }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Ite && na.a == c.0 { return self.ite(c, E(na.b), b) }
        if nb.op == Ite && nb.a == c.0 { return self.ite(c, a, E(nb.c)) }
        if w == 1 {
            if a == TRUE && b == FALSE { return c }
            if a == FALSE && b == TRUE { return self.not(c) }
            if a == TRUE || a == c { return self.or(c, b) }
            if a == FALSE { let n = self.not(c); return self.and(n, b) }
            if b == FALSE || b == c { return self.and(c, a) }
            if b == TRUE { let n = self.not(c); return self.or(n, a) }
        }
        if nb.op == Ite && nb.c == a.0 { // ite(c,a,ite(d,x,a)) = ite(!c & d, x, a)
            let n = self.not(c); let d = self.and(n, E(nb.a)); return self.ite(d, E(nb.b), a) }
        if nb.op == Ite && nb.b == a.0 { let d = self.or(c, E(nb.a)); return self.ite(d, a, E(nb.c)) }
        if na.op == Ite && na.b == b.0 { // ite(c, ite(d,b,x), b) = ite(c & !d, x, b)
            let n = self.not(E(na.a)); let d = self.and(c, n); return self.ite(d, E(na.c), b) }
        if na.op == Ite && na.c == b.0 { let d = self.and(c, E(na.a)); return self.ite(d, E(na.b), b) }
        // common structure
        if na.op == ZExt && nb.op == ZExt && self.w(E(na.a)) == self.w(E(nb.a)) { let t = self.ite(c, E(na.a), E(nb.a)); return self.zext(t, w) }
        if na.op == Add && nb.op == Const && false { }
        // ite(c, x + k, x) = x + ite(c,k,0): keeps counters narrow
        if na.op == Add && E(na.a) == b && self.is_const(E(na.b)).is_some() { let z = self.konst(0, w); let t = self.ite(c, E(na.b), z); return self.bin(Add, b, t) }
        if nb.op == Add && E(nb.a) == a && self.is_const(E(nb.b)).is_some() { let z = self.konst(0, w); let t = self.ite(c, z, E(nb.b)); return self.bin(Add, a, t) }
        self.intern(Node { op: Ite, w, a: c.0, b: a.0, c: b.0, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return TRUE }
        let (mut a, mut b) = (a, b);
        let w = self.w(a);
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return if x == y { TRUE } else { FALSE } }
        if w == 1 { let x = self.bin(Xor, a, b); return self.not(x) }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.hi < rb.lo || rb.hi < ra.lo || ra.shi < rb.slo || rb.shi < ra.slo { return FALSE }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if let Some(y) = self.is_const(b) {
            match na.op {
                Add => if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(y.wrapping_sub(x), w); return self.eq(E(na.a), k) },
                Xor => if let Some(x) = self.is_const(E(na.b)) { let k = self.konst(y ^ x, w); return self.eq(E(na.a), k) },
                Sub => if let Some(x) = self.is_const(E(na.a)) { let k = self.konst(x.wrapping_sub(y), w); return self.eq(E(na.b), k) } else if y == 0 { return self.eq(E(na.a), E(na.b)) },
                ZExt => { let iw = self.w(E(na.a)); if y > mask(iw) { return FALSE } let k = self.konst(y, iw); return self.eq(E(na.a), k) }
                SExt => { let iw = self.w(E(na.a)); let k = y & mask(iw); if sx(k, iw) as u128 & mask(w) != y { return FALSE } let k = self.konst(k, iw); return self.eq(E(na.a), k) }
                Ite => {
                    let (p, q) = (self.is_const(E(na.b)), self.is_const(E(na.c)));
                    if p.is_some() || q.is_some() { let x = self.eq(E(na.b), b); let z = self.eq(E(na.c), b); return self.ite(E(na.a), x, z) }
                }
                Concat => {
                    let bw = self.w(E(na.b));
                    let kl = self.konst(y, bw); let kh = self.konst(y >> bw, w - bw);
                    let x = self.eq(E(na.b), kl); let z = self.eq(E(na.a), kh);
                    return self.and(x, z);
                }
                Table => { let t: Vec<u128> = self.tables[na.k as usize].iter().map(|v| (*v == y) as u128).collect(); return self.table(E(na.a), t, 1) }
                _ => {}
            }
        } else {
            if na.op == ZExt && nb.op == ZExt {
                let (x, y) = (E(na.a), E(nb.a)); let nw = self.w(x).max(self.w(y));
                let x = self.zext(x, nw); let y = self.zext(y, nw);
                return self.eq(x, y);
            }
            if na.op == SExt && nb.op == SExt {
                let (x, y) = (E(na.a), E(nb.a)); let nw = self.w(x).max(self.w(y));
                let x = self.sext(x, nw); let y = self.sext(y, nw);
                return self.eq(x, y);
            }
            if na.op == Add && nb.op == Add && na.b == nb.b { return self.eq(E(na.a), E(nb.a)) }
            if na.op == Ite && (na.b == b.0) { let z = self.eq(E(na.c), b); return self.or(E(na.a), z) }
            if na.op == Ite && (na.c == b.0) { let z = self.eq(E(na.b), b); let n = self.not(E(na.a)); return self.or(n, z) }
            if nb.op == Ite && (nb.b == a.0) { let z = self.eq(E(nb.c), a); return self.or(E(nb.a), z) }
            if nb.op == Ite && (nb.c == a.0) { let z = self.eq(E(nb.b), a); let n = self.not(E(nb.a)); return self.or(n, z) }
            if na.op == Ite && nb.op == Ite && na.a == nb.a { let x = self.eq(E(na.b), E(nb.b)); let y = self.eq(E(na.c), E(nb.c)); return self.ite(E(na.a), x, y) }
        }
        if a.0 > b.0 && self.is_const(b).is_none() { std::mem::swap(&mut a, &mut b) }
        self.intern(Node { op: Eq, w: 1, a: a.0, b: b.0, c: 0, k: 0 })
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return FALSE }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return if x < y { TRUE } else { FALSE } }
        if w == 1 { let n = self.not(a); return self.and(n, b) }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.hi < rb.lo { return TRUE }
            if ra.lo >= rb.hi { return FALSE }
        }
        if let Some(r) = self.lin_less(a, b, false) { return if r { TRUE } else { FALSE } }
        if self.is_const(b) == Some(1) { let z = self.konst(0, w); return self.eq(a, z) }
        if self.is_const(a) == Some(0) { let z = self.konst(0, w); let e = self.eq(b, z); return self.not(e) }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == ZExt && nb.op == ZExt {
            let (x, y) = (E(na.a), E(nb.a)); let nw = self.w(x).max(self.w(y));
            let x = self.zext(x, nw); let y = self.zext(y, nw);
            return self.ult(x, y);
        }
        if na.op == ZExt { if let Some(y) = self.is_const(b) { let iw = self.w(E(na.a)); if y > mask(iw) { return TRUE } let k = self.konst(y, iw); return self.ult(E(na.a), k) } }
        if nb.op == ZExt { if let Some(x) = self.is_const(a) { let iw = self.w(E(nb.a)); if x >= mask(iw) { return FALSE } let k = self.konst(x, iw); return self.ult(k, E(nb.a)) } }
        if na.op == Ite && self.is_const(b).is_some() && (self.is_const(E(na.b)).is_some() || self.is_const(E(na.c)).is_some()) { let x = self.ult(E(na.b), b); let y = self.ult(E(na.c), b); return self.ite(E(na.a), x, y) }
        if nb.op == Ite && self.is_const(a).is_some() && (self.is_const(E(nb.b)).is_some() || self.is_const(E(nb.c)).is_some()) { let x = self.ult(a, E(nb.b)); let y = self.ult(a, E(nb.c)); return self.ite(E(nb.a), x, y) }
        // known-equal-offset comparisons without wrap
        if w <= 64 && na.op == Add && nb.op == Add && na.b == nb.b && self.is_const(E(na.b)).is_some() && self.nowrap_u(E(na.a), E(na.b)) && self.nowrap_u(E(nb.a), E(nb.b)) { return self.ult(E(na.a), E(nb.a)) }
        if w <= 64 { if let Some(y) = self.is_const(b) { if na.op == Add { if let Some(x) = self.is_const(E(na.b)) { if self.nowrap_u(E(na.a), E(na.b)) && y >= x { let k = self.konst(y - x, w); return self.ult(E(na.a), k) } } } } }
        // canonical form for constants on the left: k < b  ==  !(b < k+1)
        if let Some(x) = self.is_const(a) { if x < mask(w) { let k = self.konst(x + 1, w); let t = self.ult(b, k); return self.not(t) } }
        self.intern(Node { op: Ult, w: 1, a: a.0, b: b.0, c: 0, k: 0 })
    }
    fn nowrap_u(&self, a: E, b: E) -> bool { let w = self.w(a); (self.r(a).hi as u128 + self.r(b).hi as u128) <= mask(w) }
    pub fn ule(&mut self, a: E, b: E) -> E { let t = self.ult(b, a); self.not(t) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return FALSE }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return if sx(x, w) < sx(y, w) { TRUE } else { FALSE } }
        if w == 1 { return self.ult(b, a) }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.shi < rb.slo { return TRUE }
            if ra.slo >= rb.shi { return FALSE }
            if ra.slo >= 0 && rb.slo >= 0 { return self.ult(a, b) }
            if ra.shi < 0 && rb.shi < 0 { return self.ult(a, b) }
        }
        if let Some(r) = self.lin_less(a, b, true) { return if r { TRUE } else { FALSE } }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == SExt && nb.op == SExt {
            let (x, y) = (E(na.a), E(nb.a)); let nw = self.w(x).max(self.w(y));
            let x = self.sext(x, nw); let y = self.sext(y, nw);
            return self.slt(x, y);
        }
        if na.op == SExt { if let Some(y) = self.is_const(b) { let iw = self.w(E(na.a)); let ys = sx(y, w); if ys >= -(1i128 << (iw - 1)) && ys < (1i128 << (iw - 1)) { let k = self.konst(y, iw); return self.slt(E(na.a), k) } } }
        if na.op == Ite && self.is_const(b).is_some() && (self.is_const(E(na.b)).is_some() || self.is_const(E(na.c)).is_some()) { let x = self.slt(E(na.b), b); let y = self.slt(E(na.c), b); return self.ite(E(na.a), x, y) }
        if nb.op == Ite && self.is_const(a).is_some() && (self.is_const(E(nb.b)).is_some() || self.is_const(E(nb.c)).is_some()) { let x = self.slt(a, E(nb.b)); let y = self.slt(a, E(nb.c)); return self.ite(E(nb.a), x, y) }
        if w <= 64 { if let Some(y) = self.is_const(b) { if na.op == Add { if let Some(x) = self.is_const(E(na.b)) {
            // (p + x) <s y with no signed wrap
            let rp = self.r(E(na.a)); let (xs, ys) = (sx(x, w), sx(y, w)); let f = Self::full(w);
            if rp.slo as i128 + xs >= f.slo as i128 && rp.shi as i128 + xs <= f.shi as i128 && ys - xs >= f.slo as i128 && ys - xs <= f.shi as i128 { let k = self.konst((ys - xs) as u128, w); return self.slt(E(na.a), k) }
        } } } }
        if let Some(x) = self.is_const(a) { if x != mask(w) >> 1 { let k = self.konst(x + 1, w); let t = self.slt(b, k); return self.not(t) } }
        self.intern(Node { op: Slt, w: 1, a: a.0, b: b.0, c: 0, k: 0 })
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let t = self.slt(b, a); self.not(t) }
}
impl FR { fn fix(self) -> FR { if self.nan { FULLF } else { self } } }

pub fn tof(v: u128, w: u8) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }

pub fn eval_bin(op: Op, x: u128, y: u128, w: u8) -> u128 {
    let m = mask(w);
    match op {
        Add => x.wrapping_add(y) & m,
        Sub => x.wrapping_sub(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => if y == 0 { m } else { x / y },
        URem => if y == 0 { x } else { x % y },
        SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 & m } }
        SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 & m } }
        Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        LShr => if y >= w as u128 { 0 } else { x >> y },
        AShr => { let s = y.min(w as u128 - 1) as u32; (sx(x, w) >> s) as u128 & m }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        FAdd | FSub | FMul | FDiv | FRem => {
            if w == 32 {
                let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, _ => a % b }).to_bits() as u128
            } else {
                let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                (match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, _ => a % b }).to_bits() as u128
            }
        }
        _ => unreachable!("{:?}", op),
    }
}
pub fn eval_fun(op: Op, x: u128, wa: u8, w: u8) -> u128 {
    match op {
        FFromS => { let v = sx(x, wa); if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
        FFromU => { if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        FToS => {
            let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1;
            let r: i128 = if wa == 32 { f32::from_bits(x as u32) as i128 } else { f64::from_bits(x as u64) as i128 };
            r.max(lo).min(hi) as u128 & mask(w)
        }
        FToU => { let r: u128 = if wa == 32 { f32::from_bits(x as u32) as u128 } else { f64::from_bits(x as u64) as u128 }; r.min(mask(w)) }
        FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        _ => if w == 32 {
            let a = f32::from_bits(x as u32);
            (match op { FSqrt => a.sqrt(), FFloor => a.floor(), FCeil => a.ceil(), FTruncI => a.trunc(), FRoundEven => a.round_ties_even(), FRound => a.round(), _ => unreachable!() }).to_bits() as u128
        } else {
            let a = f64::from_bits(x as u64);
            (match op { FSqrt => a.sqrt(), FFloor => a.floor(), FCeil => a.ceil(), FTruncI => a.trunc(), FRoundEven => a.round_ties_even(), FRound => a.round(), _ => unreachable!() }).to_bits() as u128
        },
    }
}

/// A (total) assignment to the variables plus a memo table for evaluation.
pub struct Model { pub vals: Vec<u128>, pub memo: std::cell::RefCell<FxMap<u32, u128>>, pub uf: FxMap<u32, u128>, pub seed: u32 }
impl Model {
    pub fn new(vals: Vec<u128>) -> Model { Model { vals, memo: Default::default(), uf: Default::default(), seed: 0 } }
    pub fn seeded(seed: u32) -> Model { Model { vals: vec![], memo: Default::default(), uf: Default::default(), seed } }
    /// value of variable i (width w): the solver's value, or a seeded default for variables the solver has not seen
    pub fn var(&self, i: usize, w: u8) -> u128 {
        if let Some(v) = self.vals.get(i) { return *v & mask(w) }
        let mut h = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((self.seed as u64) << 32 | self.seed as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 29; h = h.wrapping_mul(0x94D0_49BB_1331_11EB); h ^= h >> 32;
        (match self.seed {
            0 => 0,
            1 => u128::MAX,
            2 => (h & 1) as u128 * u128::MAX,
            3 => (h & 3) as u128,
            4 => i as u128,
            5 => 255u128.wrapping_sub(i as u128),
            6 => (h & 1) as u128,
            7 => 1,
            s if s % 2 == 0 => (h & 15) as u128,
            _ => h as u128 | (h as u128) << 64,
        }) & mask(w)
    }
    pub fn eval(&self, c: &Ctx, e: E) -> u128 {
        let n = c.n(e);
        match n.op { Const => return n.k, Var => return self.var(n.a as usize, n.w), _ => {} }
        if let Some(v) = self.memo.borrow().get(&e.0) { return *v }
        // iterative post-order
        let mut memo = self.memo.borrow_mut();
        let mut st = vec![e.0];
        let get = |memo: &FxMap<u32, u128>, i: u32| -> Option<u128> {
            let n = &c.nodes[i as usize];
            match n.op { Const => Some(n.k), Var => Some(self.var(n.a as usize, n.w)), _ => memo.get(&i).copied() }
        };
        while let Some(&i) = st.last() {
            if memo.contains_key(&i) { st.pop(); continue }
            let n = c.nodes[i as usize];
            if n.op == Uf { let v = self.uf.get(&i).copied().unwrap_or(0); memo.insert(i, v); st.pop(); continue }
            if n.op == Ite {
                match get(&memo, n.a) { None => { st.push(n.a); continue } Some(cv) => { let k = if cv != 0 { n.b } else { n.c }; match get(&memo, k) { None => { st.push(k); continue } Some(v) => { memo.insert(i, v); st.pop(); continue } } } }
            }
            let two = arity(n.op) == 2;
            let a = get(&memo, n.a);
            let b = if two { get(&memo, n.b) } else { Some(0) };
            if a.is_none() { st.push(n.a); }
            if b.is_none() { st.push(n.b); }
            if let (Some(a), Some(b)) = (a, b) { let wa = c.nodes[n.a as usize].w; let v = eval_node(c, &n, a, b, wa); memo.insert(i, v); st.pop(); }
        }
        memo[&e.0]
    }
}
pub fn arity(op: Op) -> u8 {
    match op {
        Const | Var | Uf => 0,
        Extract | ZExt | SExt | Table | FSqrt | FFromS | FFromU | FToS | FToU | FExt | FTrunc | FFloor | FCeil | FTruncI | FRoundEven | FRound => 1,
        Ite => 3,
        _ => 2,
    }
}
pub fn eval_node(c: &Ctx, n: &Node, a: u128, b: u128, wa: u8) -> u128 {
    match n.op {
        Extract => (a >> n.k as u32) & mask(n.w),
        ZExt => a,
        SExt => sx(a, wa) as u128 & mask(n.w),
        Concat => { let wb = c.nodes[n.b as usize].w; (a << wb) | b }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Table => { let t = &c.tables[n.k as usize]; t[(a as usize).min(t.len() - 1)] }
        FEq => (tof(a, wa) == tof(b, wa)) as u128,
        FLt => (tof(a, wa) < tof(b, wa)) as u128,
        FLe => (tof(a, wa) <= tof(b, wa)) as u128,
        op if arity(op) == 1 => eval_fun(op, a, wa, n.w),
        op => eval_bin(op, a, b, n.w),
    }
}
