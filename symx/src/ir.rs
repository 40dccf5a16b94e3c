//! Parser for textual LLVM IR (as emitted by rustc with fat LTO). Function
//! bodies and global initialisers are parsed on demand.
use crate::expr::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u8), F32, F64, Ptr, Vec(usize, Box<Ty>), Arr(usize, Box<Ty>), Struct(Rc<Vec<Ty>>, bool), Other }

#[derive(Clone, Debug)]
pub enum V { C(u64), S(E), A(Rc<Vec<V>>) }

impl Ty {
    pub fn bits(&self) -> u8 { match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, t => panic!("bits of {:?}", t) } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => { if **t == Ty::Int(1) { ((*n as u64) + 7) / 8 } else { (*n as u64 * t.size()).next_power_of_two() } }
            Ty::Arr(n, t) => *n as u64 * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0; let mut al = 1;
                for t in f.iter() { if !*packed { let a = t.align(); al = al.max(a); o = (o + a - 1) / a * a; } o += t.size(); }
                if *packed { o } else { (o + al - 1) / al * al }
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().min(64),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    /// offset and type of the i-th element
    pub fn elem(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Vec(_, t) | Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } if j == i { return (o, t.clone()) } o += t.size(); }
                panic!("field")
            }
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize { match self { Ty::Vec(n, _) | Ty::Arr(n, _) => *n, Ty::Struct(f, _) => f.len(), _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ptr(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, ty: Ty, d: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, d: u32, a: Opd },
    ICmp { p: Pred, ty: Ty, d: u32, a: Opd, b: Opd },
    FCmp { p: FPred, ty: Ty, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Select { cty: Ty, ty: Ty, d: u32, c: Opd, a: Opd, b: Opd },
    Load { ty: Ty, d: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    /// constant offset plus (index operand, index width, stride) terms
    Gep { d: u32, base: Opd, k: u64, idx: Vec<(Opd, u8, u64)>, vec: bool },
    Alloca { d: u32, size: u64, align: u64, n: Opd },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, normal: Option<u32>, text: u32 },
    Ret { ty: Ty, v: Option<Opd> },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opd, d: u32, cases: Rc<Vec<(u64, u32)>> },
    ExtractValue { d: u32, a: Opd, path: Vec<usize> },
    InsertValue { d: u32, ty: Ty, a: Opd, v: Opd, path: Vec<usize> },
    ExtractElement { d: u32, n: usize, a: Opd, i: Opd },
    InsertElement { d: u32, n: usize, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, n: usize, a: Opd, b: Opd, mask: Vec<Option<usize>> },
    CmpXchg { ty: Ty, d: u32, p: Opd, c: Opd, n: Opd },
    AtomicRmw { op: String, ty: Ty, d: u32, p: Opd, v: Opd },
    Freeze { d: u32, a: Opd },
    Unreachable,
    Nop,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Phi { pub d: u32, pub ty: Ty, pub inc: Vec<(u32, Opd)> }
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst>, pub succ: Vec<u32> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub name: String, pub params: Vec<(u32, Ty)>, pub ret: Ty, pub blocks: Vec<Block>, pub nregs: usize, pub reg_ty: Vec<Ty>, pub ipdom: Vec<u32>, pub live_in: Vec<Vec<u64>>, pub small: Vec<bool>, pub rpo: Vec<u32>, pub nest: Vec<Vec<u32>> }
pub const EXIT: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq)]
enum Tok { W(String), L(String), G(String), Int(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Meta, Eol }

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let rdstr = |i: &mut usize| -> Vec<u8> {
        *i += 1;
        let mut r = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' { r.push(b'\\'); *i += 2; } else { let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(); r.push(u8::from_str_radix(h, 16).unwrap()); *i += 3; }
            } else { r.push(b[*i]); *i += 1; }
        }
        *i += 1;
        r
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => { out.push(Tok::Eol); i += 1; }
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1 } }
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => { i += 2; while !(b[i] == b'*' && b[i + 1] == b'/') { i += 1 } i += 2; }
            b'%' | b'@' => {
                i += 1;
                let n = if b[i] == b'"' { String::from_utf8_lossy(&rdstr(&mut i)).to_string() } else { let st = i; while i < b.len() && isid(b[i]) { i += 1 } s[st..i].to_string() };
                out.push(if c == b'%' { Tok::L(n) } else { Tok::G(n) });
            }
            b'"' => { let v = rdstr(&mut i); out.push(Tok::Str(v)); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; let v = rdstr(&mut i); out.push(Tok::CStr(v)); }
            b'!' => { i += 1; while i < b.len() && (isid(b[i])) { i += 1 } out.push(Tok::Meta); }
            b'#' => { i += 1; while i < b.len() && isid(b[i]) { i += 1 } }
            b'-' | b'0'..=b'9' => { let st = i; i += 1; while i < b.len() && (isid(b[i]) || (b[i] == b'+' && (b[i - 1] == b'e'))) { i += 1 } out.push(Tok::Int(s[st..i].to_string())); }
            b'+' => { i += 1; }
            _ if c.is_ascii_alphabetic() || c == b'_' => { let st = i; while i < b.len() && isid(b[i]) { i += 1 } out.push(Tok::W(s[st..i].to_string())); }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

pub struct Module {
    pub src: String,
    pub fidx: HashMap<String, u32>,
    pub fname: Vec<String>,
    fspan: Vec<Option<(usize, usize)>>,
    pub fcache: Vec<Option<Rc<Func>>>,
    gspan: HashMap<String, (usize, usize)>,
    pub gaddr: HashMap<String, u64>,
    /// sorted by base: (base, size, name, constant)
    pub gobjs: Vec<GObj>,
    gnext: u64,
    pub text: Vec<String>,
}
pub struct GObj { pub base: u64, pub size: u64, pub name: String, pub constant: bool, pub data: Option<Rc<Vec<u8>>>, pub external: bool }
pub const GBASE: u64 = 0x4000_0000;
pub const FBASE: u64 = 0x2000_0000;

struct Ps<'a> { t: &'a [Tok], i: usize }
impl<'a> Ps<'a> {
    fn peek(&self) -> &Tok { self.t.get(self.i).unwrap_or(&Tok::Eol) }
    fn next(&mut self) -> Tok { let t = self.peek().clone(); self.i += 1; t }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Tok::W(x) if x == w) }
    fn isp(&self, c: char) -> bool { *self.peek() == Tok::P(c) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eat(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eat(c) { panic!("expected {:?} got {:?} in {:?}", c, self.peek(), &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]) } }
    fn skip_parens(&mut self) { self.exp('('); let mut d = 1; while d > 0 { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, Tok::Eol if self.i > self.t.len() => panic!("paren"), _ => {} } } }
    fn int(&mut self) -> i128 { match self.next() { Tok::Int(s) => s.parse().unwrap_or_else(|_| panic!("int {s}")), t => panic!("int? {:?}", t) } }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read_to_string(path).expect("read IR");
        let mut m = Module { src: String::new(), fidx: HashMap::new(), fname: vec![], fspan: vec![], fcache: vec![], gspan: HashMap::new(), gaddr: HashMap::new(), gobjs: vec![], gnext: GBASE, text: vec![] };
        let mut pos = 0;
        let mut infn: Option<(String, usize)> = None;
        let gname = |l: &str| -> (String, usize) {
            // name after '@'
            let at = l.find('@').unwrap();
            let r = &l[at + 1..];
            if r.starts_with('"') { let e = r[1..].find('"').unwrap(); (r[1..1 + e].to_string(), at + e + 3) } else { let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c))).unwrap_or(r.len()); (r[..e].to_string(), at + 1 + e) }
        };
        for line in src.split_inclusive('\n') {
            let st = pos; pos += line.len();
            if let Some((n, s)) = &infn {
                if line.starts_with('}') { let id = m.func_id(n); m.fspan[id as usize] = Some((*s, pos)); infn = None; }
                continue;
            }
            if line.starts_with("define ") { infn = Some((gname(line).0, st)); }
            else if line.starts_with("declare ") { let n = gname(line).0; m.func_id(&n); }
            else if line.starts_with('@') { let (n, _) = gname(line); m.gspan.insert(n, (st, pos)); }
        }
        m.src = src;
        m
    }
    pub fn func_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.fidx.get(n) { return *i }
        let i = self.fname.len() as u32;
        self.fidx.insert(n.to_string(), i); self.fname.push(n.to_string()); self.fspan.push(None); self.fcache.push(None);
        i
    }
    pub fn has_body(&self, id: u32) -> bool { self.fspan[id as usize].is_some() }
    pub fn faddr(id: u32) -> u64 { FBASE + id as u64 * 16 }
    pub fn global_addr(&mut self, n: &str) -> u64 {
        if let Some(i) = self.fidx.get(n) { return Self::faddr(*i) }
        if let Some(a) = self.gaddr.get(n) { return *a }
        let Some(&(s, e)) = self.gspan.get(n) else { panic!("unknown global {n}") };
        let line = self.src[s..e].to_string();
        let toks = lex(&line);
        let mut p = Ps { t: &toks, i: 2 };
        let mut constant = false; let mut external = false;
        loop {
            match p.next() {
                Tok::W(w) if w == "global" => break,
                Tok::W(w) if w == "constant" => { constant = true; break }
                Tok::W(w) if w == "alias" => { panic!("alias {n}") }
                Tok::W(w) if w == "external" || w == "extern_weak" => external = true,
                Tok::P('(') => { p.i -= 1; p.skip_parens() }
                Tok::Eol => panic!("global {line}"),
                _ => {}
            }
        }
        let ty = self.ty(&mut p);
        let size = ty.size();
        let base = (self.gnext + 63) / 64 * 64;
        self.gnext = base + size + 64;
        if external && line.contains("extern_weak") { self.gaddr.insert(n.to_string(), 0); return 0 }
        self.gaddr.insert(n.to_string(), base);
        self.gobjs.push(GObj { base, size, name: n.to_string(), constant, data: None, external });
        base
    }
    pub fn gobj_data(&mut self, gi: usize, ctx: &mut Ctx) -> Rc<Vec<u8>> {
        if let Some(d) = &self.gobjs[gi].data { return d.clone() }
        let n = self.gobjs[gi].name.clone();
        let (s, e) = self.gspan[&n];
        let line = self.src[s..e].to_string();
        let toks = lex(&line);
        let mut p = Ps { t: &toks, i: 2 };
        loop { match p.next() { Tok::W(w) if w == "global" || w == "constant" => break, Tok::P('(') => { p.i -= 1; p.skip_parens() } _ => {} } }
        let ty = self.ty(&mut p);
        let mut data = vec![0u8; ty.size() as usize];
        if !self.gobjs[gi].external { let v = self.konst(&mut p, &ty, ctx); write_const(&ty, &v, ctx, &mut data, 0); }
        let d = Rc::new(data);
        self.gobjs[gi].data = Some(d.clone());
        d
    }
    fn ty(&mut self, p: &mut Ps) -> Ty {
        match p.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64,
                "ptr" => { if p.isw("addrspace") { p.i += 1; p.skip_parens() } Ty::Ptr }
                "metadata" | "label" | "token" | "opaque" | "half" | "bfloat" | "fp128" | "x86_fp80" | "..." => Ty::Other,
                s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => { let w = s[1..].parse::<u32>().unwrap(); if w > 128 { Ty::Other } else { Ty::Int(w as u8) } }
                s => panic!("type word {s} in {:?}", p.t),
            },
            Tok::P('[') => { let n = p.int() as usize; assert!(p.eatw("x")); let t = self.ty(p); p.exp(']'); Ty::Arr(n, Box::new(t)) }
            Tok::P('<') => {
                if p.isp('{') { p.i += 1; let f = self.tylist(p); p.exp('>'); Ty::Struct(Rc::new(f), true) }
                else { let n = p.int() as usize; assert!(p.eatw("x")); let t = self.ty(p); p.exp('>'); Ty::Vec(n, Box::new(t)) }
            }
            Tok::P('{') => { let f = self.tylist(p); Ty::Struct(Rc::new(f), false) }
            Tok::P('.') => { p.eat('.'); p.eat('.'); Ty::Other }
            t => panic!("type {:?} in {:?}", t, p.t),
        }
    }
    fn tylist(&mut self, p: &mut Ps) -> Vec<Ty> {
        let mut v = vec![];
        if p.eat('}') { return v }
        loop { v.push(self.ty(p)); if p.eat(',') { continue } p.exp('}'); return v }
    }
    fn zero(ty: &Ty, ctx: &mut Ctx) -> V {
        match ty {
            t if t.is_agg() => { let n = t.count(); V::A(Rc::new((0..n).map(|i| { let e = t.elem(i).1; Self::zero(&e, ctx) }).collect())) }
            Ty::Int(w) if *w > 64 => V::S(ctx.konst(0, *w)),
            _ => V::C(0),
        }
    }
    fn konst(&mut self, p: &mut Ps, ty: &Ty, ctx: &mut Ctx) -> V {
        match p.next() {
            Tok::Int(s) => match ty {
                Ty::Int(w) => { let v: i128 = if s.starts_with("0x") { panic!("hex int") } else { s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128) }; if *w > 64 { V::S(ctx.konst(v as u128, *w)) } else { V::C(v as u64 & mask(*w) as u64) } }
                Ty::F32 | Ty::F64 if s.ends_with("nan") => { let neg = s.starts_with('-'); self.nanlit(p, ty, neg) }
                Ty::F32 => V::C(if let Some(h) = s.strip_prefix("0x") { (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64 } else { s.parse::<f64>().map(|x| x as f32).unwrap().to_bits() as u64 }).fixnan(&s),
                Ty::F64 => V::C(if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }),
                _ => panic!("int const for {:?}", ty),
            },
            Tok::G(n) => V::C(self.global_addr(&n)),
            Tok::CStr(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            Tok::P('[') => { let V2 = self.klist(p, ']', ctx); V2 }
            Tok::P('{') => self.klist(p, '}', ctx),
            Tok::P('<') => { if p.eat('{') { let v = self.klist(p, '}', ctx); p.exp('>'); v } else { self.klist(p, '>', ctx) } }
            Tok::Meta => V::C(0),
            Tok::W(w) => match w.as_str() {
                "null" | "none" | "false" => V::C(0),
                "true" => V::C(1),
                "zeroinitializer" | "undef" | "poison" => Self::zero(ty, ctx),
                "f" => panic!("f"),
                "splat" => { p.exp('('); let t = self.ty(p); let v = self.konst(p, &t, ctx); p.exp(')'); V::A(Rc::new(vec![v; ty.count()])) }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" => { p.exp('('); let t = self.ty(p); let v = self.konst(p, &t, ctx); p.eatw("to"); let to = self.ty(p); p.exp(')'); if let (V::C(x), true) = (&v, to.bits() < 64) { V::C(x & mask(to.bits()) as u64) } else { v } }
                "getelementptr" => {
                    while !p.isp('(') { p.i += 1; }
                    // possible inrange(...)
                    loop { let save = p.i; p.exp('('); if matches!(p.peek(), Tok::Int(_)) { p.i = save; p.skip_parens(); while !p.isp('(') { p.i += 1; } } else { break } }
                    let t = self.ty(p); p.exp(',');
                    let _ = self.ty(p); let V::C(mut a) = self.konst(p, &Ty::Ptr, ctx) else { panic!() };
                    let mut cur = t; let mut first = true;
                    while p.eat(',') {
                        p.eatw("inrange");
                        let it = self.ty(p); let V::C(i) = self.konst(p, &it, ctx) else { panic!() };
                        let i = sx64(i, it.bits());
                        if first { a = a.wrapping_add((i as u64).wrapping_mul(cur.size())); first = false } else { let (o, e) = if matches!(cur, Ty::Arr(..)) { let e = cur.elem(0).1; ((i as u64).wrapping_mul(e.size()), e) } else { cur.elem(i as usize) }; a = a.wrapping_add(o); cur = e; }
                    }
                    p.exp(')');
                    V::C(a)
                }
                "sub" | "add" | "xor" | "and" | "mul" => {
                    while !p.isp('(') { p.i += 1; } p.exp('(');
                    let t = self.ty(p); let a = self.konst(p, &t, ctx); p.exp(','); let t2 = self.ty(p); let b = self.konst(p, &t2, ctx); p.exp(')');
                    let (V::C(a), V::C(b)) = (a, b) else { panic!() };
                    let op = match w.as_str() { "sub" => Op::Sub, "add" => Op::Add, "xor" => Op::Xor, "mul" => Op::Mul, _ => Op::And };
                    V::C(eval_bin(op, a as u128, b as u128, t.bits()) as u64)
                }
                "inf" if matches!(ty, Ty::F32 | Ty::F64) => V::C(if *ty == Ty::F32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 }),
                "qnan" | "nan" | "snan" if matches!(ty, Ty::F32 | Ty::F64) => self.nanlit(p, ty, false),
                s if s.starts_with("f0x") => V::C(u64::from_str_radix(&s[3..], 16).unwrap()),
                s => panic!("const word {s} {:?}", p.t),
            },
            t => panic!("const {:?} in {:?}", t, p.t),
        }
    }
    fn klist(&mut self, p: &mut Ps, end: char, ctx: &mut Ctx) -> V {
        let mut v = vec![];
        if p.eat(end) { return V::A(Rc::new(v)) }
        loop { let t = self.ty(p); v.push(self.konst(p, &t, ctx)); if p.eat(',') { continue } p.exp(end); return V::A(Rc::new(v)) }
    }

    fn nanlit(&mut self, p: &mut Ps, ty: &Ty, neg: bool) -> V {
        let mut bits: u64 = if *ty == Ty::F32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 };
        if p.isp('(') { p.exp('('); if let Tok::Int(h) = p.next() { let k = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap(); bits = if *ty == Ty::F32 { 0x7f80_0000 | k } else { 0x7ff0_0000_0000_0000 | k }; } p.exp(')'); }
        if neg { bits |= if *ty == Ty::F32 { 1 << 31 } else { 1 << 63 } }
        V::C(bits)
    }
    pub fn func(&mut self, id: u32, ctx: &mut Ctx) -> Rc<Func> {
        if let Some(f) = &self.fcache[id as usize] { return f.clone() }
        let (s, e) = self.fspan[id as usize].unwrap_or_else(|| panic!("no body for {}", self.fname[id as usize]));
        let src = self.src[s..e].to_string();
        let f = Rc::new(FnParser { m: self, regs: HashMap::new(), reg_ty: vec![], blocks: HashMap::new(), nblocks: 0 }.parse(id, &src, ctx));
        self.fcache[id as usize] = Some(f.clone());
        f
    }
}
impl V { fn fixnan(self, s: &str) -> V { if let Some(h) = s.strip_prefix("0x") { let d = u64::from_str_radix(h, 16).unwrap(); if f64::from_bits(d).is_nan() { let sgn = (d >> 63) as u32; let man = ((d >> 29) & 0x7fffff) as u32; return V::C(((sgn << 31) | 0x7f800000 | man) as u64) } } self } }

pub fn write_const(ty: &Ty, v: &V, ctx: &Ctx, out: &mut [u8], off: usize) {
    match v {
        V::A(l) => { for (i, x) in l.iter().enumerate() { let (o, t) = ty.elem(i); write_const(&t, x, ctx, out, off + o as usize) } }
        V::C(x) => { let n = ty.size() as usize; for i in 0..n.min(8) { out[off + i] = (x >> (8 * i)) as u8 } }
        V::S(e) => { let k = ctx.is_const(*e).unwrap(); let n = ty.size() as usize; for i in 0..n { out[off + i] = (k >> (8 * i)) as u8 } }
    }
}

struct FnParser<'a> { m: &'a mut Module, regs: HashMap<String, u32>, reg_ty: Vec<Ty>, blocks: HashMap<String, u32>, nblocks: u32 }
impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(r) = self.regs.get(n) { return *r } let r = self.reg_ty.len() as u32; self.regs.insert(n.into(), r); self.reg_ty.push(Ty::Void); r }
    fn def(&mut self, n: &str, t: &Ty) -> u32 { let r = self.reg(n); self.reg_ty[r as usize] = t.clone(); r }
    fn blk(&mut self, n: &str) -> u32 { if let Some(r) = self.blocks.get(n) { return *r } let r = self.nblocks; self.nblocks += 1; self.blocks.insert(n.into(), r); r }
    fn opd(&mut self, p: &mut Ps, t: &Ty, ctx: &mut Ctx) -> Opd { if let Tok::L(n) = p.peek().clone() { p.i += 1; return Opd::R(self.reg(&n)) } Opd::K(self.m.konst(p, t, ctx)) }
    fn skip_attrs(&mut self, p: &mut Ps) {
        loop {
            match p.peek().clone() {
                Tok::W(w) => match w.as_str() {
                    "null" | "none" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "xor" | "inf" | "nan" | "qnan" | "snan" => return,
                    s if s.starts_with("f0x") => return,
                    "align" => { p.i += 1; if p.isp('(') { p.skip_parens() } else { p.i += 1 } }
                    _ => { p.i += 1; if p.isp('(') { p.skip_parens() } }
                },
                Tok::Str(_) => { p.i += 1; if p.eat('=') { p.i += 1 } }
                _ => return,
            }
        }
    }
    fn parse(mut self, id: u32, src: &str, ctx: &mut Ctx) -> Func {
        // join continuation lines
        let mut lines: Vec<String> = vec![];
        let mut inbr = false;
        for l in src.lines() {
            let t = l.trim();
            if inbr { let q = lines.last_mut().unwrap(); q.push(' '); q.push_str(t); if t.starts_with(']') { inbr = false } continue }
            if t.starts_with("to label ") { let q = lines.last_mut().unwrap(); q.push(' '); q.push_str(t); continue }
            if t.starts_with("switch ") && t.ends_with('[') { inbr = true }
            if t.is_empty() || t.starts_with(';') || t == "}" { continue }
            if t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter ") || t.starts_with("#dbg") { continue }
            lines.push(t.to_string());
        }
        // header
        let h = lex(&lines[0]);
        let mut p = Ps { t: &h, i: 1 };
        // skip to return type: find the '@name' position and walk attributes
        let is_ty = |t: &Tok| match t { Tok::W(w) => matches!(w.as_str(), "void" | "float" | "double" | "ptr" | "half") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()), Tok::P('{') | Tok::P('[') | Tok::P('<') => true, _ => false };
        while !is_ty(p.peek()) { p.i += 1; if p.isp('(') { p.skip_parens() } }
        let ret = self.m.ty(&mut p);
        while !matches!(p.peek(), Tok::G(_)) { p.i += 1 }
        p.i += 1;
        p.exp('(');
        let mut params = vec![];
        let mut anon = 0;
        if !p.eat(')') { loop {
            if p.isp('.') { p.i += 3; p.exp(')'); break }
            if let Tok::W(w) = p.peek() { if w.starts_with("...") { p.i += 1; break } }
            let t = self.m.ty(&mut p);
            self.skip_attrs(&mut p);
            if let Tok::L(n) = p.peek().clone() { p.i += 1; let r = self.def(&n, &t); params.push((r, t)); } else { let r = self.def(&format!("{anon}"), &t); params.push((r, t)); }
            anon += 1;
            if p.eat(',') { continue } p.exp(')'); break
        } }
        let mut blocks: Vec<(u32, Block)> = vec![];
        // entry block label: explicit or implicit number
        let mut i = 1;
        let first_label = { let l = &lines[1]; label_of(l) };
        let cur = match first_label { Some(n) => { i = 2; self.blk(&n) } None => { let n = format!("{}", params.len()); self.blk(&n) } };
        let mut curb = (cur, Block::default());
        while i < lines.len() {
            if let Some(n) = label_of(&lines[i]) { blocks.push(std::mem::replace(&mut curb, (0, Block::default()))); curb.0 = self.blk(&n); i += 1; continue }
            let toks = lex(&lines[i]);
            let line = lines[i].clone();
            self.inst(&toks, &line, &mut curb.1, ctx);
            i += 1;
        }
        blocks.push(curb);
        let mut out: Vec<Block> = (0..self.nblocks).map(|_| Block::default()).collect();
        for (n, b) in blocks { out[n as usize] = b; }
        for b in out.iter_mut() {
            let mut s = vec![];
            match b.insts.last() {
                Some(Inst::Br { t }) => s.push(*t),
                Some(Inst::CondBr { t, f, .. }) => { s.push(*t); s.push(*f) }
                Some(Inst::Switch { d, cases, .. }) => { s.push(*d); for c in cases.iter() { s.push(c.1) } }
                Some(Inst::Call { normal: Some(n), .. }) => s.push(*n),
                _ => {}
            }
            b.succ = s;
        }
        let ipdom = ipdoms(&out);
        let live_in = liveness(&out, self.reg_ty.len());
        let small = small_regions(&out, &ipdom);
        let (rpo, nest) = loops(&out);
        Func { id, name: self.m.fname[id as usize].clone(), params, ret, blocks: out, nregs: self.reg_ty.len(), reg_ty: self.reg_ty, ipdom, live_in, small, rpo, nest }
    }
    fn inst(&mut self, toks: &[Tok], line: &str, b: &mut Block, ctx: &mut Ctx) {
        let mut p = Ps { t: toks, i: 0 };
        let mut dst = None;
        if let Tok::L(n) = p.peek().clone() { p.i += 1; p.exp('='); dst = Some(n); }
        let Tok::W(mut op) = p.next() else { panic!("inst {line}") };
        let d = dst.clone().unwrap_or_default();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") { let Tok::W(o) = p.next() else { panic!() }; op = o; }
        macro_rules! flags { () => { while let Tok::W(w) = p.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") { p.i += 1 } else if w == "inrange" { p.i += 1; p.skip_parens() } else { break } } } }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags!();
                let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let bb = self.opd(&mut p, &ty, ctx);
                let o = match op.as_str() { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "urem" => Op::URem, "sdiv" => Op::SDiv, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, _ => Op::FRem };
                let d = self.def(&d, &ty);
                Inst::Bin { op: o, ty, d, a, b: bb }
            }
            "fneg" => { flags!(); let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); let d = self.def(&d, &ty); Inst::FNeg { ty, d, a } }
            "icmp" => {
                flags!();
                let Tok::W(pr) = p.next() else { panic!() };
                let pr = match pr.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {x}") };
                let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let bb = self.opd(&mut p, &ty, ctx);
                let rt = if let Ty::Vec(n, _) = &ty { Ty::Vec(*n, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = self.def(&d, &rt);
                Inst::ICmp { p: pr, ty, d, a, b: bb }
            }
            "fcmp" => {
                flags!();
                let Tok::W(pr) = p.next() else { panic!() };
                use FPred::*;
                let pr = match pr.as_str() { "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord, "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, _ => True };
                let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let bb = self.opd(&mut p, &ty, ctx);
                let rt = if let Ty::Vec(n, _) = &ty { Ty::Vec(*n, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = self.def(&d, &rt);
                Inst::FCmp { p: pr, ty, d, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                flags!();
                let from = self.m.ty(&mut p); let a = self.opd(&mut p, &from, ctx); p.eatw("to"); let to = self.m.ty(&mut p);
                let k = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => { let (x, y) = (from.bits(), to.bits()); if x == y { Cast::Bitcast } else if x > y { Cast::Trunc } else { Cast::ZExt } } _ => Cast::Bitcast };
                let d = self.def(&d, &to);
                Inst::Cast { k, from, to, d, a }
            }
            "select" => {
                flags!();
                let cty = self.m.ty(&mut p); let c = self.opd(&mut p, &cty, ctx); p.exp(',');
                let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let _ = self.m.ty(&mut p); let bb = self.opd(&mut p, &ty, ctx);
                let d = self.def(&d, &ty);
                Inst::Select { cty, ty, d, c, a, b: bb }
            }
            "load" => { flags!(); let ty = self.m.ty(&mut p); p.exp(','); let _ = self.m.ty(&mut p); let a = self.opd(&mut p, &Ty::Ptr, ctx); let d = self.def(&d, &ty); Inst::Load { ty, d, p: a } }
            "store" => { flags!(); let ty = self.m.ty(&mut p); let v = self.opd(&mut p, &ty, ctx); p.exp(','); let _ = self.m.ty(&mut p); let a = self.opd(&mut p, &Ty::Ptr, ctx); Inst::Store { ty, v, p: a } }
            "getelementptr" => {
                flags!();
                let t = self.m.ty(&mut p); p.exp(','); let bt = self.m.ty(&mut p); let base = self.opd(&mut p, &bt, ctx);
                let vec = bt != Ty::Ptr;
                let mut k = 0u64; let mut idx = vec![]; let mut cur = t; let mut first = true;
                let mut bad = vec;
                while p.eat(',') {
                    if *p.peek() == Tok::Meta { break }
                    let it = self.m.ty(&mut p);
                    if it.is_agg() { bad = true }
                    let o = self.opd(&mut p, &it, ctx);
                    if bad { continue }
                    let stride;
                    if first { stride = cur.size(); first = false }
                    else {
                        match &cur {
                            Ty::Struct(..) => { let Opd::K(V::C(n)) = o else { panic!() }; let (off, e) = cur.elem(n as usize); k = k.wrapping_add(off); cur = e; continue }
                            _ => { let e = cur.elem(0).1; stride = e.size(); cur = e; }
                        }
                    }
                    match o { Opd::K(V::C(n)) => k = k.wrapping_add((sx64(n, it.bits()) as u64).wrapping_mul(stride)), o => idx.push((o, it.bits(), stride)) }
                }
                let d = self.def(&d, &Ty::Ptr);
                if bad { Inst::Unsupported(line.to_string()) } else { Inst::Gep { d, base, k, idx, vec } }
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = self.m.ty(&mut p); let mut n = Opd::K(V::C(1)); let mut align = t.align();
                while p.eat(',') { if p.eatw("align") { align = p.int() as u64 } else if *p.peek() == Tok::Meta { break } else { let nt = self.m.ty(&mut p); n = self.opd(&mut p, &nt, ctx) } }
                let d = self.def(&d, &Ty::Ptr);
                Inst::Alloca { d, size: t.size(), align, n }
            }
            "call" | "invoke" => {
                flags!();
                // calling convention / ret attrs
                let is_ty = |t: &Tok| match t { Tok::W(w) => matches!(w.as_str(), "void" | "float" | "double" | "ptr" | "half" | "token" | "metadata") || (w.starts_with('i') && w.len() > 1 && w[1..].parse::<u32>().is_ok()), Tok::P('{') | Tok::P('[') | Tok::P('<') => true, _ => false };
                while !is_ty(p.peek()) {
                    if p.eatw("align") { if p.isp('(') { p.skip_parens() } else { p.i += 1 } continue }
                    if p.eatw("cc") { p.i += 1; continue }
                    p.i += 1; if p.isp('(') { p.skip_parens() }
                }
                let ret = self.m.ty(&mut p);
                if p.isw("addrspace") { p.i += 1; p.skip_parens() }
                if p.isp('(') { p.skip_parens() } // function type for varargs
                let callee = match p.next() {
                    Tok::G(n) => { let id = self.m.func_id(&n); Callee::F(id) }
                    Tok::L(n) => Callee::Ptr(Opd::R(self.reg(&n))),
                    Tok::W(w) if w == "asm" => { let mut s = String::new(); loop { match p.next() { Tok::Str(x) => { s.push_str(&String::from_utf8_lossy(&x)); s.push('|') } Tok::P('(') => { p.i -= 1; break } _ => {} } } Callee::Asm(s) }
                    Tok::W(_) => { p.i -= 1; let k = self.m.konst(&mut p, &Ty::Ptr, ctx); Callee::Ptr(Opd::K(k)) }
                    t => panic!("callee {:?} {line}", t),
                };
                p.exp('(');
                let mut args = vec![];
                if !p.eat(')') { loop {
                    let t = self.m.ty(&mut p);
                    if t == Ty::Other {
                        // metadata argument: skip to ',' or ')' at depth 0
                        let mut dep = 0;
                        loop { match p.peek() { Tok::P('(') => dep += 1, Tok::P(')') if dep == 0 => break, Tok::P(')') => dep -= 1, Tok::P(',') if dep == 0 => break, Tok::Eol => break, _ => {} } p.i += 1; }
                        args.push((t, Opd::K(V::C(0))));
                    } else {
                        self.skip_attrs(&mut p);
                        let o = self.opd(&mut p, &t, ctx);
                        args.push((t, o));
                    }
                    if p.eat(',') { continue } p.exp(')'); break
                } }
                let mut normal = None;
                if op == "invoke" { while !p.eatw("to") { p.i += 1 } p.eatw("label"); let Tok::L(n) = p.next() else { panic!() }; normal = Some(self.blk(&n)); }
                let d = if dst.is_some() { Some(self.def(&d, &ret)) } else { None };
                let text = self.m.text.len() as u32; self.m.text.push(line.chars().take(200).collect());
                Inst::Call { d, ret, callee, args, normal, text }
            }
            "ret" => { let ty = self.m.ty(&mut p); if ty == Ty::Void { Inst::Ret { ty, v: None } } else { let v = self.opd(&mut p, &ty, ctx); Inst::Ret { ty, v: Some(v) } } }
            "br" => {
                if p.eatw("label") { let Tok::L(n) = p.next() else { panic!() }; let t = self.blk(&n); Inst::Br { t } }
                else { let ty = self.m.ty(&mut p); let c = self.opd(&mut p, &ty, ctx); p.exp(','); p.eatw("label"); let Tok::L(a) = p.next() else { panic!() }; p.exp(','); p.eatw("label"); let Tok::L(bn) = p.next() else { panic!() }; let t = self.blk(&a); let f = self.blk(&bn); Inst::CondBr { c, t, f } }
            }
            "switch" => {
                let ty = self.m.ty(&mut p); let v = self.opd(&mut p, &ty, ctx); p.exp(','); p.eatw("label"); let Tok::L(n) = p.next() else { panic!() }; let dd = self.blk(&n);
                p.exp('[');
                let mut cases = vec![];
                while !p.eat(']') { let t = self.m.ty(&mut p); let k = self.m.konst(&mut p, &t, ctx); p.exp(','); p.eatw("label"); let Tok::L(n) = p.next() else { panic!() }; let t = self.blk(&n); let k = match k { V::C(k) => k, V::S(e) => ctx.is_const(e).unwrap() as u64, _ => panic!() }; cases.push((k, t)); }
                if ty.bits() > 64 { Inst::Unsupported(line.to_string()) } else { Inst::Switch { ty, v, d: dd, cases: Rc::new(cases) } }
            }
            "phi" => {
                flags!();
                let ty = self.m.ty(&mut p);
                let mut inc = vec![];
                loop { p.exp('['); let o = self.opd(&mut p, &ty, ctx); p.exp(','); let Tok::L(n) = p.next() else { panic!() }; p.exp(']'); let bl = self.blk(&n); inc.push((bl, o)); if p.isp(',') && p.t.get(p.i + 1) == Some(&Tok::P('[')) { p.i += 1 } else { break } }
                let d = self.def(&d, &ty);
                b.phis.push(Phi { d, ty, inc });
                return;
            }
            "extractvalue" => { let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); let mut path = vec![]; let mut cur = ty; while p.eat(',') { if *p.peek() == Tok::Meta { break } let i = p.int() as usize; path.push(i); cur = cur.elem(i).1; } let d = self.def(&d, &cur); Inst::ExtractValue { d, a, path } }
            "insertvalue" => { let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let vt = self.m.ty(&mut p); let v = self.opd(&mut p, &vt, ctx); let mut path = vec![]; while p.eat(',') { if *p.peek() == Tok::Meta { break } path.push(p.int() as usize) } let d = self.def(&d, &ty); Inst::InsertValue { d, ty, a, v, path } }
            "extractelement" => { let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let it = self.m.ty(&mut p); let i = self.opd(&mut p, &it, ctx); let e = ty.elem(0).1; let d = self.def(&d, &e); Inst::ExtractElement { d, n: ty.count(), a, i } }
            "insertelement" => { let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let vt = self.m.ty(&mut p); let v = self.opd(&mut p, &vt, ctx); p.exp(','); let it = self.m.ty(&mut p); let i = self.opd(&mut p, &it, ctx); let d = self.def(&d, &ty); Inst::InsertElement { d, n: ty.count(), a, v, i } }
            "shufflevector" => {
                let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); p.exp(','); let t2 = self.m.ty(&mut p); let bb = self.opd(&mut p, &t2, ctx); p.exp(','); let mt = self.m.ty(&mut p); let mk = self.m.konst(&mut p, &mt, ctx);
                let V::A(l) = mk else { panic!() };
                let mask = l.iter().map(|v| if let V::C(x) = v { Some(*x as usize) } else { None }).collect();
                let rt = Ty::Vec(mt.count(), Box::new(ty.elem(0).1)); let d = self.def(&d, &rt);
                Inst::Shuffle { d, n: ty.count(), a, b: bb, mask }
            }
            "cmpxchg" => { flags!(); let _ = self.m.ty(&mut p); let a = self.opd(&mut p, &Ty::Ptr, ctx); p.exp(','); let ty = self.m.ty(&mut p); let c = self.opd(&mut p, &ty, ctx); p.exp(','); let _ = self.m.ty(&mut p); let n = self.opd(&mut p, &ty, ctx); let rt = Ty::Struct(Rc::new(vec![ty.clone(), Ty::Int(1)]), false); let d = self.def(&d, &rt); Inst::CmpXchg { ty, d, p: a, c, n } }
            "atomicrmw" => { flags!(); let Tok::W(o) = p.next() else { panic!() }; let _ = self.m.ty(&mut p); let a = self.opd(&mut p, &Ty::Ptr, ctx); p.exp(','); let ty = self.m.ty(&mut p); let v = self.opd(&mut p, &ty, ctx); let d = self.def(&d, &ty); Inst::AtomicRmw { op: o, ty, d, p: a, v } }
            "freeze" => { let ty = self.m.ty(&mut p); let a = self.opd(&mut p, &ty, ctx); let d = self.def(&d, &ty); Inst::Freeze { d, a } }
            "fence" => Inst::Nop,
            "unreachable" => Inst::Unreachable,
            "landingpad" => { let ty = self.m.ty(&mut p); self.def(&d, &ty); Inst::Unsupported("landingpad".into()) }
            "resume" => Inst::Unreachable,
            _ => { if !d.is_empty() { self.def(&d, &Ty::Int(64)); } Inst::Unsupported(line.to_string()) }
        };
        b.insts.push(ins);
    }
}
fn label_of(l: &str) -> Option<String> {
    // "name:   ; preds" or "\"name\":"
    let l = match l.find(';') { Some(i) => l[..i].trim_end(), None => l.trim_end() };
    if !l.ends_with(':') { return None }
    let n = &l[..l.len() - 1];
    if let Some(q) = n.strip_prefix('"') { return Some(q.trim_end_matches('"').to_string()) }
    if n.contains(' ') { return None }
    Some(n.to_string())
}

/// immediate post-dominators, ignoring blocks that cannot reach a return
fn ipdoms(b: &[Block]) -> Vec<u32> {
    let n = b.len();
    // reach-exit
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, x) in b.iter().enumerate() { for s in &x.succ { preds[*s as usize].push(i) } }
    let mut can = vec![false; n];
    let mut st: Vec<usize> = (0..n).filter(|i| matches!(b[*i].insts.last(), Some(Inst::Ret { .. }))).collect();
    for i in &st { can[*i] = true }
    let exits = st.clone();
    while let Some(i) = st.pop() { for p in &preds[i] { if !can[*p] { can[*p] = true; st.push(*p) } } }
    // post-order on reverse graph from virtual exit n
    let mut order = vec![]; let mut seen = vec![false; n + 1];
    // reverse graph edges: exit -> exits ; i -> preds
    let mut stack: Vec<(usize, usize)> = vec![(n, 0)]; seen[n] = true;
    while let Some((x, k)) = stack.pop() {
        let es: &Vec<usize> = if x == n { &exits } else { &preds[x] };
        if k < es.len() { stack.push((x, k + 1)); let y = es[k]; if !seen[y] && can[y] { seen[y] = true; stack.push((y, 0)) } } else { order.push(x) }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, x) in order.iter().enumerate() { num[*x] = i }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().rev() {
            if x == n { continue }
            let mut new = usize::MAX;
            let mut ss: Vec<usize> = b[x].succ.iter().map(|s| *s as usize).filter(|s| can[*s]).collect();
            if matches!(b[x].insts.last(), Some(Inst::Ret { .. })) { ss.push(n) }
            for s in ss {
                if idom[s] == usize::MAX { continue }
                new = if new == usize::MAX { s } else { let (mut a, mut c) = (new, s); while a != c { while num[a] < num[c] { a = idom[a] } while num[c] < num[a] { c = idom[c] } } a };
            }
            if new != usize::MAX && idom[x] != new { idom[x] = new; ch = true }
        }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == n { EXIT } else { idom[i] as u32 }).collect()
}
pub fn uses(i: &Inst, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| if let Opd::R(r) = x { f(*r) };
    match i {
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::FCmp { a, b, .. } => { o(a); o(b) }
        Inst::FNeg { a, .. } | Inst::Cast { a, .. } | Inst::ExtractValue { a, .. } | Inst::Freeze { a, .. } => o(a),
        Inst::Select { c, a, b, .. } => { o(c); o(a); o(b) }
        Inst::Load { p, .. } => o(p),
        Inst::Store { v, p, .. } => { o(v); o(p) }
        Inst::Gep { base, idx, .. } => { o(base); for x in idx { o(&x.0) } }
        Inst::Alloca { n, .. } => o(n),
        Inst::Call { callee, args, .. } => { if let Callee::Ptr(p) = callee { o(p) } for a in args { o(&a.1) } }
        Inst::Ret { v, .. } => if let Some(v) = v { o(v) },
        Inst::CondBr { c, .. } => o(c),
        Inst::Switch { v, .. } => o(v),
        Inst::InsertValue { a, v, .. } => { o(a); o(v) }
        Inst::ExtractElement { a, i, .. } => { o(a); o(i) }
        Inst::InsertElement { a, v, i, .. } => { o(a); o(v); o(i) }
        Inst::Shuffle { a, b, .. } => { o(a); o(b) }
        Inst::CmpXchg { p, c, n, .. } => { o(p); o(c); o(n) }
        Inst::AtomicRmw { p, v, .. } => { o(p); o(v) }
        _ => {}
    }
}
pub fn def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Bin { d, .. } | Inst::ICmp { d, .. } | Inst::FCmp { d, .. } | Inst::FNeg { d, .. } | Inst::Cast { d, .. } | Inst::ExtractValue { d, .. } | Inst::Freeze { d, .. } | Inst::Select { d, .. } | Inst::Load { d, .. } | Inst::Gep { d, .. } | Inst::Alloca { d, .. } | Inst::InsertValue { d, .. } | Inst::ExtractElement { d, .. } | Inst::InsertElement { d, .. } | Inst::Shuffle { d, .. } | Inst::CmpXchg { d, .. } | Inst::AtomicRmw { d, .. } => Some(*d),
        Inst::Call { d, .. } => *d,
        _ => None,
    }
}
/// registers live after the phis of each block
fn liveness(b: &[Block], nregs: usize) -> Vec<Vec<u64>> {
    let nw = (nregs + 63) / 64;
    let n = b.len();
    let mut gen = vec![vec![0u64; nw]; n]; let mut kill = vec![vec![0u64; nw]; n];
    for (i, x) in b.iter().enumerate() {
        for ins in &x.insts {
            uses(ins, &mut |r| if kill[i][r as usize / 64] >> (r % 64) & 1 == 0 { gen[i][r as usize / 64] |= 1 << (r % 64) });
            if let Some(d) = def(ins) { kill[i][d as usize / 64] |= 1 << (d % 64) }
        }
    }
    let mut live = gen.clone();
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            let mut out = vec![0u64; nw];
            for s in &b[i].succ {
                let s = *s as usize;
                let mut t = live[s].clone();
                for ph in &b[s].phis { t[ph.d as usize / 64] &= !(1 << (ph.d % 64)); }
                for ph in &b[s].phis { for (p, o) in &ph.inc { if *p as usize == i { if let Opd::R(r) = o { t[*r as usize / 64] |= 1 << (r % 64) } } } }
                for k in 0..nw { out[k] |= t[k] }
            }
            for k in 0..nw { let v = live[i][k] | (out[k] & !kill[i][k]); if v != live[i][k] { live[i][k] = v; ch = true } }
        }
    }
    live
}

/// position of every block in a topological order in which loop bodies are contiguous, and
/// the headers of the loops around it, outermost first
fn loops(b: &[Block]) -> (Vec<u32>, Vec<Vec<u32>>) {
    let n = b.len();
    let order = |succ: &dyn Fn(usize) -> Vec<usize>| -> Vec<u32> {
        let mut post = vec![]; let mut seen = vec![false; n];
        let mut st: Vec<(usize, Vec<usize>)> = vec![(0, succ(0))]; seen[0] = true;
        while let Some((x, q)) = st.last_mut() {
            match q.pop() { Some(y) => if !seen[y] { seen[y] = true; st.push((y, succ(y))) }, None => { post.push(*x); st.pop(); } }
        }
        let mut r = vec![u32::MAX; n];
        for (i, x) in post.iter().rev().enumerate() { r[*x] = i as u32 }
        r
    };
    let r0 = order(&|x| b[x].succ.iter().rev().map(|s| *s as usize).collect());
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, x) in b.iter().enumerate() { if r0[i] != u32::MAX { for s in &x.succ { preds[*s as usize].push(i) } } }
    let mut body: BTreeMap<usize, Vec<bool>> = BTreeMap::new();
    for u in 0..n { if r0[u] == u32::MAX { continue } for h in &b[u].succ { let h = *h as usize; if r0[h] <= r0[u] {
        let s = body.entry(h).or_insert_with(|| { let mut v = vec![false; n]; v[h] = true; v });
        let mut q = vec![u];
        while let Some(x) = q.pop() { if !s[x] && r0[x] > r0[h] { s[x] = true; q.extend(preds[x].iter().copied()) } }
    } } }
    let size = |h: usize| body[&h].iter().filter(|x| **x).count();
    let nest: Vec<Vec<u32>> = (0..n).map(|x| { let mut l: Vec<usize> = body.iter().filter(|(_, s)| s[x]).map(|(h, _)| *h).collect(); l.sort_by_key(|h| std::cmp::Reverse(size(*h))); l.into_iter().map(|h| h as u32).collect() }).collect();
    // visit the successors leaving most loops first: they come last in the order
    let rpo = order(&|x| { let mut v: Vec<usize> = b[x].succ.iter().rev().map(|s| *s as usize).collect(); v.sort_by_key(|s| std::cmp::Reverse(nest[x].iter().filter(|h| !nest[*s].contains(h)).count())); v.reverse(); v });
    (rpo, nest)
}
/// for every block ending in a branch: is the region up to its immediate post-dominator
/// acyclic, small and free of calls (so both sides can be run without deciding feasibility)?
fn small_regions(b: &[Block], ipdom: &[u32]) -> Vec<bool> {
    let plain = |i: &Inst| !matches!(i, Inst::Call { .. } | Inst::Ret { .. } | Inst::Unreachable | Inst::Unsupported(_) | Inst::CmpXchg { .. } | Inst::AtomicRmw { .. });
    (0..b.len()).map(|r| {
        let stop = ipdom[r];
        if stop == EXIT || b[r].succ.len() < 2 { return false }
        let mut seen: Vec<u32> = vec![];
        let mut q: Vec<u32> = b[r].succ.iter().copied().filter(|s| *s != stop).collect();
        while let Some(x) = q.pop() {
            if x as usize == r { return false }
            if seen.contains(&x) { continue }
            seen.push(x);
            if seen.len() > 8 || !b[x as usize].insts.iter().all(plain) { return false }
            for s in &b[x as usize].succ { if *s != stop { q.push(*s) } }
        }
        // acyclic: repeatedly remove blocks without predecessors inside the region
        let mut left = seen.clone();
        loop {
            let n = left.len();
            let cur = left.clone();
            left.retain(|x| cur.iter().any(|y| b[*y as usize].succ.contains(x)));
            if left.is_empty() { return true }
            if left.len() == n { return false }
        }
    }).collect()
}
