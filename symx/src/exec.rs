//! Symbolic executor for LLVM IR: forking at symbolic branches, merging at
//! immediate post-dominators, byte-accurate memory with bounds checking.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const HEAP0: u64 = 0x10_0000_0000;
pub const STACK0: u64 = 0x7f00_0000_0000;

#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub align: u64, pub data: Vec<u8>, pub sym: Option<Vec<(u32, u8)>>, pub ro: bool }
// sym[i] = (node, byte index); node 0 = concrete
impl Obj {
    fn new(base: u64, size: u64, align: u64) -> Obj { Obj { base, size, align, data: vec![0; size as usize], sym: None, ro: false } }
}
#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub ip: u32, pub regs: Vec<V>, pub ret: Option<u32>, pub ret_normal: Option<u32>, pub smark: usize, pub saddr: u64, pub uid: u64 }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Rc<Obj>>,
    pub stack: Vec<Rc<Obj>>,
    pub gl: BTreeMap<u64, Rc<Obj>>,
    pub heap_next: u64,
    pub stack_next: u64,
    pub pc: Vec<E>,
    pub facts: FxMap<E, bool>,
    pub conc: FxMap<E, u64>,
    /// models known to satisfy the path condition; empty = feasibility not established
    pub models: Vec<Rc<Model>>,
    pub lazy: u32,
    /// widths of the inputs read so far; Some(v) for an explicit case choice
    pub inputs: Vec<(u8, Option<u64>)>,
    pub choice: Option<u64>,
    pub obs: Vec<(V, u8)>,
    pub expect_panic: bool,
    pub merge: bool,
    /// selects on symbolic conditions fork as well
    pub fsel: bool,
    /// join states wherever they meet, advancing the one furthest behind first
    pub lock: bool,
    /// only states with equal concrete values are joined
    pub strict: bool,
    pub iters: Vec<(u32, u32)>,
    pub fresh: bool,
    pub known: Vec<String>,
    pub steps: u64,
    pub checks: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Stop { depth: usize, blk: u32, uid: u64 }

#[derive(Clone, Debug)]
pub struct Finding { pub kind: String, pub msg: String, pub inputs: Vec<(u8, u64)>, pub known: Vec<String>, pub stack: Vec<String> }

enum Step { Next, Jump(u32), Ret, Fork(E), Choose(u64), Done, Err(String, String), Incon(String), Pushed }

pub struct Sample { pub inputs: Vec<(u8, u64)>, pub obs: Vec<u64>, pub panicked: bool }

pub struct Exec {
    pub m: Module,
    pub c: Ctx,
    pub s: Solver,
    input_vars: HashMap<(usize, u8), u32>,
    nvars: u32,
    pub findings: Vec<Finding>,
    pub incon: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub paths: u64, pub panics_expected: u64, pub forks: u64, pub merges: u64, pub merge_fail: u64, pub insts: u64, pub checks: u64, pub checks_sym: u64, pub assumes_cut: u64,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub dead: u64, hard: u32,
    pub funcs_seen: HashMap<u32, u64>,
    pub stop_all: bool,
    pub trace_forks: bool,
    pub trace: bool,
    uid: u64,
    strict: bool,
    kinds: Vec<u8>,
    pub obligations: Vec<(String, u64)>,
    oblig_idx: HashMap<String, usize>,
    pub max_findings: usize,
}
type R<T> = Result<T, Step>;
enum Dec { Is(bool), Both(Vec<Rc<Model>>, Vec<Rc<Model>>), Unknown }
const QUICK_MS: u32 = 400;

impl Exec {
    pub fn new(m: Module, timeout_ms: u32, deadline: std::time::Instant) -> Exec {
        let n = m.fname.len();
        Exec { m, c: Ctx::new(), s: Solver::new(timeout_ms), input_vars: HashMap::new(), nvars: 0, findings: vec![], incon: vec![], covers: BTreeMap::new(), samples: vec![], max_samples: 4, paths: 0, panics_expected: 0, forks: 0, merges: 0, merge_fail: 0, insts: 0, checks: 0, checks_sym: 0, assumes_cut: 0, max_steps: 40_000_000, deadline, dead: 0, hard: 0, funcs_seen: HashMap::new(), stop_all: false, trace_forks: std::env::var("SYMX_FORKS").is_ok(), trace: std::env::var("SYMX_TRACE").is_ok(), uid: 1, strict: false, kinds: vec![0; n], obligations: vec![], oblig_idx: HashMap::new(), max_findings: 1 }
    }
    pub fn run_harness(&mut self, name: &str) {
        let Some(&fid) = self.m.fidx.get(name) else { self.incon.push(format!("harness {name} not found in IR")); return };
        let f = self.m.func(fid, &mut self.c);
        let fr = Frame { regs: vec![V::C(0); f.nregs], f, blk: 0, ip: 0, ret: None, ret_normal: None, smark: 0, saddr: STACK0, uid: 0 };
        let st = State { frames: vec![fr], heap: vec![], stack: vec![], gl: BTreeMap::new(), heap_next: HEAP0, stack_next: STACK0, pc: vec![], facts: Default::default(), conc: Default::default(), models: (0..20).map(|i| Rc::new(Model::seeded(i))).collect(), lazy: 0, inputs: vec![], choice: None, obs: vec![], expect_panic: false, merge: true, fsel: false, lock: false, strict: false, iters: vec![], fresh: false, known: vec![], steps: 0, checks: 0 };
        let r = self.run(st, None);
        assert!(r.is_empty());
    }
    // ---------- values
    #[inline] fn opd(&self, st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn e(&mut self, v: &V, w: u8) -> E { match v { V::C(x) => self.c.konst(*x as u128, w), V::S(e) => *e, V::A(_) => panic!("agg as scalar") } }
    #[inline] fn v(&self, e: E) -> V { let n = self.c.n(e); if n.op == Op::Const && n.w <= 64 { V::C(n.k as u64) } else { V::S(e) } }
    fn fact(&self, st: &State, c: E) -> Option<bool> {
        if c == TRUE { return Some(true) } if c == FALSE { return Some(false) }
        if let Some(b) = st.facts.get(&c) { return Some(*b) }
        if let Some(x) = self.c.is_not(c) { if let Some(b) = st.facts.get(&x) { return Some(!*b) } }
        None
    }
    fn add_fact(&mut self, st: &mut State, c: E, b: bool) {
        let (c, b) = match self.c.is_not(c) { Some(x) => (x, !b), None => (c, b) };
        st.facts.insert(c, b);
        let n = *self.c.n(c);
        if b && n.op == Op::Eq { if let Some(k) = self.c.is_const(E(n.b)) { if self.c.w(E(n.b)) <= 64 { st.conc.insert(E(n.a), k as u64); } } }
        if b && n.op == Op::And && n.w == 1 { self.add_fact(st, E(n.a), true); self.add_fact(st, E(n.b), true); }
        if !b && n.op == Op::Or && n.w == 1 { self.add_fact(st, E(n.a), false); self.add_fact(st, E(n.b), false); }
    }
    /// a model of the path condition; Err(Done) if the path turns out to be infeasible
    fn model(&mut self, st: &mut State) -> R<Rc<Model>> {
        if let Some(m) = st.models.first() { return Ok(m.clone()) }
        match self.s.check(&mut self.c, &st.pc, TRUE) {
            Ans::Sat(m) => { let m = Rc::new(m); st.models.push(m.clone()); st.lazy = 0; Ok(m) }
            Ans::Unsat => { self.dead += 1; Err(Step::Done) }
            Ans::Unknown => Err(Step::Incon("solver timeout on a path condition".into())),
        }
    }
    fn partition(&self, st: &State, c: E) -> (Vec<Rc<Model>>, Vec<Rc<Model>>) {
        st.models.iter().cloned().partition(|m| m.eval(&self.c, c) != 0)
    }
    /// decide a condition: Is(bool) if only one side is feasible, Both(models, models) otherwise
    fn decide(&mut self, st: &mut State, c: E, ms: u32) -> Dec {
        if let Some(b) = self.fact(st, c) { return Dec::Is(b) }
        let (mut mt, mut mf) = self.partition(st, c);
        if !mt.is_empty() && !mf.is_empty() { return Dec::Both(mt, mf) }
        let nc = self.c.not(c);
        let mut un = [false; 2];
        for (k, (q, ms_)) in [(c, &mut mt), (nc, &mut mf)].into_iter().enumerate() {
            if !ms_.is_empty() { continue }
            if ms == 0 { un[k] = true; continue }
            match self.s.check_t(&mut self.c, &st.pc, q, ms) {
                Ans::Unsat => {
                    if !st.models.is_empty() { self.add_fact(st, c, k == 1); return Dec::Is(k == 1) }
                    // feasibility of this path is open: the other side carries it
                    self.add_fact(st, c, k == 1); st.lazy += 1; return Dec::Is(k == 1);
                }
                Ans::Sat(m) => ms_.push(Rc::new(m)),
                Ans::Unknown => { un[k] = true; if ms == self.s.timeout_ms { return Dec::Unknown } }
            }
        }
        Dec::Both(mt, mf)
    }
    /// split on c: returns (true state, false state)
    fn split(&mut self, mut st: State, c: E, ms: u32) -> (Option<State>, Option<State>) {
        if std::time::Instant::now() > self.deadline { self.incon.push("time limit".into()); self.stop_all = true; return (None, None) }
        if st.models.is_empty() && st.lazy > 40 {
            match self.model(&mut st) { Ok(_) => {} Err(Step::Done) => return (None, None), Err(_) => { self.incon.push("solver timeout on a path condition".into()); self.stop_all = true; return (None, None) } }
        }
        if self.trace_forks { let f: Vec<String> = st.frames.iter().rev().take(2).map(|f| f.f.name.clone()).collect(); eprintln!("branch {} in {:?}", self.show(c, 5), f) }
        match self.decide(&mut st, c, ms) {
            Dec::Is(true) => (Some(st), None),
            Dec::Is(false) => (None, Some(st)),
            Dec::Unknown => { self.incon.push("solver timeout at a branch".into()); self.stop_all = true; (None, None) }
            Dec::Both(mt, mf) => {
                self.forks += 1;
                let mut o = st.clone();
                let nc = self.c.not(c);
                st.lazy = if mt.is_empty() { st.lazy + 1 } else { 0 };
                o.lazy = if mf.is_empty() { o.lazy + 1 } else { 0 };
                st.models = mt; o.models = mf;
                st.pc.push(c); self.add_fact(&mut st, c, true);
                o.pc.push(nc); self.add_fact(&mut o, c, false);
                (Some(st), Some(o))
            }
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<bool> {
        match self.fact(st, c) { Some(true) => return Ok(true), Some(false) => return Ok(false), None => {} }
        let (mut mt, _) = self.partition(st, c);
        if mt.is_empty() {
            match self.s.check(&mut self.c, &st.pc, c) {
                Ans::Unsat => return Ok(false),
                Ans::Sat(m) => mt.push(Rc::new(m)),
                Ans::Unknown => return Err(Step::Incon("solver timeout at an assumption".into())),
            }
        }
        st.models = mt; st.lazy = 0; st.pc.push(c); self.add_fact(st, c, true);
        Ok(true)
    }
    // ---------- findings
    fn inputs_of(&self, st: &State, m: &Model) -> Vec<(u8, u64)> {
        st.inputs.iter().enumerate().map(|(k, (w, v))| (*w, match v { Some(v) => *v, None => m.var(self.input_vars[&(k, *w)] as usize, *w) as u64 })).collect()
    }
    fn report(&mut self, st: &State, m: &Model, kind: &str, msg: &str) {
        let inputs = self.inputs_of(st, m);
        let stack = st.frames.iter().rev().map(|f| f.f.name.clone()).collect();
        self.findings.push(Finding { kind: kind.into(), msg: msg.into(), inputs, known: st.known.clone(), stack });
        if st.known.is_empty() && self.findings.iter().filter(|f| f.known.is_empty()).count() >= self.max_findings { self.stop_all = true }
    }
    // ---------- driver
    fn at_stop(st: &State, stop: &Option<Stop>) -> bool {
        match stop { None => false, Some(s) => {
            if s.blk == EXIT { st.frames.len() < s.depth }
            else { st.frames.len() == s.depth && { let f = st.frames.last().unwrap(); f.blk == s.blk && f.ip == 0 && f.uid == s.uid } }
        } }
    }
    /// does a come before b in the execution of their common function?
    fn before(a: &State, b: &State) -> bool {
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        if a.frames.len() != b.frames.len() { return a.frames.len() > b.frames.len() }
        let f = &fa.f;
        for h in &f.nest[fa.blk as usize] {
            if !f.nest[fb.blk as usize].contains(h) { break }
            let n = |s: &State| s.iters.iter().find(|x| x.0 == *h).map_or(0, |x| x.1);
            if n(a) != n(b) { return n(a) < n(b) }
        }
        f.rpo[fa.blk as usize] < f.rpo[fb.blk as usize]
    }
    fn run(&mut self, st: State, stop: Option<Stop>) -> Vec<State> { self.run_all(vec![st], stop) }
    fn run_all(&mut self, work: Vec<State>, stop: Option<Stop>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        let mut work = work;
        let mut first = work.len();
        loop {
            let mut at = work.len().wrapping_sub(1);
            if work.len() > 1 && stop.is_some() { for i in 0..work.len() { if work[i].lock && i != at && Self::before(&work[i], &work[at]) { at = i } } }
            if work.is_empty() { break }
            let mut st = work.remove(at);
            let mut fresh = first > 0 || st.choice.is_some() || st.fresh;
            first = first.saturating_sub(1);
            st.fresh = false;
            'st: loop {
                if self.stop_all { return vec![] }
                if !fresh && Self::at_stop(&st, &stop) { Self::join(self, &mut out, st); break 'st }
                fresh = false;
                let from = st.frames.last().map_or(0, |f| f.blk);
                match self.step_until_event(&mut st, &stop) {
                    None => {
                        if st.lock { if let (Some(s), Some(fr)) = (&stop, st.frames.last()) { if st.frames.len() == s.depth && fr.uid == s.uid && fr.ip == 0 {
                            let (f, to) = (fr.f.clone(), fr.blk);
                            // a header: a further turn, or the first
                            if f.nest[to as usize].contains(&to) {
                                let again = f.nest[from as usize].contains(&to);
                                match st.iters.iter_mut().find(|x| x.0 == to) { Some(x) => x.1 = if again { x.1 + 1 } else { 0 }, None => st.iters.push((to, 0)) }
                            }
                            if !work.is_empty() && !Self::at_stop(&st, &stop) {
                                let mut i = 0;
                                while i < work.len() {
                                    if work[i].merge && st.merge && !work[i].fresh && work[i].choice.is_none() && work[i].frames.len() == st.frames.len() && work[i].frames.last().map_or(false, |f| f.blk == to && f.ip == 0) {
                                        if let Some(m) = self.try_merge(&work[i], &st) { work.remove(i); st = m; self.merges += 1; i = 0; continue }
                                        self.merge_fail += 1;
                                    }
                                    i += 1;
                                }
                                work.push(st);
                                break 'st
                            }
                        } } }
                        continue
                    }
                    Some(Step::Done) => break 'st,
                    Some(Step::Err(k, m)) => {
                        match self.model(&mut st) {
                            Ok(md) => self.report(&st, &md, &k, &m),
                            Err(Step::Done) => {}
                            Err(_) => { self.incon.push(format!("solver timeout deciding whether '{k}: {m}' is reachable")); self.stop_all = true; return vec![] }
                        }
                        break 'st
                    }
                    Some(Step::Incon(m)) => { if self.trace { eprintln!("inconclusive: {m}"); } let s: Vec<String> = st.frames.iter().rev().map(|f| f.f.name.clone()).collect(); self.incon.push(format!("{m} in {}", s.join(" < "))); self.stop_all = true; return vec![] }
                    Some(Step::Choose(n)) => {
                        self.forks += n - 1;
                        if std::time::Instant::now() > self.deadline { self.incon.push("time limit".into()); self.stop_all = true; return vec![] }
                        for v in (0..n).rev() { let mut s = st.clone(); s.choice = Some(v); work.push(s) }
                        break 'st
                    }
                    Some(Step::Fork(c)) => {
                        let merge = st.merge;
                        let fr = st.frames.last().unwrap();
                        let ms = if merge && fr.f.small[fr.blk as usize] { if self.hard > 3 { 0 } else { 100 } } else { QUICK_MS };
                        let sub = Stop { depth: st.frames.len(), blk: fr.f.ipdom[fr.blk as usize], uid: fr.uid };
                        if self.trace { eprintln!("fork {} blk {} ip {} -> ipdom {} small {} ms {} alive {} {}", fr.f.name, fr.blk, fr.ip, sub.blk as i32, fr.f.small[fr.blk as usize], ms, st.models.len(), self.show(c, 4)) }
                        let u0 = self.s.unknown;
                        let (t, f) = self.split(st, c, ms);
                        if ms == 100 { if self.s.unknown > u0 { self.hard += 1 } else { self.hard = 0 } }
                        match (t, f) {
                            (Some(t), Some(f)) => {
                                if let (true, Some(sp)) = (merge && t.lock, &stop) { if t.frames.len() == sp.depth && t.frames.last().unwrap().uid == sp.uid {
                                    let (mut t, mut f) = (t, f);
                                    t.fresh = true; f.fresh = true;
                                    work.push(f); work.push(t);
                                    break 'st
                                } }
                                if merge && t.lock {
                                    let saved = t.iters.clone();
                                    let (mut t, mut f) = (t, f);
                                    t.iters.clear(); f.iters.clear();
                                    let mut all = vec![];
                                    for s in self.run_all(vec![f, t], Some(sub)) { Self::join(self, &mut all, s) }
                                    let mut rest = vec![];
                                    for mut s in all { s.iters = saved.clone(); if Self::at_stop(&s, &stop) { Self::join(self, &mut out, s) } else { rest.push(s) } }
                                    work.extend(rest.into_iter().rev());
                                    break 'st;
                                } else if merge {
                                    let s1 = self.run(t, Some(sub));
                                    let s2 = self.run(f, Some(sub));
                                    let mut all: Vec<State> = vec![];
                                    for s in s1.into_iter().chain(s2) { Self::join(self, &mut all, s) }
                                    // all states are at `sub`; they may already be at the outer stop
                                    let mut rest = vec![];
                                    for s in all { if Self::at_stop(&s, &stop) { Self::join(self, &mut out, s) } else { rest.push(s) } }
                                    // continue the others from here (not re-testing the stop for loop headers)
                                    work.extend(rest.into_iter().rev());
                                    break 'st;
                                } else {
                                    work.push(f);
                                    st = t;
                                }
                            }
                            (Some(s), None) | (None, Some(s)) => st = s,
                            (None, None) => break 'st,
                        }
                        // re-execution of the forking instruction: do not treat as a new arrival
                        fresh = true;
                    }
                    _ => unreachable!(),
                }
            }
        }
        out
    }
    fn join(&mut self, list: &mut Vec<State>, s: State) {
        let mut s = s;
        let mut i = 0;
        while i < list.len() {
            if s.merge && list[i].merge {
                if let Some(m) = self.try_merge(&list[i], &s) { list.remove(i); s = m; self.merges += 1; i = 0; continue }
                self.merge_fail += 1;
            }
            i += 1;
        }
        list.push(s);
    }
    fn mergev(&mut self, d: E, a: &V, b: &V, t: &Ty) -> Option<V> {
        match (a, b) {
            (V::C(x), V::C(y)) => { if x == y { return Some(a.clone()) } if *t == Ty::Ptr || (self.strict && *t != Ty::Int(1)) { return None } if t.is_agg() { return Some(V::C(0)) } }
            (V::S(x), V::S(y)) if x == y => return Some(a.clone()),
            (V::A(x), V::A(y)) => {
                if Rc::ptr_eq(x, y) { return Some(a.clone()) }
                if x.len() != y.len() || !t.is_agg() { return None }
                let mut r = vec![];
                for i in 0..x.len() { let et = t.elem(i).1; r.push(self.mergev(d, &x[i], &y[i], &et)?); }
                return Some(V::A(Rc::new(r)));
            }
            (V::A(_), _) | (_, V::A(_)) => return None,
            _ => {}
        }
        if *t == Ty::Ptr {
            // allow only pointers that differ symbolically within reason
            if matches!((a, b), (V::C(_), V::C(_))) { return None }
        }
        let w = match t { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => return None };
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.c.ite(d, x, y);
        Some(self.v(r))
    }
    fn try_merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.strict != b.strict { return None }
        self.strict = a.strict;
        let (la, lb) = (a.inputs.len(), b.inputs.len());
        let n = la.min(lb);
        if a.inputs[..n] != b.inputs[..n] { return None }
        if a.frames.len() != b.frames.len() || a.lock != b.lock || a.fresh != b.fresh || a.expect_panic != b.expect_panic || a.known != b.known || a.obs.len() != b.obs.len() { return None }
        for (x, y) in a.frames.iter().zip(&b.frames) { if x.uid != y.uid || x.blk != y.blk || x.ip != y.ip { if self.trace { eprintln!("merge fail: frame {} blk {}/{} ip {}/{}", x.f.name, x.blk, y.blk, x.ip, y.ip) } return None } }
        // path conditions
        let mut k = 0;
        while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] { k += 1 }
        if k == a.pc.len() || k == b.pc.len() { if self.trace { eprintln!("merge fail: pc") } // one subsumes the other: should not happen, keep separate
            return None;
        }
        let (ra, rb) = (&a.pc[k..], &b.pc[k..]);
        let mut ca = TRUE; for x in ra { ca = self.c.and(ca, *x) }
        let mut cb = TRUE; for x in rb { cb = self.c.and(cb, *x) }
        let n0 = self.c.not(ra[0]);
        let d = if n0 == rb[0] { ra[0] } else { ca };
        // pre-check memory compat and pointer merges
        let mut heap: Vec<Rc<Obj>> = Vec::with_capacity(a.heap.len());
        let (mut i, mut j) = (0, 0);
        while i < a.heap.len() || j < b.heap.len() {
            let ba = a.heap.get(i).map(|o| o.base).unwrap_or(u64::MAX); let bb = b.heap.get(j).map(|o| o.base).unwrap_or(u64::MAX);
            if ba == bb { let o = self.merge_obj(d, a, b, &a.heap[i], &b.heap[j])?; heap.push(o); i += 1; j += 1; }
            else if ba < bb { heap.push(a.heap[i].clone()); i += 1 } else { heap.push(b.heap[j].clone()); j += 1 }
        }
        for w in heap.windows(2) { if w[0].base + w[0].size > w[1].base { return None } }
        if a.stack.len() != b.stack.len() { return None }
        let mut stack = Vec::with_capacity(a.stack.len());
        for (x, y) in a.stack.iter().zip(&b.stack) { if x.base != y.base { return None } let o = self.merge_obj(d, a, b, x, y)?; stack.push(o); }
        let mut gl = BTreeMap::new();
        for k in a.gl.keys().chain(b.gl.keys()) {
            if gl.contains_key(k) { continue }
            let ga = match a.gl.get(k) { Some(o) => o.clone(), None => self.gobj(*k) }; let gb = match b.gl.get(k) { Some(o) => o.clone(), None => self.gobj(*k) };
            let o = self.merge_obj(d, a, b, &ga, &gb)?; gl.insert(*k, o);
        }
        let mut frames = Vec::with_capacity(a.frames.len());
        let top = a.frames.len() - 1;
        for (fi, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
            let mut regs = Vec::with_capacity(x.regs.len());
            let at_entry = fi == top && x.ip == 0;
            for r in 0..x.regs.len() {
                if at_entry {
                    let live = x.f.live_in[x.blk as usize][r / 64] >> (r % 64) & 1 == 1;
                    if !live { regs.push(V::C(0)); continue }
                }
                regs.push(match self.mergev(d, &x.regs[r], &y.regs[r], &x.f.reg_ty[r]) { Some(v) => v, None => { if self.trace { eprintln!("merge fail: reg {r} {:?} vs {:?} in {} frame {fi}/{top}", x.regs[r], y.regs[r], x.f.name) } return None } });
            }
            frames.push(Frame { f: x.f.clone(), blk: x.blk, ip: x.ip, regs, ret: x.ret, ret_normal: x.ret_normal, smark: x.smark, saddr: x.saddr, uid: x.uid });
        }
        let mut obs = vec![];
        for (x, y) in a.obs.iter().zip(&b.obs) { let t = Ty::Int(x.1); obs.push((self.mergev(d, &x.0, &y.0, &t)?, x.1)); }
        let mut pc = a.pc[..k].to_vec();
        let o = self.c.or(ca, cb);
        if o != TRUE { pc.push(o) }
        let facts: FxMap<E, bool> = if a.facts.len() <= b.facts.len() { a.facts.iter().filter(|(k, v)| b.facts.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect() } else { b.facts.iter().filter(|(k, v)| a.facts.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect() };
        let conc = a.conc.iter().filter(|(k, v)| b.conc.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect();
        let mut models = a.models.clone(); models.extend(b.models.iter().cloned()); if models.len() > 24 { models.truncate(24) }
        Some(State { frames, heap, stack, gl, heap_next: a.heap_next.max(b.heap_next), stack_next: a.stack_next.max(b.stack_next), pc, facts, conc, models, lazy: a.lazy.min(b.lazy), inputs: if la >= lb { a.inputs.clone() } else { b.inputs.clone() }, choice: None, obs, expect_panic: a.expect_panic, merge: a.merge, fsel: a.fsel, lock: a.lock, strict: a.strict, iters: a.iters.clone(), fresh: false, known: a.known.clone(), steps: a.steps.max(b.steps), checks: a.checks.max(b.checks) })
    }
    fn looks_ptr(&self, v: u64) -> bool { (v >= GBASE && v < GBASE + 0x1000_0000) || (v >= HEAP0 && v < HEAP0 + 0x10_0000_0000) || (v >= STACK0 && v < STACK0 + 0x1_0000_0000) || (v >= FBASE && v < FBASE + 0x100_0000) }
    fn merge_obj(&mut self, d: E, _sa: &State, _sb: &State, a: &Rc<Obj>, b: &Rc<Obj>) -> Option<Rc<Obj>> {
        if Rc::ptr_eq(a, b) { return Some(a.clone()) }
        if a.size != b.size { return None }
        let n = a.size as usize;
        let mut r = (**a).clone();
        let mut i = 0;
        let cell = |o: &Obj, i: usize| -> (u32, u8) { match &o.sym { Some(s) => s[i], None => (0, 0) } };
        while i < n {
            let (ca, cb) = (cell(a, i), cell(b, i));
            if ca == cb && (ca.0 != 0 || a.data[i] == b.data[i]) { i += 1; continue }
            if ca.0 == 0 && cb.0 == 0 {
                if self.strict { return None }
                // concrete difference: guard against pointers
                let al = i & !7;
                if al + 8 <= n {
                    let rd = |o: &Obj| { let mut v = 0u64; for k in 0..8 { if cell(o, al + k).0 != 0 { return None } v |= (o.data[al + k] as u64) << (8 * k) } Some(v) };
                    if let (Some(x), Some(y)) = (rd(a), rd(b)) { if self.looks_ptr(x) && self.looks_ptr(y) { if self.trace { eprintln!("merge fail: mem {:#x}+{} {:#x} {:#x}", a.base, al, x, y) } return None } }
                }
            }
            // choose a unit: the node layout on either side
            let unit = |ctx: &Ctx, o: &Obj| -> usize {
                let c = cell(o, i); if c.0 == 0 || c.1 != 0 { return 1 }
                let k = (ctx.nodes[c.0 as usize].w as usize + 7) / 8;
                if i + k > n { return 1 }
                for j in 0..k { if cell(o, i + j) != (c.0, j as u8) { return 1 } }
                k
            };
            let (ua, ub) = (unit(&self.c, a), unit(&self.c, b));
            let u = ua.max(ub);
            let x = self.read_obj(a, i, u); let y = self.read_obj(b, i, u);
            let w = (u * 8) as u8;
            let (x, y) = (self.e(&x, w), self.e(&y, w));
            let m = self.c.ite(d, x, y);
            let mv = self.v(m);
            self.write_obj(&mut r, i, u, &mv);
            i += u;
        }
        Some(Rc::new(r))
    }
    // ---------- memory
    fn read_obj(&mut self, o: &Obj, off: usize, n: usize) -> V {
        let Some(sym) = &o.sym else {
            if n <= 8 { let mut v = 0u64; for k in 0..n { v |= (o.data[off + k] as u64) << (8 * k) } return V::C(v) }
            let mut v = 0u128; for k in 0..n { v |= (o.data[off + k] as u128) << (8 * k) } let e = self.c.konst(v, (n * 8) as u8); return V::S(e);
        };
        let first = sym[off];
        let mut allc = true; let mut run = first.0 != 0 && first.1 == 0;
        for k in 0..n { let s = sym[off + k]; if s.0 != 0 { allc = false } if s != (first.0, k as u8) { run = false } }
        if allc && n <= 8 { let mut v = 0u64; for k in 0..n { v |= (o.data[off + k] as u64) << (8 * k) } return V::C(v) }
        if run { let w = self.c.w(E(first.0)) as usize; if w == n * 8 { return V::S(E(first.0)) } if w < n * 8 && w > n * 8 - 8 { let e = self.c.zext(E(first.0), (n * 8) as u8); return self.v(e) } }
        // assemble from runs, high to low
        let sym = sym.clone();
        let mut acc: Option<E> = None;
        let mut k = n;
        while k > 0 {
            let (nd, bi) = sym[off + k - 1];
            let piece;
            if nd == 0 {
                let mut j = k; while j > 0 && sym[off + j - 1].0 == 0 && k - j < 8 { j -= 1 }
                let mut v = 0u128; for t in j..k { v |= (o.data[off + t] as u128) << (8 * (t - j)) }
                piece = self.c.konst(v, ((k - j) * 8) as u8); k = j;
            } else {
                let mut j = k - 1; let mut lo = bi;
                while j > 0 && lo > 0 && sym[off + j - 1] == (nd, lo - 1) { j -= 1; lo -= 1 }
                let w = self.c.w(E(nd));
                let bits = ((bi + 1 - lo) as u16 * 8) as u8;
                let e = if w < (bi + 1) * 8 { self.c.zext(E(nd), (bi + 1) * 8) } else { E(nd) };
                piece = self.c.extract(e, lo * 8, bits); k = j;
            }
            acc = Some(match acc { None => piece, Some(a) => self.c.concat(a, piece) });
        }
        let e = acc.unwrap();
        self.v(e)
    }
    fn write_obj(&mut self, o: &mut Obj, off: usize, n: usize, v: &V) {
        match v {
            V::C(x) => {
                for k in 0..n { o.data[off + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 } }
                if let Some(s) = &mut o.sym { for k in 0..n { s[off + k] = (0, 0) } }
            }
            V::S(e) => {
                if let Some(k) = self.c.is_const(*e) { for i in 0..n { o.data[off + i] = (k >> (8 * i)) as u8 } if let Some(s) = &mut o.sym { for k in 0..n { s[off + k] = (0, 0) } } return }
                // split byte-structured constants so concrete parts stay concrete
                let nd = *self.c.n(*e);
                if n > 1 && nd.op == Op::Concat && self.c.w(E(nd.b)) % 8 == 0 && nd.w as usize == n * 8 {
                    let lo = (self.c.w(E(nd.b)) / 8) as usize;
                    let (h, l) = (self.v(E(nd.a)), self.v(E(nd.b)));
                    self.write_obj(o, off, lo, &l); self.write_obj(o, off + lo, n - lo, &h);
                    return;
                }
                let size = o.size as usize;
                let s = o.sym.get_or_insert_with(|| vec![(0, 0); size]);
                for k in 0..n { s[off + k] = (e.0, k as u8) }
            }
            V::A(_) => panic!("write agg"),
        }
    }
    fn gobj(&mut self, base: u64) -> Rc<Obj> {
        let gi = self.m.gobjs.binary_search_by(|g| g.base.cmp(&base)).unwrap();
        let data = self.m.gobj_data(gi, &mut self.c);
        let g = &self.m.gobjs[gi];
        Rc::new(Obj { base: g.base, size: g.size, align: 64, data: (*data).clone(), sym: None, ro: g.constant })
    }
    /// find the object containing address a (or one-past for size 0)
    fn find(&mut self, st: &State, a: u64) -> Option<Rc<Obj>> {
        if a >= STACK0 { let i = st.stack.partition_point(|o| o.base <= a); if i == 0 { return None } let o = &st.stack[i - 1]; return if a < o.base + o.size.max(1) { Some(o.clone()) } else { None } }
        if a >= HEAP0 { let i = st.heap.partition_point(|o| o.base <= a); if i == 0 { return None } let o = &st.heap[i - 1]; return if a < o.base + o.size.max(1) { Some(o.clone()) } else { None } }
        if a >= GBASE {
            let i = self.m.gobjs.partition_point(|g| g.base <= a); if i == 0 { return None }
            let (base, size) = (self.m.gobjs[i - 1].base, self.m.gobjs[i - 1].size);
            if a >= base + size.max(1) { return None }
            if let Some(o) = st.gl.get(&base) { return Some(o.clone()) }
            // constant globals are cached across states
            if let Some(o) = self.gcache_get(base) { return Some(o) }
            let o = self.gobj(base); self.gcache_put(base, o.clone());
            return Some(o);
        }
        None
    }
    fn gcache_get(&self, base: u64) -> Option<Rc<Obj>> { GC.with(|g| g.borrow().get(&base).cloned()) }
    fn gcache_put(&self, base: u64, o: Rc<Obj>) { GC.with(|g| { g.borrow_mut().insert(base, o); }) }
    fn obj_mut<'a>(&self, st: &'a mut State, o: &Rc<Obj>) -> &'a mut Obj {
        let b = o.base;
        if b >= STACK0 { let i = st.stack.partition_point(|x| x.base < b); while st.stack[i].base != b { panic!() } return Rc::make_mut(&mut st.stack[i]) }
        if b >= HEAP0 { let i = st.heap.partition_point(|x| x.base < b); return Rc::make_mut(&mut st.heap[i]) }
        Rc::make_mut(st.gl.entry(b).or_insert_with(|| o.clone()))
    }
    /// resolve an address for an n-byte access: object and offset expression
    fn resolve(&mut self, st: &mut State, a: &V, n: u64, write: bool) -> R<(Rc<Obj>, V)> {
        let (addr, sym) = match a { V::C(x) => (*x, None), V::S(e) => match st.conc.get(e) { Some(x) => (*x, None), None => { let m = self.model(st)?; (m.eval(&self.c, *e) as u64, Some(*e)) } }, _ => panic!() };
        let Some(o) = self.find(st, addr) else {
            return Err(Step::Err("memory".into(), format!("invalid {} of {} bytes at {:#x}", if write { "write" } else { "read" }, n, addr)));
        };
        if addr + n > o.base + o.size { return Err(Step::Err("memory".into(), format!("out-of-bounds {} of {} bytes at offset {} of an object of {} bytes", if write { "write" } else { "read" }, n, addr - o.base, o.size))) }
        if write && o.ro { return Err(Step::Err("memory".into(), "write to constant memory".into())) }
        match sym {
            None => Ok((o.clone(), V::C(addr - o.base))),
            Some(e) => {
                let off = self.c.addk(e, (o.base as u128).wrapping_neg());
                let lim = self.c.konst((o.size - n + 1) as u128, 64);
                let inb = self.c.ult(off, lim);
                match self.fact(st, inb) {
                    Some(true) => {}
                    _ => {
                        let nin = self.c.not(inb);
                        match self.s.check(&mut self.c, &st.pc, nin) {
                            Ans::Unsat => self.add_fact(st, inb, true),
                            Ans::Sat(_) => return Err(Step::Fork(inb)),
                            Ans::Unknown => return Err(Step::Incon("solver timeout in a bounds query".into())),
                        }
                    }
                }
                let v = self.v(off);
                Ok((o.clone(), v))
            }
        }
    }
    /// decompose an in-bounds offset as c + idx*stride with idx candidates
    fn cells(&mut self, st: &mut State, off: E, size: u64, n: u64) -> R<(E, u64, u64, u64)> {
        // returns (idx expr, stride, base offset, count)
        let nd = *self.c.n(off);
        let (x, c) = if nd.op == Op::Add { match self.c.is_const(E(nd.b)) { Some(k) => (E(nd.a), k as u64), None => (off, 0) } } else { (off, 0) };
        let xn = *self.c.n(x);
        let mut idx = x; let mut stride = 1u64;
        if xn.op == Op::Mul { if let Some(k) = self.c.is_const(E(xn.b)) { idx = E(xn.a); stride = k as u64; } }
        else if xn.op == Op::Concat { if let Some(0) = self.c.is_const(E(xn.b)) { let s = self.c.w(E(xn.b)); if s < 32 { stride = 1 << s; idx = self.c.zext(E(xn.a), 64); } } }
        else if xn.op == Op::ZExt { let yn = *self.c.n(E(xn.a)); if yn.op == Op::Concat { if let Some(0) = self.c.is_const(E(yn.b)) { let s = self.c.w(E(yn.b)); if s < 32 { stride = 1 << s; idx = self.c.zext(E(yn.a), 64); } } } }
        let mut r = self.c.r(idx);
        // a wrapped stride decomposition is only sound if idx*stride cannot wrap
        let mut width = 63u32; // the index is a number of this many bits, or, in the second case, modulo 2^width
        let mut wraps = false;
        if (r.hi as u128 * stride as u128) > i64::MAX as u128 || stride == 1 {
            if stride != 1 { idx = x; stride = 1; r = self.c.r(x); }
            width = 64;
            let tz = self.tz(x);
            if tz > 0 { let t = tz.min(4); stride = 1 << t; width = 64 - t; let k = self.c.konst(t as u128, 64); idx = self.c.bin(Op::LShr, x, k); r = self.c.r(idx); }
            wraps = true;
        }
        // c may be "negative", and so may a wrapping index: candidates with 0 <= c + i*stride <= size-n
        let ci = c as i64 as i128; let s = stride as i128;
        let (modulus, half) = (1i128 << width, 1i128 << (width - 1));
        let (first, last) = ((-ci + s - 1).div_euclid(s), (size as i128 - n as i128 - ci).div_euclid(s));
        let (rlo, rhi) = (r.lo as i128, r.hi as i128);
        let (lo, hi) = if !wraps || rhi < half { (first.max(rlo), last.min(rhi)) } else if rlo >= half { (first.max(rlo - modulus), last.min(rhi - modulus)) } else { (first, last) };
        // beyond the simplifier's reach: one path per offset
        if lo > hi { let ov = V::S(off); let k = self.concrete(st, &ov, 64)?; let z = self.c.konst(0, 64); return Ok((z, 1, k, 1)) }
        let count = (hi - lo + 1) as u64;
        if count > 4096 { let m = self.model(st)?; let k = m.eval(&self.c, off); let kk = self.c.konst(k, 64); let q = self.c.eq(off, kk); return Err(Step::Fork(q)) }
        let lok = self.c.konst((lo as u128).wrapping_neg() & u64::MAX as u128, 64);
        let mut idx0 = self.c.add(idx, lok);
        if width < 63 { let low = self.c.extract(idx0, 0, width as u8); idx0 = self.c.zext(low, 64) }
        Ok((idx0, stride, (ci + lo * s) as u64, count))
    }
    fn tz(&self, e: E) -> u32 {
        let n = self.c.n(e);
        match n.op {
            Op::Const => if n.k == 0 { 64 } else { n.k.trailing_zeros() },
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(E(n.a)).min(self.tz(E(n.b))),
            Op::Mul => self.tz(E(n.a)) + self.tz(E(n.b)),
            Op::Concat => { let t = self.tz(E(n.b)); let wb = self.c.w(E(n.b)) as u32; if t >= wb { wb + self.tz(E(n.a)) } else { t } }
            Op::ZExt | Op::SExt => self.tz(E(n.a)),
            Op::Ite => self.tz(E(n.b)).min(self.tz(E(n.c))),
            _ => 0,
        }
    }
    fn load_n(&mut self, st: &mut State, a: &V, n: u64) -> R<V> {
        if n == 0 { return Ok(V::C(0)) }
        let (o, off) = self.resolve(st, a, n, false)?;
        match off {
            V::C(k) => Ok(self.read_obj(&o, k as usize, n as usize)),
            V::S(e) => {
                if let Some(k) = st.conc.get(&e) { return Ok(self.read_obj(&o, *k as usize, n as usize)) }
                let (idx, stride, base, count) = self.cells(st, e, o.size, n)?;
                let w = (n * 8) as u8;
                let mut vals = vec![]; let mut allc = true;
                for i in 0..count { let v = self.read_obj(&o, (base + i * stride) as usize, n as usize); let e = self.e(&v, w); if self.c.is_const(e).is_none() { allc = false } vals.push(e); }
                let mut bits = 1u8; while (1u64 << bits) < count { bits += 1 }
                let ix = self.c.extract(idx, 0, bits);
                let r = if allc { let t: Vec<u128> = vals.iter().map(|e| self.c.is_const(*e).unwrap()).collect(); self.c.table(ix, t, w) } else { self.c.mux(ix, bits, &vals) };
                Ok(self.v(r))
            }
            _ => unreachable!(),
        }
    }
    fn store_n(&mut self, st: &mut State, a: &V, n: u64, v: &V) -> R<()> {
        if n == 0 { return Ok(()) }
        let (o, off) = self.resolve(st, a, n, true)?;
        let off = match off { V::S(e) => match st.conc.get(&e) { Some(k) => V::C(*k), None => V::S(e) }, x => x };
        match off {
            V::C(k) => {
                // take object out to avoid borrow trouble
                drop(o.clone());
                let b = o.base; drop(o);
                let mut rc = self.take(st, b);
                self.write_obj(Rc::make_mut(&mut rc), k as usize, n as usize, v);
                self.put(st, b, rc);
                Ok(())
            }
            V::S(e) => {
                let (idx, stride, base, count) = self.cells(st, e, o.size, n)?;
                let w = (n * 8) as u8;
                let val = self.e(v, w);
                let mut ob = (*o).clone();
                for i in 0..count {
                    let p = (base + i * stride) as usize;
                    let old = self.read_obj(&ob, p, n as usize); let old = self.e(&old, w);
                    let k = self.c.konst(i as u128, 64); let q = self.c.eq(idx, k);
                    let q = match self.fact(st, q) { Some(true) => TRUE, Some(false) => FALSE, None => q };
                    let nv = self.c.ite(q, val, old); let nv = self.v(nv);
                    self.write_obj(&mut ob, p, n as usize, &nv);
                }
                let m = self.obj_mut(st, &o); *m = ob;
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn take(&mut self, st: &mut State, b: u64) -> Rc<Obj> {
        let dummy = || Rc::new(Obj { base: b, size: 0, align: 1, data: vec![], sym: None, ro: false });
        DUMMY.with(|d| {
            let mut d = d.borrow_mut();
            let dm = d.get_or_insert_with(dummy).clone();
            if b >= STACK0 { let i = st.stack.partition_point(|x| x.base < b); return std::mem::replace(&mut st.stack[i], Self::tag(dm, b)) }
            if b >= HEAP0 { let i = st.heap.partition_point(|x| x.base < b); return std::mem::replace(&mut st.heap[i], Self::tag(dm, b)) }
            match st.gl.remove(&b) { Some(o) => o, None => GC.with(|g| g.borrow().get(&b).cloned()).unwrap() }
        })
    }
    fn tag(_d: Rc<Obj>, b: u64) -> Rc<Obj> { Rc::new(Obj { base: b, size: 0, align: 1, data: vec![], sym: None, ro: false }) }
    fn put(&mut self, st: &mut State, b: u64, o: Rc<Obj>) {
        if b >= STACK0 { let i = st.stack.partition_point(|x| x.base < b); st.stack[i] = o; return }
        if b >= HEAP0 { let i = st.heap.partition_point(|x| x.base < b); st.heap[i] = o; return }
        st.gl.insert(b, o);
    }
    fn addv(&mut self, a: &V, k: u64) -> V { match a { V::C(x) => V::C(x.wrapping_add(k)), V::S(e) => { let r = self.c.addk(*e, k as u128); self.v(r) } _ => panic!() } }
    fn load(&mut self, st: &mut State, ty: &Ty, a: &V) -> R<V> {
        match ty {
            Ty::Int(w) => { let n = (*w as u64 + 7) / 8; let v = self.load_n(st, a, n)?; if (n * 8) as u8 == *w { Ok(v) } else { match v { V::C(x) => Ok(V::C(x & mask(*w) as u64)), V::S(e) => { let r = self.c.extract(e, 0, *w); Ok(self.v(r)) } v => Ok(v) } } }
            Ty::F32 => self.load_n(st, a, 4),
            Ty::F64 | Ty::Ptr => self.load_n(st, a, 8),
            t if t.is_agg() => {
                if let Ty::Vec(n, e) = t { if **e == Ty::Int(1) { let v = self.load_n(st, a, (*n as u64 + 7) / 8)?; let w = *n as u8; let x = self.e(&v, ((w as u64 + 7) / 8 * 8) as u8); return Ok(V::A(Rc::new((0..*n).map(|i| { let b = self.c.extract(x, i as u8, 1); self.v(b) }).collect()))) } }
                let mut r = vec![];
                for i in 0..t.count() { let (o, et) = t.elem(i); let p = self.addv(a, o); r.push(self.load(st, &et, &p)?) }
                Ok(V::A(Rc::new(r)))
            }
            t => panic!("load {:?}", t),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, a: &V, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => { let n = (*w as u64 + 7) / 8; let v = if (n * 8) as u8 == *w { v.clone() } else { match v { V::S(e) => { let r = self.c.zext(*e, (n * 8) as u8); self.v(r) } v => v.clone() } }; self.store_n(st, a, n, &v) }
            Ty::F32 => self.store_n(st, a, 4, v),
            Ty::F64 | Ty::Ptr => self.store_n(st, a, 8, v),
            t if t.is_agg() => {
                let V::A(l) = v else { panic!("store agg") };
                if let Ty::Vec(_, e) = t { if **e == Ty::Int(1) { return Err(Step::Incon("store of i1 vector".into())) } }
                for i in 0..t.count() { let (o, et) = t.elem(i); let p = self.addv(a, o); self.store(st, &et, &p, &l[i])? }
                Ok(())
            }
            t => panic!("store {:?}", t),
        }
    }
    fn concrete(&mut self, st: &mut State, v: &V, w: u8) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => {
                if let Some(k) = st.conc.get(e) { return Ok(*k) }
                let m = self.model(st)?; let k = m.eval(&self.c, *e); let kk = self.c.konst(k, w); let q = self.c.eq(*e, kk);
                match self.fact(st, q) { Some(true) => Ok(k as u64), _ => { match self.decide(st, q, self.s.timeout_ms) { Dec::Is(true) => { st.conc.insert(*e, k as u64); Ok(k as u64) } Dec::Is(false) => Err(Step::Incon("concretisation".into())), _ => Err(Step::Fork(q)) } } }
            }
            _ => panic!(),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> R<u64> {
        if size > 1 << 28 { return Err(Step::Err("memory".into(), format!("allocation of {size} bytes"))) }
        let al = align.max(16);
        let base = (st.heap_next + al - 1) / al * al;
        st.heap_next = base + size + 32;
        st.heap.push(Rc::new(Obj::new(base, size, align)));
        Ok(base)
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let i = st.heap.partition_point(|o| o.base < p);
        if i < st.heap.len() && st.heap[i].base == p { st.heap.remove(i); Ok(()) } else { Err(Step::Err("memory".into(), format!("free of invalid pointer {p:#x}"))) }
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        if let (V::C(dp), V::C(sp)) = (d, s) {
            let (so, off) = self.resolve(st, &V::C(*sp), n, false)?;
            let (dobj, doff) = self.resolve(st, &V::C(*dp), n, true)?;
            let (V::C(so_), V::C(do_)) = (off, doff) else { panic!() };
            let (so_, do_, n) = (so_ as usize, do_ as usize, n as usize);
            let data = so.data[so_..so_ + n].to_vec();
            let sym = so.sym.as_ref().map(|s| s[so_..so_ + n].to_vec());
            drop(so);
            let ob = { drop(dobj.clone()); dobj };
            let m = self.obj_mut(st, &ob);
            m.data[do_..do_ + n].copy_from_slice(&data);
            match sym { Some(s) => { let size = m.size as usize; m.sym.get_or_insert_with(|| vec![(0, 0); size])[do_..do_ + n].copy_from_slice(&s) } None => if let Some(ms) = &mut m.sym { for x in &mut ms[do_..do_ + n] { *x = (0, 0) } } }
            return Ok(());
        }
        if n <= 64 {
            let mut vals = vec![]; let mut o = 0;
            while o < n { let k = if n - o >= 8 { 8 } else if n - o >= 4 { 4 } else if n - o >= 2 { 2 } else { 1 }; let p = self.addv(s, o); vals.push((o, k, self.load_n(st, &p, k)?)); o += k }
            // resolve all stores first so that a fork re-executes cleanly
            for (o, k, _) in &vals { let p = self.addv(d, *o); self.resolve(st, &p, *k, true)?; }
            for (o, k, v) in &vals { let p = self.addv(d, *o); self.store_n(st, &p, *k, v)? }
            return Ok(());
        }
        let dp = self.concrete(st, d, 64)?; let sp = self.concrete(st, s, 64)?;
        self.memcpy(st, &V::C(dp), &V::C(sp), n)
    }
    fn bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<E>> { let mut r = vec![]; for i in 0..n { let q = self.addv(p, i); let v = self.load_n(st, &q, 1)?; r.push(self.e(&v, 8)) } Ok(r) }
    fn cstr(&mut self, st: &mut State, p: &V, n: &V) -> String {
        let V::C(n) = n else { return "?".into() };
        let mut s = vec![];
        for i in 0..(*n).min(200) { let q = self.addv(p, i); match self.load_n(st, &q, 1) { Ok(V::C(b)) => s.push(b as u8), _ => s.push(b'?') } }
        String::from_utf8_lossy(&s).to_string()
    }

    // ---------- stepping
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                fr.regs[ph.d as usize] = v;
            } else {
                let vals: Vec<V> = b.phis.iter().map(|ph| match &ph.inc.iter().find(|x| x.0 == from).expect("phi edge").1 { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }).collect();
                for (ph, v) in b.phis.iter().zip(vals) { fr.regs[ph.d as usize] = v }
            }
        }
        fr.blk = to; fr.ip = 0;
    }
    /// run until something the driver must handle; None = block boundary/return (check stop)
    fn step_until_event(&mut self, st: &mut State, _stop: &Option<Stop>) -> Option<Step> {
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let (blk, ip) = (fr.blk as usize, fr.ip as usize);
            let ins = &f.blocks[blk].insts[ip];
            self.insts += 1;
            st.steps += 1;
            if st.steps & 0xfff == 0 {
                if st.steps > self.max_steps { return Some(Step::Err("nontermination".into(), format!("no result after {} steps", self.max_steps))) }
                if std::time::Instant::now() > self.deadline { return Some(Step::Incon("time limit".into())) }
            }
            match self.step(st, ins) {
                Step::Next => { st.frames.last_mut().unwrap().ip += 1 }
                Step::Jump(t) => { self.jump(st, t); return None }
                Step::Ret => return None,
                Step::Pushed => {}
                s => return Some(s),
            }
        }
    }
    #[inline] fn set(&self, st: &mut State, d: u32, v: V) { st.frames.last_mut().unwrap().regs[d as usize] = v }

    fn step(&mut self, st: &mut State, ins: &Inst) -> Step { match self.step_r(st, ins) { Ok(s) | Err(s) => s } }

    fn step_r(&mut self, st: &mut State, ins: &Inst) -> R<Step> {
        match ins {
            Inst::Bin { op, ty, d, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let v = self.binv(*op, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::FNeg { ty, d, a } => { let x = self.opd(st, a); let v = self.fneg(ty, &x); self.set(st, *d, v) }
            Inst::ICmp { p, ty, d, a, b } => { let (x, y) = (self.opd(st, a), self.opd(st, b)); let v = self.icmp(*p, ty, &x, &y); self.set(st, *d, v) }
            Inst::FCmp { p, ty, d, a, b } => { let (x, y) = (self.opd(st, a), self.opd(st, b)); let v = self.fcmp(*p, ty, &x, &y); self.set(st, *d, v) }
            Inst::Cast { k, from, to, d, a } => { let x = self.opd(st, a); let v = self.cast(*k, from, to, &x)?; self.set(st, *d, v) }
            Inst::Select { cty, ty, d, c, a, b } => {
                let (c, x, y) = (self.opd(st, c), self.opd(st, a), self.opd(st, b));
                if cty.is_agg() {
                    let (V::A(c), V::A(x), V::A(y)) = (&c, &x, &y) else { panic!() };
                    let et = ty.elem(0).1;
                    let r = (0..c.len()).map(|i| self.sel(&et, &c[i], &x[i], &y[i])).collect::<Option<Vec<V>>>();
                    match r { Some(r) => self.set(st, *d, V::A(Rc::new(r))), None => return Ok(Step::Incon("vector select".into())) }
                } else {
                    let c = match &c { V::S(e) => match self.fact(st, *e) { Some(b) => V::C(b as u64), None => c }, _ => c };
                    // a select between two different objects is a fork, not a symbolic pointer
                    if let (V::S(ce), true) = (&c, st.fsel) {
                        if !matches!((&x, &y), (V::C(p), V::C(q)) if p == q) { match self.decide(st, *ce, QUICK_MS) { Dec::Is(b) => { let v = if b { x } else { y }; self.set(st, *d, v); return Ok(Step::Next) } _ => return Ok(Step::Fork(*ce)) } }
                    }
                    if let (V::S(ce), true) = (&c, *ty == Ty::Ptr) {
                        if let (V::C(p), V::C(q)) = (&x, &y) { if p != q { match self.decide(st, *ce, QUICK_MS) { Dec::Is(b) => { let v = if b { x } else { y }; self.set(st, *d, v); return Ok(Step::Next) } _ => return Ok(Step::Fork(*ce)) } } }
                    }
                    match self.sel(ty, &c, &x, &y) { Some(v) => self.set(st, *d, v), None => { let V::S(e) = c else { panic!() }; return Ok(Step::Fork(e)) } }
                }
            }
            Inst::Load { ty, d, p } => { let a = self.opd(st, p); let v = self.load(st, ty, &a)?; self.set(st, *d, v) }
            Inst::Store { ty, v, p } => {
                let a = self.opd(st, p); let v = self.opd(st, v);
                if ty.is_agg() { self.resolve(st, &a, ty.size(), true)?; }
                self.store(st, ty, &a, &v)?
            }
            Inst::Gep { d, base, k, idx, .. } => {
                let mut a = self.opd(st, base);
                if *k != 0 { a = self.addv(&a, *k) }
                for (o, w, s) in idx {
                    let i = self.opd(st, o);
                    a = match (&a, &i) {
                        (_, V::C(i)) => { let i = sx64(*i, *w) as u64; self.addv(&a, i.wrapping_mul(*s)) }
                        (_, V::S(i)) => { let i = self.c.sext_or_trunc(*i, 64); let s = self.c.konst(*s as u128, 64); let t = self.c.bin(Op::Mul, i, s); let b = self.e(&a, 64); let r = self.c.add(b, t); self.v(r) }
                        _ => panic!(),
                    }
                }
                self.set(st, *d, a);
            }
            Inst::Alloca { d, size, align, n } => {
                let n = self.opd(st, n); let n = self.concrete(st, &n, 64)?;
                let sz = size * n; let al = (*align).max(16);
                let base = (st.stack_next + al - 1) / al * al;
                st.stack_next = base + sz + 32;
                st.stack.push(Rc::new(Obj::new(base, sz, *align)));
                self.set(st, *d, V::C(base));
            }
            Inst::Br { t } => return Ok(Step::Jump(*t)),
            Inst::CondBr { c, t, f } => {
                match self.opd(st, c) {
                    V::C(x) => return Ok(Step::Jump(if x & 1 == 1 { *t } else { *f })),
                    V::S(e) => match self.fact(st, e) { Some(b) => return Ok(Step::Jump(if b { *t } else { *f })), None => return Ok(Step::Fork(e)) },
                    _ => panic!(),
                }
            }
            Inst::Switch { ty, v, d, cases } => {
                let w = ty.bits();
                match self.opd(st, v) {
                    V::C(x) => { for (k, t) in cases.iter() { if *k == x { return Ok(Step::Jump(*t)) } } return Ok(Step::Jump(*d)) }
                    V::S(e) => {
                        if let Some(x) = st.conc.get(&e).copied() { for (k, t) in cases.iter() { if *k == x { return Ok(Step::Jump(*t)) } } return Ok(Step::Jump(*d)) }
                        // group by target
                        let mut targets: Vec<(u32, E)> = vec![];
                        for (k, t) in cases.iter() {
                            let kk = self.c.konst(*k as u128, w); let q = self.c.eq(e, kk);
                            match targets.iter_mut().find(|x| x.0 == *t) { Some(x) => { x.1 = self.c.or(x.1, q) } None => targets.push((*t, q)) }
                        }
                        for (t, q) in targets {
                            if t == *d { continue }
                            match self.fact(st, q) { Some(true) => return Ok(Step::Jump(t)), Some(false) => continue, None => return Ok(Step::Fork(q)) }
                        }
                        return Ok(Step::Jump(*d));
                    }
                    _ => panic!(),
                }
            }
            Inst::Ret { v, .. } => {
                let v = v.as_ref().map(|v| self.opd(st, v));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.smark); st.stack_next = fr.saddr;
                if st.frames.is_empty() { self.finish(st, false); return Ok(Step::Done) }
                if let (Some(d), Some(v)) = (fr.ret, v) { self.set(st, d, v) }
                match fr.ret_normal { Some(n) => { self.jump(st, n) } None => st.frames.last_mut().unwrap().ip += 1 }
                return Ok(Step::Ret);
            }
            Inst::ExtractValue { d, a, path } => { let mut v = self.opd(st, a); for i in path { let V::A(l) = &v else { panic!("extractvalue") }; let x = l[*i].clone(); v = x } self.set(st, *d, v) }
            Inst::InsertValue { d, ty, a, v, path } => { let a = self.opd(st, a); let v = self.opd(st, v); let r = Self::insv(&a, &v, path, ty); self.set(st, *d, r) }
            Inst::ExtractElement { d, a, i, .. } => { let i = self.opd(st, i); let i = self.concrete(st, &i, 64)?; let V::A(l) = self.opd(st, a) else { panic!() }; self.set(st, *d, l[i as usize].clone()) }
            Inst::InsertElement { d, a, v, i, .. } => { let i = self.opd(st, i); let i = self.concrete(st, &i, 64)?; let V::A(l) = self.opd(st, a) else { panic!() }; let mut l = (*l).clone(); l[i as usize] = self.opd(st, v); self.set(st, *d, V::A(Rc::new(l))) }
            Inst::Shuffle { d, n, a, b, mask } => { let (V::A(x), V::A(y)) = (self.opd(st, a), self.opd(st, b)) else { panic!() }; let r = mask.iter().map(|m| match m { Some(i) if i < n => x[*i].clone(), Some(i) => y[*i - *n].clone(), None => V::C(0) }).collect(); self.set(st, *d, V::A(Rc::new(r))) }
            Inst::CmpXchg { ty, d, p, c, n } => {
                let (p, c, n) = (self.opd(st, p), self.opd(st, c), self.opd(st, n));
                let old = self.load(st, ty, &p)?;
                let w = ty.bits();
                let (o, k) = (self.concrete(st, &old, w)?, self.concrete(st, &c, w)?);
                if o == k { self.store(st, ty, &p, &n)?; }
                self.set(st, *d, V::A(Rc::new(vec![V::C(o), V::C((o == k) as u64)])));
            }
            Inst::AtomicRmw { op, ty, d, p, v } => {
                let (p, v) = (self.opd(st, p), self.opd(st, v));
                let old = self.load(st, ty, &p)?;
                let w = ty.bits(); let (a, b) = (self.e(&old, w), self.e(&v, w));
                let nv = match op.as_str() { "add" => self.c.add(a, b), "sub" => self.c.sub(a, b), "xchg" => b, "and" => self.c.and(a, b), "or" => self.c.or(a, b), "xor" => self.c.bin(Op::Xor, a, b), "umax" => { let l = self.c.ult(a, b); self.c.ite(l, b, a) } o => return Ok(Step::Incon(format!("atomicrmw {o}"))) };
                let nv = self.v(nv);
                self.store(st, ty, &p, &nv)?;
                self.set(st, *d, old);
            }
            Inst::Freeze { d, a } => { let v = self.opd(st, a); self.set(st, *d, v) }
            Inst::Nop => {}
            Inst::Unreachable => return Ok(Step::Err("unreachable".into(), "unreachable code reached".into())),
            Inst::Unsupported(s) => return Ok(Step::Incon(format!("unsupported instruction: {s}"))),
            Inst::Call { d, ret, callee, args, normal, text } => return self.call(st, *d, ret, callee, args, *normal, *text),
        }
        Ok(Step::Next)
    }
    fn insv(a: &V, v: &V, path: &[usize], ty: &Ty) -> V {
        if path.is_empty() { return v.clone() }
        let V::A(l) = a else { panic!() };
        let mut l = (**l).clone();
        let et = ty.elem(path[0]).1;
        l[path[0]] = Self::insv(&l[path[0]], v, &path[1..], &et);
        V::A(Rc::new(l))
    }
    fn sel(&mut self, ty: &Ty, c: &V, x: &V, y: &V) -> Option<V> {
        match c {
            V::C(b) => Some(if b & 1 == 1 { x.clone() } else { y.clone() }),
            V::S(e) => self.mergev_sel(*e, x, y, ty),
            _ => panic!(),
        }
    }
    fn mergev_sel(&mut self, d: E, a: &V, b: &V, t: &Ty) -> Option<V> {
        if let (V::A(x), V::A(y)) = (a, b) { let mut r = vec![]; for i in 0..x.len() { let et = t.elem(i).1; r.push(self.mergev_sel(d, &x[i], &y[i], &et)?) } return Some(V::A(Rc::new(r))) }
        let w = match t { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => return None };
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.c.ite(d, x, y);
        Some(self.v(r))
    }
    fn lanes(&mut self, ty: &Ty, x: &V, y: &V, f: &mut dyn FnMut(&mut Self, &Ty, &V, &V) -> R<V>) -> R<V> {
        let (V::A(a), V::A(b)) = (x, y) else { panic!("lanes") };
        let et = ty.elem(0).1;
        let mut r = vec![];
        for i in 0..a.len() { r.push(f(self, &et, &a[i], &b[i])?) }
        Ok(V::A(Rc::new(r)))
    }
    fn binv(&mut self, op: Op, ty: &Ty, x: &V, y: &V) -> R<V> {
        if ty.is_agg() { return self.lanes(ty, x, y, &mut |s, t, a, b| s.binv(op, t, a, b)) }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                let (a, b) = (*a, *b); let m = mask(w) as u64;
                return Ok(V::C(match op {
                    Op::Add => a.wrapping_add(b) & m, Op::Sub => a.wrapping_sub(b) & m, Op::Mul => a.wrapping_mul(b) & m,
                    Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if b == 0 => return Err(Step::Err("arith".into(), "division by zero".into())),
                    _ => eval_bin(op, a as u128, b as u128, w) as u64,
                }));
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = self.c.bin(op, a, b);
        Ok(self.v(r))
    }
    fn fneg(&mut self, ty: &Ty, x: &V) -> V {
        if let V::A(l) = x { let et = ty.elem(0).1; return V::A(Rc::new(l.iter().map(|v| self.fneg(&et, v)).collect())) }
        let w = ty.bits(); let a = self.e(x, w); let k = self.c.konst(1u128 << (w - 1), w); let r = self.c.bin(Op::Xor, a, k); self.v(r)
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, x: &V, y: &V) -> V {
        if ty.is_agg() { return self.lanes(ty, x, y, &mut |s, t, a, b| Ok(s.icmp(p, t, a, b))).ok().unwrap() }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) { if w <= 64 {
            let (a, b) = (*a, *b); let (sa, sb) = (sx64(a, w), sx64(b, w));
            return V::C(match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb } as u64);
        } }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match p { Pred::Eq => self.c.eq(a, b), Pred::Ne => { let t = self.c.eq(a, b); self.c.not(t) } Pred::Ugt => self.c.ult(b, a), Pred::Uge => self.c.ule(b, a), Pred::Ult => self.c.ult(a, b), Pred::Ule => self.c.ule(a, b), Pred::Sgt => self.c.slt(b, a), Pred::Sge => self.c.sle(b, a), Pred::Slt => self.c.slt(a, b), Pred::Sle => self.c.sle(a, b) };
        self.v(r)
    }
    fn isnan(&mut self, a: E) -> E {
        let w = self.c.w(a);
        if !self.c.fr(a).nan { return FALSE }
        let m = self.c.konst(mask(w) >> 1, w); let x = self.c.bin(Op::And, a, m);
        let k = self.c.konst(if w == 32 { 0x7f800000 } else { 0x7ff0u128 << 48 }, w);
        self.c.ult(k, x)
    }
    fn fcmp(&mut self, p: FPred, ty: &Ty, x: &V, y: &V) -> V {
        if ty.is_agg() { return self.lanes(ty, x, y, &mut |s, t, a, b| Ok(s.fcmp(p, t, a, b))).ok().unwrap() }
        let w = ty.bits();
        use FPred::*;
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (tof(*a as u128, w), tof(*b as u128, w)); let u = a.is_nan() || b.is_nan();
            return V::C(match p { False => false, Oeq => a == b, Ogt => a > b, Oge => a >= b, Olt => a < b, Ole => a <= b, One => !u && a != b, Ord => !u, Ueq => u || a == b, Ugt => u || a > b, Uge => u || a >= b, Ult => u || a < b, Ule => u || a <= b, Une => a != b, Uno => u, True => true } as u64);
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match p {
            False => FALSE, True => TRUE,
            Oeq => self.c.fcmp(Op::FEq, a, b), Une => { let t = self.c.fcmp(Op::FEq, a, b); self.c.not(t) }
            Olt => self.c.fcmp(Op::FLt, a, b), Ogt => self.c.fcmp(Op::FLt, b, a), Ole => self.c.fcmp(Op::FLe, a, b), Oge => self.c.fcmp(Op::FLe, b, a),
            Ult => { let t = self.c.fcmp(Op::FLe, b, a); self.c.not(t) } Ugt => { let t = self.c.fcmp(Op::FLe, a, b); self.c.not(t) }
            Ule => { let t = self.c.fcmp(Op::FLt, b, a); self.c.not(t) } Uge => { let t = self.c.fcmp(Op::FLt, a, b); self.c.not(t) }
            One => { let p = self.c.fcmp(Op::FLt, a, b); let q = self.c.fcmp(Op::FLt, b, a); self.c.or(p, q) }
            Ueq => { let p = self.c.fcmp(Op::FLt, a, b); let q = self.c.fcmp(Op::FLt, b, a); let t = self.c.or(p, q); self.c.not(t) }
            Uno => { let p = self.isnan(a); let q = self.isnan(b); self.c.or(p, q) }
            Ord => { let p = self.isnan(a); let q = self.isnan(b); let t = self.c.or(p, q); self.c.not(t) }
        };
        self.v(r)
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if k == Cast::Bitcast {
            if from.is_agg() || to.is_agg() {
                // through a flat bit-vector
                let flat: Vec<(E, u8)> = match x { V::A(l) => { let et = from.elem(0).1; let w = et.bits(); l.iter().map(|v| (self.e(v, w), w)).collect() } v => { let w = from.bits(); vec![(self.e(v, w), w)] } };
                let total: u32 = flat.iter().map(|x| x.1 as u32).sum();
                if total > 128 { return Err(Step::Incon("wide bitcast".into())) }
                let mut acc: Option<E> = None;
                for (e, _) in flat.iter() { acc = Some(match acc { None => *e, Some(a) => self.c.concat(*e, a) }) }
                let a = acc.unwrap();
                return Ok(match to { Ty::Vec(n, et) => { let w = et.bits(); V::A(Rc::new((0..*n).map(|i| { let e = self.c.extract(a, i as u8 * w, w); self.v(e) }).collect())) } _ => self.v(a) });
            }
            return Ok(x.clone());
        }
        if from.is_agg() {
            let V::A(l) = x else { panic!() };
            let (f, t) = (from.elem(0).1, to.elem(0).1);
            let mut r = vec![]; for v in l.iter() { r.push(self.cast(k, &f, &t, v)?) }
            return Ok(V::A(Rc::new(r)));
        }
        let (wf, wt) = (from.bits(), to.bits());
        if let V::C(v) = x { if wf <= 64 && wt <= 64 {
            return Ok(V::C(match k {
                Cast::Trunc => v & mask(wt) as u64, Cast::ZExt => *v, Cast::SExt => sx64(*v, wf) as u64 & mask(wt) as u64,
                Cast::FpToUi => eval_fun(Op::FToU, *v as u128, wf, wt) as u64, Cast::FpToSi => eval_fun(Op::FToS, *v as u128, wf, wt) as u64,
                Cast::UiToFp => eval_fun(Op::FFromU, *v as u128, wf, wt) as u64, Cast::SiToFp => eval_fun(Op::FFromS, *v as u128, wf, wt) as u64,
                Cast::FpExt => eval_fun(Op::FExt, *v as u128, wf, wt) as u64, Cast::FpTrunc => eval_fun(Op::FTrunc, *v as u128, wf, wt) as u64,
                Cast::Bitcast => *v,
            }));
        } }
        let a = self.e(x, wf);
        let r = match k {
            Cast::Trunc => self.c.extract(a, 0, wt), Cast::ZExt => self.c.zext(a, wt), Cast::SExt => self.c.sext(a, wt),
            Cast::FpToUi => self.c.fun(Op::FToU, a, wt), Cast::FpToSi => self.c.fun(Op::FToS, a, wt),
            Cast::UiToFp => self.c.fun(Op::FFromU, a, wt), Cast::SiToFp => self.c.fun(Op::FFromS, a, wt),
            Cast::FpExt => self.c.fun(Op::FExt, a, wt), Cast::FpTrunc => self.c.fun(Op::FTrunc, a, wt),
            Cast::Bitcast => a,
        };
        Ok(self.v(r))
    }
    fn finish(&mut self, st: &mut State, panicked: bool) {
        self.paths += 1;
        if panicked { self.panics_expected += 1 }
        if self.samples.len() < self.max_samples || self.paths.is_power_of_two() && self.samples.len() < self.max_samples * 3 {
            let Some(m) = st.models.last().cloned() else { return };
            let inputs = self.inputs_of(st, &m);
            let obs = st.obs.iter().map(|(v, _)| match v { V::C(x) => *x, V::S(e) => m.eval(&self.c, *e) as u64, _ => 0 }).collect();
            self.samples.push(Sample { inputs, obs, panicked });
        }
    }
    fn push_frame(&mut self, st: &mut State, fid: u32, args: Vec<V>, ret: Option<u32>, normal: Option<u32>) -> R<Step> {
        if st.frames.len() > 400 { return Err(Step::Err("stack".into(), "call depth > 400".into())) }
        let f = self.m.func(fid, &mut self.c);
        *self.funcs_seen.entry(fid).or_insert(0) += 1;
        let mut regs = vec![V::C(0); f.nregs];
        for ((r, _), v) in f.params.iter().zip(args) { regs[*r as usize] = v }
        self.uid += 1;
        let fr = Frame { f, blk: 0, ip: 0, regs, ret, ret_normal: normal, smark: st.stack.len(), saddr: st.stack_next, uid: self.uid };
        st.frames.push(fr);
        Ok(Step::Pushed)
    }
    fn call(&mut self, st: &mut State, d: Option<u32>, ret: &Ty, callee: &Callee, args: &[(Ty, Opd)], normal: Option<u32>, text: u32) -> R<Step> {
        let fid = match callee {
            Callee::F(i) => *i,
            Callee::Ptr(o) => { let v = self.opd(st, o); let a = self.concrete(st, &v, 64)?; if a < FBASE || a >= GBASE || (a - FBASE) % 16 != 0 { return Err(Step::Err("memory".into(), format!("call of invalid function pointer {a:#x}"))) } ((a - FBASE) / 16) as u32 }
            Callee::Asm(s) => { if s.starts_with('|') || s.trim_matches('|').split('|').next().map(|x| x.trim().is_empty()).unwrap_or(true) { if let Some(d) = d { let v = args.get(0).map(|a| self.opd(st, &a.1)).unwrap_or(V::C(0)); self.set(st, d, v) } return Ok(Step::Next) } if let (true, Some(d)) = (s.contains("cpuid"), d) { /* a processor without optional features */ let n = if st.frames.last().unwrap().f.reg_ty[d as usize].is_agg() { 4 } else { 0 }; let v = if n == 0 { V::C(0) } else { V::A(Rc::new(vec![V::C(0); n])) }; self.set(st, d, v); return Ok(Step::Next) } return Err(Step::Incon(format!("inline asm {s}"))) }
        };
        if fid as usize >= self.kinds.len() { self.kinds.resize(self.m.fname.len(), 0) }
        if self.kinds[fid as usize] == 0 { self.kinds[fid as usize] = self.classify(fid) }
        let kind = self.kinds[fid as usize];
        if kind == 1 {
            let a: Vec<V> = args.iter().map(|a| self.opd(st, &a.1)).collect();
            return self.push_frame(st, fid, a, d, normal);
        }
        if kind == 3 { return Ok(self.panic(st, fid)) }
        if kind == 4 { // ignored intrinsic
            return Ok(Step::Next);
        }
        let a: Vec<V> = args.iter().map(|a| self.opd(st, &a.1)).collect();
        let name = self.m.fname[fid as usize].clone();
        let r = self.builtin(st, &name, ret, args, &a, text)?;
        match r {
            Some(v) => { if let Some(d) = d { self.set(st, d, v) } }
            None => return Ok(Step::Done),
        }
        match normal { Some(n) => Ok(Step::Jump(n)), None => Ok(Step::Next) }
    }
    fn panic(&mut self, st: &mut State, fid: u32) -> Step {
        let n = self.m.fname[fid as usize].clone();
        // neither a violated precondition of an unsafe operation nor an overflow (which wraps in release builds) is the panic a harness expects
        if st.expect_panic && (n.contains("panic_nounwind") || n.contains("panic_const") && n.contains("overflow")) { return Step::Err(if n.contains("nounwind") { "memory" } else { "panic" }.into(), format!("instead of the expected refusal: {n}")) }
        if st.expect_panic { self.finish(st, true); return Step::Done }
        Step::Err("panic".into(), n)
    }
    fn classify(&self, fid: u32) -> u8 {
        let n = &self.m.fname[fid as usize];
        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.fake.use") { return 4 }
        if n.contains("4core9panicking") || n.contains("3std9panicking11begin_panic") || n.contains("handle_alloc_error") || n.contains("17capacity_overflow") || n == "abort" || n == "llvm.trap" || n == "llvm.ubsantrap" { return 3 }
        if n.contains("___rust_alloc") || n.contains("___rust_dealloc") || n.contains("___rust_realloc") || n.contains("___rust_no_alloc_shim") || n.contains("__rust_no_alloc_shim") { return 2 }
        if n.starts_with("__rust_alloc") || n.starts_with("__rust_dealloc") || n.starts_with("__rust_realloc") { return 2 }
        if n.contains("hashmap_random_keys") { return 2 }
        if !self.m.has_body(fid) { return 2 }
        1
    }
    fn check(&mut self, st: &mut State, c: E, label: &str) -> R<()> {
        self.checks += 1; st.checks += 1;
        let i = match self.oblig_idx.get(label) { Some(i) => *i, None => { let i = self.obligations.len(); self.obligations.push((label.to_string(), 0)); self.oblig_idx.insert(label.to_string(), i); i } };
        self.obligations[i].1 += 1;
        match self.fact(st, c) { Some(true) => return Ok(()), Some(false) => return Err(Step::Err("check".into(), label.into())), None => {} }
        self.checks_sym += 1;
        let nc = self.c.not(c);
        let (_, mf) = self.partition(st, c);
        if !mf.is_empty() { st.models = mf; return Err(Step::Err("check".into(), label.into())) }
        match self.s.check(&mut self.c, &st.pc, nc) {
            Ans::Unsat => { self.add_fact(st, c, true); Ok(()) }
            Ans::Sat(m) => { st.models = vec![Rc::new(m)]; Err(Step::Err("check".into(), label.into())) }
            Ans::Unknown => Err(Step::Incon(format!("solver timeout on check '{label}'"))),
        }
    }
    /// returns Some(value) to continue, None when the path ends here
    fn builtin(&mut self, st: &mut State, name: &str, ret: &Ty, at: &[(Ty, Opd)], a: &[V], text: u32) -> R<Option<V>> {
        let z = Ok(Some(V::C(0)));
        if let Some(s) = name.strip_prefix("symx_") {
            match s {
                "u64" => {
                    let V::C(w) = a[0] else { return Err(Step::Incon("symbolic width".into())) };
                    let w = w as u8; let k = st.inputs.len();
                    let idx = match self.input_vars.get(&(k, w)) { Some(i) => *i, None => { while self.c.vars.len() > self.nvars as usize { self.nvars = self.c.vars.len() as u32 } let i = self.nvars; self.nvars += 1; self.input_vars.insert((k, w), i); i } };
                    st.inputs.push((w, None));
                    let v = self.c.var(idx, w); let v = self.c.zext(v, 64);
                    return Ok(Some(self.v(v)));
                }
                "choose" => {
                    let V::C(n) = a[0] else { return Err(Step::Incon("choose".into())) };
                    match st.choice.take() { Some(v) => { st.inputs.push((64, Some(v))); return Ok(Some(V::C(v))) } None if n == 0 => return Ok(None), None => return Err(Step::Choose(n)) }
                }
                "assume" => { let c = self.e(&a[0], 1); return Ok(if self.assume(st, c)? { Some(V::C(0)) } else { self.assumes_cut += 1; None }) }
                "check" => { let l = self.cstr(st, &a[1], &a[2]); let c = self.e(&a[0], 1); self.check(st, c, &l)?; return z }
                "cover" => { let l = self.cstr(st, &a[1], &a[2]); let c = self.e(&a[0], 1);
                    if self.covers.get(&l).copied().unwrap_or(0) > 0 { return z }
                    let ok = match self.fact(st, c) { Some(b) => b, None => st.models.iter().any(|m| m.eval(&self.c, c) != 0) || matches!(self.s.check(&mut self.c, &st.pc, c), Ans::Sat(_)) };
                    *self.covers.entry(l).or_insert(0) += ok as u64; return z }
                "observe" => { st.obs.push((a[0].clone(), 64)); return z }
                "expect_panic" => { let V::C(x) = a[0] else { return Err(Step::Incon("expect_panic".into())) }; st.expect_panic = x != 0; return z }
                "merge" => { let V::C(x) = a[0] else { return Err(Step::Incon("merge".into())) }; st.merge = x == 1 || x >= 3; st.fsel = x == 2; st.lock = x >= 3; st.strict = x == 4; return z }
                "limit" => { let V::C(x) = a[0] else { return Err(Step::Incon("limit".into())) }; self.max_steps = st.steps + x; return z }
                "known" => {
                    let l = self.cstr(st, &a[1], &a[2]); let c = self.e(&a[0], 1);
                    match self.decide(st, c, self.s.timeout_ms) { Dec::Is(false) => {} Dec::Is(true) => { if !st.known.contains(&l) { st.known.push(l) } } Dec::Both(..) => return Err(Step::Fork(c)), Dec::Unknown => return Err(Step::Incon("known".into())) }
                    return z;
                }
                "split" => { // explicit case split: path-forking on a condition
                    let c = self.e(&a[0], 1);
                    match self.decide(st, c, self.s.timeout_ms) { Dec::Is(b) => return Ok(Some(V::C(b as u64))), Dec::Both(..) => return Err(Step::Fork(c)), Dec::Unknown => return Err(Step::Incon("split".into())) }
                }
                "concrete" => { let k = self.concrete(st, &a[0], 64)?; return Ok(Some(V::C(k))) }
                "native" => return z,
                "print" => { let x = &a[0]; match x { V::C(v) => eprintln!("print {v} ({:#x})", v), V::S(e) => eprintln!("print {}", self.show(*e, 12)), _ => {} } return z }
                _ => return Err(Step::Incon(format!("unknown {name}"))),
            }
        }
        let w0 = at.get(0).map(|t| if t.0.is_agg() || matches!(t.0, Ty::Void | Ty::Other) { 0 } else { t.0.bits() }).unwrap_or(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap();
            let n2 = n.splitn(3, '.').take(2).collect::<Vec<_>>().join(".");
            match base {
                "memcpy" | "memmove" => { let n = self.concrete(st, &a[2], 64)?; self.memcpy(st, &a[0], &a[1], n)?; return z }
                "memset" => {
                    let n = self.concrete(st, &a[2], 64)?;
                    if n == 0 { return z }
                    let p = self.concrete(st, &a[0], 64)?;
                    let (o, off) = self.resolve(st, &V::C(p), n, true)?; let V::C(off) = off else { panic!() };
                    match &a[1] {
                        V::C(b) => { let b = *b as u8; let m = self.obj_mut(st, &o); for i in 0..n as usize { m.data[off as usize + i] = b } if let Some(s) = &mut m.sym { for i in 0..n as usize { s[off as usize + i] = (0, 0) } } }
                        v => { let v = v.clone(); for i in 0..n { self.store_n(st, &V::C(p + i), 1, &v)? } }
                    }
                    return z;
                }
                "threadlocal" => return Ok(Some(a[0].clone())),
                "expect" => return Ok(Some(a[0].clone())),
                "is" if n2 == "is.constant" => return z,
                "is" if n2 == "is.fpclass" => {
                    let V::C(m) = a[1] else { panic!() };
                    let x = self.e(&a[0], w0); let r = self.fpclass(x, m as u32); return Ok(Some(self.v(r)));
                }
                "objectsize" => return Ok(Some(V::C(u64::MAX))),
                "stacksave" => return z,
                "stackrestore" | "va_start" | "va_end" => return z,
                "ptrmask" => { let r = self.binv(Op::And, &Ty::Int(64), &a[0], &a[1])?; return Ok(Some(r)) }
                "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" | "ushl" => {
                    if n.contains("with.overflow") {
                        if at[0].0.is_agg() { return Err(Step::Incon(name.into())) }
                        let (v, o) = self.overflow(base, &a[0], &a[1], w0); return Ok(Some(V::A(Rc::new(vec![v, o]))));
                    }
                    if n.contains(".sat") {
                        if at[0].0.is_agg() { let s = self.lanes(&at[0].0, &a[0], &a[1], &mut |s, t, x, y| Ok(s.satop(base, x, y, t.bits())))?; return Ok(Some(s)) }
                        return Ok(Some(self.satop(base, &a[0], &a[1], w0)));
                    }
                }
                "umax" | "umin" | "smax" | "smin" | "ucmp" | "scmp" => {
                    let f = |s: &mut Self, t: &Ty, x: &V, y: &V| -> V {
                        let w = t.bits(); let (p, q) = (s.e(x, w), s.e(y, w));
                        let r = match base { "umax" => { let l = s.c.ult(p, q); s.c.ite(l, q, p) } "umin" => { let l = s.c.ult(p, q); s.c.ite(l, p, q) } "smax" => { let l = s.c.slt(p, q); s.c.ite(l, q, p) } "smin" => { let l = s.c.slt(p, q); s.c.ite(l, p, q) }
                            _ => { let l = if base == "ucmp" { s.c.ult(p, q) } else { s.c.slt(p, q) }; let e = s.c.eq(p, q); let rw = ret.bits(); let (m, o, k0) = (s.c.konst(mask(rw), rw), s.c.konst(1, rw), s.c.konst(0, rw)); let t = s.c.ite(e, k0, o); s.c.ite(l, m, t) } };
                        s.v(r)
                    };
                    if at[0].0.is_agg() { let v = self.lanes(&at[0].0, &a[0], &a[1], &mut |s, t, x, y| Ok(f(s, t, x, y)))?; return Ok(Some(v)) }
                    return Ok(Some(f(self, &at[0].0, &a[0], &a[1])));
                }
                "abs" if !at[0].0.is_agg() => { let x = self.e(&a[0], w0); let k = self.c.konst(0, w0); let neg = self.c.slt(x, k); let m = self.c.sub(k, x); let r = self.c.ite(neg, m, x); return Ok(Some(self.v(r))) }
                "ctpop" if !at[0].0.is_agg() => { if let V::C(x) = a[0] { return Ok(Some(V::C(x.count_ones() as u64))) } let x = self.e(&a[0], w0); if let Some(k) = self.c.is_const(x) { let r = self.c.konst(k.count_ones() as u128, w0); return Ok(Some(self.v(r))) } let r = self.popcount(x); return Ok(Some(self.v(r))) }
                "ctlz" | "cttz" if !at[0].0.is_agg() => {
                    let x = self.e(&a[0], w0);
                    if let Some(k) = self.c.is_const(x) { let r = if base == "ctlz" { k.leading_zeros() - (128 - w0 as u32) } else { k.trailing_zeros().min(w0 as u32) }; let r = self.c.konst(r as u128, w0); return Ok(Some(self.v(r))) }
                    let mut r = self.c.konst(w0 as u128, w0);
                    for i in 0..w0 { let bit = if base == "ctlz" { i } else { w0 - 1 - i }; let b = self.c.extract(x, bit, 1); let k = self.c.konst(if base == "ctlz" { (w0 - 1 - i) as u128 } else { bit as u128 }, w0); r = self.c.ite(b, k, r); }
                    return Ok(Some(self.v(r)));
                }
                "bswap" => { let x = self.e(&a[0], w0); let mut r = self.c.extract(x, 0, 8); for i in 1..w0 / 8 { let b = self.c.extract(x, i * 8, 8); r = self.c.concat(r, b) } return Ok(Some(self.v(r))) }
                "bitreverse" => { let x = self.e(&a[0], w0); let mut r = self.c.extract(x, 0, 1); for i in 1..w0 { let b = self.c.extract(x, i, 1); r = self.c.concat(r, b) } return Ok(Some(self.v(r))) }
                "fshl" | "fshr" => {
                    let vec: Option<(u8, Vec<(V, V, V)>)> = if let (V::A(p), V::A(q), V::A(r)) = (&a[0], &a[1], &a[2]) { Some((at[0].0.elem(0).1.bits(), (0..p.len()).map(|i| (p[i].clone(), q[i].clone(), r[i].clone())).collect())) } else { None };
                    let (lanes, w0) = match vec { Some((w, l)) => (l, w), None => (vec![(a[0].clone(), a[1].clone(), a[2].clone())], w0) };
                    let mut res = vec![];
                    for (x, y, s) in lanes {
                    let (x, y, s) = (self.e(&x, w0), self.e(&y, w0), self.e(&s, w0));
                    let wk = self.c.konst(w0 as u128, w0); let k = self.c.bin(Op::URem, s, wk); let inv = self.c.sub(wk, k);
                    let r = if base == "fshl" { let p = self.c.bin(Op::Shl, x, k); let q = self.c.bin(Op::LShr, y, inv); self.c.or(p, q) } else { let p = self.c.bin(Op::LShr, y, k); let q = self.c.bin(Op::Shl, x, inv); self.c.or(p, q) };
                    res.push(self.v(r));
                    }
                    return Ok(Some(if at[0].0.is_agg() { V::A(Rc::new(res)) } else { res.pop().unwrap() }));
                }
                "fptoui" | "fptosi" if !at[0].0.is_agg() => { let x = self.e(&a[0], w0); let r = self.c.fun(if base == "fptoui" { Op::FToU } else { Op::FToS }, x, ret.bits()); return Ok(Some(self.v(r))) }
                "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" | "round" | "sqrt" => {
                    let op = match base { "floor" => Op::FFloor, "ceil" => Op::FCeil, "trunc" => Op::FTruncI, "round" => Op::FRound, "sqrt" => Op::FSqrt, _ => Op::FRoundEven };
                    if let V::A(l) = &a[0] { let w = at[0].0.elem(0).1.bits(); let l = l.clone(); let r = l.iter().map(|v| { let x = self.e(v, w); let r = self.c.fun(op, x, w); self.v(r) }).collect(); return Ok(Some(V::A(Rc::new(r)))) }
                    let x = self.e(&a[0], w0); let r = self.c.fun(op, x, w0); return Ok(Some(self.v(r)));
                }
                "fabs" if !at[0].0.is_agg() => { let x = self.e(&a[0], w0); let k = self.c.konst(mask(w0) >> 1, w0); let r = self.c.bin(Op::And, x, k); return Ok(Some(self.v(r))) }
                "copysign" if !at[0].0.is_agg() => { let x = self.e(&a[0], w0); let y = self.e(&a[1], w0); let m = self.c.extract(x, 0, w0 - 1); let s = self.c.extract(y, w0 - 1, 1); let r = self.c.concat(s, m); return Ok(Some(self.v(r))) }
                "minnum" | "maxnum" | "minimumnum" | "maximumnum" if !at[0].0.is_agg() => {
                    let (x, y) = (self.e(&a[0], w0), self.e(&a[1], w0));
                    let l = if base.starts_with("min") { self.c.fcmp(Op::FLt, x, y) } else { self.c.fcmp(Op::FLt, y, x) };
                    // x86: op(b, a) with unordered fix-up: result is b unless a is strictly smaller/greater or b is NaN
                    let ny = self.isnan(y); let take = self.c.or(l, ny); let r = self.c.ite(take, x, y); return Ok(Some(self.v(r)));
                }
                "fmuladd" if !at[0].0.is_agg() => { let (x, y, t) = (self.e(&a[0], w0), self.e(&a[1], w0), self.e(&a[2], w0)); let p = self.c.bin(Op::FMul, x, y); let r = self.c.bin(Op::FAdd, p, t); return Ok(Some(self.v(r))) }
                "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "exp" | "exp2" | "log" | "log2" | "log10" | "pow" | "powi" | "fma" | "sinh" | "cosh" | "tanh" => {
                    return self.libm(base, ret, at, a).map(Some);
                }
                "vector" => { // vector.reduce.*
                    let V::A(l) = &a[a.len() - 1] else { return Err(Step::Incon(name.into())) };
                    let et = at[at.len() - 1].0.elem(0).1; let w = et.bits();
                    let parts: Vec<&str> = n.split('.').collect();
                    let mut it = l.iter().map(|v| v.clone()).collect::<Vec<_>>().into_iter();
                    let mut acc = if parts[2] == "fadd" || parts[2] == "fmul" { a[0].clone() } else { it.next().unwrap() };
                    for v in it {
                        let (p, q) = (self.e(&acc, w), self.e(&v, w));
                        let r = match parts[2] { "add" => self.c.add(p, q), "mul" => self.c.bin(Op::Mul, p, q), "and" => self.c.and(p, q), "or" => self.c.or(p, q), "xor" => self.c.bin(Op::Xor, p, q), "umax" => { let l = self.c.ult(p, q); self.c.ite(l, q, p) } "umin" => { let l = self.c.ult(p, q); self.c.ite(l, p, q) } "smax" => { let l = self.c.slt(p, q); self.c.ite(l, q, p) } "smin" => { let l = self.c.slt(p, q); self.c.ite(l, p, q) } "fadd" => self.c.bin(Op::FAdd, p, q), _ => return Err(Step::Incon(name.into())) };
                        acc = self.v(r);
                    }
                    return Ok(Some(acc));
                }
                _ => {}
            }
            return Err(Step::Incon(format!("intrinsic {name}: {}", self.m.text[text as usize])));
        }
        if name.contains("__rust_no_alloc_shim") { return z }
        if name.contains("hashmap_random_keys") { return Ok(Some(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)])))) }
        if name.contains("__rust_alloc_zeroed") || name.contains("__rust_alloc") && !name.contains("zeroed") { let s = self.concrete(st, &a[0], 64)?; let al = self.concrete(st, &a[1], 64)?; return Ok(Some(V::C(self.alloc(st, s, al)?))) }
        if name.contains("__rust_dealloc") { let p = self.concrete(st, &a[0], 64)?; self.free(st, p)?; return z }
        if name.contains("__rust_realloc") {
            let p = self.concrete(st, &a[0], 64)?; let old = self.concrete(st, &a[1], 64)?; let al = self.concrete(st, &a[2], 64)?; let nw = self.concrete(st, &a[3], 64)?;
            let np = self.alloc(st, nw, al)?; self.memcpy(st, &V::C(np), &V::C(p), old.min(nw))?; self.free(st, p)?; return Ok(Some(V::C(np)));
        }
        match name {
            "malloc" => { let s = self.concrete(st, &a[0], 64)?; return Ok(Some(V::C(self.alloc(st, s, 16)?))) }
            "calloc" => { let s = self.concrete(st, &a[0], 64)?; let n = self.concrete(st, &a[1], 64)?; return Ok(Some(V::C(self.alloc(st, s * n, 16)?))) }
            "free" => { let p = self.concrete(st, &a[0], 64)?; if p != 0 { self.free(st, p)? } return z }
            "posix_memalign" => { let al = self.concrete(st, &a[1], 64)?; let s = self.concrete(st, &a[2], 64)?; let p = self.alloc(st, s, al)?; self.store_n(st, &a[0], 8, &V::C(p))?; return z }
            "realloc" => { let p = self.concrete(st, &a[0], 64)?; let nw = self.concrete(st, &a[1], 64)?; let old = self.find(st, p).map(|o| o.size).unwrap_or(0); let np = self.alloc(st, nw, 16)?; self.memcpy(st, &V::C(np), &V::C(p), old.min(nw))?; if p != 0 { self.free(st, p)? } return Ok(Some(V::C(np))) }
            "memcpy" | "memmove" => { let n = self.concrete(st, &a[2], 64)?; self.memcpy(st, &a[0], &a[1], n)?; return Ok(Some(a[0].clone())) }
            "bcmp" | "memcmp" => {
                let n = self.concrete(st, &a[2], 64)?;
                let (x, y) = (self.bytes(st, &a[0], n)?, self.bytes(st, &a[1], n)?);
                if name == "bcmp" { let mut r = TRUE; for i in 0..x.len() { let q = self.c.eq(x[i], y[i]); r = self.c.and(r, q) } let nr = self.c.not(r); let r = self.c.zext(nr, 32); return Ok(Some(self.v(r))) }
                let mut r = self.c.konst(0, 32);
                for i in (0..x.len()).rev() { let q = self.c.eq(x[i], y[i]); let l = self.c.ult(x[i], y[i]); let (m, o) = (self.c.konst(u32::MAX as u128, 32), self.c.konst(1, 32)); let d = self.c.ite(l, m, o); r = self.c.ite(q, r, d) }
                return Ok(Some(self.v(r)));
            }
            "strlen" => { let mut i = 0; loop { let p = self.addv(&a[0], i); let v = self.load_n(st, &p, 1)?; if self.concrete(st, &v, 8)? == 0 { return Ok(Some(V::C(i))) } i += 1 } }
            "getenv" => return z,
            "sysconf" => return Ok(Some(V::C(8))),
            "syscall" => return z,
            "getrandom" => { return Ok(Some(a[1].clone())) }
            _ => {}
        }
        let bare = name.strip_suffix('f').unwrap_or(name);
        if matches!(bare, "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "exp" | "exp2" | "log" | "log2" | "log10" | "pow" | "fmod" | "hypot" | "cbrt" | "expm1" | "log1p" | "fma" | "sinh" | "cosh" | "tanh") { return self.libm(bare, ret, at, a).map(Some) }
        if matches!(bare, "floor" | "ceil" | "trunc" | "rint" | "round" | "sqrt" | "roundeven" | "nearbyint") { let op = match bare { "floor" => Op::FFloor, "ceil" => Op::FCeil, "trunc" => Op::FTruncI, "round" => Op::FRound, "sqrt" => Op::FSqrt, _ => Op::FRoundEven }; let x = self.e(&a[0], w0); let r = self.c.fun(op, x, w0); return Ok(Some(self.v(r))) }
        if bare == "fmin" || bare == "fmax" { let (x, y) = (self.e(&a[0], w0), self.e(&a[1], w0)); let l = if bare == "fmin" { self.c.fcmp(Op::FLt, x, y) } else { self.c.fcmp(Op::FLt, y, x) }; let ny = self.isnan(y); let take = self.c.or(l, ny); let r = self.c.ite(take, x, y); return Ok(Some(self.v(r))) }
        Err(Step::Incon(format!("external function {name}: {}", self.m.text[text as usize])))
    }
    fn fpclass(&mut self, x: E, m: u32) -> E {
        let w = self.c.w(x); let (eb, mb) = if w == 32 { (8u8, 23u8) } else { (11, 52) };
        let s = self.c.extract(x, w - 1, 1); let e = self.c.extract(x, mb, eb); let man = self.c.extract(x, 0, mb);
        let k1 = self.c.konst(mask(eb), eb); let emax = self.c.eq(e, k1); let k0 = self.c.konst(0, eb); let e0 = self.c.eq(e, k0); let mz = self.c.konst(0, mb); let m0 = self.c.eq(man, mz);
        let nm0 = self.c.not(m0); let ns = self.c.not(s); let q = self.c.extract(x, mb - 1, 1); let nq = self.c.not(q);
        let ne = self.c.or(emax, e0); let norm = self.c.not(ne);
        let nan = self.c.and(emax, nm0); let inf = self.c.and(emax, m0); let zero = self.c.and(e0, m0); let sub = self.c.and(e0, nm0);
        let mut r = FALSE;
        let parts = [(nan, nq), (nan, q), (inf, s), (norm, s), (sub, s), (zero, s), (zero, ns), (sub, ns), (norm, ns), (inf, ns)];
        for (i, (p, g)) in parts.iter().enumerate() { if m >> i & 1 == 1 { let t = self.c.and(*p, *g); r = self.c.or(r, t) } }
        r
    }
    fn popcount(&mut self, x: E) -> E {
        let w = self.c.w(x);
        // tree of adders on growing widths
        let mut level: Vec<E> = (0..w).map(|i| self.c.extract(x, i, 1)).collect();
        while level.len() > 1 {
            let mut nx = vec![];
            for ch in level.chunks(2) { if ch.len() == 2 { let nw = self.c.w(ch[0]).max(self.c.w(ch[1])) + 1; let p = self.c.zext(ch[0], nw); let q = self.c.zext(ch[1], nw); nx.push(self.c.add(p, q)) } else { nx.push(ch[0]) } }
            level = nx;
        }
        self.c.zext_or_trunc(level[0], w)
    }
    fn overflow(&mut self, op: &str, a: &V, b: &V, w: u8) -> (V, V) {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let bop = match &op[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
        let signed = op.starts_with('s');
        if w > 64 && signed && (self.c.is_const(x).is_none() || self.c.is_const(y).is_none()) {
            // wide values that are known to come from narrow ones cannot overflow
            let (p, q) = (self.signed_bits(x, 0), self.signed_bits(y, 0));
            let n = if bop == Op::Mul { p + q } else { p.max(q) + 1 };
            if n <= w as u32 {
                let r = if n <= 64 { let (a, b) = (self.c.extract(x, 0, 64), self.c.extract(y, 0, 64)); let r = self.c.bin(bop, a, b); self.c.sext(r, w) } else { self.c.bin(bop, x, y) };
                return (self.v(r), self.v(FALSE));
            }
        }
        let r = self.c.bin(bop, x, y);
        let o = if w <= 64 {
            let (ra, rb) = (self.c.r(x), self.c.r(y));
            let f = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
            let (al, ah, bl, bh) = if signed { (ra.slo as i128, ra.shi as i128, rb.slo as i128, rb.shi as i128) } else { (ra.lo as i128, ra.hi as i128, rb.lo as i128, rb.hi as i128) };
            let ps: Vec<i128> = match bop { Op::Add => vec![al + bl, ah + bh], Op::Sub => vec![al - bh, ah - bl], _ => if signed { vec![al * bl, al * bh, ah * bl, ah * bh] } else { vec![al.saturating_mul(bl), ah.saturating_mul(bh)] } };
            let (lo, hi) = (*ps.iter().min().unwrap(), *ps.iter().max().unwrap());
            if lo >= f.0 && hi <= f.1 { FALSE } else if lo > f.1 || hi < f.0 { TRUE } else {
                match (bop, signed) {
                    (Op::Add, false) => self.c.ult(r, x),
                    (Op::Sub, false) => self.c.ult(x, y),
                    (Op::Add, true) | (Op::Sub, true) => { let (p, q) = (self.c.sext(x, w + 1), self.c.sext(y, w + 1)); let s = self.c.bin(bop, p, q); let t = self.c.sext(r, w + 1); let e = self.c.eq(s, t); self.c.not(e) }
                    _ => {
                        let ww = (2 * w).min(128);
                        let (p, q, t) = if signed { (self.c.sext(x, ww), self.c.sext(y, ww), self.c.sext(r, ww)) } else { (self.c.zext(x, ww), self.c.zext(y, ww), self.c.zext(r, ww)) };
                        let s = self.c.bin(Op::Mul, p, q); let e = self.c.eq(s, t); self.c.not(e)
                    }
                }
            }
        } else {
            // i128: only concrete operands are supported exactly
            match (self.c.is_const(x), self.c.is_const(y)) {
                (Some(p), Some(q)) => { let v = if signed { let (p, q) = (p as i128, q as i128); match bop { Op::Add => p.overflowing_add(q).1, Op::Sub => p.overflowing_sub(q).1, _ => p.overflowing_mul(q).1 } } else { match bop { Op::Add => p.overflowing_add(q).1, Op::Sub => p.overflowing_sub(q).1, _ => p.overflowing_mul(q).1 } }; if v { TRUE } else { FALSE } }
                _ => match bop {
                    Op::Add if !signed => self.c.ult(r, x),
                    Op::Sub if !signed => self.c.ult(x, y),
                    // the sign of the result differs from both (for differences: from the first, and the second has the other sign)
                    Op::Add | Op::Sub => { let z = self.c.konst(0, w); let (a, b, c) = (self.c.slt(x, z), self.c.slt(y, z), self.c.slt(r, z)); let d = self.c.bin(Op::Xor, a, c); let e = self.c.bin(Op::Xor, a, b); let e = if bop == Op::Add { self.c.not(e) } else { e }; self.c.bin(Op::And, d, e) }
                    _ => { self.incon.push("i128 overflow".into()); FALSE } },
            }
        };
        (self.v(r), self.v(o))
    }
    /// a number of bits in which the signed value of e fits
    fn signed_bits(&self, e: E, depth: u32) -> u32 {
        let n = self.c.n(e);
        if n.w <= 64 { let r = self.c.r(e); let m = (r.slo.unsigned_abs()).max(r.shi.unsigned_abs()) as u128; return (129 - m.leading_zeros()).min(n.w as u32) }
        let w = n.w as u32;
        if depth > 12 { return w }
        match n.op {
            Op::Const => { let v = sx(n.k, n.w); 129 - (if v < 0 { !v } else { v }).leading_zeros() }
            Op::SExt => self.signed_bits(E(n.a), depth + 1),
            Op::ZExt => if self.c.n(E(n.a)).w <= 64 { 129 - (self.c.r(E(n.a)).hi as u128).leading_zeros() } else { self.c.n(E(n.a)).w as u32 + 1 },
            Op::Add | Op::Sub => (self.signed_bits(E(n.a), depth + 1).max(self.signed_bits(E(n.b), depth + 1)) + 1).min(w),
            Op::Mul => (self.signed_bits(E(n.a), depth + 1) + self.signed_bits(E(n.b), depth + 1)).min(w),
            Op::Ite => self.signed_bits(E(n.b), depth + 1).max(self.signed_bits(E(n.c), depth + 1)),
            _ => w,
        }
    }
    fn satop(&mut self, op: &str, a: &V, b: &V, w: u8) -> V {
        let (v, o) = self.overflow(op, a, b, w);
        let (r, o) = (self.e(&v, w), self.e(&o, 1));
        let sat = match op {
            "uadd" => self.c.konst(mask(w), w),
            "usub" => self.c.konst(0, w),
            _ => { let x = self.e(a, w); let k = self.c.konst(0, w); let neg = self.c.slt(x, k); let mn = self.c.konst(1u128 << (w - 1), w); let mx = self.c.konst(mask(w) >> 1, w); self.c.ite(neg, mn, mx) }
        };
        let r = self.c.ite(o, sat, r);
        self.v(r)
    }
    fn libm(&mut self, f: &str, ret: &Ty, at: &[(Ty, Opd)], a: &[V]) -> R<V> {
        let w = ret.bits();
        let k: Vec<u8> = at.iter().map(|t| t.0.bits()).collect();
        if a.iter().all(|v| matches!(v, V::C(_))) {
            let vs: Vec<u64> = a.iter().map(|v| if let V::C(x) = v { *x } else { 0 }).collect();
            return match libm_value(f, w, &vs) { Some(v) => Ok(V::C(v)), None => Err(Step::Incon(format!("libm {f}"))) };
        }
        // arguments that depend on one variable of few bits: an exact table
        let mut es = vec![];
        for (i, v) in a.iter().enumerate() { es.push(self.e(v, k[i])) }
        if let Some(t) = self.tabulate(&es, w, &|vs| libm_value(f, w, vs).map(|x| x as u128)) { return Ok(self.v(t)) }
        let r = self.c.uf(&format!("{f}{w}"), &es, w);
        Ok(self.v(r))
    }
    /// if the expressions depend on one variable of at most 10 bits, build an exact table of g(exprs)
    fn tabulate(&mut self, xs: &[E], w: u8, g: &dyn Fn(&[u64]) -> Option<u128>) -> Option<E> {
        let mut seen = std::collections::HashSet::new(); let mut st: Vec<u32> = xs.iter().map(|x| x.0).collect(); let mut var: Option<u32> = None;
        while let Some(i) = st.pop() {
            if !seen.insert(i) { continue }
            let n = self.c.nodes[i as usize];
            match n.op { Op::Var => match var { None => var = Some(i), Some(v) if v == i => {} _ => return None }, Op::Uf => return None, Op::Const => {} _ => { for ch in [n.a, n.b, n.c].iter().take(arity(n.op) as usize) { st.push(*ch) } } }
            if seen.len() > 2000 { return None }
        }
        let v = var?; let vn = self.c.nodes[v as usize];
        if vn.w > 10 { return None }
        let mut t = vec![];
        for k in 0..(1u128 << vn.w) { let mut vals = vec![0; vn.a as usize + 1]; vals[vn.a as usize] = k; let m = Model::new(vals); let ys: Vec<u64> = xs.iter().map(|x| m.eval(&self.c, *x) as u64).collect(); t.push(g(&ys)?) }
        Some(self.c.table(E(v), t, w))
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.c.n(e);
        match n.op { Op::Const => format!("{}", n.k), Op::Var => format!("v{}:{}", n.a, n.w), _ if d == 0 => format!("#{}", e.0), op => { let ar = arity(op) as usize; let s: Vec<String> = [n.a, n.b, n.c].iter().take(ar).map(|i| self.show(E(*i), d - 1)).collect(); format!("({:?}{}:{} {})", op, if op == Op::Extract { format!("@{}", n.k) } else { String::new() }, n.w, s.join(" ")) } }
    }
}
thread_local! { static GC: std::cell::RefCell<HashMap<u64, Rc<Obj>>> = Default::default(); static DUMMY: std::cell::RefCell<Option<Rc<Obj>>> = Default::default(); }

fn libm_value(f: &str, w: u8, v: &[u64]) -> Option<u64> {
    let g = |i: usize| v.get(i).copied().unwrap_or(0);
    if w == 32 {
        let x = f32::from_bits(g(0) as u32); let y = f32::from_bits(g(1) as u32);
        let r = match f { "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "atan2" => x.atan2(y), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "pow" => x.powf(y), "powi" => x.powi(g(1) as u32 as i32), "fmod" => x % y, "hypot" => x.hypot(y), "cbrt" => x.cbrt(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "fma" => x.mul_add(y, f32::from_bits(g(2) as u32)), _ => return None };
        return Some(r.to_bits() as u64);
    }
    let x = f64::from_bits(g(0)); let y = f64::from_bits(g(1));
    let r = match f { "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "atan2" => x.atan2(y), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "pow" => x.powf(y), "powi" => x.powi(g(1) as u32 as i32), "fmod" => x % y, "hypot" => x.hypot(y), "cbrt" => x.cbrt(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "fma" => x.mul_add(y, f64::from_bits(g(2))), _ => return None };
    Some(r.to_bits())
}
