//! z3 back end (C API): incremental QF_BV queries.
use crate::expr::*;
use crate::lower::Lower;
use std::ffi::{c_char, c_void, CStr, CString};
use Op::*;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, u32)>);
    fn Z3_get_error_msg(c: P, e: u32) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: u32) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: u32);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> i32;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_version(a: *mut u32, b: *mut u32, c: *mut u32, d: *mut u32);
}
extern "C" fn on_err(c: P, e: u32) { unsafe { eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e))); } std::process::exit(70) }

pub fn z3_version() -> String { let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0); unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) }; format!("{a}.{b}.{c}.{d}") }

pub enum Ans { Sat(Model), Unsat, Unknown }

pub struct Solver {
    c: P,
    s: P,
    stack: Vec<E>,
    bools: FxMap<u32, usize>,
    bvs: FxMap<u32, usize>,
    pub low: Lower,
    vars: Vec<(u32, usize, u8)>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub bad_models: u64, dirty: bool,
    pub time: f64, pub max_time: f64,
    pub timeout_ms: u32,
    since_reset: u64,
    cur_timeout: u32,
    pub verbose: bool,
    pub dump: Option<String>,
}
impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver { c, s: std::ptr::null_mut(), stack: vec![], bools: Default::default(), bvs: Default::default(), low: Default::default(), vars: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, bad_models: 0, dirty: false, time: 0.0, max_time: 0.0, timeout_ms, since_reset: 0, cur_timeout: 0, verbose: false, dump: None };
            s.fresh();
            s
        }
    }
    fn sym(&self, s: &str) -> P { let s = CString::new(s).unwrap(); unsafe { Z3_mk_string_symbol(self.c, s.as_ptr()) } }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() { Z3_solver_dec_ref(self.c, self.s) }
            self.s = Z3_mk_solver_for_logic(self.c, self.sym(&std::env::var("SYMX_LOGIC").unwrap_or("QF_FD".into())));
            Z3_solver_inc_ref(self.c, self.s);
            self.cur_timeout = 0;
            self.stack.clear();
        }
    }
    unsafe fn keep(&self, a: P) -> P { Z3_inc_ref(self.c, a); a }
    fn bvsort(&self, w: u8) -> P { unsafe { Z3_mk_bv_sort(self.c, w as u32) } }
    /// translate an already lowered expression
    unsafe fn tr(&mut self, ctx: &Ctx, root: E) {
        let mut st = vec![root.0];
        let c = self.c;
        while let Some(&i) = st.last() {
            let n = ctx.nodes[i as usize];
            if n.w == 1 && self.bools.contains_key(&i) || n.w > 1 && self.bvs.contains_key(&i) { st.pop(); continue }
            let ar = arity(n.op);
            let mut ready = true;
            for ch in [n.a, n.b, n.c].iter().take(ar as usize) {
                let w = ctx.nodes[*ch as usize].w;
                if !(if w == 1 { self.bools.contains_key(ch) } else { self.bvs.contains_key(ch) }) { st.push(*ch); ready = false }
            }
            if !ready { continue }
            st.pop();
            let bo = |s: &Self, x: u32| s.bools[&x] as P;
            macro_rules! bv { ($x:expr) => {{ let x = $x; if ctx.nodes[x as usize].w == 1 { self.bv_of_bool(x) } else { self.bvs[&x] as P } }} }
            let r: P = if n.w == 1 {
                match n.op {
                    Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    Var => { let nm = self.sym(&format!("v{}", n.a)); let v = Z3_mk_const(c, nm, Z3_mk_bool_sort(c)); let v = self.keep(v); self.vars.push((n.a, v as usize, 1)); v }
                    And => { let a = [bo(self, n.a), bo(self, n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                    Or => { let a = [bo(self, n.a), bo(self, n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                    Xor | Add | Sub => { if ctx.is_const(E(n.b)) == Some(1) { Z3_mk_not(c, bo(self, n.a)) } else { Z3_mk_xor(c, bo(self, n.a), bo(self, n.b)) } }
                    Ite => Z3_mk_ite(c, bo(self, n.a), bo(self, n.b), bo(self, n.c)),
                    Eq => { if ctx.nodes[n.a as usize].w == 1 { Z3_mk_eq(c, bo(self, n.a), bo(self, n.b)) } else { Z3_mk_eq(c, bv!(n.a), bv!(n.b)) } }
                    Ult => Z3_mk_bvult(c, bv!(n.a), bv!(n.b)),
                    Slt => Z3_mk_bvslt(c, bv!(n.a), bv!(n.b)),
                    Extract => { let x = Z3_mk_extract(c, n.k as u32, n.k as u32, bv!(n.a)); let x = self.keep(x); let one = Z3_mk_unsigned_int64(c, 1, self.bvsort(1)); Z3_mk_eq(c, x, one) }
                    _ => panic!("bool op {:?}", n.op),
                }
            } else {
                match n.op {
                    Const => self.num(n.k, n.w),
                    Var => { let nm = self.sym(&format!("v{}", n.a)); let v = Z3_mk_const(c, nm, self.bvsort(n.w)); let v = self.keep(v); self.vars.push((n.a, v as usize, n.w)); v }
                    Add => Z3_mk_bvadd(c, bv!(n.a), bv!(n.b)),
                    Sub => Z3_mk_bvsub(c, bv!(n.a), bv!(n.b)),
                    Mul => Z3_mk_bvmul(c, bv!(n.a), bv!(n.b)),
                    UDiv => Z3_mk_bvudiv(c, bv!(n.a), bv!(n.b)),
                    URem => Z3_mk_bvurem(c, bv!(n.a), bv!(n.b)),
                    SDiv => Z3_mk_bvsdiv(c, bv!(n.a), bv!(n.b)),
                    SRem => Z3_mk_bvsrem(c, bv!(n.a), bv!(n.b)),
                    Shl => Z3_mk_bvshl(c, bv!(n.a), bv!(n.b)),
                    LShr => Z3_mk_bvlshr(c, bv!(n.a), bv!(n.b)),
                    AShr => Z3_mk_bvashr(c, bv!(n.a), bv!(n.b)),
                    And => Z3_mk_bvand(c, bv!(n.a), bv!(n.b)),
                    Or => Z3_mk_bvor(c, bv!(n.a), bv!(n.b)),
                    Xor => Z3_mk_bvxor(c, bv!(n.a), bv!(n.b)),
                    Concat => Z3_mk_concat(c, bv!(n.a), bv!(n.b)),
                    Extract => Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, bv!(n.a)),
                    ZExt => { let wa = ctx.nodes[n.a as usize].w; Z3_mk_zero_ext(c, (n.w - wa) as u32, bv!(n.a)) }
                    SExt => { let wa = ctx.nodes[n.a as usize].w; Z3_mk_sign_ext(c, (n.w - wa) as u32, bv!(n.a)) }
                    Ite => Z3_mk_ite(c, bo(self, n.a), bv!(n.b), bv!(n.c)),
                    _ => panic!("bv op {:?}", n.op),
                }
            };
            let r = self.keep(r);
            if n.w == 1 { self.bools.insert(i, r as usize); } else { self.bvs.insert(i, r as usize); }
        }
    }
    unsafe fn bv_of_bool(&mut self, i: u32) -> P {
        if let Some(x) = self.bvs.get(&i) { return *x as P }
        let b = self.bools[&i] as P;
        let s = self.bvsort(1);
        let o = self.keep(Z3_mk_unsigned_int64(self.c, 1, s)); let z = self.keep(Z3_mk_unsigned_int64(self.c, 0, s));
        let r = self.keep(Z3_mk_ite(self.c, b, o, z));
        self.bvs.insert(i, r as usize);
        r
    }
    unsafe fn num(&self, k: u128, w: u8) -> P {
        if k <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, k as u64, self.bvsort(w)) } else { let s = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), self.bvsort(w)) }
    }
    unsafe fn push_e(&mut self, ctx: &mut Ctx, e: E) {
        Z3_solver_push(self.c, self.s);
        let l = self.low.lower(ctx, e);
        self.tr(ctx, l);
        Z3_solver_assert(self.c, self.s, self.bools[&l.0] as P);
    }
    pub fn check(&mut self, ctx: &mut Ctx, pc: &[E], extra: E) -> Ans { self.check_t(ctx, pc, extra, self.timeout_ms) }
    fn set_timeout(&mut self, ms: u32) {
        if self.cur_timeout == ms { return }
        self.cur_timeout = ms;
        unsafe { let p = Z3_mk_params(self.c); Z3_params_inc_ref(self.c, p); Z3_params_set_uint(self.c, p, self.sym("timeout"), ms); Z3_solver_set_params(self.c, self.s, p); }
    }
    pub fn check_t(&mut self, ctx: &mut Ctx, pc: &[E], extra: E, ms: u32) -> Ans {
        if extra == FALSE { return Ans::Unsat }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.since_reset += 1;
        let r = unsafe {
            let mut i = 0;
            while i < self.stack.len() && i < pc.len() && self.stack[i] == pc[i] { i += 1 }
            if self.since_reset > 20000 || self.dirty { self.dirty = false; self.fresh(); self.since_reset = 0; i = 0; }
            if self.stack.len() > i { Z3_solver_pop(self.c, self.s, (self.stack.len() - i) as u32); self.stack.truncate(i); }
            while i < pc.len() { self.push_e(ctx, pc[i]); self.stack.push(pc[i]); i += 1 }
            if extra != TRUE { self.push_e(ctx, extra); }
            self.set_timeout(ms);
            if let Some(d) = &self.dump { let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string(); let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), s + "\n(check-sat)\n"); }
            let r = Z3_solver_check(self.c, self.s);
            let a = match r {
                1 => {
                    let m = self.model(ctx);
                    // the solver's assignment must satisfy the conditions under native evaluation too
                    let bad = pc.iter().chain(std::iter::once(&extra)).position(|e| m.eval(ctx, *e) == 0);
                    if let Some(k) = bad {
                        self.bad_models += 1; self.dirty = true; self.unknown += 1;
                        if self.verbose { let e = if k < pc.len() { pc[k] } else { extra }; eprintln!("MODEL MISMATCH conjunct {k}/{} {:?}", pc.len(), ctx.n(e)); let mut seen = vec![e.0]; let mut j = 0; while j < seen.len() && j < 30 { let n = *ctx.n(E(seen[j])); let low = self.low.lower(ctx, E(seen[j])); eprintln!("  e{} {:?} = {:x} lowered {:x}", seen[j], n, m.eval(ctx, E(seen[j])), m.eval(ctx, low)); for c in [n.a, n.b, n.c].iter().take(crate::expr::arity(n.op) as usize) { if !seen.contains(c) { seen.push(*c) } } j += 1 } }
                        Ans::Unknown
                    } else { self.sat += 1; Ans::Sat(m) }
                }
                -1 => { self.unsat += 1; Ans::Unsat }
                _ => { self.unknown += 1; self.dirty = true; Ans::Unknown }
            };
            if extra != TRUE { Z3_solver_pop(self.c, self.s, 1); }
            a
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt }
        if self.verbose && dt > 0.2 { eprintln!("[query {} {:.2}s limit {}ms pc {} -> {}]", self.queries, dt, ms, pc.len(), match &r { Ans::Sat(_) => "sat", Ans::Unsat => "unsat", _ => "unknown" }) }
        r
    }
    unsafe fn model(&mut self, ctx: &Ctx) -> Model {
        let m = Z3_solver_get_model(self.c, self.s);
        Z3_model_inc_ref(self.c, m);
        let dm = Model::seeded(8 + (self.queries % 1000) as u32);
        let mut vals: Vec<u128> = (0..ctx.vars.len()).map(|i| dm.var(i, ctx.vars[i])).collect();
        for &(v, a, w) in &self.vars {
            let mut out: P = std::ptr::null_mut();
            Z3_model_eval(self.c, m, a as P, true, &mut out);
            Z3_inc_ref(self.c, out);
            vals[v as usize] = if w == 1 { (Z3_get_bool_value(self.c, out) == 1) as u128 } else {
                let mut o = 0u64;
                if Z3_get_numeral_uint64(self.c, out, &mut o) { o as u128 } else { CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_str().unwrap().parse().unwrap_or(0) }
            };
        }
        Z3_model_dec_ref(self.c, m);
        let mut md = Model::new(vals);
        for (n, v) in &self.low.uf_vars { let x = md.vals[*v as usize]; md.uf.insert(*n, x); md.memo.borrow_mut().insert(*n, x); }
        md
    }
}
