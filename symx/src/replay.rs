//! Concrete replay of a solver model against the natively compiled harness.
use std::ffi::{c_char, c_void, CStr, CString};
use std::io::Write;

extern "C" {
    fn dlopen(p: *const c_char, f: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
static mut INPUTS: Vec<(u8, u64)> = Vec::new();
static mut POS: usize = 0;
fn say(s: &str) { let mut o = std::io::stdout(); let _ = writeln!(o, "{s}"); let _ = o.flush(); }
unsafe fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }

#[no_mangle] pub unsafe extern "C" fn symx_u64(w: u32) -> u64 {
    let v = &*std::ptr::addr_of!(INPUTS);
    if POS >= v.len() { POS += 1; return 0 }
    let (iw, x) = v[POS];
    POS += 1;
    if iw as u32 != w { say(&format!("diverged input {} has width {iw}, asked {w}", POS - 1)); std::process::exit(4) }
    x
}
#[no_mangle] pub unsafe extern "C" fn symx_choose(n: u64) -> u64 { let v = symx_u64(64); if v >= n { say(&format!("diverged choice {v} of {n}")); std::process::exit(4) } v }
#[no_mangle] pub unsafe extern "C" fn symx_assume(c: bool) { if !c { say("assume-fail"); std::process::exit(5) } }
#[no_mangle] pub unsafe extern "C" fn symx_check(c: bool, p: *const u8, n: usize) { if !c { say(&format!("check-fail {}", text(p, n))); std::process::exit(3) } }
#[no_mangle] pub unsafe extern "C" fn symx_cover(_c: bool, _p: *const u8, _n: usize) {}
#[no_mangle] pub unsafe extern "C" fn symx_observe(x: u64) { say(&format!("obs {x}")) }
#[no_mangle] pub unsafe extern "C" fn symx_expect_panic(b: u32) { say(&format!("expect-panic {b}")) }
#[no_mangle] pub unsafe extern "C" fn symx_merge(_b: u32) {}
#[no_mangle] pub unsafe extern "C" fn symx_limit(_n: u64) {}
#[no_mangle] pub unsafe extern "C" fn symx_known(c: bool, p: *const u8, n: usize) { if c { say(&format!("known {}", text(p, n))) } }
#[no_mangle] pub unsafe extern "C" fn symx_split(c: bool) -> bool { c }
#[no_mangle] pub unsafe extern "C" fn symx_concrete(x: u64) -> u64 { x }
#[no_mangle] pub unsafe extern "C" fn symx_native() -> u32 { 1 }
#[no_mangle] pub unsafe extern "C" fn symx_print(x: u64) { eprintln!("print {x} ({x:#x})") }

#[used] static K0: unsafe extern "C" fn(u32) -> u64 = symx_u64;
#[used] static K1: unsafe extern "C" fn(bool) = symx_assume;
#[used] static K2: unsafe extern "C" fn(bool, *const u8, usize) = symx_check;
#[used] static K3: unsafe extern "C" fn(bool, *const u8, usize) = symx_cover;
#[used] static K4: unsafe extern "C" fn(u64) = symx_observe;
#[used] static K5: unsafe extern "C" fn(u32) = symx_expect_panic;
#[used] static K6: unsafe extern "C" fn(u32) = symx_merge;
#[used] static K7: unsafe extern "C" fn(u64) = symx_limit;
#[used] static K8: unsafe extern "C" fn(bool, *const u8, usize) = symx_known;
#[used] static K9: unsafe extern "C" fn(bool) -> bool = symx_split;
#[used] static K10: unsafe extern "C" fn(u64) -> u64 = symx_concrete;
#[used] static K11: unsafe extern "C" fn() -> u32 = symx_native;
#[used] static K12: unsafe extern "C" fn(u64) = symx_print;

#[used] static K13: unsafe extern "C" fn(u64) -> u64 = symx_choose;

pub fn run(so: &str, harness: &str, inputs: &str) -> i32 {
    unsafe {
        let v: Vec<(u8, u64)> = inputs.split(',').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect();
        *std::ptr::addr_of_mut!(INPUTS) = v;
        let p = CString::new(so).unwrap();
        let h = dlopen(p.as_ptr(), 2);
        if h.is_null() { eprintln!("dlopen: {:?}", CStr::from_ptr(dlerror())); return 70 }
        let n = CString::new(harness).unwrap();
        let f = dlsym(h, n.as_ptr());
        if f.is_null() { eprintln!("no symbol {harness}"); return 70 }
        let f: extern "C" fn() = std::mem::transmute(f);
        f();
        say("done");
        if POS < (*std::ptr::addr_of!(INPUTS)).len() { say("unused-inputs") }
        0
    }
}
