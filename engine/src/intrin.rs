//! Intrinsics, C library functions, the allocator, panics and the harness API.
use crate::exec::{sx, Engine, Stop};
use crate::expr::Op as E;
use crate::expr::{ones, ExprId};
use crate::ir::*;
use crate::mem::Mem;
use std::rc::Rc;

type R<T> = Result<T, Stop>;

const MEMCPY: i32 = 1;
const MEMSET: i32 = 2;
const MEMCMP: i32 = 3;
const BCMP: i32 = 4;
const STRLEN: i32 = 5;
const ALLOC: i32 = 6;
const ALLOC_Z: i32 = 7;
const DEALLOC: i32 = 8;
const REALLOC: i32 = 9;
const NOP: i32 = 10;
const C_MALLOC: i32 = 11;
const C_FREE: i32 = 12;
const PANIC_FMT: i32 = 13;
const PANIC: i32 = 14;
const ABORT: i32 = 15;
const IDENT: i32 = 16;
const LOADREL: i32 = 17;
const ISCONST: i32 = 18;
const CTTZ: i32 = 20;
const CTLZ: i32 = 21;
const CTPOP: i32 = 22;
const BSWAP: i32 = 23;
const BITREV: i32 = 24;
const FSHL: i32 = 25;
const FSHR: i32 = 26;
const UMIN: i32 = 27;
const UMAX: i32 = 28;
const SMIN: i32 = 29;
const SMAX: i32 = 30;
const ABS: i32 = 31;
const UADDO: i32 = 32;
const USUBO: i32 = 33;
const UMULO: i32 = 34;
const SADDO: i32 = 35;
const SSUBO: i32 = 36;
const SMULO: i32 = 37;
const UADDS: i32 = 38;
const USUBS: i32 = 39;
const SADDS: i32 = 40;
const SSUBS: i32 = 41;
const UCMP: i32 = 42;
const SCMP: i32 = 43;
const FABS: i32 = 44;
const COPYSIGN: i32 = 45;
const FROUND: i32 = 46; // +mode in name
const FCEIL: i32 = 47;
const FFLOOR: i32 = 48;
const FTRUNC: i32 = 49;
const FROUNDA: i32 = 50;
const FSQRT: i32 = 51;
const FMIN: i32 = 52;
const FMAX: i32 = 53;
const FTOSI: i32 = 54;
const FTOUI: i32 = 55;
const FPCLASS: i32 = 56;
const LIBM1: i32 = 57;
const LIBM2: i32 = 58;
const UNSUP: i32 = 59;
const C_CALLOC: i32 = 61;
const C_REALLOC: i32 = 62;

const F_SYM: i32 = 70;
const F_ASSUME: i32 = 71;
const F_ASSERT: i32 = 72;
const F_COVER: i32 = 73;
const F_OBSERVE: i32 = 74;
const F_CONC: i32 = 75;
const F_LIVE: i32 = 76;
const F_ISSYM: i32 = 77;
const F_SYMBOLIC: i32 = 78;
const F_STOP: i32 = 79;
const F_FAIL: i32 = 80;
pub const F_COMPOSE: i32 = 98;
pub const F_CCC: i32 = 99;
pub const F_FMTF: i32 = 100;

extern "C" {
    fn sin(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn acos(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn sinh(x: f64) -> f64;
    fn cosh(x: f64) -> f64;
    fn tanh(x: f64) -> f64;
    fn asinh(x: f64) -> f64;
    fn acosh(x: f64) -> f64;
    fn atanh(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn exp2(x: f64) -> f64;
    fn expm1(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn log1p(x: f64) -> f64;
    fn cbrt(x: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn atan2(x: f64, y: f64) -> f64;
    fn hypot(x: f64, y: f64) -> f64;
    fn fmod(x: f64, y: f64) -> f64;
}
fn libm1(n: &str) -> Option<unsafe extern "C" fn(f64) -> f64> {
    Some(match n {
        "sin" => sin,
        "cos" => cos,
        "tan" => tan,
        "asin" => asin,
        "acos" => acos,
        "atan" => atan,
        "sinh" => sinh,
        "cosh" => cosh,
        "tanh" => tanh,
        "asinh" => asinh,
        "acosh" => acosh,
        "atanh" => atanh,
        "exp" => exp,
        "exp2" => exp2,
        "expm1" => expm1,
        "log" => log,
        "log2" => log2,
        "log10" => log10,
        "log1p" => log1p,
        "cbrt" => cbrt,
        _ => return None,
    })
}
fn libm2(n: &str) -> Option<unsafe extern "C" fn(f64, f64) -> f64> {
    Some(match n {
        "pow" => pow,
        "atan2" => atan2,
        "hypot" => hypot,
        "fmod" => fmod,
        _ => return None,
    })
}
fn libm_name(n: &str) -> &str {
    match n.strip_prefix("llvm.") {
        Some(r) => r.strip_suffix(".f64").unwrap_or(r),
        None => n,
    }
}

pub fn special_of(n: &str) -> i32 {
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy.") || p("memmove.") {
            MEMCPY
        } else if p("memset.") {
            MEMSET
        } else if p("lifetime.") || p("experimental.noalias") || p("assume") || p("dbg.") || p("prefetch") || p("invariant") || p("donothing") || p("sideeffect") {
            NOP
        } else if p("threadlocal.address") || p("expect.") || p("launder.") || p("strip.") || p("freeze") || p("ssa.copy") {
            IDENT
        } else if p("load.relative") {
            LOADREL
        } else if p("is.constant") {
            ISCONST
        } else if p("trap") || p("ubsantrap") || p("debugtrap") {
            ABORT
        } else if p("cttz.") {
            CTTZ
        } else if p("ctlz.") {
            CTLZ
        } else if p("ctpop.") {
            CTPOP
        } else if p("bswap.") {
            BSWAP
        } else if p("bitreverse.") {
            BITREV
        } else if p("fshl.") {
            FSHL
        } else if p("fshr.") {
            FSHR
        } else if p("umin.") {
            UMIN
        } else if p("umax.") {
            UMAX
        } else if p("smin.") {
            SMIN
        } else if p("smax.") {
            SMAX
        } else if p("abs.") {
            ABS
        } else if p("uadd.with") {
            UADDO
        } else if p("usub.with") {
            USUBO
        } else if p("umul.with") {
            UMULO
        } else if p("sadd.with") {
            SADDO
        } else if p("ssub.with") {
            SSUBO
        } else if p("smul.with") {
            SMULO
        } else if p("uadd.sat") {
            UADDS
        } else if p("usub.sat") {
            USUBS
        } else if p("sadd.sat") {
            SADDS
        } else if p("ssub.sat") {
            SSUBS
        } else if p("ucmp.") {
            UCMP
        } else if p("scmp.") {
            SCMP
        } else if p("fabs.") {
            FABS
        } else if p("copysign.") {
            COPYSIGN
        } else if p("ceil.") {
            FCEIL
        } else if p("floor.") {
            FFLOOR
        } else if p("trunc.") {
            FTRUNC
        } else if p("round.") {
            FROUNDA
        } else if p("rint.") || p("nearbyint.") || p("roundeven.") {
            FROUND
        } else if p("sqrt.") {
            FSQRT
        } else if p("minnum.") || p("minimumnum.") {
            FMIN
        } else if p("maxnum.") || p("maximumnum.") {
            FMAX
        } else if p("fptosi.sat") {
            FTOSI
        } else if p("fptoui.sat") {
            FTOUI
        } else if p("is.fpclass") {
            FPCLASS
        } else if r.ends_with(".f64") && libm1(libm_name(n)).is_some() {
            LIBM1
        } else if r.ends_with(".f64") && libm2(libm_name(n)).is_some() {
            LIBM2
        } else {
            UNSUP
        };
    }
    if n.contains("unicode_normalization7lookups17composition_table") {
        return F_COMPOSE;
    }
    if n.contains("4core3fmt5floatdNtB") {
        return F_FMTF;
    }
    if n.contains("unicode_normalization7lookups25canonical_combining_class") || n.contains("unicode_normalization7lookups17is_combining_mark") {
        return F_CCC;
    }
    if n.starts_with("ferro_") {
        return match n {
            "ferro_sym" => F_SYM,
            "ferro_assume" => F_ASSUME,
            "ferro_assert" => F_ASSERT,
            "ferro_cover" => F_COVER,
            "ferro_observe" => F_OBSERVE,
            "ferro_concretize" => F_CONC,
            "ferro_live" => F_LIVE,
            "ferro_is_sym" => F_ISSYM,
            "ferro_symbolic" => F_SYMBOLIC,
            "ferro_stop" => F_STOP,
            "ferro_fail" => F_FAIL,
            _ => 0,
        };
    }
    match n {
        "memcpy" | "memmove" => return MEMCPY,
        "memset" => return MEMSET,
        "memcmp" => return MEMCMP,
        "bcmp" => return BCMP,
        "strlen" => return STRLEN,
        "malloc" => return C_MALLOC,
        "calloc" => return C_CALLOC,
        "realloc" => return C_REALLOC,
        "free" => return C_FREE,
        "abort" | "_exit" | "exit" => return ABORT,
        "__cxa_thread_atexit_impl" => return NOP,
        _ => {}
    }
    if libm1(n).is_some() {
        return LIBM1;
    }
    if libm2(n).is_some() {
        return LIBM2;
    }
    let has = |s: &str| n.contains(s);
    if has("7___rustc") {
        if n.ends_with("___rust_alloc") {
            return ALLOC;
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return ALLOC_Z;
        }
        if n.ends_with("___rust_dealloc") {
            return DEALLOC;
        }
        if n.ends_with("___rust_realloc") {
            return REALLOC;
        }
        if has("no_alloc_shim") {
            return NOP;
        }
        if has("rust_begin_unwind") || has("rust_panic") {
            return PANIC;
        }
    }
    if n.ends_with("9panicking9panic_fmt") || n.ends_with("9panicking18panic_nounwind_fmt") {
        return PANIC_FMT;
    }
    if has("9panicking") && (has("panic") || has("assert_failed") || has("unreachable_display")) && !has("panic_count") && !has("9panicking9panicking") {
        return PANIC;
    }
    if has("13expect_failed") || has("13unwrap_failed") || has("_index_fail") || has("16slice_error_fail") || has("18panic_access_error") || has("panic_already") || has("len_mismatch_fail") || has("18handle_alloc_error") || has("17capacity_overflow") || has("12handle_error") {
        return PANIC;
    }
    0
}

impl Engine {
    fn cu(&mut self, v: &Val) -> R<u64> {
        self.concretize(v, 64)
    }
    fn text_at(&mut self, p: &Val, n: &Val) -> String {
        if let (Val::C(p), Val::C(n)) = (p, n) {
            if *n <= 4096 && *p > 4096 {
                if let Some(b) = self.st.mem.read_conc(*p, *n) {
                    if let Ok(s) = String::from_utf8(b) {
                        return s;
                    }
                }
            }
        }
        String::new()
    }
    fn rd64(&mut self, a: u64) -> Option<u64> {
        if !self.st.mem.valid(a) {
            return None;
        }
        self.st.mem.read_conc(a, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
    }
    fn location(&mut self, v: Option<&Val>) -> String {
        let Some(Val::C(a)) = v else { return String::new() };
        if *a < 4096 || a % 8 != 0 {
            return String::new();
        }
        let (Some(f), Some(n), Some(lc)) = (self.rd64(*a), self.rd64(a + 8), self.rd64(a + 16)) else { return String::new() };
        if n > 400 || !self.st.mem.valid(f) {
            return String::new();
        }
        let s = self.text_at(&Val::C(f), &Val::C(n.saturating_sub(1)));
        if !s.contains(".rs") {
            return String::new();
        }
        let s = s.rsplit_once("/ws/").map(|x| x.1.to_string()).unwrap_or(s);
        format!("{s}:{}", lc as u32)
    }
    fn panic_text(&mut self, name: &str, fmt: bool, args: &[Val]) -> String {
        let loc = self.location(args.last());
        let mut msg = String::new();
        if fmt && args.len() >= 2 {
            // fmt::Arguments: (template, args | static-string marker)
            if let (Val::C(p), Val::C(n)) = (&args[0], &args[1]) {
                if n & 1 == 1 {
                    msg = self.text_at(&Val::C(*p), &Val::C(n >> 1));
                } else if self.st.mem.valid(*p) {
                    // length-prefixed literal pieces: print the printable head
                    if let Some(b) = self.st.mem.read_conc(*p, 60) {
                        let n = b[0] as usize;
                        if n > 0 && n < 60 {
                            msg = String::from_utf8_lossy(&b[1..1 + n.min(59)]).into_owned();
                        }
                    }
                }
            }
        } else if args.len() >= 2 {
            msg = self.text_at(&args[0], &args[1]);
        }
        if msg.is_empty() {
            msg = crate::exec::pretty(name).rsplit("::").next().unwrap_or("panic").to_string();
        }
        if loc.is_empty() {
            msg
        } else {
            format!("{msg} at {loc}")
        }
    }
    fn stub(&mut self, name: &'static str, x: ExprId, y: ExprId) -> R<ExprId> {
        if let Some(t) = self.st.stubs.iter().find(|t| t.0 == name && t.1 == x && t.2 == y) {
            return Ok(t.3);
        }
        let e = self.var(64, false);
        self.st.stubs.push((name, x, y, e));
        self.rep.stubs.insert(name.to_string());
        // what the C standard promises about the result, as facts over the bits
        const ABS: u128 = 0x7fff_ffff_ffff_ffff;
        const INF: u128 = 0x7ff0_0000_0000_0000;
        const ONE: u128 = 0x3ff0_0000_0000_0000;
        let not_nan = |s: &mut Self, v: ExprId| s.abs_le(v, INF);
        let finite = |s: &mut Self, v: ExprId| s.abs_le(v, INF - 1);
        let non_neg = |s: &mut Self, v: ExprId| {
            let k = s.ar.konst(64, INF);
            let a = s.ar.bin(E::Ule, v, k);
            let z = s.ar.konst(64, ABS + 1);
            let b = s.ar.bin(E::Eq, v, z);
            s.ar.bin(E::Or, a, b)
        };
        let (pre, post) = match name {
            "sin" | "cos" => (finite(self, x), self.abs_le(e, ONE)),
            "tan" => (finite(self, x), finite(self, e)),
            "atan" | "tanh" | "asinh" | "cbrt" => {
                // finite for finite arguments
                (finite(self, x), finite(self, e))
            }
            "sinh" | "cosh" | "exp" | "exp2" | "expm1" => (not_nan(self, x), not_nan(self, e)),
            "asin" | "acos" => (self.abs_le(x, ONE), finite(self, e)),
            "atanh" => (self.abs_le(x, ONE), not_nan(self, e)),
            "log" | "log2" | "log10" => (non_neg(self, x), not_nan(self, e)),
            "atan2" | "hypot" => {
                let (a, b) = (not_nan(self, x), not_nan(self, y));
                (self.ar.bin(E::And, a, b), not_nan(self, e))
            }
            "pow" => {
                let (a, b, c) = (non_neg(self, x), not_nan(self, x), not_nan(self, y));
                let a = self.ar.bin(E::And, a, b);
                (self.ar.bin(E::And, a, c), not_nan(self, e))
            }
            _ => return Ok(e),
        };
        let t = self.ar.konst(1, 1);
        let np = self.ar.bin(E::Xor, pre, t);
        let f = self.ar.bin(E::Or, np, post);
        self.assume(f)?;
        Ok(e)
    }
    /// the magnitude's bits are at most `k`
    fn abs_le(&mut self, v: ExprId, k: u128) -> ExprId {
        let m = self.ar.konst(64, 0x7fff_ffff_ffff_ffff);
        let v = self.ar.bin(E::And, v, m);
        let k = self.ar.konst(64, k);
        self.ar.bin(E::Ule, v, k)
    }
    fn var(&mut self, w: u32, input: bool) -> ExprId {
        let idx = self.st.vars.len() as u32;
        let e = self.ar.var(w, idx);
        self.st.vars.push((e, w, input));
        e
    }
    fn cmpsel(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let c = self.icmp(p, w, a, b);
        match c {
            Val::C(x) => {
                if x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            ref cv => {
                let (e, x, y) = (self.ex(cv, 1), self.ex(a, w), self.ex(b, w));
                let r = self.ar.ite(e, x, y);
                self.val(r)
            }
        }
    }
    /// (result, overflow)
    fn overflow(&mut self, sp: i32, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        let m = ones(w);
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (ua, ub) = (*x as u128, *y as u128);
                let (sa, sb) = (sx(*x, w) as i128, sx(*y, w) as i128);
                let (r, o) = match sp {
                    UADDO => (ua + ub, ua + ub > m),
                    USUBO => (ua.wrapping_sub(ub), ub > ua),
                    UMULO => (ua * ub, ua * ub > m),
                    _ => {
                        let r = match sp {
                            SADDO => sa + sb,
                            SSUBO => sa - sb,
                            _ => sa * sb,
                        };
                        let lo = -(1i128 << (w - 1));
                        let hi = (1i128 << (w - 1)) - 1;
                        (r as u128, r < lo || r > hi)
                    }
                };
                return Ok((Val::C((r & m) as u64), Val::C(o as u64)));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let sign = |s: &mut Self, e: ExprId| s.ar.extract(e, w - 1, 1);
        let (r, o) = match sp {
            UADDO => {
                let r = self.ar.bin(E::Add, x, y);
                (r, self.ar.bin(E::Ult, r, x))
            }
            USUBO => {
                let r = self.ar.bin(E::Sub, x, y);
                (r, self.ar.bin(E::Ult, x, y))
            }
            SADDO => {
                let r = self.ar.bin(E::Add, x, y);
                let p = self.ar.bin(E::Xor, x, r);
                let q = self.ar.bin(E::Xor, y, r);
                let t = self.ar.bin(E::And, p, q);
                (r, sign(self, t))
            }
            SSUBO => {
                let r = self.ar.bin(E::Sub, x, y);
                let p = self.ar.bin(E::Xor, x, y);
                let q = self.ar.bin(E::Xor, x, r);
                let t = self.ar.bin(E::And, p, q);
                (r, sign(self, t))
            }
            _ => {
                if w > 64 {
                    return Err(Stop::Unsupported("128-bit multiply overflow".into()));
                }
                let r = self.ar.bin(E::Mul, x, y);
                let (v, k) = if self.ar.as_const(y).is_some() { (x, y) } else { (y, x) };
                let o = if let Some(c) = self.ar.as_const(k) {
                    if sp == UMULO {
                        if c == 0 {
                            self.ar.f()
                        } else {
                            let lim = self.ar.konst(w, m / c);
                            self.ar.bin(E::Ult, lim, v)
                        }
                    } else {
                        let c = crate::expr::sext(c, w);
                        let lo = -(1i128 << (w - 1));
                        let hi = (1i128 << (w - 1)) - 1;
                        if c == 0 || c == 1 {
                            self.ar.f()
                        } else {
                            // v*c in [lo,hi]
                            let (l, h) = if c > 0 {
                                (-((-lo) / c), hi / c)
                            } else {
                                // v in [ceil(hi/c), floor(lo/c)]
                                (-(hi / -c), (-lo) / -c)
                            };
                            let kl = self.ar.konst(w, (l as u128) & m);
                            let o1 = self.ar.bin(E::Slt, v, kl);
                            if h > hi {
                                o1
                            } else {
                                let kh = self.ar.konst(w, (h as u128) & m);
                                let o2 = self.ar.bin(E::Slt, kh, v);
                                self.ar.bin(E::Or, o1, o2)
                            }
                        }
                    }
                } else {
                    let (ex, ey) = if sp == UMULO { (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w)) } else { (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w)) };
                    let p = self.ar.bin(E::Mul, ex, ey);
                    let back = if sp == UMULO { self.ar.zext(r, 2 * w) } else { self.ar.sext(r, 2 * w) };
                    let q = self.ar.bin(E::Eq, p, back);
                    self.ar.not(q)
                };
                (r, o)
            }
        };
        Ok((self.val(r), self.val(o)))
    }

    fn alloc(&mut self, size: u64, align: u64, zero: bool) -> R<Val> {
        let a = self.st.mem.malloc(size, align).map_err(Stop::Limit)?;
        if zero {
            self.st.mem.set(a, 0, size).map_err(Stop::Mem)?;
        }
        Ok(Val::C(a))
    }

    pub fn special(&mut self, sp: i32, id: u32, args: Vec<Val>, c: &CallI) -> R<Option<Val>> {
        let w = self.prog.types.width(c.ret);
        let name: &'static str = self.prog.link.syms[id as usize].name;
        let aw = c.argw.first().copied().unwrap_or(0);
        let ok = |v: Val| -> R<Option<Val>> { Ok(Some(v)) };
        match sp {
            NOP => Ok(Some(Val::C(0))),
            MEMCPY => {
                let n = self.cu(&args[2])?;
                let (d, s) = (self.cu(&args[0])?, self.cu(&args[1])?);
                if n > 0 {
                    if n > 1 << 28 {
                        return Err(Stop::Mem(format!("memcpy of {n} bytes")));
                    }
                    self.st.mem.copy(d, s, n).map_err(Stop::Mem)?;
                }
                ok(Val::C(d))
            }
            MEMSET => {
                let n = self.cu(&args[2])?;
                let d = self.cu(&args[0])?;
                if n > 0 {
                    match &args[1] {
                        Val::C(v) => self.st.mem.set(d, *v as u8, n).map_err(Stop::Mem)?,
                        v => {
                            let wv = c.argw[1];
                            let e = self.ex(v, wv);
                            let e = self.ar.extract(e, 0, 8);
                            for k in 0..n {
                                self.st.mem.store_e(&mut self.ar, d + k, e, 1).map_err(Stop::Mem)?;
                            }
                        }
                    }
                }
                ok(Val::C(d))
            }
            MEMCMP | BCMP => {
                let n = self.cu(&args[2])?;
                let (a, b) = (self.cu(&args[0])?, self.cu(&args[1])?);
                if n == 0 {
                    return ok(Val::C(0));
                }
                if n > 1 << 20 {
                    return Err(Stop::Limit("memcmp length".into()));
                }
                if let (Some(x), Some(y)) = (self.st.mem.read_conc(a, n), self.st.mem.read_conc(b, n)) {
                    let r: i32 = match x.cmp(&y) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return ok(Val::C(r as u32 as u64));
                }
                if n > 256 {
                    return Err(Stop::Limit("symbolic memcmp length".into()));
                }
                let mut r = self.ar.konst(32, 0);
                let neg = self.ar.konst(32, 0xffff_ffff);
                let pos = self.ar.konst(32, 1);
                for k in (0..n).rev() {
                    let x = self.st.mem.byte_expr(&mut self.ar, a + k).map_err(Stop::Mem)?;
                    let y = self.st.mem.byte_expr(&mut self.ar, b + k).map_err(Stop::Mem)?;
                    let eq = self.ar.bin(E::Eq, x, y);
                    if sp == BCMP {
                        r = self.ar.ite(eq, r, pos);
                    } else {
                        let lt = self.ar.bin(E::Ult, x, y);
                        let d = self.ar.ite(lt, neg, pos);
                        r = self.ar.ite(eq, r, d);
                    }
                }
                ok(self.val(r))
            }
            STRLEN => {
                let a = self.cu(&args[0])?;
                let mut n = 0;
                loop {
                    let b = self.load(a + n, 1, 8)?;
                    if self.concretize(&b, 8)? == 0 {
                        return ok(Val::C(n));
                    }
                    n += 1;
                }
            }
            ALLOC | ALLOC_Z => {
                let (s, a) = (self.cu(&args[0])?, self.cu(&args[1])?);
                let v = self.alloc(s, a, sp == ALLOC_Z)?;
                ok(v)
            }
            C_MALLOC | C_CALLOC => {
                let mut s = self.cu(&args[0])?;
                if sp == C_CALLOC {
                    s *= self.cu(&args[1])?;
                }
                let v = self.alloc(s, 16, sp == C_CALLOC)?;
                ok(v)
            }
            DEALLOC => {
                let (p, s) = (self.cu(&args[0])?, self.cu(&args[1])?);
                self.st.mem.free(p, Some(s)).map_err(Stop::Mem)?;
                Ok(None)
            }
            C_FREE => {
                let p = self.cu(&args[0])?;
                if p != 0 {
                    self.st.mem.free(p, None).map_err(Stop::Mem)?;
                }
                Ok(None)
            }
            REALLOC => {
                let (p, old, al, new) = (self.cu(&args[0])?, self.cu(&args[1])?, self.cu(&args[2])?, self.cu(&args[3])?);
                if Mem::in_heap(p) && self.st.mem.size_of(p) != Some(old) {
                    return Err(Stop::Mem(format!("realloc with a wrong size at {p:#x}")));
                }
                let v = self.alloc(new, al, false)?;
                let Val::C(d) = v else { unreachable!() };
                if old.min(new) > 0 {
                    self.st.mem.copy(d, p, old.min(new)).map_err(Stop::Mem)?;
                }
                self.st.mem.free(p, Some(old)).map_err(Stop::Mem)?;
                ok(v)
            }
            C_REALLOC => Err(Stop::Unsupported("libc realloc".into())),
            PANIC_FMT | PANIC => {
                let s = self.panic_text(name, sp == PANIC_FMT, &args);
                Err(Stop::Panic(s))
            }
            ABORT => Err(Stop::Panic(format!("{name} called"))),
            IDENT => ok(args[0].clone()),
            ISCONST => ok(Val::C(0)),
            LOADREL => {
                let (p, o) = (self.cu(&args[0])?, args[1].clone());
                let o = self.cu(&o)?;
                let v = self.load(p.wrapping_add(o), 4, 32)?;
                let v = self.concretize(&v, 32)?;
                ok(Val::C(p.wrapping_add(v as u32 as i32 as i64 as u64)))
            }
            CTTZ | CTLZ | CTPOP | BSWAP | BITREV if w > 0 => {
                if let Val::C(x) = args[0] {
                    let r = match sp {
                        CTTZ => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        CTLZ => (x.leading_zeros() - (64 - w)) as u64,
                        CTPOP => x.count_ones() as u64,
                        BSWAP => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    return ok(Val::C(r));
                }
                let x = self.ex(&args[0], w);
                let r = match sp {
                    CTTZ | CTLZ => {
                        let mut r = self.ar.konst(w, w as u128);
                        for k in 0..w {
                            let bit = if sp == CTTZ { w - 1 - k } else { k };
                            let b = self.ar.extract(x, bit, 1);
                            let v = if sp == CTTZ { bit } else { w - 1 - bit };
                            let kv = self.ar.konst(w, v as u128);
                            r = self.ar.ite(b, kv, r);
                        }
                        r
                    }
                    CTPOP => {
                        let mut r = self.ar.konst(w, 0);
                        for k in 0..w {
                            let b = self.ar.extract(x, k, 1);
                            let z = self.ar.zext(b, w);
                            r = self.ar.bin(E::Add, r, z);
                        }
                        r
                    }
                    _ => {
                        let g = if sp == BSWAP { 8 } else { 1 };
                        let mut r = self.ar.extract(x, 0, g);
                        let mut k = g;
                        while k < w {
                            let b = self.ar.extract(x, k, g);
                            r = self.ar.concat(r, b);
                            k += g;
                        }
                        r
                    }
                };
                ok(self.val(r))
            }
            FSHL | FSHR if w > 0 && w.is_power_of_two() => {
                let sv = self.ex(&args[2], w);
                let mk = self.ar.konst(w, (w - 1) as u128);
                let s = self.ar.bin(E::And, sv, mk);
                let (a, b) = (self.ex(&args[0], w), self.ex(&args[1], w));
                let zero = self.ar.konst(w, 0);
                let wk = self.ar.konst(w, w as u128);
                let is0 = self.ar.bin(E::Eq, s, zero);
                let inv = self.ar.bin(E::Sub, wk, s);
                let (r, z) = if sp == FSHL {
                    let p = self.ar.bin(E::Shl, a, s);
                    let q = self.ar.bin(E::LShr, b, inv);
                    (self.ar.bin(E::Or, p, q), a)
                } else {
                    let p = self.ar.bin(E::LShr, b, s);
                    let q = self.ar.bin(E::Shl, a, inv);
                    (self.ar.bin(E::Or, p, q), b)
                };
                let r = self.ar.ite(is0, z, r);
                ok(self.val(r))
            }
            UMIN if w > 0 => ok(self.cmpsel(Pred::Ult, w, &args[0], &args[1])),
            UMAX if w > 0 => ok(self.cmpsel(Pred::Ugt, w, &args[0], &args[1])),
            SMIN if w > 0 => ok(self.cmpsel(Pred::Slt, w, &args[0], &args[1])),
            SMAX if w > 0 => ok(self.cmpsel(Pred::Sgt, w, &args[0], &args[1])),
            ABS if w > 0 => {
                let z = wval(w, 0);
                let n = self.binop(BinOp::Sub, w, &z, &args[0])?;
                let c = self.icmp(Pred::Slt, w, &args[0], &z);
                let (e, x, y) = (self.ex(&c, 1), self.ex(&n, w), self.ex(&args[0], w));
                let r = self.ar.ite(e, x, y);
                ok(self.val(r))
            }
            UADDO..=SMULO if aw > 0 => {
                let (r, o) = self.overflow(sp, aw, &args[0], &args[1])?;
                ok(Val::A(Rc::new(vec![r, o])))
            }
            UADDS | USUBS | SADDS | SSUBS if w > 0 => {
                let base = match sp {
                    UADDS => UADDO,
                    USUBS => USUBO,
                    SADDS => SADDO,
                    _ => SSUBO,
                };
                let (r, o) = self.overflow(base, w, &args[0], &args[1])?;
                let lim = match sp {
                    UADDS => self.ar.konst(w, ones(w)),
                    USUBS => self.ar.konst(w, 0),
                    _ => {
                        let x = self.ex(&args[0], w);
                        let s = self.ar.extract(x, w - 1, 1);
                        let mn = self.ar.konst(w, 1u128 << (w - 1));
                        let mx = self.ar.konst(w, ones(w) >> 1);
                        self.ar.ite(s, mn, mx)
                    }
                };
                let (oe, re) = (self.ex(&o, 1), self.ex(&r, w));
                let v = self.ar.ite(oe, lim, re);
                ok(self.val(v))
            }
            UCMP | SCMP if w > 0 && aw > 0 => {
                let (pl, pg) = if sp == UCMP { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(pl, aw, &args[0], &args[1]);
                let g = self.icmp(pg, aw, &args[0], &args[1]);
                let (le, ge) = (self.ex(&l, 1), self.ex(&g, 1));
                let one = self.ar.konst(w, 1);
                let zero = self.ar.konst(w, 0);
                let neg = self.ar.konst(w, ones(w));
                let t = self.ar.ite(ge, one, zero);
                let r = self.ar.ite(le, neg, t);
                ok(self.val(r))
            }
            FABS if w > 0 => {
                let x = self.ex(&args[0], w);
                let m = self.ar.konst(w, ones(w) >> 1);
                let r = self.ar.bin(E::And, x, m);
                ok(self.val(r))
            }
            COPYSIGN if w > 0 => {
                let (x, y) = (self.ex(&args[0], w), self.ex(&args[1], w));
                let lo = self.ar.extract(x, 0, w - 1);
                let s = self.ar.extract(y, w - 1, 1);
                let r = self.ar.concat(s, lo);
                ok(self.val(r))
            }
            FROUND | FCEIL | FFLOOR | FTRUNC | FROUNDA if w > 0 => {
                let mode = match sp {
                    FROUND => 0,
                    FCEIL => 1,
                    FFLOOR => 2,
                    FTRUNC => 3,
                    _ => 4,
                };
                let x = self.ex(&args[0], w);
                let r = self.ar.un(E::FRound, w, x, mode);
                ok(self.val(r))
            }
            FSQRT if w > 0 => {
                let x = self.ex(&args[0], w);
                let r = self.ar.un(E::FSqrt, w, x, 0);
                ok(self.val(r))
            }
            FMIN | FMAX if w > 0 => {
                let (a, b) = (self.ex(&args[0], w), self.ex(&args[1], w));
                let na = self.ar.un(E::FIsNan, 1, a, 0);
                let nb = self.ar.un(E::FIsNan, 1, b, 0);
                let lt = if sp == FMIN { self.ar.bin(E::FLt, a, b) } else { self.ar.bin(E::FLt, b, a) };
                let t = self.ar.ite(lt, a, b);
                let u = self.ar.ite(nb, a, t);
                let r = self.ar.ite(na, b, u);
                ok(self.val(r))
            }
            FTOSI | FTOUI if w > 0 && w <= 64 && aw == 64 => {
                let x = self.ex(&args[0], 64);
                let (lo, hi, lov, hiv) = if sp == FTOSI {
                    let p = (2f64).powi(w as i32 - 1);
                    (-p, p, 1u128 << (w - 1), ones(w) >> 1)
                } else {
                    (0.0, (2f64).powi(w as i32), 0, ones(w))
                };
                let kl = self.ar.konst(64, lo.to_bits() as u128);
                let kh = self.ar.konst(64, hi.to_bits() as u128);
                let nan = self.ar.un(E::FIsNan, 1, x, 0);
                let under = self.ar.bin(E::FLt, x, kl);
                let over = self.ar.bin(E::FLe, kh, x);
                let zero = self.ar.konst(w, 0);
                let l = self.ar.konst(w, lov);
                let h = self.ar.konst(w, hiv);
                let cv = self.ar.un(if sp == FTOSI { E::FToSI } else { E::FToUI }, w, x, 0);
                let r = self.ar.ite(over, h, cv);
                let r = self.ar.ite(under, l, r);
                let r = self.ar.ite(nan, zero, r);
                ok(self.val(r))
            }
            FPCLASS if aw == 64 || aw == 32 => {
                let (eb, mb) = if aw == 64 { (11, 52) } else { (8, 23) };
                let mask = self.cu(&args[1])?;
                let x = self.ex(&args[0], aw);
                let sign = self.ar.extract(x, aw - 1, 1);
                let ex = self.ar.extract(x, mb, eb);
                let man = self.ar.extract(x, 0, mb);
                let q = self.ar.extract(x, mb - 1, 1);
                let e0k = self.ar.konst(eb, 0);
                let e1k = self.ar.konst(eb, ones(eb));
                let m0k = self.ar.konst(mb, 0);
                let e0 = self.ar.bin(E::Eq, ex, e0k);
                let e1 = self.ar.bin(E::Eq, ex, e1k);
                let m0 = self.ar.bin(E::Eq, man, m0k);
                let ns = self.ar.not(sign);
                let ne0 = self.ar.not(e0);
                let ne1 = self.ar.not(e1);
                let nm0 = self.ar.not(m0);
                let nq = self.ar.not(q);
                let mut acc = self.ar.f();
                for bit in 0..10 {
                    if mask >> bit & 1 == 0 {
                        continue;
                    }
                    let parts: Vec<ExprId> = match bit {
                        0 => vec![e1, nm0, nq],
                        1 => vec![e1, q],
                        2 => vec![e1, m0, sign],
                        3 => vec![ne0, ne1, sign],
                        4 => vec![e0, nm0, sign],
                        5 => vec![e0, m0, sign],
                        6 => vec![e0, m0, ns],
                        7 => vec![e0, nm0, ns],
                        8 => vec![ne0, ne1, ns],
                        _ => vec![e1, m0, ns],
                    };
                    let mut t = parts[0];
                    for p in &parts[1..] {
                        t = self.ar.bin(E::And, t, *p);
                    }
                    acc = self.ar.bin(E::Or, acc, t);
                }
                ok(self.val(acc))
            }
            LIBM1 => {
                if let Val::C(x) = args[0] {
                    let f = libm1(libm_name(name)).unwrap();
                    return ok(Val::C(unsafe { f(f64::from_bits(x)) }.to_bits()));
                }
                // the C library is outside the program: any double may come back
                let x = self.ex(&args[0], 64);
                ok(Val::S(self.stub(libm_name(name), x, x)?))
            }
            LIBM2 => {
                if let (Val::C(x), Val::C(y)) = (&args[0], &args[1]) {
                    let f = libm2(libm_name(name)).unwrap();
                    return ok(Val::C(unsafe { f(f64::from_bits(*x), f64::from_bits(*y)) }.to_bits()));
                }
                let (x, y) = (self.ex(&args[0], 64), self.ex(&args[1], 64));
                ok(Val::S(self.stub(libm_name(name), x, y)?))
            }
            F_SYM => {
                let bits = self.cu(&args[0])? as u32;
                let e = self.var(bits, true);
                let e = self.ar.zext(e, 64);
                ok(Val::S(e))
            }
            F_ASSUME => {
                match &args[0] {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => {}
                    v => {
                        let x = self.ex(v, aw);
                        let z = self.ar.konst(aw, 0);
                        let q = self.ar.bin(E::Eq, x, z);
                        let e = self.ar.not(q);
                        self.assume(e)?
                    }
                }
                Ok(None)
            }
            F_ASSERT => {
                let m = self.text_at(&args[1], &args[2]);
                let v = args[0].clone();
                self.assert_cond(&v, m)?;
                Ok(None)
            }
            F_FAIL => {
                let m = self.text_at(&args[0], &args[1]);
                self.assert_cond(&Val::C(0), m)?;
                Ok(None)
            }
            F_COVER => {
                let t = self.cu(&args[0])? as u32;
                if !self.st.covers.contains(&t) {
                    self.st.covers.push(t);
                }
                Ok(None)
            }
            F_OBSERVE => {
                let t = self.cu(&args[0])? as u32;
                self.st.trace.push((t, args[1].clone(), 64));
                Ok(None)
            }
            F_CONC => {
                let v = self.cu(&args[0])?;
                ok(Val::C(v))
            }
            F_LIVE => ok(Val::C(self.st.mem.live as u64)),
            F_ISSYM => ok(Val::C(!matches!(args[0], Val::C(_)) as u64)),
            F_SYMBOLIC => ok(Val::C(1)),
            F_STOP => Err(Stop::Done),
            _ => Err(Stop::Unsupported(format!("intrinsic {name}"))),
        }
    }
}
