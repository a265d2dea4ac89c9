//! Z3 through its C API, loaded with dlopen. One context per worker process.
use crate::expr::*;
use crate::fx::FxHashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Result<Api, String> {
                Ok(Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { return Err(format!("missing {}", stringify!($name))); }
                    std::mem::transmute(p)
                },)* })
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> *mut c_void;
    Z3_mk_context_rc: fn(*mut c_void) -> Ctx;
    Z3_del_context: fn(Ctx);
    Z3_set_error_handler: fn(Ctx, *const c_void);
    Z3_inc_ref: fn(Ctx, Ast);
    Z3_get_full_version: fn() -> *const c_char;
    Z3_mk_bv_sort: fn(Ctx, c_uint) -> *mut c_void;
    Z3_mk_fpa_sort_64: fn(Ctx) -> *mut c_void;
    Z3_mk_fpa_sort_32: fn(Ctx) -> *mut c_void;
    Z3_mk_int_symbol: fn(Ctx, c_int) -> *mut c_void;
    Z3_mk_string_symbol: fn(Ctx, *const c_char) -> *mut c_void;
    Z3_mk_const: fn(Ctx, *mut c_void, *mut c_void) -> Ast;
    Z3_mk_unsigned_int64: fn(Ctx, u64, *mut c_void) -> Ast;
    Z3_mk_true: fn(Ctx) -> Ast;
    Z3_mk_false: fn(Ctx) -> Ast;
    Z3_mk_not: fn(Ctx, Ast) -> Ast;
    Z3_mk_eq: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_ite: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_xor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_and: fn(Ctx, c_uint, *const Ast) -> Ast;
    Z3_mk_or: fn(Ctx, c_uint, *const Ast) -> Ast;
    Z3_mk_bvadd: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsub: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvmul: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvudiv: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsdiv: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvurem: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsrem: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvshl: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvlshr: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvashr: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvand: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvxor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvult: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvule: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvslt: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsle: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_concat: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_extract: fn(Ctx, c_uint, c_uint, Ast) -> Ast;
    Z3_mk_zero_ext: fn(Ctx, c_uint, Ast) -> Ast;
    Z3_mk_sign_ext: fn(Ctx, c_uint, Ast) -> Ast;
    Z3_mk_fpa_to_fp_bv: fn(Ctx, Ast, *mut c_void) -> Ast;
    Z3_mk_fpa_to_ieee_bv: fn(Ctx, Ast) -> Ast;
    Z3_mk_fpa_rne: fn(Ctx) -> Ast;
    Z3_mk_fpa_rna: fn(Ctx) -> Ast;
    Z3_mk_fpa_rtp: fn(Ctx) -> Ast;
    Z3_mk_fpa_rtn: fn(Ctx) -> Ast;
    Z3_mk_fpa_rtz: fn(Ctx) -> Ast;
    Z3_mk_fpa_add: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_fpa_sub: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_fpa_mul: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_fpa_div: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_fpa_sqrt: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_fpa_round_to_integral: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_fpa_eq: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_fpa_lt: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_fpa_leq: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_fpa_is_nan: fn(Ctx, Ast) -> Ast;
    Z3_mk_fpa_to_sbv: fn(Ctx, Ast, Ast, c_uint) -> Ast;
    Z3_mk_fpa_to_ubv: fn(Ctx, Ast, Ast, c_uint) -> Ast;
    Z3_mk_fpa_to_fp_signed: fn(Ctx, Ast, Ast, *mut c_void) -> Ast;
    Z3_mk_fpa_to_fp_unsigned: fn(Ctx, Ast, Ast, *mut c_void) -> Ast;
    Z3_mk_fpa_to_fp_float: fn(Ctx, Ast, Ast, *mut c_void) -> Ast;
    Z3_mk_simple_solver: fn(Ctx) -> *mut c_void;
    Z3_mk_solver_for_logic: fn(Ctx, *mut c_void) -> *mut c_void;
    Z3_solver_inc_ref: fn(Ctx, *mut c_void);
    Z3_solver_dec_ref: fn(Ctx, *mut c_void);
    Z3_solver_push: fn(Ctx, *mut c_void);
    Z3_solver_pop: fn(Ctx, *mut c_void, c_uint);
    Z3_solver_assert: fn(Ctx, *mut c_void, Ast);
    Z3_solver_check: fn(Ctx, *mut c_void) -> c_int;
    Z3_solver_get_model: fn(Ctx, *mut c_void) -> *mut c_void;
    Z3_solver_set_params: fn(Ctx, *mut c_void, *mut c_void);
    Z3_model_inc_ref: fn(Ctx, *mut c_void);
    Z3_model_dec_ref: fn(Ctx, *mut c_void);
    Z3_model_eval: fn(Ctx, *mut c_void, Ast, bool, *mut Ast) -> bool;
    Z3_get_numeral_string: fn(Ctx, Ast) -> *const c_char;
    Z3_mk_params: fn(Ctx) -> *mut c_void;
    Z3_params_inc_ref: fn(Ctx, *mut c_void);
    Z3_params_dec_ref: fn(Ctx, *mut c_void);
    Z3_params_set_uint: fn(Ctx, *mut c_void, *mut c_void, c_uint);
    Z3_get_error_code: fn(Ctx) -> c_int;
    Z3_benchmark_to_smtlib_string: fn(Ctx, *const c_char, *const c_char, *const c_char, *const c_char, c_uint, *const Ast, Ast) -> *const c_char;
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub us: u64,
    pub max_us: u64,
}

pub struct Solver {
    z: &'static Api,
    c: Ctx,
    s: *mut c_void,
    tv: FxHashMap<ExprId, Ast>,
    tb: FxHashMap<ExprId, Ast>,
    tf: FxHashMap<ExprId, Ast>,
    cache: FxHashMap<Vec<ExprId>, Option<Option<Vec<(u32, u128)>>>>,
    pub stats: SolverStats,
    pub timeout_ms: u32,
    pub dump: Option<Vec<String>>,
    pub dump_every: u64,
}

unsafe extern "C" fn err_handler(_c: Ctx, _e: c_int) {}

static mut API: Option<Api> = None;
pub fn version() -> String {
    unsafe { CStr::from_ptr(((*api()).Z3_get_full_version)()).to_string_lossy().into_owned() }
}
pub fn api() -> &'static Api {
    unsafe {
        let slot = &mut *std::ptr::addr_of_mut!(API);
        if slot.is_none() {
            let cands = [
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
                "libz3.so.4",
                "libz3.so",
                "/usr/lib/x86_64-linux-gnu/libz3.so",
            ];
            let mut last = String::new();
            for c in cands {
                let cs = CString::new(c).unwrap();
                let h = dlopen(cs.as_ptr(), 2);
                if h.is_null() {
                    last = CStr::from_ptr(dlerror()).to_string_lossy().into_owned();
                    continue;
                }
                match Api::load(h) {
                    Ok(a) => {
                        *slot = Some(a);
                        break;
                    }
                    Err(e) => last = e,
                }
            }
            if slot.is_none() {
                panic!("cannot load libz3: {last}");
            }
        }
        slot.as_ref().unwrap()
    }
}

impl Solver {
    pub fn new() -> Solver {
        let z = api();
        unsafe {
            let cfg = (z.Z3_mk_config)();
            let c = (z.Z3_mk_context_rc)(cfg);
            (z.Z3_set_error_handler)(c, err_handler as *const c_void);
            let s = (z.Z3_mk_simple_solver)(c);
            (z.Z3_solver_inc_ref)(c, s);
            Solver {
                z,
                c,
                s,
                tv: Default::default(),
                tb: Default::default(),
                tf: Default::default(),
                cache: Default::default(),
                stats: Default::default(),
                timeout_ms: 10_000,
                dump: None,
                dump_every: 1,
            }
        }
    }
    pub fn reset(&mut self) {
        unsafe {
            (self.z.Z3_solver_dec_ref)(self.c, self.s);
            (self.z.Z3_del_context)(self.c);
            let cfg = (self.z.Z3_mk_config)();
            self.c = (self.z.Z3_mk_context_rc)(cfg);
            (self.z.Z3_set_error_handler)(self.c, err_handler as *const c_void);
            self.s = (self.z.Z3_mk_simple_solver)(self.c);
            (self.z.Z3_solver_inc_ref)(self.c, self.s);
        }
        self.tv.clear();
        self.tb.clear();
        self.tf.clear();
        self.cache.clear();
    }

    fn keep(&self, a: Ast) -> Ast {
        unsafe { (self.z.Z3_inc_ref)(self.c, a) };
        a
    }
    fn bvs(&self, w: u32) -> *mut c_void {
        self.keep(unsafe { (self.z.Z3_mk_bv_sort)(self.c, w) })
    }
    fn num(&self, w: u32, v: u128) -> Ast {
        unsafe {
            if w <= 64 {
                self.keep((self.z.Z3_mk_unsigned_int64)(self.c, v as u64, self.bvs(w)))
            } else {
                let lo = self.keep((self.z.Z3_mk_unsigned_int64)(self.c, v as u64, self.bvs(64)));
                let hi = self.keep((self.z.Z3_mk_unsigned_int64)(self.c, (v >> 64) as u64, self.bvs(w - 64)));
                self.keep((self.z.Z3_mk_concat)(self.c, hi, lo))
            }
        }
    }
    fn children(n: &Node) -> [Option<ExprId>; 3] {
        match n.op {
            Op::Const | Op::Var => [None; 3],
            Op::ZExt | Op::SExt | Op::Extract | Op::FSqrt | Op::FRound | Op::FIsNan | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FConv => [Some(n.a), None, None],
            Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            _ => [Some(n.a), Some(n.b), None],
        }
    }
    fn is_boolish(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan)
    }

    /// iterative post-order so deep DAGs do not overflow the stack
    fn prepare(&mut self, ar: &Arena, e: ExprId) {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            let n = ar.n(x);
            let have = if n.w == 1 { self.tb.contains_key(&x) } else { self.tv.contains_key(&x) };
            if have {
                continue;
            }
            if !done {
                st.push((x, true));
                for c in Self::children(&n).into_iter().flatten() {
                    st.push((c, false));
                }
            } else if n.w == 1 {
                let b = self.mk_bool(ar, x);
                self.tb.insert(x, b);
            } else {
                let v = self.mk_bv(ar, x);
                self.tv.insert(x, v);
            }
        }
    }
    fn b(&mut self, ar: &Arena, e: ExprId) -> Ast {
        if let Some(&a) = self.tb.get(&e) {
            return a;
        }
        self.prepare(ar, e);
        self.tb[&e]
    }
    fn v(&mut self, ar: &Arena, e: ExprId) -> Ast {
        if ar.w(e) == 1 {
            if let Some(&a) = self.tv.get(&e) {
                return a;
            }
            let b = self.b(ar, e);
            let one = self.num(1, 1);
            let zero = self.num(1, 0);
            let r = self.keep(unsafe { (self.z.Z3_mk_ite)(self.c, b, one, zero) });
            self.tv.insert(e, r);
            return r;
        }
        if let Some(&a) = self.tv.get(&e) {
            return a;
        }
        self.prepare(ar, e);
        self.tv[&e]
    }
    fn fsort(&self, w: u32) -> *mut c_void {
        self.keep(unsafe {
            if w == 64 {
                (self.z.Z3_mk_fpa_sort_64)(self.c)
            } else {
                (self.z.Z3_mk_fpa_sort_32)(self.c)
            }
        })
    }
    /// fp view of a bit-vector expression
    fn fp(&mut self, ar: &Arena, e: ExprId) -> Ast {
        if let Some(&a) = self.tf.get(&e) {
            return a;
        }
        let w = ar.w(e);
        let v = self.v(ar, e);
        // an ieee_bv(x) result already recorded its fp term in tf, so this is a plain bit-vector
        let r = self.keep(unsafe { (self.z.Z3_mk_fpa_to_fp_bv)(self.c, v, self.fsort(w)) });
        self.tf.insert(e, r);
        r
    }
    fn mk_bool(&mut self, ar: &Arena, e: ExprId) -> Ast {
        let n = ar.n(e);
        let (z, c) = (self.z, self.c);
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if ar.as_const(e) == Some(1) {
                        (z.Z3_mk_true)(c)
                    } else {
                        (z.Z3_mk_false)(c)
                    }
                }
                Op::Eq if ar.w(n.a) == 1 => {
                    let (a, b) = (self.b(ar, n.a), self.b(ar, n.b));
                    (z.Z3_mk_eq)(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                    (z.Z3_mk_eq)(c, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                    match n.op {
                        Op::Ult => (z.Z3_mk_bvult)(c, a, b),
                        Op::Ule => (z.Z3_mk_bvule)(c, a, b),
                        Op::Slt => (z.Z3_mk_bvslt)(c, a, b),
                        _ => (z.Z3_mk_bvsle)(c, a, b),
                    }
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    match n.op {
                        Op::FEq => (z.Z3_mk_fpa_eq)(c, a, b),
                        Op::FLt => (z.Z3_mk_fpa_lt)(c, a, b),
                        _ => (z.Z3_mk_fpa_leq)(c, a, b),
                    }
                }
                Op::FIsNan => {
                    let a = self.fp(ar, n.a);
                    (z.Z3_mk_fpa_is_nan)(c, a)
                }
                Op::And | Op::Or => {
                    let xs = [self.b(ar, n.a), self.b(ar, n.b)];
                    if n.op == Op::And {
                        (z.Z3_mk_and)(c, 2, xs.as_ptr())
                    } else {
                        (z.Z3_mk_or)(c, 2, xs.as_ptr())
                    }
                }
                Op::Xor => {
                    let (a, b) = (self.b(ar, n.a), self.b(ar, n.b));
                    if ar.as_const(n.b) == Some(1) {
                        (z.Z3_mk_not)(c, a)
                    } else {
                        (z.Z3_mk_xor)(c, a, b)
                    }
                }
                Op::Ite => {
                    let (x, a, b) = (self.b(ar, n.a), self.b(ar, n.b), self.b(ar, n.c));
                    (z.Z3_mk_ite)(c, x, a, b)
                }
                _ => {
                    let v = self.mk_bv(ar, e);
                    let one = self.num(1, 1);
                    (z.Z3_mk_eq)(c, v, one)
                }
            };
            self.keep(r)
        }
    }
    fn mk_bv(&mut self, ar: &Arena, e: ExprId) -> Ast {
        let n = ar.n(e);
        let (z, c) = (self.z, self.c);
        let w = n.w as u32;
        unsafe {
            let r = match n.op {
                Op::Const => return self.num(w, ar.as_const(e).unwrap()),
                Op::Var => {
                    let s = (z.Z3_mk_int_symbol)(c, (n.a as c_int) * 256 + w as c_int);
                    (z.Z3_mk_const)(c, s, self.bvs(w))
                }
                Op::ZExt => {
                    let a = self.v(ar, n.a);
                    (z.Z3_mk_zero_ext)(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.v(ar, n.a);
                    (z.Z3_mk_sign_ext)(c, w - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.v(ar, n.a);
                    (z.Z3_mk_extract)(c, n.b + w - 1, n.b, a)
                }
                Op::Ite => {
                    let x = self.b(ar, n.a);
                    let (a, b) = (self.v(ar, n.b), self.v(ar, n.c));
                    (z.Z3_mk_ite)(c, x, a, b)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let rm = self.keep((z.Z3_mk_fpa_rne)(c));
                    let f = match n.op {
                        Op::FAdd => (z.Z3_mk_fpa_add)(c, rm, a, b),
                        Op::FSub => (z.Z3_mk_fpa_sub)(c, rm, a, b),
                        Op::FMul => (z.Z3_mk_fpa_mul)(c, rm, a, b),
                        _ => (z.Z3_mk_fpa_div)(c, rm, a, b),
                    };
                    self.keep(f);
                    self.tf.insert(e, f);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f)
                }
                Op::FRem => {
                    // C fmod has no direct SMT-LIB counterpart; callers never build it symbolically
                    panic!("symbolic frem")
                }
                Op::FSqrt => {
                    let a = self.fp(ar, n.a);
                    let f = self.keep((z.Z3_mk_fpa_sqrt)(c, self.keep((z.Z3_mk_fpa_rne)(c)), a));
                    self.tf.insert(e, f);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f)
                }
                Op::FRound => {
                    let a = self.fp(ar, n.a);
                    let rm = match n.c {
                        0 => self.keep((z.Z3_mk_fpa_rne)(c)),
                        1 => self.keep((z.Z3_mk_fpa_rtp)(c)),
                        2 => self.keep((z.Z3_mk_fpa_rtn)(c)),
                        3 => self.keep((z.Z3_mk_fpa_rtz)(c)),
                        _ => self.keep((z.Z3_mk_fpa_rna)(c)),
                    };
                    let f = self.keep((z.Z3_mk_fpa_round_to_integral)(c, rm, a));
                    self.tf.insert(e, f);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f)
                }
                Op::FToSI | Op::FToUI => {
                    let a = self.fp(ar, n.a);
                    let rm = self.keep((z.Z3_mk_fpa_rtz)(c));
                    if n.op == Op::FToSI {
                        (z.Z3_mk_fpa_to_sbv)(c, rm, a, w)
                    } else {
                        (z.Z3_mk_fpa_to_ubv)(c, rm, a, w)
                    }
                }
                Op::SIToF | Op::UIToF => {
                    let a = self.v(ar, n.a);
                    let rm = self.keep((z.Z3_mk_fpa_rne)(c));
                    let f = if n.op == Op::SIToF { (z.Z3_mk_fpa_to_fp_signed)(c, rm, a, self.fsort(w)) } else { (z.Z3_mk_fpa_to_fp_unsigned)(c, rm, a, self.fsort(w)) };
                    self.keep(f);
                    self.tf.insert(e, f);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f)
                }
                Op::FConv => {
                    let a = self.fp(ar, n.a);
                    let f = self.keep((z.Z3_mk_fpa_to_fp_float)(c, self.keep((z.Z3_mk_fpa_rne)(c)), a, self.fsort(w)));
                    self.tf.insert(e, f);
                    (z.Z3_mk_fpa_to_ieee_bv)(c, f)
                }
                _ => {
                    let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                    match n.op {
                        Op::Add => (z.Z3_mk_bvadd)(c, a, b),
                        Op::Sub => (z.Z3_mk_bvsub)(c, a, b),
                        Op::Mul => (z.Z3_mk_bvmul)(c, a, b),
                        Op::UDiv => (z.Z3_mk_bvudiv)(c, a, b),
                        Op::SDiv => (z.Z3_mk_bvsdiv)(c, a, b),
                        Op::URem => (z.Z3_mk_bvurem)(c, a, b),
                        Op::SRem => (z.Z3_mk_bvsrem)(c, a, b),
                        Op::Shl => (z.Z3_mk_bvshl)(c, a, b),
                        Op::LShr => (z.Z3_mk_bvlshr)(c, a, b),
                        Op::AShr => (z.Z3_mk_bvashr)(c, a, b),
                        Op::And => (z.Z3_mk_bvand)(c, a, b),
                        Op::Or => (z.Z3_mk_bvor)(c, a, b),
                        Op::Xor => (z.Z3_mk_bvxor)(c, a, b),
                        Op::Concat => (z.Z3_mk_concat)(c, a, b),
                        o => panic!("mk_bv {o:?}"),
                    }
                }
            };
            self.keep(r)
        }
    }

    fn vars_of(&self, ar: &Arena, es: &[ExprId]) -> Vec<ExprId> {
        let mut seen = crate::fx::FxHashSet::default();
        let mut out = vec![];
        let mut st: Vec<ExprId> = es.to_vec();
        while let Some(x) = st.pop() {
            let n = ar.n(x);
            if n.mask == 0 || !seen.insert(x) {
                continue;
            }
            if n.op == Op::Var {
                out.push(x);
            }
            for c in Self::children(&n).into_iter().flatten() {
                st.push(c);
            }
        }
        out
    }

    fn set_timeout(&self, s: *mut c_void, ms: u32) {
        unsafe {
            let z = self.z;
            let p = (z.Z3_mk_params)(self.c);
            (z.Z3_params_inc_ref)(self.c, p);
            let n = CString::new("timeout").unwrap();
            let sy = (z.Z3_mk_string_symbol)(self.c, n.as_ptr());
            (z.Z3_params_set_uint)(self.c, p, sy, ms);
            (z.Z3_solver_set_params)(self.c, s, p);
            (z.Z3_params_dec_ref)(self.c, p);
        }
    }

    fn model(&mut self, ar: &Arena, s: *mut c_void, vars: &[ExprId]) -> Vec<(u32, u128)> {
        let z = self.z;
        let mut out = vec![];
        unsafe {
            let m = (z.Z3_solver_get_model)(self.c, s);
            (z.Z3_model_inc_ref)(self.c, m);
            for &v in vars {
                let a = self.v(ar, v);
                let mut r: Ast = std::ptr::null_mut();
                if (z.Z3_model_eval)(self.c, m, a, true, &mut r) && !r.is_null() {
                    (z.Z3_inc_ref)(self.c, r);
                    let s = (z.Z3_get_numeral_string)(self.c, r);
                    let val = if s.is_null() { None } else { CStr::from_ptr(s).to_str().ok().and_then(|x| x.parse::<u128>().ok()) };
                    out.push((ar.n(v).a, val.unwrap_or(0)));
                }
            }
            (z.Z3_model_dec_ref)(self.c, m);
        }
        out
    }

    /// Is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, ar: &Arena, cs: &[ExprId]) -> Res {
        let mut key = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                None => Res::Unknown,
                Some(None) => Res::Unsat,
                Some(Some(m)) => Res::Sat(m.clone()),
            };
        }
        let t0 = std::time::Instant::now();
        self.stats.queries += 1;
        let z = self.z;
        let asts: Vec<Ast> = key.iter().map(|&e| self.b(ar, e)).collect();
        let fp = key.iter().any(|&e| ar.has_fp[e as usize]);
        let vars = self.vars_of(ar, &key);
        let mut res = Res::Unknown;
        unsafe {
            if !fp {
                let first = self.timeout_ms.min(1500);
                self.set_timeout(self.s, first);
                (z.Z3_solver_push)(self.c, self.s);
                for &a in &asts {
                    (z.Z3_solver_assert)(self.c, self.s, a);
                }
                match (z.Z3_solver_check)(self.c, self.s) {
                    1 => res = Res::Sat(self.model(ar, self.s, &vars)),
                    -1 => res = Res::Unsat,
                    _ => {}
                }
                (z.Z3_solver_pop)(self.c, self.s, 1);
            }
            if matches!(res, Res::Unknown) {
                let logic = CString::new(if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
                let sy = (z.Z3_mk_string_symbol)(self.c, logic.as_ptr());
                let s = (z.Z3_mk_solver_for_logic)(self.c, sy);
                (z.Z3_solver_inc_ref)(self.c, s);
                self.set_timeout(s, self.timeout_ms);
                for &a in &asts {
                    (z.Z3_solver_assert)(self.c, s, a);
                }
                match (z.Z3_solver_check)(self.c, s) {
                    1 => res = Res::Sat(self.model(ar, s, &vars)),
                    -1 => res = Res::Unsat,
                    _ => {}
                }
                (z.Z3_solver_dec_ref)(self.c, s);
            }
        }
        // a model is trusted only after the expression evaluator confirms it
        if let Res::Sat(m) = &res {
            let mm: FxHashMap<u32, u128> = m.iter().copied().collect();
            let mut memo = FxHashMap::default();
            let ok = key.iter().all(|&e| ar.eval(e, &|v| mm.get(&v).copied().unwrap_or(0), &mut memo) == 1);
            if !ok {
                res = Res::Unknown;
            }
        }
        let us = t0.elapsed().as_micros() as u64;
        self.stats.us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        if self.dump.is_some() && self.stats.queries % self.dump_every == 0 {
            let status = match &res {
                Res::Sat(_) => "sat",
                Res::Unsat => "unsat",
                Res::Unknown => "unknown",
            };
            unsafe {
                let e = CString::new("").unwrap();
                let st = CString::new(status).unwrap();
                let t = (z.Z3_mk_true)(self.c);
                let s = (z.Z3_benchmark_to_smtlib_string)(self.c, e.as_ptr(), e.as_ptr(), st.as_ptr(), e.as_ptr(), asts.len() as u32, asts.as_ptr(), t);
                if !s.is_null() {
                    let txt = CStr::from_ptr(s).to_string_lossy().into_owned();
                    self.dump.as_mut().unwrap().push(txt);
                }
            }
        }
        let c = match &res {
            Res::Sat(m) => {
                self.stats.sat += 1;
                Some(Some(m.clone()))
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                Some(None)
            }
            Res::Unknown => {
                self.stats.unknown += 1;
                None
            }
        };
        self.cache.insert(key, c);
        res
    }
}
