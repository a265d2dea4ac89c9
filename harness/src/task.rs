//! One task: a Ferlium function, how its arguments are made symbolic, and the oracle for its result.
use crate::host::{self, *};
use ferlium::{
    CompilerSession, MirOptimization, Path,
    eval::RuntimeError,
    execution::*,
    hir::value::Value,
    module::{LocalFunctionId, ModuleId},
    std::{
        array::{array_type, array_value_from_vec},
        buffer::Buffer,
        logic::bool_type,
        math::{Float, float_type, int_type},
        string::{String as FStr, string_type},
    },
    types::{effects::{Effect, PrimitiveEffect}, r#type::Type},
};
use ferlium::compiler::error::{RuntimeErrorKind, SandboxViolationKind, SourceFailureKind};

pub const HIR: u32 = 1;
pub const MIR: u32 = 2;
pub const OPT: u32 = 4;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// the modes agree
    Agree,
    /// returns true in every mode
    Law,
    /// ends in a source failure in every mode
    Fails,
    /// resource limits
    Limits,
    /// one executor, entered several times
    Reuse,
    /// the front end on source text with symbolic bytes
    Front,
    /// modules updated one after another
    History,
    /// must be rejected by the compiler
    Reject,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub file: String,
    pub chunk: String,
    pub func: String,
    pub kind: Kind,
    pub src: String,
    /// modules compiled before it
    pub libs: Vec<(String, String)>,
    pub modes: u32,
    pub len: u64,
    pub slen: u64,
    pub chars: String,
    pub experimental: bool,
    pub leak: bool,
    pub cold: bool,
    pub drops: bool,
    /// judge what a run does against the effects its type declares
    pub effects: bool,
    pub paths: u64,
    pub wall: u64,
    pub opt: Vec<String>,
}
impl Spec {
    pub fn id(&self) -> String {
        format!("{}:{}:{}", self.file, self.chunk, self.func)
    }
}

/// Parse a corpus file. Chunks start with `//// name key=value ...`.
pub fn parse_corpus(file: &str, text: &str, modes: u32) -> Vec<Spec> {
    let mut out = vec![];
    let mut cur: Option<(String, Vec<String>)> = None;
    let mut body = String::new();
    let mut common = String::new();
    let mut libs: Vec<(String, String)> = vec![];
    let mut flush = |cur: &Option<(String, Vec<String>)>, body: &str, common: &mut String| {
        let Some((name, opts)) = cur else { return };
        if name == "common" {
            *common = body.to_string();
            return;
        }
        if name == "lib" {
            let n = opts.iter().find_map(|o| o.strip_prefix("name=")).unwrap_or("lib");
            libs.retain(|l| l.0 != n);
            libs.push((n.to_string(), body.to_string()));
            return;
        }
        let mut s = Spec {
            file: file.to_string(),
            chunk: name.clone(),
            func: String::new(),
            kind: Kind::Agree,
            src: format!("{common}\n{body}"),
            libs: libs.clone(),
            modes,
            len: 3,
            slen: 3,
            chars: "ascii".into(),
            experimental: false,
            leak: true,
            cold: false,
            drops: false,
            effects: false,
            paths: 0,
            wall: 0,
            opt: opts.clone(),
        };
        let mut front = false;
        let mut expr = false;
        let mut history = false;
        let mut reject = false;
        for o in opts {
            let (k, v) = o.split_once('=').unwrap_or((o, ""));
            match k {
                "len" => s.len = v.parse().unwrap(),
                "slen" => s.slen = v.parse().unwrap(),
                "chars" => s.chars = v.into(),
                "experimental" => s.experimental = true,
                "noleak" => s.leak = false,
                "cold" => s.cold = true,
                "drops" => s.drops = true,
                "paths" => s.paths = v.parse().unwrap(),
                "wall" => s.wall = v.parse().unwrap(),
                "expr" => expr = true,
                "history" => history = true,
                "front" => front = true,
                "reject" => reject = true,
                "modes" => s.modes = v.split(',').map(|m| match m { "hir" => HIR, "mir" => MIR, "opt" => OPT, _ => panic!("mode {m}") }).fold(0, |a, b| a | b),
                _ => {}
            }
        }
        if front {
            s.kind = Kind::Front;
            s.src = body.to_string();
            s.func = "front".into();
            out.push(s);
            return;
        }
        if history {
            s.kind = Kind::History;
            s.src = body.to_string();
            // one task per first operation: an update, or a run
            for k in 0..s.src.lines().filter(|l| l.starts_with("== ")).count() + 3 {
                let mut opt = s.opt.clone();
                opt.push(format!("first={k}"));
                out.push(Spec { func: format!("first{k}"), opt, ..s.clone() });
            }
            return;
        }
        if reject {
            s.kind = Kind::Reject;
            s.func = "reject".into();
            out.push(s);
            return;
        }
        if expr {
            s.func = "expr".into();
            s.cold |= s.src.contains("sym::k");
            out.push(s);
            return;
        }
        // symbolic constants only make sense when the optimizer sees them as such
        s.cold |= s.src.contains("sym::k");
        for l in body.lines() {
            let Some(r) = l.strip_prefix("pub fn ") else { continue };
            let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let kind = if n.starts_with("law_") {
                Kind::Law
            } else if n.starts_with("fail_") {
                Kind::Fails
            } else if n.starts_with("lim_") {
                Kind::Limits
            } else if n.starts_with("re_") {
                Kind::Reuse
            } else if n.starts_with("t_") {
                Kind::Agree
            } else {
                continue;
            };
            out.push(Spec { func: n, kind, ..s.clone() });
        }
    };
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("//// ") {
            flush(&cur, &body, &mut common);
            body.clear();
            let mut w = r.split_whitespace().map(|x| x.to_string());
            cur = Some((w.next().unwrap(), w.collect()));
        } else {
            body.push_str(l);
            body.push('\n');
        }
    }
    flush(&cur, &body, &mut common);
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg {
    Int,
    Bool,
    Float,
    Str,
    Ints,
    Bools,
    Floats,
    Strs,
}
pub fn arg_of(t: Type) -> Option<Arg> {
    use Arg::*;
    let base = [(int_type(), Int), (bool_type(), Bool), (float_type(), Float), (string_type(), Str)];
    for (b, a) in base {
        if t == b {
            return Some(a);
        }
    }
    let arr = [(int_type(), Ints), (bool_type(), Bools), (float_type(), Floats), (string_type(), Strs)];
    for (b, a) in arr {
        if t == array_type(b) {
            return Some(a);
        }
    }
    None
}

/// A symbolic argument, kept as plain words so every mode gets the same one.
#[derive(Clone, Debug)]
pub enum Raw {
    I(isize),
    B(bool),
    F(Float),
    S(String),
    A(Vec<Raw>),
}
pub const MIX: [&str; 12] = ["a", "Z", "\u{e9}", "e\u{301}", "\u{1F44D}", " ", "\n", "\"", "\\", "0", "\u{df}", "\u{1F468}\u{200D}\u{1F469}"];
fn raw_str(sp: &Spec) -> Raw {
    let n = choose(sp.slen);
    let mut b: Vec<u8> = Vec::with_capacity(32);
    for _ in 0..n {
        if sp.chars == "mix" {
            let k = choose(MIX.len() as u64 - 1);
            b.extend_from_slice(MIX[k as usize].as_bytes());
        } else if let Some(set) = sp.chars.strip_prefix("set:") {
            let set: Vec<char> = set.replace("\\s", " ").replace("\\t", "\t").replace("\\n", "\n").chars().collect();
            let k = choose(set.len() as u64 - 1);
            let mut t = [0; 4];
            b.extend_from_slice(set[k as usize].encode_utf8(&mut t).as_bytes());
        } else {
            let c = sym(8) as u8;
            match sp.chars.as_str() {
                "ascii" => assume(c < 128),
                "digit" => assume(c.wrapping_sub(b'0') < 10),
                "lower" => assume(c.wrapping_sub(b'a') < 26),
                "print" => assume(c.wrapping_sub(32) < 95),
                "ab" => assume(c.wrapping_sub(b'a') < 2),
                o => panic!("chars {o}"),
            }
            b.push(c);
        }
    }
    // SAFETY: bytes below 128 or whole characters
    Raw::S(unsafe { String::from_utf8_unchecked(b) })
}
pub fn raw(a: Arg, sp: &Spec) -> Raw {
    let arr = |x: Arg| {
        let n = choose(sp.len);
        Raw::A((0..n).map(|_| raw(x, sp)).collect())
    };
    match a {
        Arg::Int => Raw::I(sym(64) as isize),
        Arg::Bool => Raw::B(sym(1) != 0),
        Arg::Float => Raw::F(mk_float(sym(64))),
        Arg::Str => raw_str(sp),
        Arg::Ints => arr(Arg::Int),
        Arg::Bools => arr(Arg::Bool),
        Arg::Floats => arr(Arg::Float),
        Arg::Strs => arr(Arg::Str),
    }
}
/// Free a value together with what its buffers hold (`discard_storage` leaves that to guest code).
pub fn discard_deep(mut v: Value) {
    empty_buffers(&mut v);
    v.discard_storage();
}
fn empty_buffers(v: &mut Value) {
    if matches!(v, Value::Uninit) {
        return;
    }
    if let Some(b) = v.as_primitive_ty_mut::<Buffer>() {
        for i in 0..b.capacity() {
            if let Some(x) = b.take(i) {
                discard_deep(x);
            }
        }
        return;
    }
    if let Value::Variant { .. } = v {
        if let Some(p) = v.variant_payload_mut() {
            empty_buffers(p);
        }
    } else if let Some(t) = v.as_tuple_mut() {
        for f in t.iter_mut() {
            empty_buffers(f);
        }
    } else if let Some(f) = v.as_function_mut() {
        empty_buffers(&mut f.closure_env);
    }
}
/// Allocations behind the buffers of the arguments: a caller keeps those, so they outlive the call.
fn caller_kept(raws: &[Raw]) -> i64 {
    let a = live();
    for r in raws {
        value(r).discard_storage();
    }
    live() - a
}
pub fn value(r: &Raw) -> Value {
    match r {
        Raw::I(x) => Value::native(*x),
        Raw::B(x) => Value::native(*x),
        Raw::F(x) => Value::native(*x),
        Raw::S(x) => Value::native(FStr::new(x)),
        Raw::A(x) => array_value_from_vec(x.iter().map(value).collect()),
    }
}

pub struct Loaded {
    pub s: CompilerSession,
    pub m: ModuleId,
    pub f: LocalFunctionId,
    pub args: Vec<Arg>,
    /// effects of the entry's type: 1 read, 2 write, 4 fallible
    pub declared: u64,
    pub spec: Spec,
}

pub fn new_session() -> CompilerSession {
    let mut s = CompilerSession::new();
    host::register(&mut s);
    s
}

pub enum LoadError {
    /// the compiler rejected the program
    Rejected(String),
    /// the corpus is wrong
    Corpus(String),
}

pub fn load(mut s: CompilerSession, spec: &Spec) -> Result<Loaded, (CompilerSession, LoadError)> {
    s.set_allow_experimental(spec.experimental);
    for (n, src) in &spec.libs {
        if let Err(e) = s.compile(src, &format!("{n}.fer"), Path::single_str(n)) {
            let m: String = format!("{e:?}").chars().take(600).collect();
            return Err((s, LoadError::Rejected(m)));
        }
    }
    let out = match s.compile(&spec.src, "demo.fer", Path::single_str("demo")) {
        Ok(o) => o,
        Err(e) => {
            let m = format!("{e:?}");
            let m: String = m.chars().take(600).collect();
            return Err((s, LoadError::Rejected(m)));
        }
    };
    let m = out.module_id;
    let mut args = vec![];
    let mut bad = None;
    let mut declared = 0;
    let f = if spec.func == "expr" { out.expr } else { s.expect_fresh_module(m).get_local_function_id(ferlium::ustr(&spec.func)) };
    let Some(f) = f else { return Err((s, LoadError::Corpus("no such function".into()))) };
    {
        let module = s.expect_fresh_module(m);
        let def = &module.get_function_by_id(f).unwrap().definition;
        if !def.ty_scheme.ty_quantifiers.is_empty() {
            bad = Some("generic entry".to_string());
        }
        for e in def.ty_scheme.ty.effects.iter() {
            declared |= match e {
                Effect::Primitive(PrimitiveEffect::Read) => 1,
                Effect::Primitive(PrimitiveEffect::Write) => 2,
                Effect::Primitive(PrimitiveEffect::Fallible) => 4,
                _ => 7,
            };
        }
        for t in def.ty_scheme.ty.args_ty() {
            match arg_of(t) {
                Some(a) => args.push(a),
                None => bad = Some(format!("argument type {t:?}")),
            }
        }
    }
    if let Some(b) = bad {
        return Err((s, LoadError::Corpus(b)));
    }
    Ok(Loaded { s, m, f, args, declared, spec: spec.clone() })
}

#[allow(dead_code)]
pub fn mode_name(m: u32) -> &'static str {
    match m {
        HIR => "HIR",
        MIR => "MIR",
        _ => "optimized MIR",
    }
}
pub fn select(s: &mut CompilerSession, m: u32) -> ExecutionTarget {
    s.set_mir_optimization(if m == OPT { MirOptimization::Enabled } else { MirOptimization::Disabled });
    if m == HIR { ExecutionTarget::Hir } else { ExecutionTarget::Mir }
}

pub fn prepare(l: &mut Loaded) {
    for m in [HIR, MIR, OPT] {
        if l.spec.modes & m != 0 {
            let t = select(&mut l.s, m);
            l.s.prepare_execution_target(t, l.m);
        }
    }
}

// ---- outcomes as words ----

pub struct Out {
    pub w: Vec<u64>,
}
fn put_bytes(out: &mut Vec<u64>, b: &[u8]) {
    out.push(b.len() as u64);
    for x in b {
        out.push(*x as u64);
    }
}
fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn digest(v: &Value, out: &mut Vec<u64>) {
    match v {
        Value::Uninit => out.push(0xdead),
        Value::Native(_) => {
            if let Some(x) = v.as_primitive_ty::<isize>() {
                out.push(*x as u64)
            } else if let Some(x) = v.as_primitive_ty::<bool>() {
                out.push(*x as u64)
            } else if let Some(x) = v.as_primitive_ty::<Float>() {
                out.push(x.into_inner().to_bits())
            } else if let Some(x) = v.as_primitive_ty::<FStr>() {
                put_bytes(out, x.as_ref().as_bytes())
            } else if v.is_unit() {
                out.push(0x0)
            } else if let Some(x) = v.as_primitive_ty::<Buffer>() {
                let n = x.capacity();
                out.push(n as u64);
                for i in 0..n {
                    digest(x.get(i).unwrap(), out);
                }
            } else {
                out.push(0x7e)
            }
        }
        Value::Variant { tag, .. } => {
            out.push(fnv(tag.as_str()));
            match v.variant_payload() {
                None => out.push(0),
                Some(p) => digest(p, out),
            }
        }
        Value::Tuple(fs) => {
            if fs.len() == 4
                && let Some(b) = fs[1].as_primitive_ty::<Buffer>()
                && let (Some(n), Some(st)) = (fs[2].as_primitive_ty::<isize>(), fs[3].as_primitive_ty::<isize>())
            {
                let n = conc(*n as u64) as usize;
                let st = conc(*st as u64) as usize;
                out.push(n as u64);
                let cap = b.capacity();
                for i in 0..n {
                    digest(b.get((st + i) % cap).unwrap(), out);
                }
                return;
            }
            out.push(fs.len() as u64);
            for f in fs.iter() {
                digest(f, out);
            }
        }
        Value::Function(f) => {
            out.push(0xf0);
            for v in f.closure_env_values() {
                digest(v, out);
            }
        }
        Value::Subscript(_) => out.push(0xf1),
    }
}
pub fn kind_digest(k: &SourceFailureKind, out: &mut Vec<u64>) {
    match k {
        SourceFailureKind::Aborted(None) => out.push(1),
        SourceFailureKind::Aborted(Some(m)) => {
            out.push(2);
            put_bytes(out, m.as_bytes())
        }
        SourceFailureKind::DivisionByZero => out.push(3),
        SourceFailureKind::RemainderByZero => out.push(4),
        SourceFailureKind::InvalidArgument(m) => {
            out.push(5);
            put_bytes(out, m.as_bytes())
        }
    }
}
pub const OK: u64 = 0;
pub const FAILED: u64 = 1;
pub const SANDBOX: u64 = 2;
pub const CLEANUP: u64 = 3;
pub fn outcome(r: &Result<Value, RuntimeError>, out: &mut Vec<u64>) {
    match r {
        Ok(v) => {
            out.push(OK);
            digest(v, out)
        }
        Err(e) => match e.kind() {
            RuntimeErrorKind::SourceFailure(k) => {
                out.push(FAILED);
                kind_digest(&k, out)
            }
            RuntimeErrorKind::SandboxViolation(k) => {
                out.push(SANDBOX);
                out.push(match k {
                    SandboxViolationKind::FuelExhausted => 0,
                    SandboxViolationKind::CallDepthLimitExceeded { .. } => 1,
                    SandboxViolationKind::EnvironmentCellLimitExceeded { .. } => 2,
                })
            }
            RuntimeErrorKind::FailureDuringCleanup => {
                out.push(CLEANUP);
                let f = e.failure_during_cleanup().unwrap();
                kind_digest(&f.initial().kind(), out);
                kind_digest(&f.during_cleanup().kind(), out);
            }
        },
    }
}

/// Equality without branching on the words.
#[inline(never)]
pub fn same(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u64;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

pub struct Bufs {
    pub out: [Vec<u64>; 3],
    pub log: [Vec<u64>; 3],
    pub drops: [Vec<u64>; 3],
}
static mut BUFS: Bufs = Bufs { out: [const { Vec::new() }; 3], log: [const { Vec::new() }; 3], drops: [const { Vec::new() }; 3] };
#[allow(static_mut_refs)]
pub fn bufs() -> &'static mut Bufs {
    unsafe { &mut BUFS }
}
pub fn reserve() {
    let b = bufs();
    for i in 0..3 {
        b.out[i].reserve(4096);
        b.log[i].reserve(1024);
        b.drops[i].reserve(1024);
    }
    host().reserve();
}

pub const FUEL: usize = 300_000;

pub fn run_path(l: &mut Loaded) {
    let raws: Vec<Raw> = l.args.iter().map(|a| raw(*a, &l.spec)).collect();
    let kept = caller_kept(&raws);
    let b = bufs();
    let mut first: Option<usize> = None;
    for (i, m) in [HIR, MIR, OPT].into_iter().enumerate() {
        if l.spec.modes & m == 0 {
            continue;
        }
        let t = select(&mut l.s, m);
        host().begin_mode();
        host::reset_counter();
        b.out[i].clear();
        let before = live() + kept;
        let lim = ReferenceInterpreterLimits::default().with_fuel_limit(Some(FUEL));
        let vals: Vec<Value> = raws.iter().map(value).collect();
        let r = l.s.run_entry_with_limits(t, l.m, l.f, vals, lim);
        outcome(&r, &mut b.out[i]);
        let mut truth = true;
        match r {
            Ok(v) => {
                if l.spec.kind == Kind::Law {
                    truth = v.as_primitive_ty::<bool>().copied().unwrap_or(false);
                }
                discard_deep(v)
            }
            Err(e) => drop(e),
        }
        let after = live();
        let tag = b.out[i][0];
        observe(m, tag);
        for w in &b.out[i] {
            observe(m, *w);
        }
        b.log[i].clear();
        b.log[i].extend_from_slice(&host().log);
        b.drops[i].clear();
        b.drops[i].extend_from_slice(&host().drops);
        cover(tag as u32 + 1);

        if l.spec.effects {
            let done = host().eff;
            if done & 1 & !l.declared != 0 {
                fail("reads its environment, which its type does not say");
            }
            if done & 2 & !l.declared != 0 {
                fail("writes its environment, which its type does not say");
            }
            if (tag == FAILED || tag == CLEANUP) && l.declared & 4 == 0 {
                fail("fails, which its type does not say");
            }
        }
        match l.spec.kind {
            Kind::Law => {
                if tag != OK {
                    fail(match m { HIR => "law ended in a failure (HIR)", MIR => "law ended in a failure (MIR)", _ => "law ended in a failure (optimized MIR)" });
                }
                check(truth, match m { HIR => "law is false (HIR)", MIR => "law is false (MIR)", _ => "law is false (optimized MIR)" });
            }
            Kind::Fails => {
                if tag != FAILED {
                    fail("expected a source failure");
                }
            }
            _ => {}
        }

        if tag == SANDBOX {
            if first.is_none() {
                // the reference ran out of budget: nothing to compare on this path
                cover(90);
                return;
            }
            fail("a later stage ran out of budget where the reference terminates");
        }
        if l.spec.leak && tag != SANDBOX && tag != CLEANUP && after != before {
            // a second run tells growth apart from lazily filled caches
            let before = live() + kept;
            let vals: Vec<Value> = raws.iter().map(value).collect();
            let lim = ReferenceInterpreterLimits::default().with_fuel_limit(Some(FUEL));
            host().begin_mode();
            let r = l.s.run_entry_with_limits(t, l.m, l.f, vals, lim);
            match r {
                Ok(v) => discard_deep(v),
                Err(e) => drop(e),
            }
            if live() != before {
                fail(match m { HIR => "storage leaked (HIR)", MIR => "storage leaked (MIR)", _ => "storage leaked (optimized MIR)" });
            }
        }
        if l.spec.drops && tag != CLEANUP && m != OPT {
            // every tracked value made has been dropped exactly once (the optimizer may make and drop
            // values at compile time, so only the unoptimized stages are held to this)
            let h = host();
            h.made.sort_unstable();
            let mut d = h.drops.clone();
            d.sort_unstable();
            check(same(&h.made, &d), match m { HIR => "values made and values dropped differ (HIR)", MIR => "values made and values dropped differ (MIR)", _ => "values made and values dropped differ (optimized MIR)" });
        }
        if let Some(k) = first {
            let m0 = [HIR, MIR, OPT][k];
            let pair = |hm: &'static str, ho: &'static str, mo: &'static str| if m == MIR { hm } else if m0 == HIR { ho } else { mo };
            check(same(&b.out[k], &b.out[i]), pair("HIR and MIR disagree", "HIR and optimized MIR disagree", "raw and optimized MIR disagree"));
            check(same(&b.log[k], &b.log[i]), pair("HIR and MIR effects differ", "HIR and optimized MIR effects differ", "raw and optimized MIR effects differ"));
            if m == MIR && m0 == HIR {
                check(same(&b.drops[k], &b.drops[i]), "HIR and MIR drop different values");
            }
        } else {
            first = Some(i);
        }
    }
}
