//! Resource limits, poisoning and reuse of an executor. One limit is symbolic per path; whatever its
//! value, execution either ends as it does with ample resources, or with that limit's violation, having
//! done a prefix of the same effects, and then refuses to run anything more.
use crate::host::{self, *};
use crate::task::*;
use ferlium::{
    CompilerSession,
    compiler::error::{RuntimeErrorKind, SandboxViolationKind},
    eval::{EvalCtx, RuntimeError, ValOrMut, eval_function_with_ctx},
    execution::*,
    hir::value::Value,
    mir::interpreter::Interpreter,
    module::{LocalFunctionId, ModuleId},
};

pub enum Exec<'a> {
    H(EvalCtx<'a>),
    M(Interpreter<'a>),
}
impl<'a> Exec<'a> {
    pub fn new(t: ExecutionTarget, m: ModuleId, s: &'a CompilerSession, l: ReferenceInterpreterLimits) -> Self {
        match t {
            ExecutionTarget::Hir => Exec::H(EvalCtx::with_limits(m, s, l)),
            ExecutionTarget::Mir => Exec::M(Interpreter::with_limits(m, s, l)),
        }
    }
    pub fn run(&mut self, m: ModuleId, f: LocalFunctionId, raws: &[Raw]) -> Result<Value, RuntimeError> {
        let vals: Vec<Value> = raws.iter().map(value).collect();
        match self {
            Exec::H(c) => eval_function_with_ctx(m, f, vals.into_iter().map(ValOrMut::Val).collect(), c).map(|c| c.into_value()),
            Exec::M(i) => i.run_entry(m, f, vals),
        }
    }
    pub fn poisoned(&self) -> bool {
        match self {
            Exec::H(c) => c.is_poisoned(),
            Exec::M(i) => i.is_poisoned(),
        }
    }
}

pub fn begin() {
    host().begin_mode();
    host::reset_counter();
}
pub fn finish(r: Result<Value, RuntimeError>, out: &mut Vec<u64>) {
    out.clear();
    outcome(&r, out);
    match r {
        Ok(v) => discard_deep(v),
        Err(e) => drop(e),
    }
}
fn prefix(a: &[u64], b: &[u64]) -> bool {
    a.len() <= b.len() && same(a, &b[..a.len()])
}
const REF_FUEL: usize = 20_000;

pub fn msg(m: u32, h: &'static str, r: &'static str, o: &'static str) -> &'static str {
    match m {
        HIR => h,
        MIR => r,
        _ => o,
    }
}
#[macro_export]
macro_rules! m {
    ($m:expr, $t:literal) => {
        $crate::limits::msg($m, concat!($t, " (HIR)"), concat!($t, " (MIR)"), concat!($t, " (optimized MIR)"))
    };
}

pub fn run_path(l: &mut Loaded) {
    let raws: Vec<Raw> = l.args.iter().map(|a| raw(*a, &l.spec)).collect();
    let opt = |k: &str, d: u64| -> u64 { l.spec.opt.iter().find_map(|o| o.strip_prefix(k)?.strip_prefix('=')?.parse().ok()).unwrap_or(d) };
    let fuel_max = opt("fuel", 400);
    let depth_max = opt("depth", 40);
    let cells_max = opt("cells", 400);
    // which limit is the symbolic one
    let which = match l.spec.opt.iter().find_map(|o| o.strip_prefix("limit=")) {
        Some("fuel") => 0,
        Some("depth") => 1,
        Some("cells") => 2,
        _ => choose(2),
    };
    let lim = sym(64);
    assume(lim <= [fuel_max, depth_max, cells_max][which as usize]);
    // one mode per path: thresholds differ between modes, and would multiply
    {
        let m = [HIR, MIR, OPT][choose(2) as usize];
        if l.spec.modes & m == 0 {
            return;
        }
        let t = select(&mut l.s, m);
        let b = bufs();
        let ample = ReferenceInterpreterLimits::default().with_fuel_limit(Some(opt("ref", REF_FUEL as u64) as usize));
        // what happens with ample resources
        begin();
        let r = l.s.run_entry_with_limits(t, l.m, l.f, raws.iter().map(value).collect(), ample);
        finish(r, &mut b.out[0]);
        let endless = b.out[0][0] == SANDBOX;
        b.log[0].clear();
        b.log[0].extend_from_slice(&host().log);
        b.drops[0].clear();
        b.drops[0].extend_from_slice(&host().drops);
        let limits = |x: u64| match which {
            0 => ample.with_fuel_limit(Some(x as usize)),
            1 => ample.with_call_depth_limit(x as usize),
            _ => ample.with_environment_cell_limit(x as usize),
        };
        // the same with one limit symbolic
        let mut ex = Exec::new(t, l.m, &l.s, limits(lim));
        begin();
        let r = ex.run(l.m, l.f, &raws);
        let mut right_kind = true;
        let mut violated = false;
        if let Err(e) = &r
            && let RuntimeErrorKind::SandboxViolation(k) = e.kind()
        {
            violated = true;
            right_kind = match k {
                SandboxViolationKind::FuelExhausted => which == 0 || endless,
                SandboxViolationKind::CallDepthLimitExceeded { limit } => if which == 1 { limit as u64 == lim } else { endless },
                SandboxViolationKind::EnvironmentCellLimitExceeded { limit } => if which == 2 { limit as u64 == lim } else { endless },
            };
        }
        finish(r, &mut b.out[1]);
        cover(b.out[1][0] as u32 + 1);
        observe(m, b.out[1][0]);
        b.log[1].clear();
        b.log[1].extend_from_slice(&host().log);
        b.drops[1].clear();
        b.drops[1].extend_from_slice(&host().drops);
        if violated {
            check(right_kind, m!(m, "violation of a limit that was not reached"));
            check(prefix(&b.log[1], &b.log[0]), m!(m, "effects before the violation differ from those with ample resources"));
            if m != OPT {
                check(prefix(&b.drops[1], &b.drops[0]), m!(m, "guest cleanup ran after a sandbox violation"));
            }
            check(ex.poisoned(), m!(m, "a sandbox violation does not poison the executor"));
        } else {
            if endless {
                fail(m!(m, "a limit let an endless program end"));
            }
            check(same(&b.out[0], &b.out[1]), m!(m, "a limit that was not violated changes the outcome"));
            check(same(&b.log[0], &b.log[1]), m!(m, "a limit that was not violated changes the effects"));
            check(ex.poisoned() == (b.out[1][0] == CLEANUP), m!(m, "wrong poisoning"));
        }
        // entering again
        begin();
        let r = ex.run(l.m, l.f, &raws);
        let poisoned = ex.poisoned();
        finish(r, &mut b.out[2]);
        if violated || b.out[1][0] == CLEANUP {
            check(same(&b.out[1], &b.out[2]), m!(m, "a poisoned executor does not report its cause again"));
            check(host().log.is_empty() && host().drops.is_empty(), m!(m, "a poisoned executor ran guest code"));
            check(poisoned, m!(m, "a poisoned executor recovered"));
        } else if which != 0 {
            check(same(&b.out[1], &b.out[2]), m!(m, "an executor gives another outcome when reused"));
            check(same(&b.log[1], &host().log), m!(m, "an executor has other effects when reused"));
        }
        if violated && lim > 0 {
            // a smaller limit is violated, too
            begin();
            let mut ex = Exec::new(t, l.m, &l.s, limits(lim - 1));
            let r = ex.run(l.m, l.f, &raws);
            finish(r, &mut b.out[2]);
            check(b.out[2][0] == SANDBOX, m!(m, "a smaller limit is not violated"));
        }
        // the session is as good as new
        begin();
        let r = l.s.run_entry_with_limits(t, l.m, l.f, raws.iter().map(value).collect(), ample);
        finish(r, &mut b.out[2]);
        check(same(&b.out[0], &b.out[2]), m!(m, "the session gives another outcome after a violation"));
        check(same(&b.log[0], &host().log), m!(m, "the session has other effects after a violation"));
    }
}
