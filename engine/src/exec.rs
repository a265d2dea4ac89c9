//! The symbolic executor.
use crate::expr::{ones, sext, Arena, ExprId};
use crate::expr::Op as E;
use crate::fx::{FxHashMap, FxHashSet};
use crate::ir::*;
use crate::link::Program;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    Done,
    Infeasible,
    Panic(String),
    Assert(String),
    Mem(String),
    Unsupported(String),
    Limit(String),
    Unknown(String),
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub dst: i32,
    pub edge: Option<Edge>,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pcs: Vec<ExprId>,
    pub pcset: FxHashSet<ExprId>,
    pub model: Rc<Vec<u128>>,
    pub vars: Vec<(ExprId, u32, bool)>,
    pub trace: Vec<(u32, Val, u32)>,
    pub covers: Vec<u32>,
    pub insts: u64,
    pub forks: u32,
    pub asserts: u32,
    /// results handed out for calls into libm, so that equal arguments give equal results
    pub stubs: Vec<(&'static str, ExprId, ExprId, ExprId)>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub backtrace: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub incomplete: std::collections::BTreeMap<String, u64>,
    pub unexplored: u64,
    pub violations: Vec<Violation>,
    pub insts: u64,
    pub forks: u64,
    pub asserts: u64,
    pub table_queries: u64,
    pub assert_queries: u64,
    pub covers: std::collections::BTreeMap<u32, u64>,
    pub samples: Vec<(Vec<u128>, Vec<(u32, u128)>)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub solver_us: u64,
    pub max_query_us: u64,
    pub wall_ms: u64,
    pub funcs: Vec<String>,
    pub stubs: std::collections::BTreeSet<String>,
    pub fork_sites: Vec<(String, u64)>,
    pub exprs: u64,
    pub max_inputs: u32,
}

#[derive(Clone)]
pub struct Limits {
    pub wall_ms: u64,
    pub path_insts: u64,
    pub max_paths: u64,
    pub query_ms: u32,
    pub max_violations: usize,
    pub max_depth: usize,
    pub samples: usize,
    pub dump: bool,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { wall_ms: 60_000, path_insts: 50_000_000, max_paths: 100_000, query_ms: 5_000, max_violations: 3, max_depth: 4000, samples: 4, dump: false }
    }
}

pub struct Engine {
    pub prog: Program,
    pub ar: Arena,
    pub solver: Solver,
    pub st: State,
    pub work: Vec<State>,
    pub lim: Limits,
    pub rep: Report,
    fork_sites: FxHashMap<&'static str, u64>,
    lanes: FxHashMap<ExprId, [u128; 2]>,
    slowq: bool,
    entered: FxHashSet<u32>,
    deadline: std::time::Instant,
    /// set when a fork needs the current instruction to be re-executed in the sibling
    pub trace_calls: bool,
    prof: FxHashMap<&'static str, u64>,
}

type R<T> = Result<T, Stop>;

fn mem_err(e: String) -> Stop {
    Stop::Mem(e)
}

fn empty_state() -> State {
    State {
        frames: vec![],
        mem: Mem::new(),
        pcs: vec![],
        pcset: Default::default(),
        model: Rc::new(vec![]),
        vars: vec![],
        trace: vec![],
        covers: vec![],
        insts: 0,
        forks: 0,
        asserts: 0, stubs: vec![],
    }
}

/// `a::b::c` from a v0-mangled name (identifiers only).
pub fn pretty(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && j - i < 3 {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 1 && j + len <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') {
                out.push(&n[j..j + len]);
                i = j + len;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        return n.to_string();
    }
    if out.len() > 7 {
        out.truncate(7);
    }
    out.join("::")
}

impl Engine {
    pub fn new(prog: Program) -> Engine {
        Engine {
            prog,
            ar: Arena::new(),
            solver: Solver::new(),
            st: empty_state(),
            work: vec![],
            lim: Limits::default(),
            rep: Report::default(),
            fork_sites: Default::default(),
            lanes: Default::default(),
            slowq: std::env::var_os("FERROSYM_SLOWQ").is_some(),
            entered: Default::default(),
            deadline: std::time::Instant::now(),
            trace_calls: false,
            prof: Default::default(),
        }
    }

    // ---------- expressions ----------
    #[inline]
    pub fn ex(&mut self, v: &Val, w: u32) -> ExprId {
        match v {
            Val::C(c) => self.ar.konst(w, *c as u128),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::W(c) => self.ar.konst(w, **c),
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    #[inline]
    pub fn val(&self, e: ExprId) -> Val {
        match self.ar.as_const(e) {
            Some(c) => {
                let w = self.ar.w(e);
                if w <= 64 {
                    Val::C(c as u64)
                } else {
                    Val::W(Rc::new(c))
                }
            }
            None => Val::S(e),
        }
    }
    fn eval_model(&self, e: ExprId) -> u128 {
        let m = &self.st.model;
        let mut memo = FxHashMap::default();
        self.ar.eval(e, &|v| m.get(v as usize).copied().unwrap_or(0), &mut memo)
    }

    fn slice(&self, cond: ExprId) -> Vec<ExprId> {
        let mut mask = self.ar.n(cond).mask;
        let mut out = vec![cond];
        let mut used = vec![false; self.st.pcs.len()];
        loop {
            let mut ch = false;
            for (k, &c) in self.st.pcs.iter().enumerate() {
                if !used[k] && self.ar.n(c).mask & mask != 0 {
                    used[k] = true;
                    out.push(c);
                    let nm = mask | self.ar.n(c).mask;
                    if nm != mask {
                        mask = nm;
                        ch = true;
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// The values of an at most eight-bit variable for which a condition on it alone holds.
    fn lanes(&mut self, c: ExprId) -> [u128; 2] {
        if let Some(&t) = self.lanes.get(&c) {
            return t;
        }
        let v = self.ar.sole[c as usize];
        let n = 1usize << self.st.vars[v as usize].1;
        let mut t = [0u128; 2];
        for x in 0..n {
            if self.ar.eval1(c, x as u128) != 0 {
                t[x >> 7] |= 1 << (x & 127);
            }
        }
        self.lanes.insert(c, t);
        t
    }
    fn small(&self, e: ExprId) -> Option<u32> {
        let v = self.ar.sole[e as usize];
        (v < crate::expr::MANY && self.st.vars[v as usize].1 <= 8).then_some(v)
    }
    /// What the path condition says about `v` on its own, and whether it also ties it to other variables.
    fn domain(&mut self, v: u32) -> ([u128; 2], bool) {
        let bit = 1u128 << (v % 128);
        let mut d = [u128::MAX; 2];
        let n = 1u32 << self.st.vars[v as usize].1;
        if n <= 128 {
            d = [crate::expr::ones(n), 0];
        }
        let mut tied = false;
        for k in 0..self.st.pcs.len() {
            let c = self.st.pcs[k];
            if self.ar.n(c).mask & bit == 0 {
                continue;
            }
            let s = self.ar.sole[c as usize];
            if s == v {
                let t = self.lanes(c);
                d[0] &= t[0];
                d[1] &= t[1];
            } else if s >= crate::expr::MANY {
                tied = true;
            }
        }
        (d, tied)
    }
    /// Decide a condition on one small variable by its complete truth table.
    fn query_small(&mut self, cond: ExprId) -> Option<Res> {
        let v = self.small(cond)?;
        let (mut d, tied) = self.domain(v);
        let t = self.lanes(cond);
        d[0] &= t[0];
        d[1] &= t[1];
        if d == [0, 0] {
            self.rep.table_queries += 1;
            return Some(Res::Unsat);
        }
        let pick = |d: [u128; 2]| if d[0] != 0 { d[0].trailing_zeros() as u128 } else { 128 + d[1].trailing_zeros() as u128 };
        if !tied {
            self.rep.table_queries += 1;
            return Some(Res::Sat(vec![(v, pick(d))]));
        }
        // tied to other variables: does changing this one alone do?
        let bit = 1u128 << (v % 128);
        let ties: Vec<ExprId> = self.st.pcs.iter().copied().filter(|&c| self.ar.n(c).mask & bit != 0 && self.ar.sole[c as usize] >= crate::expr::MANY).collect();
        let m = self.st.model.clone();
        for _ in 0..8 {
            if d == [0, 0] {
                break;
            }
            let x = pick(d);
            d[(x >> 7) as usize] &= !(1u128 << (x & 127));
            let mut memo = FxHashMap::default();
            if ties.iter().all(|&c| self.ar.eval(c, &|w| if w == v { x } else { m.get(w as usize).copied().unwrap_or(0) }, &mut memo) != 0) {
                self.rep.table_queries += 1;
                return Some(Res::Sat(vec![(v, x)]));
            }
        }
        None
    }
    fn timed(&mut self, cs: &[ExprId]) -> Res {
        let t = std::time::Instant::now();
        let r = self.solver.check(&self.ar, cs);
        if self.slowq && t.elapsed().as_millis() > 50 {
            let names: Vec<String> = self.st.frames.iter().rev().take(4).map(|f| pretty(&f.f.name)).collect();
            let vs: std::collections::BTreeSet<u32> = cs.iter().map(|&c| self.ar.sole[c as usize]).collect();
            eprintln!("  cond {} .. {}", self.ar.show(cs[0], 12), self.ar.show(*cs.last().unwrap(), 12));
            eprintln!("slow query {} ms, {} constraints, vars {:?} {} in {}", t.elapsed().as_millis(), cs.len(), vs, match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, names.join(" < "));
        }
        r
    }
    fn query(&mut self, cond: ExprId) -> Res {
        if let Some(r) = self.query_small(cond) {
            return r;
        }
        self.solver.timeout_ms = self.lim.query_ms;
        let s = self.slice(cond);
        let r = self.timed(&s);
        if let Res::Sat(m) = &r {
            // trust a model only as far as it satisfies the constraints it was asked for
            let m = self.merged(m);
            let mut memo = FxHashMap::default();
            if s.iter().any(|&c| self.ar.eval(c, &|v| m.get(v as usize).copied().unwrap_or(0), &mut memo) == 0) {
                *self.rep.incomplete.entry("solver: model does not satisfy its query".into()).or_insert(0) += 1;
                return Res::Unknown;
            }
        }
        r
    }
    fn add_pc(&mut self, c: ExprId) {
        if self.ar.as_const(c).is_some() {
            return;
        }
        // split conjunctions so that slicing stays sharp
        let n = self.ar.n(c);
        if n.op == E::And && n.w == 1 {
            self.add_pc(n.a);
            self.add_pc(n.b);
            return;
        }
        if self.st.pcset.insert(c) {
            self.st.pcs.push(c);
        }
    }
    fn known(&mut self, cond: ExprId) -> Option<bool> {
        if let Some(c) = self.ar.as_const(cond) {
            return Some(c != 0);
        }
        if self.st.pcset.contains(&cond) {
            return Some(true);
        }
        let n = self.ar.not(cond);
        if self.st.pcset.contains(&n) {
            return Some(false);
        }
        match self.ar.vset(cond, 40) {
            Some(v) if v.len() == 1 => Some(v[0] != 0),
            _ => None,
        }
    }
    fn merged(&self, m: &[(u32, u128)]) -> Rc<Vec<u128>> {
        let mut v = (*self.st.model).clone();
        for &(i, x) in m {
            if v.len() <= i as usize {
                v.resize(i as usize + 1, 0);
            }
            v[i as usize] = x;
        }
        Rc::new(v)
    }

    /// Decide a symbolic condition, forking when both sides are feasible.
    pub fn branch(&mut self, cond: ExprId) -> R<bool> {
        if let Some(b) = self.known(cond) {
            return Ok(b);
        }
        let taken = self.eval_model(cond) != 0;
        let ncond = self.ar.not(cond);
        let (tc, oc) = if taken { (cond, ncond) } else { (ncond, cond) };
        match self.query(oc) {
            Res::Unsat => {}
            Res::Sat(m) => {
                if self.rep.paths + self.work.len() as u64 >= self.lim.max_paths {
                    self.rep.unexplored += 1;
                } else {
                    let mut o = self.st.clone();
                    o.model = self.merged(&m);
                    if o.pcset.insert(oc) {
                        o.pcs.push(oc);
                    }
                    o.forks += 1;
                    self.st.mem.flush();
                    self.work.push(o);
                    self.rep.forks += 1;
                    let n: &'static str = &self.st.frames.last().unwrap().f.name;
                    *self.fork_sites.entry(n).or_insert(0) += 1;
                }
            }
            Res::Unknown => {
                *self.rep.incomplete.entry("solver: unknown branch".into()).or_insert(0) += 1;
            }
        }
        if self.st.pcset.insert(tc) {
            self.st.pcs.push(tc);
        }
        Ok(taken)
    }

    pub fn concretize(&mut self, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(c) => Ok(**c as u64),
            Val::S(e) => {
                let e = *e;
                // already pinned on this path?
                let x = self.eval_model(e);
                let k = self.ar.konst(w, x);
                let c = self.ar.bin(E::Eq, e, k);
                if self.branch(c)? {
                    Ok(x as u64)
                } else {
                    unreachable!("model contradicts its own value")
                }
            }
            Val::A(_) => Err(Stop::Unsupported("aggregate concretisation".into())),
        }
    }

    pub fn assume(&mut self, cond: ExprId) -> R<()> {
        match self.known(cond) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Infeasible),
            None => {}
        }
        if self.eval_model(cond) == 0 {
            match self.query(cond) {
                Res::Sat(m) => self.st.model = self.merged(&m),
                Res::Unsat => return Err(Stop::Infeasible),
                Res::Unknown => return Err(Stop::Unknown("assume".into())),
            }
        }
        self.add_pc(cond);
        Ok(())
    }

    pub fn inputs_of(&self, model: &[u128]) -> Vec<u128> {
        self.st.vars.iter().enumerate().filter(|(_, v)| v.2).map(|(i, (_, w, _))| model.get(i).copied().unwrap_or(0) & ones(*w)).collect()
    }
    fn backtrace(&self) -> Vec<String> {
        self.st.frames.iter().rev().take(14).map(|f| pretty(&f.f.name)).collect()
    }
    fn violation(&mut self, kind: &str, msg: &str, model: &[u128]) {
        let inputs = self.inputs_of(model);
        let backtrace = self.backtrace();
        if self.rep.violations.iter().any(|v| v.kind == kind && v.msg == msg) {
            // one witness per distinct message is enough, but keep a few more for replay robustness
            if self.rep.violations.iter().filter(|v| v.kind == kind && v.msg == msg).count() >= 3 {
                return;
            }
        }
        self.rep.violations.push(Violation { kind: kind.into(), msg: msg.into(), inputs, backtrace });
    }

    pub fn assert_cond(&mut self, v: &Val, msg: String) -> R<()> {
        self.st.asserts += 1;
        self.rep.asserts += 1;
        match v {
            Val::C(0) => {
                let m = self.st.model.clone();
                self.violation("assert", &msg, &m);
                Err(Stop::Assert(msg))
            }
            Val::C(_) => Ok(()),
            Val::S(e) => {
                let w = self.ar.w(*e);
                let c = if w == 1 {
                    *e
                } else {
                    let z = self.ar.konst(w, 0);
                    let q = self.ar.bin(E::Eq, *e, z);
                    self.ar.not(q)
                };
                match self.known(c) {
                    Some(true) => return Ok(()),
                    Some(false) => {
                        let m = self.st.model.clone();
                        self.violation("assert", &msg, &m);
                        return Err(Stop::Assert(msg));
                    }
                    None => {}
                }
                self.rep.assert_queries += 1;
                let nc = self.ar.not(c);
                match self.query(nc) {
                    Res::Unsat => {
                        self.add_pc(c);
                        Ok(())
                    }
                    Res::Sat(m) => {
                        let mm = self.merged(&m);
                        self.violation("assert", &msg, &mm);
                        // continue under the assumption that it holds
                        self.assume(c)
                    }
                    Res::Unknown => {
                        *self.rep.incomplete.entry(format!("solver: unknown assertion ({msg})")).or_insert(0) += 1;
                        self.assume(c)
                    }
                }
            }
            _ => Err(Stop::Unsupported("assert operand".into())),
        }
    }

    // ---------- memory ----------
    fn addr(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::C(a) => Ok(*a),
            _ => self.concretize(v, 64),
        }
    }
    pub fn load(&mut self, a: u64, nb: u32, w: u32) -> R<Val> {
        match self.st.mem.load(&mut self.ar, a, nb, w).map_err(mem_err)? {
            MemV::C(c) => Ok(Val::C(c)),
            MemV::E(e) => Ok(self.val(e)),
        }
    }
    pub fn store(&mut self, a: u64, v: &Val, nb: u32, w: u32) -> R<()> {
        match v {
            Val::C(c) if nb <= 8 => self.st.mem.store_c(a, *c, nb).map_err(mem_err),
            Val::A(_) => Err(Stop::Unsupported("aggregate store".into())),
            _ => {
                let e = self.ex(v, w);
                self.st.mem.store_e(&mut self.ar, a, e, nb).map_err(mem_err)
            }
        }
    }
    /// A load whose address is symbolic: `base + f(x)` with few values becomes an if-then-else over the table.
    fn load_sym(&mut self, e: ExprId, nb: u32, w: u32) -> R<Val> {
        // enumerate up to 17 address values under the path condition
        const N: usize = 16;
        if let Some(v) = self.load_indexed(e, nb, w, 256) {
            return Ok(v);
        }
        if let Some(v) = self.load_set(e, nb, w) {
            return Ok(v);
        }
        if let Some(v) = self.small(e) {
            if let Some(x) = self.load_table(e, v, nb, w) {
                return Ok(x);
            }
        }
        let mut vals: Vec<u128> = vec![];
        let cur = self.eval_model(e);
        vals.push(cur);
        let mut cs = self.slice(e);
        cs.retain(|&c| c != e);
        let mut complete = false;
        // a bounded index gives the table directly
        loop {
            let k = self.ar.konst(64, *vals.last().unwrap());
            let q = self.ar.bin(E::Eq, e, k);
            let ne = self.ar.not(q);
            cs.push(ne);
            self.solver.timeout_ms = self.lim.query_ms;
            match self.timed(&cs) {
                Res::Unsat => {
                    complete = true;
                    break;
                }
                Res::Sat(m) => {
                    let mm = self.merged(&m);
                    let mut memo = FxHashMap::default();
                    let x = self.ar.eval(e, &|v| mm.get(v as usize).copied().unwrap_or(0), &mut memo);
                    vals.push(x);
                }
                Res::Unknown => break,
            }
            if vals.len() > N {
                break;
            }
        }
        if complete {
            if vals.len() > 1 {
                // all in bounds?
                let mut loaded = vec![];
                let mut ok = true;
                for &a in &vals {
                    match self.st.mem.load(&mut self.ar, a as u64, nb, w) {
                        Ok(MemV::C(c)) => {
                            let k = self.ar.konst(w, c as u128);
                            loaded.push(k)
                        }
                        Ok(MemV::E(x)) => loaded.push(x),
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                }
                // values that are pointers or differ structurally are better forked
                let ptrish = nb == 8 && loaded.iter().any(|&l| self.ar.as_const(l).map_or(false, |c| self.st.mem.valid(c as u64)));
                if ok && !ptrish {
                    let mut acc = loaded[0];
                    for k in 1..loaded.len() {
                        let kk = self.ar.konst(64, vals[k]);
                        let q = self.ar.bin(E::Eq, e, kk);
                        acc = self.ar.ite(q, loaded[k], acc);
                    }
                    return Ok(self.val(acc));
                }
            }
        } else if let Some(v) = self.load_indexed(e, nb, w, 1024) {
            return Ok(v);
        }
        let a = self.concretize(&Val::S(e), 64)?;
        self.load(a, nb, w)
    }
    /// A load whose address takes few values by construction.
    fn load_set(&mut self, e: ExprId, nb: u32, w: u32) -> Option<Val> {
        let vs = self.ar.vset(e, 40)?;
        let mut got: Vec<(u128, ExprId)> = vec![];
        for &a in vs.iter() {
            let l = match self.st.mem.load(&mut self.ar, a as u64, nb, w) {
                Ok(MemV::C(c)) => {
                    if nb == 8 && self.st.mem.valid(c) {
                        return None;
                    }
                    self.ar.konst(w, c as u128)
                }
                Ok(MemV::E(x)) => x,
                Err(_) => return None,
            };
            got.push((a, l));
        }
        let mut acc = got.last()?.1;
        for k in (0..got.len() - 1).rev() {
            if got[k].1 == acc {
                continue;
            }
            let c = self.ar.konst(64, got[k].0);
            let le = self.ar.bin(E::Ule, e, c);
            acc = self.ar.ite(le, got[k].1, acc);
        }
        Some(self.val(acc))
    }
    /// A load `base + index * scale` whose index is below `limit` by construction: read the whole table.
    fn load_indexed(&mut self, e: ExprId, nb: u32, w: u32, limit: u64) -> Option<Val> {
        let (base, idx, scale, max) = self.table_form(e)?;
        if max > limit {
            return None;
        }
        let mut loaded = vec![];
        for k in 0..=max {
            let a = base.wrapping_add(scale.wrapping_mul(k));
            match self.st.mem.load(&mut self.ar, a, nb, w) {
                Ok(MemV::C(c)) => {
                    if nb == 8 && self.st.mem.valid(c) {
                        return None;
                    }
                    let kk = self.ar.konst(w, c as u128);
                    loaded.push(kk)
                }
                Ok(MemV::E(x)) => loaded.push(x),
                Err(_) => return None,
            }
        }
        let iw = self.ar.w(idx);
        let v = self.table_ite(idx, iw, 0, max, &loaded);
        Some(self.val(v))
    }
    /// A load whose address depends on one small variable: the loaded value as a function of that variable.
    fn load_table(&mut self, e: ExprId, v: u32, nb: u32, w: u32) -> Option<Val> {
        let (d, _) = self.domain(v);
        let vw = self.st.vars[v as usize].1;
        let mut got: FxHashMap<u64, ExprId> = FxHashMap::default();
        let mut t: Vec<Option<ExprId>> = vec![None; 1 << vw];
        for x in 0..t.len() {
            if d[x >> 7] >> (x & 127) & 1 == 0 {
                continue;
            }
            let a = self.ar.eval1(e, x as u128) as u64;
            let l = match got.get(&a) {
                Some(&l) => l,
                None => {
                    let l = match self.st.mem.load(&mut self.ar, a, nb, w) {
                        Ok(MemV::C(c)) => self.ar.konst(w, c as u128),
                        Ok(MemV::E(x)) => x,
                        Err(_) => return None,
                    };
                    if nb == 8 && self.ar.as_const(l).map_or(false, |c| self.st.mem.valid(c as u64)) {
                        return None;
                    }
                    got.insert(a, l);
                    l
                }
            };
            t[x] = Some(l);
        }
        let first = t.iter().position(|x| x.is_some())?;
        // outside the domain any value will do
        let mut last = t[first].unwrap();
        let full: Vec<ExprId> = t
            .iter()
            .map(|x| {
                if let Some(x) = x {
                    last = *x;
                }
                last
            })
            .collect();
        let ve = self.ar.var(vw, v);
        let r = self.table_ite(ve, vw, 0, full.len() as u64 - 1, &full);
        Some(self.val(r))
    }
    fn table_ite(&mut self, idx: ExprId, iw: u32, lo: u64, hi: u64, t: &[ExprId]) -> ExprId {
        if t[lo as usize..=hi as usize].iter().all(|&x| x == t[lo as usize]) {
            return t[lo as usize];
        }
        let mid = (lo + hi) / 2;
        let a = self.table_ite(idx, iw, lo, mid, t);
        let b = self.table_ite(idx, iw, mid + 1, hi, t);
        let k = self.ar.konst(iw, mid as u128);
        let c = self.ar.bin(E::Ule, idx, k);
        self.ar.ite(c, a, b)
    }
    fn table_form(&mut self, e: ExprId) -> Option<(u64, ExprId, u64, u64)> {
        let n = self.ar.n(e);
        let (base, t) = match n.op {
            E::Add => (self.ar.as_const(n.b)? as u64, n.a),
            _ => return None,
        };
        let mut idx = t;
        let mut scale = 1u64;
        loop {
            let tn = self.ar.n(idx);
            let (i, k) = match tn.op {
                E::Shl => (tn.a, 1u64 << self.ar.as_const(tn.b)?.min(63)),
                E::Mul => (tn.a, self.ar.as_const(tn.b)? as u64),
                E::Concat if self.ar.as_const(tn.b) == Some(0) => (tn.a, 1u64 << self.ar.w(tn.b).min(63)),
                E::ZExt => (tn.a, 1),
                _ => break,
            };
            // no wrap-around when scaling
            let u = self.ar.umax(i);
            if u > 4096 || k > 65536 || (tn.op != E::ZExt && tn.op != E::Concat && u * k as u128 > crate::expr::ones(tn.w as u32)) {
                break;
            }
            scale *= k;
            idx = i;
        }
        let max = self.ar.umax(idx);
        if max <= 1024 {
            Some((base, idx, scale, max as u64))
        } else {
            None
        }
    }

    fn load_ty(&mut self, a: u64, ty: TyId) -> R<Val> {
        match self.prog.types.i(ty).ty.clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = self.prog.types.width(ty);
                self.load(a, (w + 7) / 8, w)
            }
            Ty::Vec(n, e) => {
                let w = self.prog.types.width(e);
                if w % 8 != 0 {
                    let tot = n * w;
                    let v = self.load(a, (tot + 7) / 8, tot)?;
                    let x = self.ex(&v, tot);
                    let mut out = vec![];
                    for k in 0..n {
                        let b = self.ar.extract(x, k * w, w);
                        out.push(self.val(b));
                    }
                    return Ok(Val::A(Rc::new(out)));
                }
                let nb = w / 8;
                let mut v = Vec::with_capacity(n as usize);
                for k in 0..n {
                    v.push(self.load(a + (k * nb) as u64, nb, w)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let sz = self.prog.types.i(e).size;
                let mut v = vec![];
                for k in 0..n {
                    v.push(self.load_ty(a + k * sz, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let offs = self.prog.types.i(ty).offs.clone();
                let mut v = vec![];
                for (k, f) in fs.iter().enumerate() {
                    v.push(self.load_ty(a + offs[k], *f)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsupported("load type".into())),
        }
    }
    fn store_ty(&mut self, a: u64, ty: TyId, v: &Val) -> R<()> {
        match self.prog.types.i(ty).ty.clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = self.prog.types.width(ty);
                self.store(a, v, (w + 7) / 8, w)
            }
            Ty::Vec(n, e) => {
                let w = self.prog.types.width(e);
                let Val::A(vs) = v else { return Err(Stop::Unsupported("store vec".into())) };
                if w % 8 != 0 {
                    let mut acc = self.ex(&vs[0], w);
                    for k in 1..n as usize {
                        let h = self.ex(&vs[k], w);
                        acc = self.ar.concat(h, acc);
                    }
                    let tot = n * w;
                    return self.store(a, &Val::S(acc), (tot + 7) / 8, tot);
                }
                for (k, x) in vs.iter().enumerate() {
                    self.store(a + (k as u64) * (w as u64 / 8), x, w / 8, w)?;
                }
                Ok(())
            }
            Ty::Arr(_, e) => {
                let sz = self.prog.types.i(e).size;
                let Val::A(vs) = v else { return Err(Stop::Unsupported("store arr".into())) };
                for (k, x) in vs.iter().enumerate() {
                    self.store_ty(a + k as u64 * sz, e, x)?;
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                let offs = self.prog.types.i(ty).offs.clone();
                let Val::A(vs) = v else { return Err(Stop::Unsupported("store struct".into())) };
                for (k, f) in fs.iter().enumerate() {
                    self.store_ty(a + offs[k], *f, &vs[k])?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsupported("store type".into())),
        }
    }

    // ---------- scalar operations ----------
    fn bin_c(op: BinOp, w: u32, a: u64, b: u64) -> Option<u64> {
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        Some(match op {
            BinOp::Add => a.wrapping_add(b) & m,
            BinOp::Sub => a.wrapping_sub(b) & m,
            BinOp::Mul => a.wrapping_mul(b) & m,
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
            BinOp::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    (a << b) & m
                }
            }
            BinOp::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                let s = sx(a, w);
                ((s >> b.min(w as u64 - 1)) as u64) & m
            }
            BinOp::UDiv => a.checked_div(b)?,
            BinOp::URem => a.checked_rem(b)?,
            BinOp::SDiv => (sx(a, w).checked_div(sx(b, w))? as u64) & m,
            BinOp::SRem => (sx(a, w).checked_rem(sx(b, w))? as u64) & m,
            BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                let o = fop(op);
                crate::expr::f_bin(o, w, a as u128, b as u128) as u64
            }
        })
    }
    pub fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                return match Self::bin_c(op, w, *x, *y) {
                    Some(v) => Ok(Val::C(v)),
                    None => Err(Stop::Mem("division trap".into())),
                };
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let o = match op {
            BinOp::Add => E::Add,
            BinOp::Sub => E::Sub,
            BinOp::Mul => E::Mul,
            BinOp::UDiv => E::UDiv,
            BinOp::SDiv => E::SDiv,
            BinOp::URem => E::URem,
            BinOp::SRem => E::SRem,
            BinOp::Shl => E::Shl,
            BinOp::LShr => E::LShr,
            BinOp::AShr => E::AShr,
            BinOp::And => E::And,
            BinOp::Or => E::Or,
            BinOp::Xor => E::Xor,
            BinOp::FRem => return Err(Stop::Unsupported("symbolic frem".into())),
            o => fop(o),
        };
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            let z = self.ar.konst(w, 0);
            let q = self.ar.bin(E::Eq, y, z);
            if self.branch(q)? {
                return Err(Stop::Mem("division by zero trap".into()));
            }
        }
        let r = self.ar.bin(o, x, y);
        Ok(self.val(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.ar.bin(E::Eq, x, y),
            Pred::Ne => {
                let q = self.ar.bin(E::Eq, x, y);
                self.ar.not(q)
            }
            Pred::Ult => self.ar.bin(E::Ult, x, y),
            Pred::Ule => self.ar.bin(E::Ule, x, y),
            Pred::Ugt => self.ar.bin(E::Ult, y, x),
            Pred::Uge => self.ar.bin(E::Ule, y, x),
            Pred::Slt => self.ar.bin(E::Slt, x, y),
            Pred::Sle => self.ar.bin(E::Sle, x, y),
            Pred::Sgt => self.ar.bin(E::Slt, y, x),
            Pred::Sge => self.ar.bin(E::Sle, y, x),
        };
        self.val(e)
    }
    fn isnan(&mut self, x: ExprId) -> ExprId {
        self.ar.un(E::FIsNan, 1, x, 0)
    }
    fn fcmp(&mut self, mask: u8, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (crate::expr::f_val(w, *x as u128), crate::expr::f_val(w, *y as u128));
            let bit = if x.is_nan() || y.is_nan() {
                8
            } else if x < y {
                1
            } else if x == y {
                2
            } else {
                4
            };
            return Val::C((mask & bit != 0) as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match mask {
            0 => self.ar.f(),
            15 => self.ar.t(),
            2 => self.ar.bin(E::FEq, x, y),
            13 => {
                let q = self.ar.bin(E::FEq, x, y);
                self.ar.not(q)
            }
            1 => self.ar.bin(E::FLt, x, y),
            3 => self.ar.bin(E::FLe, x, y),
            4 => self.ar.bin(E::FLt, y, x),
            6 => self.ar.bin(E::FLe, y, x),
            // negations of the above
            14 => {
                let q = self.ar.bin(E::FLt, x, y);
                self.ar.not(q)
            }
            12 => {
                let q = self.ar.bin(E::FLe, x, y);
                self.ar.not(q)
            }
            11 => {
                let q = self.ar.bin(E::FLt, y, x);
                self.ar.not(q)
            }
            9 => {
                let q = self.ar.bin(E::FLe, y, x);
                self.ar.not(q)
            }
            _ => {
                let nx = self.isnan(x);
                let ny = self.isnan(y);
                let un = self.ar.bin(E::Or, nx, ny);
                let ord = self.ar.not(un);
                let eq = self.ar.bin(E::FEq, x, y);
                match mask {
                    8 => un,
                    7 => ord,
                    10 => self.ar.bin(E::Or, un, eq),
                    _ => {
                        let ne = self.ar.not(eq);
                        self.ar.bin(E::And, ord, ne)
                    }
                }
            }
        };
        self.val(e)
    }
    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> R<Val> {
        if let Val::C(x) = a {
            let x = *x;
            if tw <= 64 {
                match op {
                    CastOp::Trunc => return Ok(Val::C(if tw == 64 { x } else { x & ((1u64 << tw) - 1) })),
                    CastOp::ZExt => return Ok(Val::C(x)),
                    CastOp::SExt => return Ok(Val::C((sx(x, fw) as u64) & (ones(tw) as u64))),
                    _ => {}
                }
            }
        }
        let x = self.ex(a, fw);
        let e = match op {
            CastOp::Trunc => self.ar.extract(x, 0, tw),
            CastOp::ZExt => self.ar.zext(x, tw),
            CastOp::SExt => self.ar.sext(x, tw),
            CastOp::Bit => x,
            CastOp::FpToSi => self.ar.un(E::FToSI, tw, x, 0),
            CastOp::FpToUi => self.ar.un(E::FToUI, tw, x, 0),
            CastOp::SiToFp => self.ar.un(E::SIToF, tw, x, 0),
            CastOp::UiToFp => self.ar.un(E::UIToF, tw, x, 0),
            CastOp::FpTrunc | CastOp::FpExt => self.ar.un(E::FConv, tw, x, 0),
        };
        Ok(self.val(e))
    }
    fn flat_bits(&mut self, ty: TyId, v: &Val) -> R<ExprId> {
        match self.prog.types.i(ty).ty.clone() {
            Ty::Vec(_, e) => {
                let Val::A(vs) = v else { return Err(Stop::Unsupported("bitcast".into())) };
                let w = self.prog.types.width(e);
                // concrete fast path
                if vs.iter().all(|x| matches!(x, Val::C(_))) && w as usize * vs.len() <= 128 {
                    let mut acc = 0u128;
                    for (k, x) in vs.iter().enumerate() {
                        if let Val::C(c) = x {
                            acc |= (*c as u128) << (k as u32 * w);
                        }
                    }
                    return Ok(self.ar.konst(w * vs.len() as u32, acc));
                }
                if w as usize * vs.len() > 128 {
                    return Err(Stop::Unsupported("wide bitcast".into()));
                }
                let mut acc = self.ex(&vs[0], w);
                for x in &vs[1..] {
                    let h = self.ex(x, w);
                    acc = self.ar.concat(h, acc);
                }
                Ok(acc)
            }
            _ => {
                let w = self.prog.types.width(ty);
                Ok(self.ex(v, w))
            }
        }
    }
    fn bitcast(&mut self, from: TyId, to: TyId, v: &Val) -> R<Val> {
        if from == to {
            return Ok(v.clone());
        }
        let x = self.flat_bits(from, v)?;
        match self.prog.types.i(to).ty.clone() {
            Ty::Vec(n, e) => {
                let w = self.prog.types.width(e);
                let mut out = vec![];
                for k in 0..n {
                    let b = self.ar.extract(x, k * w, w);
                    out.push(self.val(b));
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => Ok(self.val(x)),
        }
    }
    pub fn select(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::C(x) => Ok(if *x & 1 != 0 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                let e = *e;
                if let Some(k) = self.known(e) {
                    return Ok(if k { a.clone() } else { b.clone() });
                }
                // pointers: fork, so that addresses stay concrete
                if w == 64 {
                    if let (Val::C(x), Val::C(y)) = (a, b) {
                        if x != y && *x > 4096 && *y > 4096 && (self.st.mem.valid(*x) || self.st.mem.valid(*y)) {
                            return Ok(if self.branch(e)? { a.clone() } else { b.clone() });
                        }
                    }
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.ar.ite(e, x, y);
                Ok(self.val(r))
            }
            _ => Err(Stop::Unsupported("select".into())),
        }
    }

    // ---------- run ----------
    pub fn push_call(&mut self, id: u32, args: Vec<Val>, dst: i32, edge: Option<Edge>) -> R<()> {
        let f = match self.prog.func(id) {
            Ok(f) => f,
            Err(e) => return Err(Stop::Unsupported(e)),
        };
        if self.st.frames.len() > self.lim.max_depth {
            return Err(Stop::Limit("call depth".into()));
        }
        self.entered.insert(id);
        let mut regs = args;
        if regs.len() < f.nargs as usize {
            return Err(Stop::Unsupported(format!("arity of {}", f.name)));
        }
        regs.truncate(f.nargs as usize);
        regs.resize(f.nregs as usize, Val::C(0));
        let sp = self.st.mem.sp;
        self.st.frames.push(Frame { f, pc: 0, regs, dst, edge, sp });
        Ok(())
    }

    pub fn run(&mut self, entry: &'static str, args: &[u64]) -> Report {
        let t0 = std::time::Instant::now();
        self.ar = Arena::new();
        self.lanes.clear();
        self.solver.reset();
        self.solver.stats = Default::default();
        self.solver.dump = if self.lim.dump { Some(vec![]) } else { None };
        self.rep = Report::default();
        self.work.clear();
        self.fork_sites.clear();
        self.entered.clear();
        self.st = empty_state();
        self.deadline = t0 + std::time::Duration::from_millis(self.lim.wall_ms);
        let id = self.prog.sym_named(entry);
        match id {
            None => {
                self.rep.incomplete.insert(format!("entry {entry} has no IR"), 1);
            }
            Some(id) => {
                let a = args.iter().map(|x| Val::C(*x)).collect();
                if let Err(e) = self.push_call(id, a, -1, None) {
                    self.rep.incomplete.insert(format!("entry: {e:?}"), 1);
                } else {
                    let st = std::mem::replace(&mut self.st, empty_state());
                    self.work.push(st);
                }
            }
        }
        let mut turn = 0u64;
        while !self.work.is_empty() {
            // depth first, but every other path comes from anywhere in the frontier
            turn += 1;
            let at = if turn % 2 == 0 { (turn.wrapping_mul(0x9e3779b97f4a7c15) >> 33) as usize % self.work.len() } else { self.work.len() - 1 };
            self.st = self.work.remove(at);
            let stop = self.exec();
            self.finish(stop);
            if self.rep.violations.len() >= self.lim.max_violations {
                break;
            }
            if std::time::Instant::now() > self.deadline {
                break;
            }
        }
        self.rep.unexplored += self.work.len() as u64;
        self.work.clear();
        let s = self.solver.stats.clone();
        self.rep.queries = s.queries;
        self.rep.sat = s.sat;
        self.rep.unsat = s.unsat;
        self.rep.unknown = s.unknown;
        self.rep.cache_hits = s.cache_hits;
        self.rep.solver_us = s.us;
        self.rep.max_query_us = s.max_us;
        self.rep.exprs = self.ar.nodes.len() as u64;
        self.rep.wall_ms = t0.elapsed().as_millis() as u64;
        let mut fs: Vec<(String, u64)> = self.fork_sites.iter().map(|(k, v)| (pretty(k), *v)).collect();
        fs.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
        self.rep.fork_sites = fs;
        let mut names: Vec<String> = self.entered.iter().map(|&i| self.prog.link.syms[i as usize].name.to_string()).collect();
        names.sort();
        self.rep.funcs = names;
        std::mem::take(&mut self.rep)
    }

    fn finish(&mut self, stop: Stop) {
        self.rep.paths += 1;
        self.rep.insts += self.st.insts;
        self.rep.max_inputs = self.rep.max_inputs.max(self.st.vars.len() as u32);
        for c in std::mem::take(&mut self.st.covers) {
            *self.rep.covers.entry(c).or_insert(0) += 1;
        }
        let model = self.st.model.clone();
        match &stop {
            Stop::Done => {
                self.rep.done += 1;
                // keep samples spread over the exploration: first few, then replace pseudo-randomly
                let k = self.rep.done as usize;
                let slot = if self.rep.samples.len() < self.lim.samples {
                    Some(self.rep.samples.len())
                } else {
                    let h = (k as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 33;
                    let s = h as usize % k;
                    if s < self.lim.samples {
                        Some(s)
                    } else {
                        None
                    }
                };
                if let Some(s) = slot {
                    let inp = self.inputs_of(&model);
                    let tr: Vec<(u32, Val, u32)> = self.st.trace.clone();
                    let mut memo = FxHashMap::default();
                    let t = tr
                        .iter()
                        .map(|(tag, v, w)| {
                            let x = match v {
                                Val::C(c) => *c as u128,
                                Val::W(c) => **c,
                                Val::S(e) => self.ar.eval(*e, &|v| model.get(v as usize).copied().unwrap_or(0), &mut memo),
                                _ => 0,
                            };
                            let _ = w;
                            (*tag, x)
                        })
                        .collect();
                    let item = (inp, t);
                    if s < self.rep.samples.len() {
                        self.rep.samples[s] = item;
                    } else {
                        self.rep.samples.push(item);
                    }
                }
            }
            Stop::Infeasible => self.rep.infeasible += 1,
            Stop::Panic(m) => {
                let m = m.clone();
                self.violation("panic", &m, &model);
            }
            Stop::Mem(m) => {
                let m = m.clone();
                self.violation("memory", &m, &model);
            }
            Stop::Assert(_) => {}
            Stop::Unsupported(m) => {
                let bt = self.backtrace();
                let key = format!("unsupported: {m} in {}", bt.iter().take(3).cloned().collect::<Vec<_>>().join(" < "));
                *self.rep.incomplete.entry(key).or_insert(0) += 1;
            }
            Stop::Limit(m) => {
                *self.rep.incomplete.entry(format!("limit: {m}")).or_insert(0) += 1;
            }
            Stop::Unknown(m) => {
                *self.rep.incomplete.entry(format!("solver: unknown {m}")).or_insert(0) += 1;
            }
        }
        if std::env::var_os("FERRO_PATHS").is_some() {
            eprintln!("path {} {:?} insts {} pcs {} vars {:?}", self.rep.paths, stop, self.st.insts, self.st.pcs.len(), self.inputs_of(&model));
            if !matches!(stop, Stop::Done | Stop::Infeasible) {
                for b in self.backtrace() {
                    eprintln!("      {b}");
                }
            }
        }
    }

    #[inline]
    fn opv(f: &Frame, o: i32) -> &Val {
        if o >= 0 {
            &f.regs[o as usize]
        } else {
            &f.f.consts[(-o - 1) as usize]
        }
    }
    #[inline]
    fn get(&self, o: i32) -> Val {
        Self::opv(self.st.frames.last().unwrap(), o).clone()
    }
    #[inline]
    pub fn set(&mut self, d: u32, v: Val) {
        self.st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    #[inline]
    fn jump(&mut self, e: &Edge) {
        let f = self.st.frames.last_mut().unwrap();
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, o) = e.moves[0];
                let v = Self::opv(f, o).clone();
                f.regs[d as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|(_, o)| Self::opv(f, *o).clone()).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) {
                    f.regs[*d as usize] = v;
                }
            }
        }
        f.pc = e.target;
    }

    fn exec(&mut self) -> Stop {
        loop {
            match self.step_many() {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step_many(&mut self) -> R<()> {
        let base = self.st.insts;
        for k in 0..4096u64 {
            self.st.insts = base + k;
            let fr = self.st.frames.last().unwrap();
            let func: &'static Func = fr.f;
            let pc = fr.pc as usize;
            let inst = &func.code[pc];
            // the pc is advanced only once the instruction has fully executed, so a forked sibling
            // re-executes it with its extra constraint
            match inst {
                I::Bin { op, w, dst, a, b } => {
                    let f = self.st.frames.last().unwrap();
                    let (x, y) = (Self::opv(f, *a), Self::opv(f, *b));
                    if let (Val::C(x), Val::C(y)) = (x, y) {
                        if *w <= 64 {
                            match Self::bin_c(*op, *w, *x, *y) {
                                Some(v) => self.set(*dst, Val::C(v)),
                                None => return Err(Stop::Mem("division trap".into())),
                            }
                            self.adv();
                            continue;
                        }
                    }
                    let (x, y) = (x.clone(), y.clone());
                    let v = self.binop(*op, *w, &x, &y)?;
                    self.set(*dst, v);
                }
                I::ICmp { p, w, dst, a, b } => {
                    let (x, y) = (self.get(*a), self.get(*b));
                    let v = self.icmp(*p, *w, &x, &y);
                    self.set(*dst, v);
                }
                I::Load { dst, p, nb, w } => {
                    let v = match self.get(*p) {
                        Val::C(a) => self.load(a, *nb, *w)?,
                        Val::S(e) => self.load_sym(e, *nb, *w)?,
                        _ => return Err(Stop::Unsupported("load address".into())),
                    };
                    self.set(*dst, v);
                }
                I::Store { p, v, nb, w } => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let v = self.get(*v);
                    self.store(a, &v, *nb, *w)?;
                }
                I::Gep { dst, base, off, terms } => {
                    let f = self.st.frames.last().unwrap();
                    let b = Self::opv(f, *base);
                    let mut conc = None;
                    if let Val::C(b) = b {
                        let mut acc = b.wrapping_add(*off);
                        let mut ok = true;
                        for (o, scale, w) in terms.iter() {
                            match Self::opv(f, *o) {
                                Val::C(x) => acc = acc.wrapping_add((sx(*x, *w) as u64).wrapping_mul(*scale)),
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            conc = Some(acc);
                        }
                    }
                    let v = match conc {
                        Some(a) => Val::C(a),
                        None => {
                            let b = b.clone();
                            let mut acc = self.ex(&b, 64);
                            let ko = self.ar.konst(64, *off as u128);
                            acc = self.ar.bin(E::Add, acc, ko);
                            for (o, scale, w) in terms.iter() {
                                let x = self.get(*o);
                                let x = self.ex(&x, *w);
                                let x = if *w < 64 { self.ar.sext(x, 64) } else { x };
                                let s = self.ar.konst(64, *scale as u128);
                                let t = self.ar.bin(E::Mul, x, s);
                                acc = self.ar.bin(E::Add, acc, t);
                            }
                            self.val(acc)
                        }
                    };
                    self.set(*dst, v);
                }
                I::Br(e) => {
                    self.jump(e);
                    continue;
                }
                I::CondBr { c, t, f } => {
                    let taken = match self.get(*c) {
                        Val::C(x) => x & 1 != 0,
                        Val::S(e) => self.branch(e)?,
                        _ => return Err(Stop::Unsupported("br".into())),
                    };
                    self.jump(if taken { t } else { f });
                    continue;
                }
                I::Switch { v, w, def, cases } => {
                    let e = match self.get(*v) {
                        Val::C(x) => {
                            let mut e = def;
                            for (k, c) in cases.iter() {
                                if *k == x {
                                    e = c;
                                    break;
                                }
                            }
                            e
                        }
                        Val::S(x) => {
                            let mut e = def;
                            // try the model's case first
                            let cur = self.eval_model(x) as u64;
                            let mut order: Vec<usize> = (0..cases.len()).collect();
                            if let Some(k) = cases.iter().position(|(c, _)| *c == cur) {
                                order.remove(k);
                                order.insert(0, k);
                            }
                            for k in order {
                                let kc = self.ar.konst(*w, cases[k].0 as u128);
                                let q = self.ar.bin(E::Eq, x, kc);
                                if self.branch(q)? {
                                    e = &cases[k].1;
                                    break;
                                }
                            }
                            e
                        }
                        _ => return Err(Stop::Unsupported("switch".into())),
                    };
                    self.jump(e);
                    continue;
                }
                I::Call(c) => {
                    self.call(c)?;
                    continue;
                }
                I::Ret { v } => {
                    let v = self.get(*v);
                    self.ret(Some(v))?;
                    continue;
                }
                I::RetVoid => {
                    self.ret(None)?;
                    continue;
                }
                I::Copy { dst, a } => {
                    let v = self.get(*a);
                    self.set(*dst, v);
                }
                I::Cast { op, fw, tw, dst, a } => {
                    let x = self.get(*a);
                    let v = self.cast(*op, *fw, *tw, &x)?;
                    self.set(*dst, v);
                }
                I::Select { dst, w, c, a, b } => {
                    let (c, x, y) = (self.get(*c), self.get(*a), self.get(*b));
                    let v = self.select(*w, &c, &x, &y)?;
                    self.set(*dst, v);
                }
                I::SelectA { dst, c, a, b } => {
                    let t = match self.get(*c) {
                        Val::C(x) => x & 1 != 0,
                        Val::S(e) => self.branch(e)?,
                        _ => return Err(Stop::Unsupported("select".into())),
                    };
                    let v = self.get(if t { *a } else { *b });
                    self.set(*dst, v);
                }
                I::Alloca { dst, size, n, align } => {
                    let nv = self.get(*n);
                    let n = self.concretize(&nv, 64)?;
                    let al = (*align).max(8);
                    let sp = (self.st.mem.sp - size * n) / al * al;
                    if sp < STACK_LO + (1 << 16) {
                        return Err(Stop::Limit("interpreted stack".into()));
                    }
                    self.st.mem.sp = sp;
                    self.set(*dst, Val::C(sp));
                }
                I::ExtractValue { dst, a, idx } => {
                    let f = self.st.frames.last().unwrap();
                    let mut v = Self::opv(f, *a);
                    for &i in idx.iter() {
                        match v {
                            Val::A(x) => v = &x[i as usize],
                            _ => return Err(Stop::Unsupported("extractvalue".into())),
                        }
                    }
                    let v = v.clone();
                    self.set(*dst, v);
                }
                I::InsertValue { dst, a, v, idx } => {
                    let mut agg = self.get(*a);
                    let v = self.get(*v);
                    {
                        let mut cur = &mut agg;
                        for &i in idx.iter() {
                            match cur {
                                Val::A(x) => cur = &mut Rc::make_mut(x)[i as usize],
                                _ => return Err(Stop::Unsupported("insertvalue".into())),
                            }
                        }
                        *cur = v;
                    }
                    self.set(*dst, agg);
                }
                I::LoadT { dst, p, ty } => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let v = self.load_ty(a, *ty)?;
                    self.set(*dst, v);
                }
                I::StoreT { p, v, ty } => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let v = self.get(*v);
                    self.store_ty(a, *ty, &v)?;
                }
                I::BinV { op, w, n, dst, a, b } => {
                    let (Val::A(x), Val::A(y)) = (self.get(*a), self.get(*b)) else { return Err(Stop::Unsupported("vector op".into())) };
                    let mut v = vec![];
                    for k in 0..*n as usize {
                        v.push(self.binop(*op, *w, &x[k], &y[k])?);
                    }
                    self.set(*dst, Val::A(Rc::new(v)));
                }
                I::ICmpV { p, w, n, dst, a, b } => {
                    let (Val::A(x), Val::A(y)) = (self.get(*a), self.get(*b)) else { return Err(Stop::Unsupported("vector op".into())) };
                    let mut v = vec![];
                    for k in 0..*n as usize {
                        v.push(self.icmp(*p, *w, &x[k], &y[k]));
                    }
                    self.set(*dst, Val::A(Rc::new(v)));
                }
                I::CastV { op, fw, tw, n, dst, a } => {
                    let Val::A(x) = self.get(*a) else { return Err(Stop::Unsupported("vector op".into())) };
                    let mut v = vec![];
                    for k in 0..*n as usize {
                        v.push(self.cast(*op, *fw, *tw, &x[k])?);
                    }
                    self.set(*dst, Val::A(Rc::new(v)));
                }
                I::SelectV { dst, w, n, c, a, b } => {
                    let (Val::A(c), Val::A(x), Val::A(y)) = (self.get(*c), self.get(*a), self.get(*b)) else { return Err(Stop::Unsupported("vector op".into())) };
                    let mut v = vec![];
                    for k in 0..*n as usize {
                        v.push(match &c[k] {
                            Val::C(t) => {
                                if *t & 1 != 0 {
                                    x[k].clone()
                                } else {
                                    y[k].clone()
                                }
                            }
                            ck => {
                                let (e, p, q) = (self.ex(ck, 1), self.ex(&x[k], *w), self.ex(&y[k], *w));
                                let r = self.ar.ite(e, p, q);
                                self.val(r)
                            }
                        });
                    }
                    self.set(*dst, Val::A(Rc::new(v)));
                }
                I::BitCast { from, to, dst, a } => {
                    let x = self.get(*a);
                    let v = self.bitcast(*from, *to, &x)?;
                    self.set(*dst, v);
                }
                I::ExtractElem { dst, a, i } => {
                    let iv = self.get(*i);
                    let i = self.concretize(&iv, 64)?;
                    let Val::A(x) = self.get(*a) else { return Err(Stop::Unsupported("extractelement".into())) };
                    let v = x.get(i as usize).cloned().unwrap_or(Val::C(0));
                    self.set(*dst, v);
                }
                I::InsertElem { dst, a, v, i } => {
                    let iv = self.get(*i);
                    let i = self.concretize(&iv, 64)?;
                    let Val::A(mut x) = self.get(*a) else { return Err(Stop::Unsupported("insertelement".into())) };
                    let v = self.get(*v);
                    if let Some(s) = Rc::make_mut(&mut x).get_mut(i as usize) {
                        *s = v;
                    }
                    self.set(*dst, Val::A(x));
                }
                I::Shuffle { dst, a, b, n, mask } => {
                    let (Val::A(x), Val::A(y)) = (self.get(*a), self.get(*b)) else { return Err(Stop::Unsupported("shufflevector".into())) };
                    let v = mask.iter().map(|&m| if m < *n { x[m as usize].clone() } else { y[(m - n) as usize].clone() }).collect();
                    self.set(*dst, Val::A(Rc::new(v)));
                }
                I::FCmp { mask, w, dst, a, b } => {
                    let (x, y) = (self.get(*a), self.get(*b));
                    let v = self.fcmp(*mask, *w, &x, &y);
                    self.set(*dst, v);
                }
                I::FNeg { w, dst, a } => {
                    let x = self.get(*a);
                    let s = wval(*w, 1u128 << (w - 1));
                    let v = self.binop(BinOp::Xor, *w, &x, &s)?;
                    self.set(*dst, v);
                }
                I::AtomicRmw { dst, p, v, w, op } => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let v = self.get(*v);
                    let old = self.load(a, w / 8, *w)?;
                    let new = match op {
                        RmwOp::Xchg => v,
                        RmwOp::Add => self.binop(BinOp::Add, *w, &old, &v)?,
                        RmwOp::Sub => self.binop(BinOp::Sub, *w, &old, &v)?,
                        RmwOp::And => self.binop(BinOp::And, *w, &old, &v)?,
                        RmwOp::Or => self.binop(BinOp::Or, *w, &old, &v)?,
                        RmwOp::Xor => self.binop(BinOp::Xor, *w, &old, &v)?,
                        RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                            let p = match op {
                                RmwOp::UMax => Pred::Ugt,
                                RmwOp::UMin => Pred::Ult,
                                RmwOp::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(p, *w, &old, &v);
                            self.select(*w, &c, &old, &v)?
                        }
                        RmwOp::Nand => return Err(Stop::Unsupported("atomic nand".into())),
                    };
                    self.store(a, &new, w / 8, *w)?;
                    self.set(*dst, old);
                }
                I::CmpXchg { dst, p, old, new, w } => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let (o, n) = (self.get(*old), self.get(*new));
                    let cur = self.load(a, w / 8, *w)?;
                    let c = self.icmp(Pred::Eq, *w, &cur, &o);
                    let ok = match c {
                        Val::C(x) => x != 0,
                        Val::S(e) => self.branch(e)?,
                        _ => false,
                    };
                    if ok {
                        self.store(a, &n, w / 8, *w)?;
                    }
                    self.set(*dst, Val::A(Rc::new(vec![cur, Val::C(ok as u64)])));
                }
                I::Nop => {}
                I::Unreachable => return Err(Stop::Mem("unreachable code reached".into())),
                I::Unsupported(s) => return Err(Stop::Unsupported(s.to_string())),
            }
            self.adv();
        }
        self.st.insts = base + 4096;
        if self.st.insts > self.lim.path_insts {
            return Err(Stop::Limit("instructions per path".into()));
        }
        if std::time::Instant::now() > self.deadline {
            self.rep.unexplored += 1;
            return Err(Stop::Limit("wall clock".into()));
        }
        Ok(())
    }
    #[inline]
    fn adv(&mut self) {
        self.st.frames.last_mut().unwrap().pc += 1;
    }

    fn ret(&mut self, v: Option<Val>) -> R<()> {
        let fr = self.st.frames.pop().unwrap();
        self.st.mem.sp = fr.sp;
        if self.st.frames.is_empty() {
            return Err(Stop::Done);
        }
        self.after_call(fr.dst, fr.edge.as_ref(), v);
        Ok(())
    }
    fn after_call(&mut self, dst: i32, edge: Option<&Edge>, v: Option<Val>) {
        if dst >= 0 {
            if let Some(v) = v {
                self.set(dst as u32, v);
            }
        }
        match edge {
            Some(e) => self.jump(e),
            None => self.adv(),
        }
    }

    fn call(&mut self, c: &'static CallI) -> R<()> {
        let id = match &c.callee {
            Callee::Nop => {
                self.after_call(-1, c.normal.as_ref(), None);
                return Ok(());
            }
            Callee::Direct(id) => *id,
            Callee::Indirect(o) => {
                let v = self.get(*o);
                let a = self.addr(&v)?;
                match self.prog.sym_at(a) {
                    Some(i) => i,
                    None => return Err(Stop::Mem(format!("call of a non-function address {a:#x}"))),
                }
            }
        };
        let sp = self.prog.link.syms[id as usize].special;
        let sp = if sp == -1 {
            let s = crate::intrin::special_of(self.prog.link.syms[id as usize].name);
            self.prog.link.syms[id as usize].special = s;
            s
        } else {
            sp
        };
        let args: Vec<Val> = {
            let f = self.st.frames.last().unwrap();
            c.args.iter().map(|o| Self::opv(f, *o).clone()).collect()
        };
        // Facts of Unicode about characters below U+0300, taken from the dependency rather than read out of its
        // tables: they never are the second half of a canonical composition, and their combining class is zero.
        if sp == crate::intrin::F_COMPOSE || sp == crate::intrin::F_CCC {
            let e = self.ex(args.last().unwrap(), 32);
            let k = self.ar.konst(32, 0x300);
            let low = self.ar.bin(E::Ult, e, k);
            let decided = match self.known(low) {
                Some(b) => b,
                None => {
                    let n = self.ar.not(low);
                    matches!(self.query(n), Res::Unsat)
                }
            };
            if decided {
                self.after_call(c.dst, c.normal.as_ref(), Some(Val::C(if sp == crate::intrin::F_CCC { 0 } else { 0xffff_ffff })));
                return Ok(());
            }
        }
        let mut args = args;
        if sp == crate::intrin::F_FMTF {
            // formatting a symbolic float: rendered as if it were this constant, and reported as a stub
            static SHOWN: f64 = 0.5;
            let a = self.addr(&args[0])?;
            if matches!(self.load(a, 8, 64)?, Val::S(_)) {
                self.rep.stubs.insert("float formatting".into());
                args[0] = Val::C(&SHOWN as *const f64 as u64);
            }
        }
        if sp == 0 || sp == crate::intrin::F_FMTF || sp == crate::intrin::F_COMPOSE || sp == crate::intrin::F_CCC {
            if self.trace_calls {
                eprintln!("{:width$}{}", "", pretty(self.prog.link.syms[id as usize].name), width = self.st.frames.len());
            }
            return self.push_call(id, args, c.dst, c.normal.clone());
        }
        let v = self.special(sp, id, args, c)?;
        self.after_call(c.dst, c.normal.as_ref(), v);
        Ok(())
    }
    pub fn profile(&mut self) -> &mut FxHashMap<&'static str, u64> {
        &mut self.prof
    }
}

#[inline]
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn fop(o: BinOp) -> E {
    match o {
        BinOp::FAdd => E::FAdd,
        BinOp::FSub => E::FSub,
        BinOp::FMul => E::FMul,
        BinOp::FDiv => E::FDiv,
        _ => E::FRem,
    }
}
#[allow(dead_code)]
fn _unused() -> i128 {
    sext(0, 8)
}
