//! Histories of module updates. A session that went through any history of updates (symbolic: which module,
//! which version, which entry in between) behaves as one that was given only the last source of every module.
use crate::host::{self, *};
use crate::limits::msg;
use crate::task::*;
use ferlium::execution::*;
use ferlium::module::{LocalFunctionId, ModuleId};
use ferlium::{CompilerSession, Path, ustr};

struct Reference {
    s: CompilerSession,
    /// which modules compile
    fresh: Vec<bool>,
    diagnostics: Vec<usize>,
    entry: Option<(ModuleId, LocalFunctionId)>,
}
pub struct HistoryJob {
    s: CompilerSession,
    names: Vec<String>,
    ids: Vec<ModuleId>,
    versions: Vec<Vec<String>>,
    refs: Vec<Reference>,
    ops: usize,
    first: usize,
    lax: bool,
    modes: u32,
}

fn entry(s: &CompilerSession, m: &str) -> Option<(ModuleId, LocalFunctionId)> {
    let id = s.modules().id_by_path(&Path::single_str(m))?;
    if s.modules().info(id)?.is_stale() {
        return None;
    }
    Some((id, s.expect_fresh_module(id).get_local_function_id(ustr("result"))?))
}
fn fresh(s: &CompilerSession, m: &str) -> bool {
    s.modules().id_by_path(&Path::single_str(m)).and_then(|i| s.modules().info(i)).is_some_and(|i| !i.is_stale())
}
fn diagnostics(s: &CompilerSession, m: &str) -> usize {
    s.modules().id_by_path(&Path::single_str(m)).and_then(|i| s.modules().info(i)).map_or(0, |i| i.diagnostics().len())
}

pub fn new_job(spec: &Spec, mut s: CompilerSession) -> Result<HistoryJob, LoadError> {
    let opt = |k: &str| spec.opt.iter().find_map(|o| o.strip_prefix(k)?.strip_prefix('='));
    let mut names: Vec<String> = vec![];
    let mut versions: Vec<Vec<String>> = vec![];
    let mut at = 0;
    for l in spec.src.lines() {
        if let Some(n) = l.strip_prefix("== ") {
            at = names.iter().position(|x| x == n.trim()).unwrap_or_else(|| {
                names.push(n.trim().to_string());
                versions.push(vec![]);
                names.len() - 1
            });
            versions[at].push(String::new());
        } else if !names.is_empty() {
            let t = versions[at].last_mut().unwrap();
            t.push_str(l);
            t.push('\n');
        }
    }
    let lax = opt("lax").is_some() || spec.opt.iter().any(|o| o == "lax");
    let mut refs = vec![];
    let total: usize = versions.iter().map(|v| v.len()).product();
    for c in 0..total {
        let mut r = new_session();
        r.set_allow_experimental(spec.experimental);
        let mut k = c;
        for (n, v) in names.iter().zip(&versions) {
            let _ = r.compile(&v[k % v.len()], &format!("{n}.fer"), Path::single_str(n));
            k /= v.len();
        }
        if lax {
            // modules may use later ones
            let mut k = c;
            for (n, v) in names.iter().zip(&versions) {
                if !fresh(&r, n) {
                    let _ = r.compile(&v[k % v.len()], &format!("{n}.fer"), Path::single_str(n));
                }
                k /= v.len();
            }
        }
        let e = entry(&r, names.last().unwrap());
        if let Some((m, _)) = e {
            for mode in [HIR, MIR, OPT] {
                if spec.modes & mode != 0 {
                    let t = select(&mut r, mode);
                    r.prepare_execution_target(t, m);
                }
            }
        }
        refs.push(Reference { fresh: names.iter().map(|n| fresh(&r, n)).collect(), diagnostics: names.iter().map(|n| diagnostics(&r, n)).collect(), entry: e, s: r });
    }
    s.set_allow_experimental(spec.experimental);
    for (n, v) in names.iter().zip(&versions) {
        if let Err(e) = s.compile(&v[0], &format!("{n}.fer"), Path::single_str(n)) {
            return Err(LoadError::Rejected(format!("{n}: {e:?}").chars().take(600).collect()));
        }
    }
    let ids = names.iter().map(|n| s.modules().id_by_path(&Path::single_str(n)).unwrap()).collect();
    Ok(HistoryJob { s, names, ids, versions, refs, ops: opt("ops").map_or(2, |x| x.parse().unwrap()), first: opt("first").map_or(0, |x| x.parse().unwrap()), lax, modes: spec.modes })
}

fn run(s: &mut CompilerSession, m: u32, e: (ModuleId, LocalFunctionId), x: isize, out: &mut Vec<u64>) {
    let t = select(s, m);
    host().begin_mode();
    host::reset_counter();
    out.clear();
    let lim = ReferenceInterpreterLimits::default().with_fuel_limit(Some(FUEL));
    let r = s.run_entry_with_limits(t, e.0, e.1, vec![ferlium::hir::value::Value::native(x)], lim);
    outcome(&r, out);
    match r {
        Ok(v) => discard_deep(v),
        Err(e) => drop(e),
    }
}

pub fn run_path(j: &mut HistoryJob) {
    let b = bufs();
    let x = sym(64) as isize;
    let n = j.names.len();
    let last = n - 1;
    let mut cur = vec![0usize; n];
    let texts: usize = j.versions.iter().map(|v| v.len()).sum();
    let modes: Vec<u32> = [HIR, MIR, OPT].into_iter().filter(|m| j.modes & m != 0).collect();
    for k in 0..j.ops {
        // the last operation is always an update
        let extra = if k + 1 == j.ops { 0 } else { modes.len() };
        let mut o = if k == 0 { j.first } else { choose((texts + extra - 1) as u64) as usize };
        if o >= texts {
            if let Some(e) = entry(&j.s, &j.names[last]) {
                run(&mut j.s, modes[o - texts], e, x, &mut b.out[0]);
            }
            continue;
        }
        let mut i = 0;
        while o >= j.versions[i].len() {
            o -= j.versions[i].len();
            i += 1;
        }
        cur[i] = o;
        let mut c = 0;
        for q in (0..n).rev() {
            c = c * j.versions[q].len() + cur[q];
        }
        let r = &j.refs[c];
        if (k + i) % 2 == 0 {
            let d = j.s.compile(&j.versions[i][o], &format!("{}.fer", j.names[i]), Path::single_str(&j.names[i]));
            let deps = (0..i).all(|q| r.fresh[q]);
            if deps && !j.lax && d.is_ok() != r.fresh[i] {
                fail("an update does not report whether the module compiles");
            }
        } else {
            let _ = j.s.update_module_source(j.ids[i], &j.versions[i][o]);
        }
        for q in 0..n {
            let f = fresh(&j.s, &j.names[q]);
            if f && !r.fresh[q] {
                fail("a module that does not compile any more passes for fresh");
            }
            if !f && r.fresh[q] && !j.lax {
                fail("a module that compiles stays stale");
            }
            if f && r.fresh[q] && diagnostics(&j.s, &j.names[q]) != r.diagnostics[q] {
                fail("an updated module has other diagnostics than a new one");
            }
            if j.s.modules().id_by_path(&Path::single_str(&j.names[q])) != Some(j.ids[q]) {
                fail("an update changes the identity of a module");
            }
        }
    }
    let mut c = 0;
    for q in (0..n).rev() {
        c = c * j.versions[q].len() + cur[q];
    }
    let r = &mut j.refs[c];
    cover(1);
    let (Some(a), Some(e)) = (entry(&j.s, &j.names[last]), r.entry) else { return };
    for m in modes {
        run(&mut j.s, m, a, x, &mut b.out[0]);
        b.log[0].clear();
        b.log[0].extend_from_slice(&host().log);
        run(&mut r.s, m, e, x, &mut b.out[1]);
        check(same(&b.out[0], &b.out[1]), msg(m, "after an update a module runs outdated code (HIR)", "after an update a module runs outdated code (MIR)", "after an update a module runs outdated code (optimized MIR)"));
        check(same(&b.log[0], &host().log), msg(m, "after an update a module has outdated effects (HIR)", "after an update a module has outdated effects (MIR)", "after an update a module has outdated effects (optimized MIR)"));
    }
}
