//! One executor entered several times. The inputs of every call are symbolic, and so is the call-depth or
//! environment-cell limit. Every call must end as it does in an executor of its own, until one of them
//! poisons the executor; whatever failed before leaves nothing behind that later calls would notice.
use crate::host::{self, *};
use crate::limits::{Exec, begin, finish};
use crate::m;
use crate::task::*;
use ferlium::execution::*;

const MAX: usize = 4;

pub fn run_path(l: &mut Loaded) {
    let opt = |k: &str, d: u64| -> u64 { l.spec.opt.iter().find_map(|o| o.strip_prefix(k)?.strip_prefix('=')?.parse().ok()).unwrap_or(d) };
    let calls = (opt("calls", 2) as usize).min(MAX);
    let m = [HIR, MIR, OPT][choose(2) as usize];
    if l.spec.modes & m == 0 {
        return;
    }
    let which = match l.spec.opt.iter().find_map(|o| o.strip_prefix("limit=")) {
        Some("depth") => 0,
        Some("cells") => 1,
        _ => choose(1),
    };
    let lim = sym(64);
    assume(lim <= [opt("depth", 16), opt("cells", 48)][which as usize]);
    let ample = ReferenceInterpreterLimits::default().with_fuel_limit(Some(opt("ref", 20_000) as usize));
    let limits = if which == 0 { ample.with_call_depth_limit(lim as usize) } else { ample.with_environment_cell_limit(lim as usize) };
    let t = select(&mut l.s, m);
    let b = bufs();
    let mut shared = Exec::new(t, l.m, &l.s, limits);
    let mut stuck = false;
    let mut failed = 0;
    let short = which == 0 && choose(1) == 1;
    for k in 0..if short { 1 } else { calls } {
        let raws: Vec<Raw> = l.args.iter().map(|a| raw(*a, &l.spec)).collect();
        if stuck {
            begin();
            let r = shared.run(l.m, l.f, &raws);
            finish(r, &mut b.out[1]);
            check(same(&b.out[1], &b.out[2]), m!(m, "a poisoned executor does not report its cause again"));
            check(host().log.is_empty() && host().drops.is_empty(), m!(m, "a poisoned executor ran guest code"));
            continue;
        }
        begin();
        let r = Exec::new(t, l.m, &l.s, limits).run(l.m, l.f, &raws);
        finish(r, &mut b.out[0]);
        b.log[0].clear();
        b.log[0].extend_from_slice(&host().log);
        b.drops[0].clear();
        b.drops[0].extend_from_slice(&host().drops);
        begin();
        let r = shared.run(l.m, l.f, &raws);
        finish(r, &mut b.out[1]);
        check(same(&b.out[0], &b.out[1]), m!(m, "an executor that was used before gives another outcome"));
        check(same(&b.log[0], &host().log), m!(m, "an executor that was used before has other effects"));
        check(same(&b.drops[0], &host().drops), m!(m, "an executor that was used before cleans up differently"));
        let o = b.out[1][0];
        stuck = o == SANDBOX || o == CLEANUP;
        check(shared.poisoned() == stuck, m!(m, "wrong poisoning"));
        if stuck {
            let (h, r) = b.out.split_at_mut(2);
            r[0].clear();
            r[0].extend_from_slice(&h[1]);
        }
        failed += (o != 0) as u32;
        if k == 0 {
            cover(o as u32 + 1);
        }
    }
    // Whatever the history was, a function that recurses has as much room as on a fresh executor.
    if short && !stuck {
        if let Some(f) = l.s.expect_fresh_module(l.m).get_local_function_id(ferlium::ustr("probe")) {
            let raws = [Raw::I(3)];
            begin();
            let r = Exec::new(t, l.m, &l.s, limits).run(l.m, f, &raws);
            finish(r, &mut b.out[0]);
            begin();
            let r = shared.run(l.m, f, &raws);
            finish(r, &mut b.out[1]);
            check(same(&b.out[0], &b.out[1]), m!(m, "an executor that was used before has less room"));
        }
    }
    cover(80 + failed);
    host::reset_counter();
}
