//! Runs the tasks of a property on several processes, replays what they find, and writes evidence.
use crate::{front, history, host::host, limits, props, reuse, task::*};
use ferlium::CompilerSession;
use ferrosym::exec::Engine;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
    fn getpid() -> i32;
    fn setrlimit(r: i32, l: *const u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
}

pub enum Job {
    Program(Box<Loaded>),
    Front(Box<front::FrontJob>),
    History(Box<history::HistoryJob>),
}
static mut JOB: *mut Job = std::ptr::null_mut();

#[unsafe(no_mangle)]
pub extern "C" fn ferro_entry(_: u64) {
    let j = unsafe { &mut *JOB };
    match j {
        Job::Program(l) => {
            host().begin_path();
            if l.spec.cold {
                prepare(l);
            }
            match l.spec.kind {
                Kind::Limits => limits::run_path(l),
                Kind::Reuse => reuse::run_path(l),
                _ => run_path(l),
            }
        }
        Job::Front(f) => {
            host().begin_path();
            front::run_path(f)
        }
        Job::History(h) => {
            host().begin_path();
            history::run_path(h)
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Found {
    msg: String,
    kind: String,
    inputs: Vec<u128>,
    confirmed: bool,
    detail: String,
    backtrace: Vec<String>,
}
#[derive(Default, Clone)]
pub struct Res {
    pub n: BTreeMap<String, u64>,
    incomplete: BTreeMap<String, u64>,
    pub found: Vec<Found>,
    samples: Vec<String>,
    funcs: Vec<String>,
    stubs: Vec<String>,
    corpus: Option<String>,
    secs: f64,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
impl Res {
    pub fn put(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.n {
            let _ = writeln!(s, "N\t{k}\t{v}");
        }
        for (k, v) in &self.incomplete {
            let _ = writeln!(s, "I\t{v}\t{}", esc(k));
        }
        for f in &self.found {
            let i: Vec<String> = f.inputs.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(s, "V\t{}\t{}\t{}\t{}\t{}\t{}", f.confirmed as u8, f.kind, esc(&f.msg), i.join(","), esc(&f.detail), esc(&f.backtrace.join(" < ")));
        }
        for x in &self.samples {
            let _ = writeln!(s, "X\t{}", esc(x));
        }
        for x in &self.funcs {
            let _ = writeln!(s, "F\t{x}");
        }
        for x in &self.stubs {
            let _ = writeln!(s, "B\t{x}");
        }
        if let Some(c) = &self.corpus {
            let _ = writeln!(s, "C\t{}", esc(c));
        }
        s.push_str("E\n");
        s
    }
    pub fn get(t: &str) -> Option<Res> {
        let mut r = Res::default();
        let mut end = false;
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "N" => {
                    r.n.insert(p[1].into(), p[2].parse().ok()?);
                }
                "I" => {
                    r.incomplete.insert(unesc(p[2]), p[1].parse().ok()?);
                }
                "V" => r.found.push(Found {
                    confirmed: p[1] == "1",
                    kind: p[2].into(),
                    msg: unesc(p[3]),
                    inputs: p[4].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                    detail: unesc(p[5]),
                    backtrace: vec![unesc(p[6])],
                }),
                "X" => r.samples.push(unesc(p[1])),
                "F" => r.funcs.push(p[1].into()),
                "B" => r.stubs.push(p[1].into()),
                "C" => r.corpus = Some(unesc(p[1])),
                "E" => end = true,
                _ => {}
            }
        }
        end.then_some(r)
    }
}

pub struct Cfg {
    pub wall_ms: u64,
    pub max_paths: u64,
    pub query_ms: u32,
    pub path_insts: u64,
}

/// Describe a native run that went wrong, or None if it went fine.
fn bad(o: &ferrosym::sym::Outcome) -> Option<String> {
    if let Some(a) = &o.assert {
        return Some(a.clone());
    }
    if o.signal == 14 {
        return Some("does not terminate (killed after the time limit)".into());
    }
    if o.signal != 0 {
        let t: String = o.text.chars().take(500).collect();
        return Some(format!("signal {} {}", o.signal, t));
    }
    if o.code == 0 || o.code == ferrosym::sym::EXIT_INPUT || o.code == ferrosym::sym::EXIT_ASSUME {
        return None;
    }
    let t: String = o.text.chars().take(500).collect();
    Some(format!("exit {} {}", o.code, t))
}

/// Load the program of a task; runs natively.
fn job_for(spec: &Spec, s: CompilerSession) -> Result<Job, LoadError> {
    match spec.kind {
        Kind::Front => front::new_job(s, spec).map(|j| Job::Front(Box::new(j))),
        Kind::History => history::new_job(spec, s).map(|j| Job::History(Box::new(j))),
        _ => load(s, spec).map(|l| Job::Program(Box::new(l))).map_err(|e| e.1),
    }
}
fn set_job(j: Job) {
    unsafe { JOB = Box::leak(Box::new(j)) }
}
#[allow(static_mut_refs)]
fn job() -> &'static mut Job {
    unsafe { &mut *JOB }
}

/// The whole life of one task, in a process of its own.
pub fn run_task(e: &mut Engine, s: CompilerSession, spec: &Spec, cfg: &Cfg) -> Res {
    let mut r = Res::default();
    reserve();
    // compile, in a child first: a crash there is a finding, not an accident
    if spec.kind == Kind::Reject {
        return run_reject(s, spec);
    }
    match job_for(spec, s) {
        Ok(j) => set_job(j),
        Err(LoadError::Rejected(m)) => {
            r.found.push(Found { msg: format!("the compiler rejects this program: {m}"), kind: "compile".into(), confirmed: true, ..Default::default() });
            return r;
        }
        Err(LoadError::Corpus(m)) => {
            r.corpus = Some(m);
            return r;
        }
    }
    if let Job::Program(l) = job() {
        if !spec.cold {
            prepare(l);
        }
    }
    // a concrete run to begin with: warms caches and statics
    let seeds: [u128; 40] = [0; 40];
    let o = ferrosym::sym::replay(|| ferro_entry(0), &seeds, 20);
    r.n.insert("concrete_runs".into(), 1);
    if let Some(m) = bad(&o) {
        r.found.push(Found { msg: m, kind: "concrete".into(), inputs: seeds.to_vec(), confirmed: true, detail: String::new(), backtrace: vec![] });
        return r;
    }
    if !spec.cold && spec.kind != Kind::Front && spec.kind != Kind::History && o.code == 0 {
        ferrosym::sym::warm(|| ferro_entry(0), &seeds);
    }
    e.lim.wall_ms = cfg.wall_ms.max(spec.wall);
    e.lim.max_paths = if spec.paths > 0 { spec.paths } else { cfg.max_paths };
    e.lim.query_ms = cfg.query_ms;
    let wide = spec.kind == Kind::History || spec.opt.iter().any(|o| o == "ide");
    e.lim.path_insts = if wide { cfg.path_insts * 4 } else { cfg.path_insts };
    e.lim.max_violations = 8;
    e.lim.samples = 3;
    let rep = e.run("ferro_entry", &[0]);
    for (k, v) in [
        ("paths", rep.paths),
        ("done", rep.done),
        ("infeasible", rep.infeasible),
        ("unexplored", rep.unexplored),
        ("insts", rep.insts),
        ("forks", rep.forks),
        ("asserts", rep.asserts),
        ("assert_queries", rep.assert_queries),
        ("queries", rep.queries),
        ("sat", rep.sat),
        ("unsat", rep.unsat),
        ("unknown", rep.unknown),
        ("table_queries", rep.table_queries),
        ("solver_us", rep.solver_us),
        ("inputs", rep.max_inputs as u64),
        ("cover_ok", *rep.covers.get(&1).unwrap_or(&0)),
        ("cover_failed", *rep.covers.get(&2).unwrap_or(&0)),
        ("cover_sandbox", *rep.covers.get(&3).unwrap_or(&0)),
        ("budget", *rep.covers.get(&90).unwrap_or(&0)),
    ] {
        r.n.insert(k.into(), v);
    }
    r.n.insert("exhaustive".into(), (rep.unexplored == 0 && rep.incomplete.is_empty()) as u64);
    if std::env::var_os("FERRO_FORKS").is_some() {
        for (k, v) in rep.fork_sites.iter().take(15) {
            eprintln!("fork {v} {k}");
        }
        eprintln!("max query {}us cache hits {} exprs {}", rep.max_query_us, rep.cache_hits, rep.exprs);
    }
    r.incomplete = rep.incomplete.clone();
    r.stubs = rep.stubs.iter().cloned().collect();
    r.funcs = rep.funcs.clone();
    for v in &rep.violations {
        let o = ferrosym::sym::replay(|| ferro_entry(0), &v.inputs, 20);
        let b = bad(&o);
        r.found.push(Found {
            msg: v.msg.clone(),
            kind: v.kind.clone(),
            inputs: v.inputs.clone(),
            confirmed: b.is_some(),
            detail: b.unwrap_or_else(|| format!("native replay: exit {} signal {}", o.code, o.signal)),
            backtrace: v.backtrace.clone(),
        });
        if r.found.last().unwrap().confirmed {
            break;
        }
    }
    // sampled paths: the model's inputs, run natively, must observe what the engine predicted
    let mut ok = 0;
    let mut off = 0;
    for (inp, tr) in &rep.samples {
        if !rep.stubs.is_empty() {
            break;
        }
        let o = ferrosym::sym::replay(|| ferro_entry(0), inp, 20);
        if bad(&o).is_some() && r.found.is_empty() {
            r.found.push(Found { msg: bad(&o).unwrap(), kind: "sampled".into(), inputs: inp.clone(), confirmed: true, detail: String::new(), backtrace: vec![] });
            continue;
        }
        if o.trace == *tr {
            ok += 1;
        } else {
            off += 1;
            if std::env::var_os("FERRO_DEBUG").is_some() {
                eprintln!("TRACE MISMATCH {}\n inputs {inp:?}\n engine {tr:?}\n native {:?} code {} sig {}", spec.id(), o.trace, o.code, o.signal);
            }
        }
    }
    if let Some((inp, tr)) = rep.samples.last() {
        let t: Vec<String> = tr.iter().take(8).map(|(a, b)| format!("{a}:{b}")).collect();
        r.samples.push(format!("{} inputs {:?} observed {}", spec.id(), inp.iter().take(8).collect::<Vec<_>>(), t.join(" ")));
    }
    r.n.insert("traces_ok".into(), ok);
    r.n.insert("traces_off".into(), off);
    r
}

fn run_reject(s: CompilerSession, spec: &Spec) -> Res {
    let mut r = Res::default();
    r.n.insert("concrete_runs".into(), 1);
    let mut s = s;
    s.set_allow_experimental(spec.experimental);
    for (n, src) in &spec.libs {
        if let Err(e) = s.compile(src, &format!("{n}.fer"), ferlium::Path::single_str(n)) {
            let m: String = format!("{e:?}").chars().take(600).collect();
            r.found.push(Found { msg: format!("the compiler rejects this program: {m}"), kind: "compile".into(), confirmed: true, ..Default::default() });
            return r;
        }
    }
    if s.compile(&spec.src, "demo.fer", ferlium::Path::single_str("demo")).is_ok() {
        r.found.push(Found { msg: "the compiler accepts a program that must be rejected".into(), kind: "compile".into(), confirmed: true, ..Default::default() });
    }
    r
}

pub fn corpus(verif: &str, p: &props::Prop) -> Vec<Spec> {
    let mut v = vec![];
    for d in p.dirs {
        let dir = format!("{verif}/corpus/{d}");
        let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
        names.sort();
        for n in names {
            if n.extension().is_some_and(|x| x == "fer") {
                let t = std::fs::read_to_string(&n).unwrap();
                let f = format!("{d}/{}", n.file_name().unwrap().to_str().unwrap());
                v.extend(parse_corpus(&f, &t, p.modes).into_iter().map(|mut s| {
                    s.leak &= p.leak;
                    s.drops &= p.leak;
                    s.effects = p.effects;
                    if p.effects && matches!(s.kind, Kind::Law | Kind::Fails) {
                        s.kind = Kind::Agree;
                    }
                    s
                }));
            }
        }
    }
    v
}

struct Live {
    pid: i32,
    task: usize,
    t0: Instant,
}

pub fn check(id: &str, tier: &str, build: &str, verif: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let thorough = tier == "thorough";
    let cfg = Cfg {
        wall_ms: if thorough { 90_000 } else { 12_000 },
        max_paths: if thorough { 5_000 } else { 400 },
        query_ms: if thorough { 20_000 } else { 3_000 },
        path_insts: if thorough { 400_000_000 } else { 100_000_000 },
    };
    let budget: f64 = std::env::var("FERRO_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 240.0 });
    let mut specs = corpus(verif, p);
    if let Ok(f) = std::env::var("FERRO_ONLY") {
        specs.retain(|s| s.id().contains(&f));
    }
    let mut e = match load_engine(build) {
        Ok(e) => e,
        Err(m) => {
            eprintln!("cannot load IR: {m}");
            return 2;
        }
    };
    let scratch = format!("{build}/run/{}-{}", id, unsafe { getpid() });
    std::fs::create_dir_all(&scratch).unwrap();
    let mut sess = Some(new_session());
    prime(&mut e, &mut sess);
    eprintln!("[check {id}] {} tasks, ready after {:.1}s", specs.len(), t0.elapsed().as_secs_f64());

    let workers = std::env::var("FERRO_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let mut next = 0;
    let mut live: Vec<Live> = vec![];
    let mut results: Vec<Option<Res>> = vec![None; specs.len()];
    let mut skipped = 0;
    loop {
        while live.len() < workers && next < specs.len() {
            if t0.elapsed().as_secs_f64() > budget {
                skipped = specs.len() - next;
                next = specs.len();
                break;
            }
            let k = next;
            next += 1;
            let path = format!("{scratch}/{k}");
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    setpgid(0, 0);
                    setrlimit(4, [0u64, 0].as_ptr());
                    setrlimit(9, [10u64 << 30, 10 << 30].as_ptr());
                    alarm(((cfg.wall_ms.max(specs[k].wall)) / 1000 + 120) as u32);
                    use std::os::fd::AsRawFd;
                    let f = std::fs::File::create(format!("{path}.err")).unwrap();
                    if std::env::var_os("FERRO_DEBUG").is_none() {
                        dup2(f.as_raw_fd(), 2);
                        dup2(f.as_raw_fd(), 1);
                    }
                    let s = sess.take().unwrap();
                    let r = run_task(&mut e, s, &specs[k], &cfg);
                    std::fs::write(&path, r.put()).unwrap();
                    _exit(0);
                }
            }
            live.push(Live { pid, task: k, t0: Instant::now() });
        }
        if live.is_empty() {
            break;
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        if pid <= 0 {
            break;
        }
        let Some(i) = live.iter().position(|l| l.pid == pid) else { continue };
        let l = live.swap_remove(i);
        unsafe { kill(-pid, 9) };
        let path = format!("{scratch}/{}", l.task);
        let mut r = std::fs::read_to_string(&path).ok().and_then(|t| Res::get(&t)).unwrap_or_else(|| {
            let text = std::fs::read_to_string(format!("{path}.err")).unwrap_or_default();
            let tail: String = text.chars().take(1500).collect();
            let mut r = Res::default();
            r.incomplete.insert(format!("worker died: status {st} {tail}"), 1);
            r.n.insert("died".into(), 1);
            r
        });
        r.secs = l.t0.elapsed().as_secs_f64();
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(format!("{path}.err"));
        results[l.task] = Some(r);
    }
    // a task whose process died may have died in the code under test: compile and run it again, natively
    for k in 0..specs.len() {
        if results[k].as_ref().is_some_and(|r| r.n.contains_key("died")) {
            let spec = specs[k].clone();
            let o = ferrosym::sym::replay(
                || {
                    let s = sess.take().unwrap();
                    match job_for(&spec, s) {
                        Ok(j) => set_job(j),
                        Err(_) => return,
                    }
                    ferro_entry(0)
                },
                &[0; 40],
                30,
            );
            if let Some(m) = bad(&o) {
                results[k].as_mut().unwrap().found.push(Found { msg: m, kind: "crash".into(), inputs: vec![0; 40], confirmed: true, ..Default::default() });
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    report(id, tier, verif, p, &specs, &results, skipped, t0)
}

fn load_engine(build: &str) -> Result<Engine, String> {
    crate::load_ir(build)
}

/// Run a small program in the parent so that children inherit decoded functions.
pub fn prime(e: &mut Engine, sess: &mut Option<CompilerSession>) {
    reserve();
    let src = "pub fn law_p(a: int, b: int, s: string, xs: [int]) -> bool { let mut t = 0; for x in xs { if x > a { t += x } else { t -= b } }; let u = to_string(a < b); string_concat(s, u) != \"\" or t == t }";
    let spec = parse_corpus("prime", &format!("//// p len=1 slen=1\n{src}\n"), HIR | MIR | OPT).remove(0);
    let s = sess.take().unwrap();
    let l = match load(s, &spec) {
        Ok(l) => l,
        Err((s, _)) => {
            *sess = Some(s);
            return;
        }
    };
    set_job(Job::Program(Box::new(l)));
    if let Job::Program(l) = job() {
        prepare(l);
    }
    let o = ferrosym::sym::replay(|| ferro_entry(0), &[0; 40], 20);
    if bad(&o).is_none() {
        ferrosym::sym::warm(|| ferro_entry(0), &[0; 40]);
        e.lim.wall_ms = 5000;
        e.lim.max_paths = 40;
        let rep = e.run("ferro_entry", &[0]);
        if std::env::var_os("FERRO_DEBUG").is_some() {
            eprintln!("prime: {} paths {} insts {} ms {:?} {:?}", rep.paths, rep.insts, rep.wall_ms, rep.violations, rep.incomplete);
        }
    }
    *sess = Some(new_session());
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(id: &str, tier: &str, verif: &str, p: &props::Prop, specs: &[Spec], results: &[Option<Res>], skipped: usize, t0: Instant) -> i32 {
    let known = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut incomplete: BTreeMap<String, u64> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut samples = vec![];
    let mut viol = vec![];
    let mut inconclusive = vec![];
    let mut corpus_err = vec![];
    let mut vacuous = vec![];
    let mut exhaustive = 0;
    let mut slow: Vec<(u64, String)> = vec![];
    let _ = std::fs::create_dir_all(format!("{verif}/evidence/replay"));
    for (s, r) in specs.iter().zip(results) {
        let Some(r) = r else { continue };
        for (k, v) in &r.n {
            *tot.entry(k.clone()).or_insert(0) += v;
        }
        exhaustive += r.n.get("exhaustive").copied().unwrap_or(0);
        for (k, v) in &r.incomplete {
            *incomplete.entry(k.clone()).or_insert(0) += v;
        }
        funcs.extend(r.funcs.iter().cloned());
        stubs.extend(r.stubs.iter().cloned());
        if samples.len() < 6 || (samples.len() < 12 && s.id().len() % 7 == 0) {
            samples.extend(r.samples.iter().cloned());
        }
        if let Some(c) = &r.corpus {
            corpus_err.push(format!("{}: {c}", s.id()));
        }
        if r.found.is_empty() && r.corpus.is_none() && s.kind != Kind::Reject && r.n.get("done").copied().unwrap_or(0) == 0 {
            vacuous.push(s.id());
        }
        slow.push(((r.secs * 1000.0) as u64, format!("{} paths {} unexpl {} q {} solver {}ms", s.id(), r.n.get("paths").unwrap_or(&0), r.n.get("unexplored").unwrap_or(&0), r.n.get("queries").unwrap_or(&0), r.n.get("solver_us").unwrap_or(&0) / 1000)));
        for f in &r.found {
            if f.confirmed {
                viol.push((s, f.clone()));
                break;
            } else {
                inconclusive.push(format!("{}: {} {} inputs {:?}: {}", s.id(), f.kind, f.msg, f.inputs, f.detail));
            }
        }
    }
    if std::env::var_os("FERRO_SLOW").is_some() {
        slow.sort();
        for (ms, s) in slow.iter().rev().take(25) {
            eprintln!("{ms:6} ms {s}");
        }
    }
    let mut n_viol = 0;
    let mut known_hit = vec![];
    for (k, (s, f)) in viol.iter().enumerate() {
        let key = format!("property={id} {}", s.id());
        if known.lines().any(|l| l.trim_end() == format!("known: {key}") || l.starts_with(&format!("known: {key} ")) && known_match(l, f)) {
            println!("KNOWN-FINDING: property={id} {} {}", s.id(), first_line(&f.msg));
            known_hit.push(s.id());
            continue;
        }
        n_viol += 1;
        if n_viol > 10 {
            continue;
        }
        let path = format!("{verif}/evidence/replay/{id}-{k}.txt");
        let inp: Vec<String> = f.inputs.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(
            &path,
            format!(
                "property {id}\ntask {}\nkind {}\ninputs {}\nwhat {}\nnative {}\nbacktrace {}\n# run: python3 {verif}/tools/check.py replay {path}\n# program:\n{}",
                s.id(),
                f.kind,
                inp.join(","),
                esc(&f.msg),
                esc(&f.detail),
                esc(&f.backtrace.join(" < ")),
                s.src
            ),
        );
        println!("VIOLATION property={id} replay={path}");
        println!("  {} {}: {} {}", s.id(), f.kind, first_line(&f.msg), first_line(&f.detail));
    }
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let ferlium_funcs = funcs.iter().filter(|f| f.contains("7ferlium")).count();
    let mut names: Vec<String> = funcs.iter().filter(|f| f.contains("7ferlium")).map(|f| ferrosym::exec::pretty(f)).collect();
    names.sort();
    names.dedup();
    let list = |v: &[String], n: usize| v.iter().take(n).map(|x| jstr(x)).collect::<Vec<_>>().join(",");
    let inc: Vec<String> = incomplete.iter().map(|(k, v)| format!("{v} x {k}")).collect();
    let spaced: Vec<String> = names.iter().step_by((names.len() / 60).max(1)).cloned().collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":[{}],\"method\":{},\"tasks\":{},\"tasks_run\":{},\"tasks_fully_explored\":{},\"tasks_skipped_for_time\":{},\"paths_explored\":{},\"paths_completed\":{},\"paths_unexplored\":{},\"ir_instructions\":{},\"functions_encoded\":{},\"ferlium_functions_encoded\":{},\"function_names_sample\":[{}],\"assertions_evaluated\":{},\"assertions_needing_solver\":{},\"queries\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"queries_decided_by_truth_table\":{},\"solver_s\":{:.3},\"outcomes\":{{\"ok\":{},\"source_failure\":{},\"sandbox\":{},\"out_of_budget\":{}}},\"bounds\":{},\"corpora\":[{}],\"external_stubs\":[{}],\"incomplete\":[{}],\"inconclusive\":[{}],\"vacuous_tasks\":[{}],\"trace_mismatches\":{},\"corpus_errors\":[{}],\"known_findings\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.1},\"violations\":{}}}\n",
        jstr(id),
        jstr(tier),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1),
        g("paths"),
        g("insts"),
        g("traces_ok"),
        list(&samples, 12),
        jstr("symbolic execution of the LLVM IR of ferlium and its dependencies (compiled from the current tree), path conditions decided by Z3; a path stands for every input satisfying its condition"),
        specs.len(),
        results.iter().filter(|r| r.is_some()).count(),
        exhaustive,
        skipped,
        g("paths"),
        g("done"),
        g("unexplored"),
        g("insts"),
        funcs.len(),
        ferlium_funcs,
        list(&spaced, 60),
        g("asserts"),
        g("assert_queries"),
        g("queries"),
        g("sat"),
        g("unsat"),
        g("unknown"),
        g("table_queries"),
        g("solver_us") as f64 / 1e6,
        g("cover_ok"),
        g("cover_failed"),
        g("cover_sandbox"),
        g("budget"),
        jstr(&format!("integers and floats unrestricted (64 bit; floats finite) unless the program assumes otherwise; array arguments up to 3 elements and strings up to 3 characters unless the corpus chunk says otherwise; fuel {FUEL}; at most the stated number of paths per task; programs are those of the corpus")),
        p.dirs.iter().map(|d| jstr(&format!("corpus/{d}"))).collect::<Vec<_>>().join(","),
        stubs.iter().map(|d| jstr(d)).collect::<Vec<_>>().join(","),
        list(&inc, 40),
        list(&inconclusive, 20),
        list(&vacuous, 40),
        g("traces_off"),
        list(&corpus_err, 20),
        list(&known_hit, 20),
        [
            "the IR rustc emits for the checked build is what the machine code does (sampled paths are replayed natively and compared)",
            "Z3's verdicts; the engine's encoding of LLVM IR",
            "allocation never fails; addresses are concrete",
        ]
        .iter()
        .map(|x| jstr(x))
        .collect::<Vec<_>>()
        .join(","),
        t0.elapsed().as_secs_f64(),
        n_viol
    );
    let _ = std::fs::write(format!("{verif}/evidence/{id}.json"), ev);
    eprintln!(
        "[check {id}] {} tasks ({} fully explored, {} skipped), {} paths, {} insts, {} queries, {:.1}s solver, {} validated, {} mismatched, {} inconclusive, {} vacuous, {} corpus errors, {} violations, {:.1}s",
        specs.len(),
        exhaustive,
        skipped,
        g("paths"),
        g("insts"),
        g("queries"),
        g("solver_us") as f64 / 1e6,
        g("traces_ok"),
        g("traces_off"),
        inconclusive.len(),
        vacuous.len(),
        corpus_err.len(),
        n_viol,
        t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("FERRO_VERBOSE").is_some() {
        for x in inc.iter().chain(&inconclusive).chain(&corpus_err) {
            eprintln!("  {}", x.chars().take(400).collect::<String>());
        }
        for x in &vacuous {
            eprintln!("  vacuous {x}");
        }
    }
    if n_viol > 0 { 1 } else { 0 }
}
fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(300).collect()
}
/// a known-findings line may pin the failure further: `known: property=ID task | text the report contains`
fn known_match(l: &str, f: &Found) -> bool {
    match l.split_once(" | ") {
        Some((_, t)) => f.msg.contains(t.trim()) || f.detail.contains(t.trim()),
        None => false,
    }
}

pub fn lint(verif: &str, pat: &str) -> i32 {
    let mut seen = BTreeSet::new();
    let mut bad = 0;
    for p in props::PROPS {
        for s in corpus(verif, p) {
            if !s.id().contains(pat) || matches!(s.kind, Kind::Front | Kind::History) || (s.kind == Kind::Reject) != std::env::var("FERRO_REJ").is_ok() || !seen.insert(format!("{}:{}", s.file, s.chunk)) {
                continue;
            }
            let mut sess = new_session();
            sess.set_allow_experimental(s.experimental);
            if let Err((_, LoadError::Rejected(e) | LoadError::Corpus(e))) = load(sess, &s) {
                bad += 1;
                let at = e.split("start: ").nth(1).and_then(|x| x.split(',').next()).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
                let line = s.src[..at.min(s.src.len())].lines().count();
                let from = s.src[..at.min(s.src.len())].rfind('\n').map_or(0, |x| x + 1);
                println!("{}:{}: {}", s.file, s.chunk, e.chars().take(300).collect::<String>());
                println!("   line {line} col {}: {}", at - from, s.src[from..].lines().next().unwrap_or(""));
            }
        }
    }
    bad
}

pub fn one(build: &str, verif: &str, id: &str, pat: &str) -> i32 {
    let p = props::find(id).unwrap();
    let specs: Vec<Spec> = corpus(verif, p).into_iter().filter(|s| s.id().contains(pat)).collect();
    let mut e = load_engine(build).unwrap();
    let Some(spec) = specs.first() else { return 2 };
    let cfg = Cfg { wall_ms: 30_000, max_paths: 2000, query_ms: 5000, path_insts: 200_000_000 };
    let t = Instant::now();
    let r = run_task(&mut e, new_session(), spec, &cfg);
    println!("{} {:?} {:?}", spec.id(), r.n, t.elapsed());
    println!("{:?}", r.samples);
    for (k, v) in &r.incomplete {
        println!("incomplete {v} {k}");
    }
    for f in &r.found {
        println!("found {} {} confirmed {} {:?} {} {:?}", f.kind, f.msg, f.confirmed, f.inputs, f.detail, f.backtrace);
    }
    if let Some(c) = r.corpus {
        println!("corpus: {c}");
    }
    0
}

pub fn replay_file(file: &str, verif: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let (id, task, inputs) = (get("property"), get("task"), get("inputs"));
    let inputs: Vec<u128> = inputs.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let p = props::find(&id).unwrap();
    let Some(spec) = corpus(verif, p).into_iter().find(|s| s.id() == task) else {
        eprintln!("no such task");
        return 2;
    };
    if spec.kind == Kind::Reject {
        let r = run_reject(new_session(), &spec);
        println!("{}", if r.found.is_empty() { "does not reproduce" } else { "reproduced: accepted" });
        return (!r.found.is_empty()) as i32;
    }
    let o = ferrosym::sym::replay(
        || {
            reserve();
            match job_for(&spec, new_session()) {
                Ok(j) => set_job(j),
                Err(LoadError::Rejected(m)) | Err(LoadError::Corpus(m)) => panic!("{m}"),
            }
            if let Job::Program(l) = job() {
                if !l.spec.cold {
                    prepare(l);
                }
            }
            ferro_entry(0)
        },
        &inputs,
        60,
    );
    match bad(&o) {
        Some(m) => {
            println!("reproduced: {m}");
            1
        }
        None => {
            println!("does not reproduce: {o:?}");
            0
        }
    }
}
#[allow(dead_code)]
fn unused(_: Duration) {}
