//! Development tool: turn concrete programs into corpus programs with symbolic literals.
use crate::{pool::*, task::*};
use ferrosym::exec::Engine;
use std::fmt::Write as _;
use std::time::Instant;

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
    fn setrlimit(r: i32, l: *const u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lit {
    Int(i128),
    Float,
    Bool,
}
fn literals(s: &str) -> Vec<(usize, usize, Lit)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 128;
    while i < b.len() {
        let c = b[i];
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1
            }
        } else if s[i..].starts_with("/*") {
            i = s[i..].find("*/").map(|x| i + x + 2).unwrap_or(b.len());
        } else if c == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1
                }
                i += 1
            }
            i += 1;
        } else if c == b'#' {
            // attribute
            while i < b.len() && b[i] != b']' {
                i += 1
            }
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1
            }
            let mut fl = false;
            if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                fl = true;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
            }
            if st > 0 && b[st - 1] == b'.' && !(st > 1 && b[st - 2] == b'.') {
                continue;
            }
            let t = &s[st..i];
            if fl {
                v.push((st, i, Lit::Float))
            } else {
                let n = if let Some(h) = t.strip_prefix("0x") {
                    i128::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    i128::from_str_radix(h, 2).ok()
                } else {
                    t.parse().ok()
                };
                if let Some(n) = n {
                    v.push((st, i, Lit::Int(n)))
                }
            }
        } else if idc(c) {
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1
            }
            if &s[st..i] == "true" || &s[st..i] == "false" {
                v.push((st, i, Lit::Bool))
            }
        } else {
            i += 1
        }
    }
    v
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Keep,
    Small,
    Full,
    AsFloat,
}
fn subst(s: &str, lits: &[(usize, usize, Lit)], how: &[How], pure: bool) -> String {
    let mut o = String::new();
    let mut at = 0;
    let p = if pure { "k" } else { "" };
    let mut k = 0;
    for ((a, b, l), h) in lits.iter().zip(how) {
        o.push_str(&s[at..*a]);
        at = *b;
        let t = &s[*a..*b];
        match (*h, *l) {
            (How::Keep, _) => {
                o.push_str(t);
                continue;
            }
            (How::Small, Lit::Int(n)) => {
                let (lo, hi) = if n > 64 { (n - 1, n + 1) } else if n >= 2 { (n - 2, n + 2) } else { (n - 2, n + 3) };
                if pure && n < 3 {
                    let _ = write!(o, "sym::kupto({k}, 3)");
                } else {
                    let _ = write!(o, "sym::{p}range({k}, {lo}, {hi})");
                }
            }
            (How::Full, Lit::Int(_)) => {
                let _ = write!(o, "sym::{p}{}({k})", "i");
            }
            (How::AsFloat, Lit::Int(n)) => {
                let _ = write!(o, "(sym::{p}range({k}, {}, {}) as float)", n - 2, n + 2);
            }
            (How::Full, Lit::Float) => {
                let _ = write!(o, "sym::{p}f({k})");
            }
            (_, Lit::Float) => {
                let x: f64 = t.replace('_', "").parse().unwrap_or(1.0);
                let n = x as i64;
                let fr = x - n as f64;
                let _ = write!(o, "(sym::{p}range({k}, {}, {}) as float + {fr:?})", n - 2, n + 2);
            }
            (_, Lit::Bool) => {
                let _ = write!(o, "sym::{p}b({k})");
            }
        }
        k += 1;
    }
    o.push_str(&s[at..]);
    o
}

/// Run `f` in a child; its words come back through a file.
fn child(path: &str, secs: u32, f: impl FnOnce() -> String) -> Option<String> {
    let _ = std::fs::remove_file(path);
    unsafe {
        let pid = fork();
        if pid == 0 {
            setpgid(0, 0);
            alarm(secs);
            let t = f();
            std::fs::write(path, t).unwrap();
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        kill(-pid, 9);
    }
    let r = std::fs::read_to_string(path).ok();
    let _ = std::fs::remove_file(path);
    r
}

static mut SESS: Option<ferlium::CompilerSession> = None;
/// the session made before forking; each child uses it once
#[allow(static_mut_refs)]
fn session() -> ferlium::CompilerSession {
    unsafe { SESS.take().unwrap() }
}

fn compiles(path: &str, spec: &Spec) -> bool {
    child(path, 10, || match load(session(), spec) {
        Ok(_) => "1".into(),
        Err(_) => "0".into(),
    })
    .as_deref()
        == Some("1")
}
fn attempt(e: &mut Engine, path: &str, spec: &Spec, cfg: &Cfg) -> Option<(Res, f64)> {
    let t = Instant::now();
    let p2 = path.to_string();
    let r = child(path, 25, || {
        let _ = p2;
        run_task(e, session(), spec, cfg).put()
    })?;
    Some((Res::get(&r)?, t.elapsed().as_secs_f64()))
}

fn one(e: &mut Engine, path: &str, spec: &Spec, pure: bool) -> String {
    let cfg = Cfg { wall_ms: if pure { 8000 } else { 3000 }, max_paths: 400, query_ms: 1000, path_insts: 60_000_000 };
    let mut out = String::new();
    let mut spec = spec.clone();
    spec.cold = false;
    if !compiles(path, &spec) {
        return format!("# {} does not compile\n", spec.chunk);
    }
    let Some((r, secs)) = attempt(e, path, &spec, &cfg) else { return format!("# {} died\n", spec.chunk) };
    let mut opts = String::from("expr experimental");
    if !r.found.is_empty() {
        spec.modes = HIR | MIR;
        opts.push_str(" modes=hir,mir");
        match attempt(e, path, &spec, &cfg) {
            Some((q, _)) if q.found.is_empty() => {}
            _ => return format!("# {} FOUND {:?}\n", spec.chunk, r.found[0]),
        }
    }
    if r.n.get("cover_sandbox").copied().unwrap_or(0) > 0 || secs > 3.0 {
        return format!("# {} runs out of budget or is slow {secs}\n", spec.chunk);
    }
    let body = spec.src.clone();
    let lits = literals(&body);
    let mut how = vec![How::Keep; lits.len()];
    // greedy: which literals can be inputs at all?
    let max = if pure { 2 } else { 7 };
    let try_all: Vec<How> = lits.iter().enumerate().map(|(i, _)| if i < max { How::Small } else { How::Keep }).collect();
    let mut t = spec.clone();
    t.src = subst(&body, &lits, &try_all, pure);
    t.cold = pure;
    if !lits.is_empty() && compiles(path, &t) {
        how = try_all;
    } else {
        let mut n = 0;
        for i in 0..lits.len() {
            if n == max || i > 24 {
                break;
            }
            for h in [How::Small, How::AsFloat] {
                if h == How::AsFloat && !matches!(lits[i].2, Lit::Int(_)) {
                    continue;
                }
                how[i] = h;
                t.src = subst(&body, &lits, &how, pure);
                if compiles(path, &t) {
                    n += 1;
                    break;
                }
                how[i] = How::Keep;
            }
        }
    }
    let good = |r: &Res| r.n.get("exhaustive") == Some(&1);
    let mut best = body.clone();
    let mut note = String::new();
    // small ranges, dropping inputs until it is explored in time
    loop {
        if how.iter().all(|h| *h == How::Keep) {
            break;
        }
        t.src = subst(&body, &lits, &how, pure);
        match attempt(e, path, &t, &cfg) {
            Some((r, secs)) => {
                if !r.found.is_empty() {
                    note = format!("# {} SYMBOLIC FOUND {:?}\n", spec.chunk, r.found[0]);
                    best = t.src.clone();
                    break;
                }
                if (good(&r) || pure && r.n.get("done").copied().unwrap_or(0) > 3) && (pure || secs < 2.5) {
                    best = t.src.clone();
                    break;
                }
            }
            None => {}
        }
        let on: Vec<usize> = (0..how.len()).filter(|i| how[*i] != How::Keep).collect();
        for i in on.iter().skip(on.len() / 2) {
            how[*i] = How::Keep;
        }
    }
    if best != body && !pure && note.is_empty() {
        let full: Vec<How> = how.iter().map(|h| if *h == How::Small { How::Full } else { *h }).collect();
        let mut alt = full.clone();
        for (k, i) in (0..how.len()).filter(|i| how[*i] == How::Small).enumerate() {
            if k % 2 == 1 {
                alt[i] = How::Small;
            }
        }
        for h in [full, alt] {
            t.src = subst(&body, &lits, &h, pure);
            if let Some((r, secs)) = attempt(e, path, &t, &cfg) {
                if !r.found.is_empty() {
                    note = format!("# {} SYMBOLIC FOUND {:?}\n", spec.chunk, r.found[0]);
                    best = t.src.clone();
                    break;
                }
                if good(&r) && secs < 2.5 && r.n.get("cover_sandbox").copied().unwrap_or(0) == 0 {
                    best = t.src.clone();
                    break;
                }
            }
        }
    }
    if pure && best == body {
        return format!("# {} no pure input\n", spec.chunk);
    }
    let _ = writeln!(out, "//// {} {opts}\n{}", spec.chunk, best.trim_end());
    out.push_str(&note);
    out
}

/// ferro mine BUILD IN OUT [pure]
pub fn mine(build: &str, input: &str, output: &str, pure: bool) -> i32 {
    let text = std::fs::read_to_string(input).unwrap();
    let specs: Vec<Spec> = parse_corpus("mine", &text, HIR | MIR | OPT).into_iter().filter(|s| !s.opt.iter().any(|o| o == "rej")).collect();
    let mut e = crate::load_ir(build).unwrap();
    let mut sess = Some(new_session());
    prime(&mut e, &mut sess);
    unsafe { SESS = sess };
    let dir = format!("{output}.d");
    std::fs::create_dir_all(&dir).unwrap();
    let mut live = vec![];
    let mut next = 0;
    let mut done = 0;
    while next < specs.len() || !live.is_empty() {
        while live.len() < 8 && next < specs.len() {
            let k = next;
            next += 1;
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    setrlimit(4, [0u64, 0].as_ptr());
                    setrlimit(9, [6u64 << 30, 6 << 30].as_ptr());
                    use std::os::fd::AsRawFd;
                    let f = std::fs::File::create("/dev/null").unwrap();
                    dup2(f.as_raw_fd(), 2);
                    dup2(f.as_raw_fd(), 1);
                    let t = one(&mut e, &format!("{dir}/{k}.r"), &specs[k], pure);
                    std::fs::write(format!("{dir}/{k}"), t).unwrap();
                    _exit(0);
                }
            }
            live.push(pid);
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        live.retain(|p| *p != pid);
        done += 1;
        if done % 100 == 0 {
            eprintln!("{done}/{}", specs.len());
        }
    }
    let mut out = String::new();
    for k in 0..specs.len() {
        out.push_str(&std::fs::read_to_string(format!("{dir}/{k}")).unwrap_or_else(|_| format!("# {} no result\n", specs[k].chunk)));
    }
    std::fs::write(output, out).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    0
}
