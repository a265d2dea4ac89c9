//! ferro: decides properties of ferlium by executing its compiled code symbolically.
mod front;
mod history;
mod host;
mod limits;
mod reuse;
mod mine;
mod model;
mod pool;
mod props;
mod task;

use ferrosym::exec::Engine;
use ferrosym::link::Program;
use std::time::Instant;

pub fn load_ir(build: &str) -> Result<Engine, String> {
    let mut files = vec![];
    for d in ["ll", "std"] {
        for e in std::fs::read_dir(format!("{build}/{d}")).map_err(|e| e.to_string())? {
            let p = e.map_err(|e| e.to_string())?.path();
            if p.extension().is_some_and(|x| x == "ll") {
                files.push(p.to_str().unwrap().to_string())
            }
        }
    }
    files.sort();
    Ok(Engine::new(Program::load(&files)?))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        // ferro check ID TIER BUILD VERIF
        Some("check") => pool::check(&a[2], &a[3], &a[4], &a[5]),
        // ferro replay FILE VERIF
        Some("replay") => pool::replay_file(&a[2], &a[3]),
        // ferro one BUILD VERIF ID PATTERN
        Some("one") => pool::one(&a[2], &a[3], &a[4], &a[5]),
        // ferro mine BUILD IN OUT [pure]
        Some("mine") => mine::mine(&a[2], &a[3], &a[4], a.len() > 5),
        // ferro lint VERIF PATTERN: compile every program of the corpora, print what is rejected
        Some("lint") => pool::lint(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("")),
        // ferro std: the standard library's functions, as seen by a program
        Some("std") => {
            let s = task::new_session();
            for (n, f) in s.std_module().iter_named_functions() {
                let a: Vec<&str> = f.definition.arg_names.iter().map(|x| x.as_str()).collect();
                println!("{n}({})", a.join(", "));
            }
            0
        }
        _ => {
            eprintln!("usage: ferro check ID TIER BUILD VERIF | replay FILE VERIF | one BUILD VERIF ID PATTERN");
            2
        }
    };
    std::process::exit(code);
}

#[allow(dead_code)]
pub fn since(t: Instant) -> f64 {
    t.elapsed().as_secs_f64()
}
