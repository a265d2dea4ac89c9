//! The front end and the IDE service on source text with symbolic characters.
//! In the template, `§` stands for any ASCII character (class narrowed by the chunk's `bytes=` option) and
//! `¤` for one character of a fixed mixture of wide characters; `⟦a|b|c⟧` stands for one of the given pieces of
//! text; when they are single characters, the byte depends on a symbolic index without a branch here, so that it is
//! the compiler that tells them apart.
use crate::host::*;
use crate::task::{LoadError, MIX, Spec};
use ferlium::{CompilerSession, Compiler, ide::PositionEncoding, module::Uses};

pub struct FrontJob {
    c: Compiler,
    spec: Spec,
    /// source compiled before the symbolic one, and after it
    known: String,
}

const KNOWN: &str = "fn twice(x) { x + x } twice(20) + 2";
const KNOWN_OUT: &str = "42: int";

pub fn new_job(s: CompilerSession, spec: &Spec) -> Result<FrontJob, LoadError> {
    let mut s = s;
    s.set_allow_experimental(spec.experimental);
    let mut c = Compiler::new_with_session_and_uses(s, Uses::new_with_std());
    c.set_execution_fuel_limit(20_000);
    // what is computed once per process
    for warm in ["let a = 1; f\"{a}b\"", "let a = 1.5; a.b", "#"] {
        let _ = c.compile_report(warm);
        let _ = c.run_expr();
        let _ = c.get_annotations();
    }
    let r = c.compile_report(KNOWN);
    if !r.succeeded {
        return Err(LoadError::Corpus("known source does not compile".into()));
    }
    let o = c.run_expr().map(|r| r.html_message());
    if o.as_deref() != Some(KNOWN_OUT) {
        return Err(LoadError::Corpus(format!("known source gives {o:?}")));
    }
    let _ = c.run_expr_mir(false);
    let _ = c.run_expr_mir(true);
    Ok(FrontJob { c, spec: spec.clone(), known: KNOWN.to_string() })
}

fn byte(class: &str) -> u8 {
    let c = sym(8) as u8;
    match class {
        "digit" => assume(c.wrapping_sub(b'0') < 10),
        "print" => assume(c.wrapping_sub(32) < 95),
        "lower" => assume(c.wrapping_sub(b'a') < 26),
        "punct" => assume(c.wrapping_sub(33) < 15 || c.wrapping_sub(58) < 7 || c.wrapping_sub(91) < 6 || c.wrapping_sub(123) < 4),
        _ => assume(c < 128),
    }
    c
}

fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

fn pieces(out: &mut Vec<u8>, list: &str) {
    assert!(list.is_ascii());
    let all: Vec<&[u8]> = list.split('|').map(|t| if t == "BAR" { b"|" as &[u8] } else { t.as_bytes() }).collect();
    let width = all.iter().map(|t| t.len()).max().unwrap_or(0);
    if width > 1 {
        out.extend_from_slice(all[choose(all.len() as u64 - 1) as usize]);
        return;
    }
    let k = sym(8) as u8;
    assume(k < all.len() as u8);
    for i in 0..width {
        let mut c = 0u8;
        for (o, t) in all.iter().enumerate() {
            let this = t.get(i).copied().unwrap_or(b' ');
            // 0xff if k == o
            let d = k ^ o as u8;
            let mask = ((d | d.wrapping_neg()) >> 7).wrapping_sub(1);
            c |= this & mask;
        }
        out.push(c);
    }
}

/// What a template says about the positions in it.
#[derive(Default)]
struct Marks {
    /// «a diagnostic» and ‹the failure› as byte ranges
    diag: Vec<(usize, usize)>,
    fail: Vec<(usize, usize)>,
    /// ‡an annotation‡
    hints: Vec<(usize, String)>,
}

fn utf16(s: &str) -> Vec<usize> {
    // UTF-16 position by scalar position
    let mut v = Vec::with_capacity(s.len() + 1);
    v.push(0);
    let mut n = 0;
    for c in s.chars() {
        n += if (c as u32) < 0x10000 { 1 } else { 2 };
        v.push(n);
    }
    v
}
fn scalar(s: &str, byte: usize) -> usize {
    s.as_bytes()[..byte].iter().filter(|b| (**b as i8) >= -0x40).count()
}

/// Positions reported in both encodings, against each other and against the marks.
pub fn run_ide(j: &mut FrontJob) {
    let mut m = Marks::default();
    let class = j.spec.opt.iter().find_map(|o| o.strip_prefix("bytes=")).unwrap_or("lower").to_string();
    let mut b: Vec<u8> = Vec::with_capacity(j.spec.src.len() + 64);
    let text = j.spec.src.trim_end_matches('\n');
    let mut at = 0;
    let (mut open_diag, mut open_fail) = (Vec::with_capacity(4), Vec::with_capacity(4));
    while let Some(ch) = text[at..].chars().next() {
        at += ch.len_utf8();
        match ch {
            '§' => b.push(byte(&class)),
            '¤' => b.extend_from_slice(WIDE[choose(WIDE.len() as u64 - 1) as usize].as_bytes()),
            '⟦' => {
                let end = at + text[at..].find('⟧').expect("unterminated ⟦");
                pieces(&mut b, &text[at..end]);
                at = end + '⟧'.len_utf8();
            }
            '«' => open_diag.push(b.len()),
            '»' => m.diag.push((open_diag.pop().expect("» without «"), b.len())),
            '‹' => open_fail.push(b.len()),
            '›' => m.fail.push((open_fail.pop().expect("› without ‹"), b.len())),
            '‡' => {
                let end = at + text[at..].find('‡').expect("unterminated ‡");
                m.hints.push((b.len(), text[at..end].to_string()));
                at = end + '‡'.len_utf8();
            }
            c => {
                let mut t = [0; 4];
                b.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
            }
        }
    }
    // SAFETY: bytes below 128 or whole characters
    let src = unsafe { String::from_utf8_unchecked(b) };
    let n = scalar(&src, src.len());
    let map = utf16(&src);
    let to16 = |p: usize| map.get(p).copied().unwrap_or(usize::MAX);
    let mut runs = vec![];
    for enc in [PositionEncoding::UnicodeScalar, PositionEncoding::Utf16CodeUnit] {
        j.c.set_position_encoding(enc);
        let r = j.c.compile_report(&src);
        let ann: Vec<_> = if r.succeeded { j.c.get_annotations().into_iter().map(|a| (a.pos, a.hint)).collect() } else { vec![] };
        let light: Vec<_> = if r.succeeded { j.c.get_light_annotations().into_iter().map(|a| (a.pos, a.hint)).collect() } else { vec![] };
        let mut fails = vec![];
        let mut texts = vec![];
        if r.succeeded {
            for e in [j.c.run_expr(), j.c.run_expr_mir(false), j.c.run_expr_mir(true)] {
                fails.push(e.and_then(|e| e.error_content()).map(|e| (e.summary.clone(), e.data.map(|d| (d.from as usize, d.to as usize)))));
            }
            for opt in [false, true] {
                texts.push(j.c.mir_text(opt));
            }
        }
        runs.push((r, ann, light, fails, texts));
    }
    let (b16, a) = (runs.pop().unwrap(), runs.pop().unwrap());
    check(a.0.succeeded == b16.0.succeeded && a.0.diagnostics.len() == b16.0.diagnostics.len(), "the position encoding changes the diagnostics");
    observe(1, a.0.succeeded as u64);
    cover(1);
    for (x, y) in a.0.diagnostics.iter().zip(&b16.0.diagnostics) {
        check(x.from <= x.to && x.to as usize <= n, "a diagnostic lies outside the source");
        check(to16(x.from as usize) == y.from as usize && to16(x.to as usize) == y.to as usize, "a diagnostic is elsewhere in UTF-16");
    }
    for (f, t) in &m.diag {
        let (f, t) = (scalar(&src, *f), scalar(&src, *t));
        check(a.0.diagnostics.iter().any(|d| d.from as usize == f && d.to as usize == t), "no diagnostic at the place at fault");
    }
    if m.diag.is_empty() {
        check(a.0.succeeded, "a good program is rejected");
    }
    for (x, y) in [(&a.1, &b16.1), (&a.2, &b16.2)] {
        check(x.len() == y.len(), "the position encoding changes the annotations");
        for (x, y) in x.iter().zip(y) {
            check(x.0 <= n && to16(x.0) == y.0 && eq(&x.1, &y.1), "an annotation is elsewhere in UTF-16");
        }
    }
    for (p, hint) in &m.hints {
        let p = scalar(&src, *p);
        check(a.1.iter().any(|x| x.0 == p && eq(&x.1, hint)), "an annotation is missing");
    }
    check(a.3.len() == b16.3.len(), "the position encoding changes the outcome");
    for (x, y) in a.3.iter().zip(&b16.3) {
        match (x, y) {
            (Some((s, Some((f, t)))), Some((s2, Some((f2, t2))))) => {
                check(eq(s, s2), "the position encoding changes the failure");
                check(f <= t && *t <= n && to16(*f) == *f2 && to16(*t) == *t2, "a failure is elsewhere in UTF-16");
            }
            _ => check(x.is_some() == y.is_some() && x.as_ref().is_some_and(|x| x.1.is_some()) == y.as_ref().is_some_and(|x| x.1.is_some()), "the position encoding changes the outcome"),
        }
    }
    if let Some((f, t)) = m.fail.first() {
        let at = (scalar(&src, *f), scalar(&src, *t));
        // MIR execution keeps no call stack: a failure below a script function of another module has
        // no place there, but a place it gives is the right one.
        for (i, x) in a.3.iter().enumerate() {
            cover(2);
            check(x.is_some(), "a failure is lost");
            let place = x.as_ref().and_then(|x| x.1);
            check(place == Some(at) || i > 0 && place.is_none(), "a failure is not located where it arose");
        }
    }
    for (x, y) in a.4.iter().zip(&b16.4) {
        check(eq(&x.text, &y.text) && x.source_map.len() == y.source_map.len(), "the position encoding changes the MIR");
        let text = utf16(&x.text);
        for (x, y) in x.source_map.iter().zip(&y.source_map) {
            check(x.from <= x.to && (x.to as usize) < text.len() && x.source_from <= x.source_to && x.source_to as usize <= n, "a source map entry is out of range");
            check(text[x.from as usize] == y.from as usize && text[x.to as usize] == y.to as usize, "a source map entry is elsewhere in the UTF-16 MIR");
            check(to16(x.source_from as usize) == y.source_from as usize && to16(x.source_to as usize) == y.source_to as usize, "a source map entry is elsewhere in the UTF-16 source");
        }
    }
}
const WIDE: [&str; 6] = ["a", "\u{e9}", "\u{2603}", "\u{1F44D}", "e\u{301}", "\u{1F468}\u{200D}\u{1F469}"];

pub fn run_path(j: &mut FrontJob) {
    if j.spec.opt.iter().any(|o| o == "ide") {
        return run_ide(j);
    }
    let class = j.spec.opt.iter().find_map(|o| o.strip_prefix("bytes=")).unwrap_or("any").to_string();
    let utf16 = j.spec.opt.iter().any(|o| o == "utf16");
    let mut b: Vec<u8> = Vec::with_capacity(j.spec.src.len() + 64);
    let mut n = 0; // length in the position encoding
    let text = j.spec.src.trim_end_matches('\n');
    let mut at = 0;
    while let Some(ch) = text[at..].chars().next() {
        at += ch.len_utf8();
        match ch {
            '⟦' => {
                let end = at + text[at..].find('⟧').expect("unterminated ⟦");
                let from = b.len();
                pieces(&mut b, &text[at..end]);
                n += b.len() - from;
                at = end + '⟧'.len_utf8();
            }
            '§' => {
                b.push(byte(&class));
                n += 1;
            }
            '¤' => {
                let k = choose(MIX.len() as u64 - 1) as usize;
                b.extend_from_slice(MIX[k].as_bytes());
                n += if utf16 { MIX[k].encode_utf16().count() } else { MIX[k].chars().count() };
            }
            c => {
                let mut t = [0; 4];
                b.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                n += if utf16 { c.len_utf16() } else { 1 };
            }
        }
    }
    // SAFETY: bytes below 128 or whole characters
    let src = unsafe { String::from_utf8_unchecked(b) };
    j.c.set_position_encoding(if utf16 { PositionEncoding::Utf16CodeUnit } else { PositionEncoding::UnicodeScalar });
    let r = j.c.compile_report(&src);
    let mut errors = 0;
    for d in &r.diagnostics {
        check(d.from <= d.to && d.to as usize <= n || d.file != "<ide>", "a diagnostic lies outside the source");
        if d.severity == ferlium::compiler::DiagnosticSeverity::Error {
            errors += 1;
        }
    }
    check(r.succeeded == (errors == 0), "success and diagnostics disagree");
    observe(1, r.succeeded as u64);
    observe(2, r.diagnostics.len() as u64);
    if r.succeeded {
        cover(1);
        for a in j.c.get_annotations().iter().chain(&j.c.get_light_annotations()) {
            check(a.pos <= n, "an annotation lies outside the source");
        }
        if j.spec.src.contains("fn f(") {
            let f = j.c.fn_signature("f").is_some();
            check(f == j.c.fn_signature_without_effects("f").is_some(), "a function has one signature");
            observe(4, f as u64);
        }
        let h = j.c.run_expr();
        let m = j.c.run_expr_mir(false);
        let o = j.c.run_expr_mir(true);
        check(h.is_some() == m.is_some() && h.is_some() == o.is_some(), "the modes disagree on whether there is an expression");
        if let (Some(h), Some(m), Some(o)) = (h, m, o) {
            let (he, me, oe) = (h.error_content(), m.error_content(), o.error_content());
            check(he.is_some() == me.is_some() && he.is_some() == oe.is_some(), "the modes disagree on whether the program fails");
            if he.is_none() {
                let t = h.html_message();
                check(eq(&t, &m.html_message()), "HIR and MIR render different results");
                check(eq(&t, &o.html_message()), "HIR and optimized MIR render different results");
                observe(3, t.len() as u64);
            } else if let (Some(he), Some(me), Some(oe)) = (he, me, oe) {
                cover(2);
                check(eq(&he.summary, &me.summary) && eq(&he.summary, &oe.summary), "the modes fail in different ways");
                for e in [&he, &me, &oe] {
                    if let Some(d) = &e.data {
                        check(d.from <= d.to && d.to as usize <= n, "a failure is located outside the source");
                    }
                }
            }
        }
        for opt in [false, true] {
            let t = j.c.mir_text(opt);
            let len = if utf16 { t.text.encode_utf16().count() } else { t.text.chars().count() };
            for e in &t.source_map {
                check(e.from <= e.to && e.to as usize <= len && e.source_from <= e.source_to && e.source_to as usize <= n, "a source map entry is out of range");
            }
        }
    } else {
        cover(1);
        // a program that does not compile is not run
        if let Some(r) = j.c.run_expr() {
            check(r.error_content().is_some(), "a stale program was run");
        }
        if let Some(r) = j.c.run_expr_mir(true) {
            check(r.error_content().is_some(), "a stale program was run (MIR)");
        }
        let _ = j.c.get_annotations();
        let _ = j.c.mir_text(true);
    }
    // the session survives
    let r = j.c.compile_report(&j.known);
    check(r.succeeded && r.diagnostics.is_empty(), "a good program is rejected afterwards");
    let o = j.c.run_expr().map(|r| r.html_message());
    check(o.as_deref() == Some(KNOWN_OUT), "a good program gives another result afterwards");
}
