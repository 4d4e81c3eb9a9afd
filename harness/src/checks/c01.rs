//! C01: compiled stories play as the reference interpreter plays their source.
use crate::ast::{self, layout};
use crate::r#gen::{Feat, Gen};
use crate::guard::{Caught, fueled, guarded};
use crate::host::{Host, Opts, Prog, show_opt};
use crate::refvm::{End, Stop, Vm};
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use crate::shrink::shrink;
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub fn def() -> Def {
    Def {
        id: "C01",
        rule: "a turn of a generated program (the lines with tags, variables and visit counts at every line end, the choices, how it ended) compared with the source-level reference interpreter's; distinct by program and choice path",
        assumptions: &[
            "programs come from a generator over core Ink, laid out in many ways (spacing, comments, includes, order of declarations)",
            "paths whose reference run needs an undefined operation, overflows or runs too long have no verdict",
        ],
        make: |c| Box::new(C01 { cfg: c.clone() }),
        budget: (75, 900),
        hang_is_violation: false,
        stall: 120,
        crash_is_violation: false,
    }
}

struct C01 {
    cfg: Cfg,
}

impl Check for C01 {
    fn total(&self) -> u64 {
        u64::MAX
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C01", self.cfg.seed, n);
        if n % 20 == 11 {
            return super::chance::run(&mut r, out);
        }
        run(&mut r, out);
    }
}

fn run(r: &mut Rng, out: &mut Out) {
    let f = Feat::random(r, Feat::core());
    let mut p = Gen::new(r.fork(), f).program();
    let seed = r.next();
    // the source text may be laid out in any way
    let mut lay = r.fork();
    if lay.pct(60) {
        let dense = [10, 30, 100][lay.below(3)];
        let flags = (0..layout::BITS).filter(|_| lay.pct(dense)).fold(0, |a, b| a | 1 << b) & layout::ALL;
        let flags = std::env::var("VPH_LAYOUT").ok().and_then(|v| v.parse().ok()).unwrap_or(flags);
        p.style = flags | (lay.next() << layout::BITS);
    }
    let mut o = tried(&p, seed, &[]);
    let v = std::mem::take(&mut o.violations);
    super::c02::merge(out, o);
    let Some(v) = v.into_iter().next() else { return };
    // the same kind of difference in a smaller program
    let kind = |v: &Value| {
        let s = v["sig"].as_str().unwrap_or("");
        if s.starts_with("rejected") { s.to_string() } else { s.split([':', '"']).next().unwrap_or("").to_string() }
    };
    let k = kind(&v);
    let names: Vec<String> = p.knots.iter().map(|k| k.name.clone()).collect();
    let path: Vec<usize> = serde_json::from_value(v["detail"]["path"].clone()).unwrap_or_default();
    let mut path = path;
    let t0 = std::time::Instant::now();
    let q = shrink(&p, 40_000, |q| {
        if t0.elapsed().as_secs() > 25 || k.starts_with("rejected") && !resolved(q, &names) {
            return false;
        }
        let o = tried(q, seed, &path);
        let Some(v) = o.violations.first().filter(|v| kind(v) == k) else { return false };
        path = serde_json::from_value(v["detail"]["path"].clone()).unwrap_or_default();
        true
    });
    let w = tried(&q, seed, &path).violations.into_iter().next().unwrap_or(v);
    out.violations.push(w);
}

/// Leaving things out left no name without its meaning.
fn resolved(p: &ast::Program, names: &[String]) -> bool {
    let mut p = p.clone();
    p.style = 0;
    let src = ast::print(&p);
    for t in src.split(|c: char| !c.is_alphanumeric() && c != '.' && c != '_') {
        let mut parts = t.split('.');
        let k = parts.next().unwrap_or("");
        if names.iter().any(|n| n == k) {
            let Some(d) = p.knots.iter().find(|x| x.name == k) else { return false };
            if let Some(s) = parts.next() {
                if !d.stitches.iter().any(|x| x.name == s) && !src.contains(&format!("({s})")) {
                    return false;
                }
            }
        }
        let label = k.len() > 1 && (k.starts_with('l') || k.starts_with('g')) && k[1..].chars().all(|c| c.is_ascii_digit());
        if label && !src.contains(&format!("({k})")) {
            return false;
        }
        let var = k.len() > 1 && ["x", "b", "y", "q", "to", "str", "C"].iter().any(|v| k.strip_prefix(v).is_some_and(|r| !r.is_empty() && r.chars().all(|c| c.is_ascii_digit())));
        if var && !src.contains(&format!("VAR {k} ")) && !src.contains(&format!("CONST {k} ")) && !src.contains(&format!("temp {k} ")) && !src.contains(&format!("{k})")) && !src.contains(&format!("{k},")) {
            return false;
        }
    }
    true
}

fn tried(p: &ast::Program, seed: u64, first: &[usize]) -> Out {
    let mut o = Out::default();
    match fueled(400_000, || {
        let mut o = Out::default();
        check(p, &mut Rng::new(seed), first, &mut o);
        o
    }) {
        Ok(o) => return o,
        Err(Caught::Fuel) => o.count("no_verdict_fuel"),
        Err(Caught::Panic(m)) => o.violation(format!("panic: {m}"), format!("panic while playing: {m}"), json!({"source": ast::print(p)})),
    }
    o
}

fn check(p: &ast::Program, r: &mut Rng, first: &[usize], out: &mut Out) {
    let (main, files) = ast::print_files(p);
    let compile = || {
        bladeink_compiler::Compiler::new()
            .compile_with_file_handler(&main, |f| match files.iter().find(|x| x.0 == f) {
                Some(x) => Ok(x.1.clone()),
                None => Err(bladeink_compiler::CompilerError::invalid_source(format!("no file {f}"))),
            })
            .map_err(|e| e.to_string())
    };
    let mut src = main.clone();
    for (n, t) in &files {
        src.push_str(&format!("\n//// file {n}\n{t}"));
    }
    let js = match guarded(compile) {
        Ok(Ok(js)) => js,
        Ok(Err(e)) => {
            out.violation(format!("rejected: {}", e), format!("the compiler rejects a program of the supported core: {e}"), json!({"source": src}));
            return;
        }
        Err(_) => {
            out.count("no_verdict_compiler_panic");
            return;
        }
    };
    out.count("programs");
    for (f, n) in [
        (layout::INDENT, "indent"), (layout::BULLETS, "bullets"), (layout::BLANKS, "blank lines"), (layout::COMMENTS, "comments"), (layout::BLOCK_COMMENTS, "block comments"),
        (layout::OPERATORS, "operators"), (layout::BRACES, "braces"), (layout::HEADERS, "headers"), (layout::ARROWS, "arrows"), (layout::ASSIGN, "assignments"),
        (layout::SAME_LINE, "same line"), (layout::TAGS, "tags"), (layout::GLOBALS, "globals"), (layout::CRLF, "crlf"), (layout::NO_EOL, "no last line end"),
        (layout::TRAILING, "trailing space"), (layout::TODO, "todo"), (layout::INCLUDES, "includes"), (layout::ESCAPES, "escapes"), (layout::CHOICE_LINES, "choice lines"),
    ] {
        if p.style & f != 0 {
            out.count(&format!("layout {n}"));
        }
    }
    let prog = Prog::from_json("generated", &src, &js);
    let Some(vm) = Vm::new(p) else { return };
    let mut tried: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for _ in 0..if first.is_empty() { 10 } else { 1 } {
        let mut path = vec![];
        let mut v = vm.clone();
        if !walk(&prog, &mut v, r, &mut tried, &mut path, first, out) {
            return;
        }
        for (k, c) in &v.seen {
            out.add(&format!("played {k}"), *c);
        }
        if path.is_empty() {
            break;
        }
    }
}

fn observe(h: &Host, globals: &[String], flows: &[String]) -> String {
    let mut s = String::new();
    for g in globals {
        s.push_str(&format!("var {}={}\n", g, show_opt(h.story.get_variable(g))));
    }
    for f in flows {
        match h.story.get_visit_count_at_path_string(f) {
            Ok(0) => {}
            Ok(n) => s.push_str(&format!("visits {f}={n}\n")),
            Err(e) => s.push_str(&format!("visits {f}: {e}\n")),
        }
    }
    s
}

/// One path from the start, beginning with the choices of `first`; false after a violation.
fn walk(p: &Prog, vm: &mut Vm, r: &mut Rng, tried: &mut BTreeMap<Vec<usize>, usize>, path: &mut Vec<usize>, first: &[usize], out: &mut Out) -> bool {
    let mut h = match Host::new(p, &Opts::default()) {
        Ok(h) => h,
        Err(e) => {
            out.violation("load", format!("the compiled story does not load: {e}"), json!({"source": p.src}));
            return false;
        }
    };
    let mut globals = p.globals.clone();
    globals.sort();
    let flows = vm.flows();
    let mut log = String::new();
    for _ in 0..9 {
        let t = match vm.play() {
            Ok(t) => t,
            Err(Stop::Fuel) => {
                out.count("no_verdict_long");
                return true;
            }
            Err(Stop::Skip(w)) => {
                out.count(&format!("no_verdict {}", w.split(' ').next().unwrap_or("")));
                return true;
            }
        };
        let bad = |what: &str, want: String, got: String, log: &str, out: &mut Out| {
            out.violation(
                format!("{what}: {} {path:?}", hash64(&p.src)),
                format!("{what} along {path:?}: expected {want:?}, got {got:?}"),
                json!({"source": p.src, "path": path, "expected": want, "got": got, "played": log}),
            );
            false
        };
        let mut n = 0;
        while h.story.can_continue() {
            let got = match h.story.cont() {
                Ok(l) => l,
                Err(e) => return bad("error", t.lines.get(n).map(|l| l.text.clone()).unwrap_or("(nothing)".into()), e.to_string(), &log, out),
            };
            let Some(l) = t.lines.get(n) else { return bad("extra line", "(nothing)".into(), got, &log, out) };
            log.push_str(&got);
            n += 1;
            if got != l.text {
                return bad("line", l.text.clone(), got, &log, out);
            }
            let tags = h.story.get_current_tags().unwrap_or_default();
            if tags != l.tags {
                return bad("tags", format!("{:?}", l.tags), format!("{tags:?}"), &log, out);
            }
            let obs = observe(&h, &globals, &flows);
            if obs != l.obs {
                let (mut w, mut g) = (l.obs.clone(), obs.clone());
                if let Some(d) = l.obs.lines().zip(obs.lines()).find(|(a, b)| a != b) {
                    (w, g) = (d.0.into(), d.1.into());
                }
                return bad(&format!("state after {got:?}"), w, g, &log, out);
            }
            out.count("lines");
        }
        if n < t.lines.len() {
            return bad("missing line", t.lines[n].text.clone(), "(nothing)".into(), &log, out);
        }
        let msgs = h.take_msgs();
        let ran_out = msgs.contains("ran out of content") || msgs.contains("unexpectedly reached end of content");
        if ran_out != (t.end == End::RanOut) || (!ran_out && !msgs.is_empty()) {
            return bad("end of turn", format!("{:?}", t.end), msgs, &log, out);
        }
        let got: Vec<(String, Vec<String>)> = h.story.get_current_choices().iter().map(|c| (c.text.clone(), c.tags.clone())).collect();
        if got != t.choices {
            return bad("choices", format!("{:?}", t.choices), format!("{got:?}"), &log, out);
        }
        out.eval();
        out.nontrivial(hash64(&format!("{}{path:?}", p.src)));
        out.count(match t.end {
            End::Choices => "turns_with_choices",
            End::Done => "turns_ended",
            End::RanOut => "turns_out_of_content",
        });
        if t.choices.is_empty() {
            return true;
        }
        // the least tried choice
        let mut best: Vec<usize> = vec![];
        let mut low = usize::MAX;
        for i in 0..got.len() {
            path.push(i);
            let c = tried.get(path).copied().unwrap_or(0);
            path.pop();
            if c < low {
                low = c;
                best.clear();
            }
            if c == low {
                best.push(i);
            }
        }
        let i = first.get(path.len()).copied().filter(|i| *i < got.len()).unwrap_or(*r.pick(&best));
        path.push(i);
        *tried.entry(path.clone()).or_default() += 1;
        log.push_str(&format!("=> {i} {}\n", got[i].0));
        if let Err(e) = h.story.choose_choice_index(i) {
            out.violation(format!("choose {}", hash64(&p.src)), format!("choice {i} cannot be taken: {e}"), json!({"source": p.src, "path": path}));
            return false;
        }
        match vm.choose(i) {
            Ok(()) => {}
            Err(_) => {
                out.count("no_verdict_choice");
                return true;
            }
        }
    }
    true
}
