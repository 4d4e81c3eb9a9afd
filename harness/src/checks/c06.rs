//! C06: any text compiles to a story or to an error; errors name lines that exist; every reference in a story resolves.
use crate::ast;
use crate::corpus;
use crate::r#gen::{Feat, Gen};
use crate::guard::{self, Caught};
use crate::paths::Doc;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::time::Instant;

pub fn def() -> Def {
    Def {
        id: "C06",
        rule: "one source text (with the files it includes) compiled twice in a 2 MB thread; distinct by text. Compiled ones are loaded and every reference in them resolved by an independent reader",
        assumptions: &["a text of under 200 kB that is not done after the stall limit is taken as a hang"],
        make: |c| Box::new(C06 { cfg: c.clone(), corpus: sources() }),
        budget: (60, 900),
        hang_is_violation: true,
        stall: 60,
        crash_is_violation: true,
    }
}

/// A main text and the files it may include.
#[derive(Clone, Default)]
pub struct Src {
    main: String,
    files: BTreeMap<String, String>,
}

struct C06 {
    cfg: Cfg,
    corpus: Vec<Src>,
}

fn sources() -> Vec<Src> {
    let mut v = vec![];
    for e in corpus::entries() {
        let dir = e.path.parent().map(|p| p.to_path_buf()).unwrap_or_default();
        let mut s = Src { main: e.src.clone(), ..Default::default() };
        for l in e.src.lines() {
            if let Some(f) = l.trim().strip_prefix("INCLUDE ") {
                if let Ok(t) = std::fs::read_to_string(dir.join(f.trim())) {
                    s.files.insert(f.trim().to_string(), t);
                }
            }
        }
        v.push(s);
    }
    let p = concat!(env!("CARGO_MANIFEST_DIR"), "/programs");
    let mut names: Vec<_> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    for f in names {
        if let Ok(t) = std::fs::read_to_string(&f) {
            v.push(Src { main: t, ..Default::default() });
        }
    }
    v
}

const TOKENS: &[&str] = &[
    "->", "->->", "<-", "<>", "*", "+", "-", "=", "==", "===", "{", "}", "[", "]", "(", ")", "|", "||", "&&", "&", "!", "~", "#", "/", "//", "/*", "*/", ":", "::", ",", ".", "\"", "'", "\\", "\\{", "?", "!?", "^", "%", "<", ">", "<=", ">=", "!=",
    "+=", "-=", "++", "--", "$", "@", "`", ";", "\n", "\n", "\n", " ", " ", "\t", "    ", "\r\n", "\r", "\u{0}", "\u{feff}", "\u{a0}", "é", "日本", "🎉", "0", "1", "2", "-1", "3.5", "1.", ".5", "1e9", "2147483648", "99999999999999999999", "x", "y",
    "knot", "stitch", "foo", "VAR", "CONST", "LIST", "EXTERNAL", "INCLUDE", "temp", "ref", "function", "return", "true", "false", "not", "and", "or", "mod", "has", "hasnt", "else", "else:", "END", "DONE", "TODO:", "shuffle", "once", "cycle", "stopping",
    "stopping:", "shuffle once:", "TURNS_SINCE", "READ_COUNT", "CHOICE_COUNT()", "TURNS()", "RANDOM(1,2)", "SEED_RANDOM(1)", "LIST_COUNT", "LIST_RANGE", "MAX", "POW", "INT", "- else:", "text", "(label)", "== function f(x)", "=== k ===", "= s", "* * ", "- - ", "~ temp x = 1",
    "VAR x = 1", "CONST c = 2", "LIST l = a, (b), c = 3", "EXTERNAL e(a)", "-> END", "-> DONE", "{x:", "{x|y}", "{&a|b}", "{~a|b}", "{!a|b}", "~ return", "~ x = ", "-> k", "-> k.s", "-> k ->", "<- k", "* [", "+ {x} ", "* ->", "f(", "f()", "{f(x)}", "else: ", "{\n", "- x:", "\n}", "#tag",
    "nothere", "-> nothere", "{nothere}", "nothere()", "k.nothere", "l.nothere", "(a, b)", "^x", "\\ ", "\\n", "\\\\",
];

const OPENERS: &[(&str, &str, &str)] = &[
    ("{", "x", "}"), ("{x:", "y", "}"), ("{x: a | ", "b", "}"), ("{&", "a", "|b}"), ("{(", "1", ")}"), ("{", "1", "+1}"), ("{1+", "1", "}"), ("{not ", "x", "}"), ("{-", "x", "}"), ("{x && ", "x", "}"), ("{f(", "1", ")}"), ("{\"", "a", "\"}"), ("{\"{", "x", "}\"}"), ("[", "a", "]"), ("(", "a", ")"), ("{x:\n", "y", "\n}"), ("{\n- x:\n", "y", "\n}\n"), ("{\n- else:\n", "y", "\n}"), ("{shuffle:\n- ", "a", "\n}"),
    ("*", " a", ""), ("* ", "a", ""), ("-", " a", ""), ("- ", "a", ""), ("* a\n", "", ""), ("- a\n", "", ""), ("* a\n- (l) ", "", ""), ("-> k ", "-> END", ""), ("->-> ", "k", ""), ("~ ", "x = 1", ""), ("~ x = ", "1", ""), ("{x ? ", "x", "}"), ("\\", "a", ""), ("#", "a", ""), ("# a {", "x", "}"), ("* [", "a", "]"), ("<>", "a", ""), ("<- ", "k", ""), ("(", "l", ") "), ("- (", "l", ")\n"), ("{x|", "y", "}"), ("|", "a", ""), ("{(a,", "b", ")}"), ("~ return ", "1", ""), ("/*", "a", "*/"), ("{ x == 1: ", "y", "}"), ("{x:\n    - 1: ", "y", "\n}"), ("{!", "a", "}"), ("- else: ", "a", ""), ("TODO: ", "a", ""), ("* {x} ", "a", ""), ("=", " k", ""), ("VAR x = ", "1", ""), ("-> f(", "1", ")"), ("* -> ", "k", ""),
];

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

/// Splits into words, numbers, spaces, line ends and single punctuation marks (arrows and comparisons kept together).
fn tokens(s: &str) -> Vec<String> {
    let c = chars(s);
    let mut v: Vec<String> = vec![];
    let mut i = 0;
    while i < c.len() {
        let mut j = i + 1;
        let word = |x: char| x.is_alphanumeric() || x == '_';
        if word(c[i]) {
            while j < c.len() && word(c[j]) {
                j += 1;
            }
        } else if c[i] == ' ' {
            while j < c.len() && c[j] == ' ' {
                j += 1;
            }
        } else if "-<>=!&|".contains(c[i]) {
            while j < c.len() && j < i + 4 && "-<>=&|".contains(c[j]) {
                j += 1;
            }
        }
        v.push(c[i..j].iter().collect());
        i = j;
    }
    v
}

fn is_name(t: &str) -> bool {
    t.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_')
}

impl C06 {
    fn base(&self, r: &mut Rng) -> Src {
        if r.pct(45) {
            return r.pick(&self.corpus).clone();
        }
        let f = Feat::random(r, Feat { lists: true, random: true, ..Feat::rich() });
        Src { main: ast::print(&Gen::new(r.fork(), f).program()), ..Default::default() }
    }

    fn make(&self, n: u64, r: &mut Rng) -> (String, Src) {
        let kind = n % 16;
        match kind {
            0 => {
                // corpus as it is, in turn
                let i = (n / 16) as usize;
                if i < self.corpus.len() { ("corpus".into(), self.corpus[i].clone()) } else { ("base".into(), self.base(r)) }
            }
            1 => {
                let mut s = self.base(r);
                let mut b = s.main.into_bytes();
                for _ in 0..=r.below(6) {
                    if b.is_empty() {
                        break;
                    }
                    let i = r.below(b.len());
                    match r.below(4) {
                        0 => b[i] = r.below(256) as u8,
                        1 => b[i] ^= 1 << r.below(8),
                        2 => {
                            b.remove(i);
                        }
                        _ => b.insert(i, r.below(256) as u8),
                    }
                }
                s.main = String::from_utf8_lossy(&b).into_owned();
                ("bytes".into(), s)
            }
            2 | 3 => {
                let mut s = self.base(r);
                let mut c = chars(&s.main);
                for _ in 0..=r.below(5) {
                    if c.is_empty() {
                        break;
                    }
                    let i = r.below(c.len());
                    match r.below(6) {
                        0 | 1 => {
                            c.remove(i);
                        }
                        2 => {
                            let j = r.below(c.len());
                            let x = c[j];
                            c.insert(i, x)
                        }
                        3 => {
                            let j = (i + 1).min(c.len() - 1);
                            c.swap(i, j)
                        }
                        4 => c[i] = *r.pick(&chars("{}[]()|*+-=~#<>:\"\\\n ,.!?&^%/\u{0}é\t$'")),
                        _ => {
                            let e = (i + r.below(30)).min(c.len());
                            c.drain(i..e);
                        }
                    }
                }
                s.main = c.into_iter().collect();
                ("chars".into(), s)
            }
            4..=6 => {
                let mut s = self.base(r);
                let mut t = tokens(&s.main);
                for _ in 0..=r.below(4) {
                    if t.is_empty() {
                        break;
                    }
                    let i = r.below(t.len());
                    match r.below(5) {
                        0 => {
                            t.remove(i);
                        }
                        1 => t.insert(i, r.pick(TOKENS).to_string()),
                        2 => t[i] = r.pick(TOKENS).to_string(),
                        3 => {
                            let j = r.below(t.len());
                            t.swap(i, j)
                        }
                        _ => {
                            let j = r.below(t.len());
                            let x = t[j].clone();
                            t.insert(i, x)
                        }
                    }
                }
                s.main = t.concat();
                ("tokens".into(), s)
            }
            7 | 8 => {
                // a name becomes another one
                let mut s = self.base(r);
                let mut t = tokens(&s.main);
                let names: Vec<usize> = t.iter().enumerate().filter(|x| is_name(x.1)).map(|x| x.0).collect();
                if names.is_empty() {
                    return ("names".into(), s);
                }
                for _ in 0..=r.below(2) {
                    let i = *r.pick(&names);
                    t[i] = if r.pct(50) { r.pick(&["nothere", "zz9", "END", "temp", "l", "not", "x1"]).to_string() } else { t[*r.pick(&names)].clone() };
                }
                s.main = t.concat();
                ("names".into(), s)
            }
            9 | 10 => {
                let mut s = self.base(r);
                let mut l: Vec<String> = s.main.lines().map(|x| x.to_string()).collect();
                for _ in 0..=r.below(4) {
                    if l.is_empty() {
                        break;
                    }
                    let i = r.below(l.len());
                    match r.below(7) {
                        0 | 1 => {
                            l.remove(i);
                        }
                        2 => {
                            let x = l[r.below(l.len())].clone();
                            l.insert(i, x)
                        }
                        3 => {
                            let j = r.below(l.len());
                            l.swap(i, j)
                        }
                        4 => l[i] = format!("{}{}", " ".repeat(r.below(9)), l[i].trim_start()),
                        5 => {
                            let o = r.pick(&self.corpus);
                            let ol: Vec<&str> = o.main.lines().collect();
                            if !ol.is_empty() {
                                let x = r.pick(&ol).to_string();
                                l.insert(i, x);
                            }
                        }
                        _ => {
                            let x = (0..=r.below(5)).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(" ");
                            l.insert(i, x)
                        }
                    }
                }
                s.main = l.join(if r.pct(10) { "\r\n" } else { "\n" });
                ("lines".into(), s)
            }
            11 => {
                let a = self.base(r);
                let b = self.base(r);
                let (ca, cb) = (chars(&a.main), chars(&b.main));
                let i = r.below(ca.len() + 1);
                let j = r.below(cb.len() + 1);
                let mut files = a.files;
                files.extend(b.files);
                let cut = r.pct(30);
                let main: String = if cut { ca[..i].iter().collect() } else { ca[..i].iter().chain(&cb[j..]).collect() };
                (if cut { "truncation".into() } else { "splice".into() }, Src { main, files })
            }
            12 | 13 => {
                let k = 1 + r.below(40);
                let glue = *r.pick(&["", " ", " "]);
                let main = (0..k).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(glue);
                ("soup".into(), Src { main, ..Default::default() })
            }
            14 => {
                // deep or long repetition
                let depth = match r.below(4) {
                    0 => 2 + r.below(12),
                    1 => 10 + r.below(50),
                    2 => 50 + r.below(400),
                    _ => 500 + r.below(if self.cfg.thorough() { 20000 } else { 4000 }),
                };
                let mut pre = String::new();
                if r.pct(70) {
                    pre.push_str("VAR x = 1\n");
                }
                let k = 1 + r.below(3);
                let ops: Vec<_> = (0..k).map(|_| *r.pick(OPENERS)).collect();
                let mut open = String::new();
                let mut close = vec![];
                for i in 0..depth {
                    let o = ops[i % k];
                    open.push_str(o.0);
                    close.push(o.2);
                }
                let mid = ops[(depth - 1) % k].1;
                let mut s = format!("{pre}{open}{mid}");
                if r.pct(75) {
                    for c in close.iter().rev() {
                        s.push_str(c);
                    }
                }
                if r.pct(60) {
                    s.push_str("\n-> END\n== k\n-> END\n== function f(a)\n~ return a\n");
                }
                ("nesting".into(), Src { main: s, ..Default::default() })
            }
            _ => {
                // spread over files
                let b = if r.pct(50) { self.base(r) } else { let k = r.range(9, 11) as u64; self.make(k, r).1 };
                let l: Vec<&str> = b.main.lines().collect();
                let k = 1 + r.below(3);
                let mut files = b.files;
                let mut main: Vec<String> = vec![];
                let mut cur = 0;
                for f in 0..k {
                    let cut = cur + r.below(l.len() + 1 - cur);
                    let end = cut + r.below(l.len() + 1 - cut);
                    main.extend(l[cur..cut].iter().map(|x| x.to_string()));
                    let name = format!("f{f}.ink");
                    main.push(format!("{}INCLUDE {}", " ".repeat(r.below(2)), if r.pct(5) { "missing.ink" } else { &name }));
                    let mut text = l[cut..end].join("\n");
                    if r.pct(50) {
                        text.push('\n');
                    }
                    if r.pct(20) {
                        text.push_str(&format!("\nINCLUDE f{}.ink\n", r.below(k)));
                    }
                    files.insert(name, text);
                    cur = end;
                }
                main.extend(l[cur..].iter().map(|x| x.to_string()));
                ("include".into(), Src { main: main.join("\n"), files })
            }
        }
    }
}

fn handler(files: &BTreeMap<String, String>) -> impl Fn(&str) -> Result<String, CompilerError> + '_ {
    move |f: &str| files.get(f).cloned().ok_or_else(|| CompilerError::invalid_source(format!("no file {f}")))
}

fn compile(s: &Src) -> Result<Result<String, CompilerError>, Caught> {
    guard::guarded(|| Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some("main.ink".into()) }).compile_with_file_handler(&s.main, handler(&s.files)))
}

fn parts(e: &CompilerError) -> (String, Option<String>, Option<usize>) {
    match e {
        CompilerError::InvalidSource { message, file, line } | CompilerError::UnsupportedFeature { message, file, line } => (message.clone(), file.clone(), *line),
    }
}

/// Problem with the place an error names.
fn place(s: &Src, e: &CompilerError) -> Option<String> {
    let (mut m, mut file, mut line) = parts(e);
    // an error wrapped in another error keeps its place in its text
    loop {
        if let Some(l) = line {
            let text = match file.as_deref() {
                None | Some("main.ink") | Some("<source>") => Some(&s.main),
                Some(f) => s.files.get(f),
            };
            match text {
                None => return Some(format!("the error is in the file {file:?}, which is not part of the source")),
                Some(t) => {
                    let lines = t.matches('\n').count() + 1;
                    if l == 0 || l > lines {
                        return Some(format!("the error names line {l} of {lines}"));
                    }
                }
            }
        }
        line = None;
        if let Some((a, rest)) = m.strip_prefix("line ").and_then(|x| x.split_once(':')) {
            if let Ok(n) = a.parse() {
                line = Some(n);
                m = rest.trim_start().to_string();
                continue;
            }
        }
        let mut it = m.splitn(3, ':');
        if let (Some(f), Some(l), Some(rest)) = (it.next(), it.next(), it.next()) {
            if (f == "main.ink" || f == "<source>" || s.files.contains_key(f)) && l.parse::<usize>().is_ok() {
                line = l.parse().ok();
                file = Some(f.to_string());
                m = rest.trim_start().to_string();
                continue;
            }
        }
        return None;
    }
}

pub struct Bad {
    class: String,
    message: String,
}

#[derive(Default)]
struct Seen {
    compiled: bool,
    with_line: bool,
    refs: u64,
    containers: u64,
    kinds: BTreeMap<String, u64>,
    error: String,
}

/// Everything the property says about one text.
fn judge(s: &Src, seen: &mut Seen) -> Option<Bad> {
    let a = match compile(s) {
        Ok(a) => a,
        Err(Caught::Panic(m)) => return Some(Bad { class: format!("panic {}", m.split(": ").next().unwrap_or("")), message: format!("compiling panics: {m}") }),
        Err(Caught::Fuel) => return None,
    };
    let b = match compile(s) {
        Ok(b) => b,
        Err(m) => return Some(Bad { class: "second".into(), message: format!("compiling again panics: {m:?}") }),
    };
    if a != b {
        return Some(Bad { class: "nondeterministic".into(), message: "compiling twice gives different results".into() });
    }
    if let Err(m) = guard::guarded(|| Compiler::new().compile_to_stats_with_file_handler(&s.main, handler(&s.files))) {
        return Some(Bad { class: "stats".into(), message: format!("statistics: {m:?}") });
    }
    let js = match a {
        Err(e) => {
            seen.with_line = parts(&e).2.is_some();
            seen.error = parts(&e).0;
            return place(s, &e).map(|m| Bad { class: "place".into(), message: format!("{m}: {e}") });
        }
        Ok(js) => js,
    };
    seen.compiled = true;
    match guard::guarded(|| bladeink::story::Story::new(&js).map(|_| ()).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Some(Bad { class: "load".into(), message: format!("the story does not load: {e}") }),
        Err(m) => return Some(Bad { class: "load panic".into(), message: format!("loading the story: {m:?}") }),
    }
    let doc: Value = match serde_json::from_str(&js) {
        Ok(d) => d,
        // deeper than this reader goes; the engine's own reader took it
        Err(e) => return Some(Bad { class: "json".into(), message: format!("not JSON: {e}") }),
    };
    let mut d = match Doc::new(&doc) {
        Ok(d) => d,
        Err(e) => return Some(Bad { class: "document".into(), message: e }),
    };
    let bad = d.check();
    seen.refs = d.refs as u64;
    seen.containers = d.containers as u64;
    seen.kinds = d.kinds.clone();
    if let Some(b) = bad.first() {
        return Some(Bad { class: format!("reference {}", b.kind), message: format!("{} {:?} at {}: {}", b.kind, b.text, b.at, b.problem) });
    }
    let declared = |n: &str| {
        std::iter::once(&s.main).chain(s.files.values()).any(|t| t.split("EXTERNAL").skip(1).any(|x| x.trim_start().strip_prefix(n).is_some_and(|y| !y.starts_with(|c: char| c.is_alphanumeric() || c == '_'))))
    };
    for x in &d.externals {
        if !declared(x) {
            return Some(Bad { class: "external".into(), message: format!("calls {x}, which is no function and not declared EXTERNAL") });
        }
    }
    None
}

/// Smaller text with the same kind of problem.
fn shrink(s: &Src, class: &str) -> Src {
    let start = Instant::now();
    let fails = |c: &Src| judge(c, &mut Seen::default()).is_some_and(|b| b.class == class);
    let mut best = s.clone();
    let mut c = best.clone();
    c.files.clear();
    if fails(&c) {
        best = c;
    }
    for by_line in [true, false] {
        let mut parts: Vec<String> = if by_line { best.main.split_inclusive('\n').map(|x| x.to_string()).collect() } else { best.main.chars().map(|x| x.to_string()).collect() };
        let mut k = (parts.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < parts.len() {
                if start.elapsed().as_secs() > 15 {
                    return best;
                }
                let e = (i + k).min(parts.len());
                let t: String = parts[..i].iter().chain(&parts[e..]).map(|x| x.as_str()).collect();
                let c = Src { main: t, files: best.files.clone() };
                if fails(&c) {
                    best = c;
                    parts.drain(i..e);
                    any = true;
                } else {
                    i += k;
                }
            }
            if k == 1 && !any {
                break;
            }
            if !any || k > 1 {
                k = (k / 2).max(1);
            }
        }
    }
    best
}

impl Check for C06 {
    fn total(&self) -> u64 {
        100_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C06", self.cfg.seed, n);
        let (kind, s) = self.make(n, &mut r);
        if std::env::var("VPH_SHOW").is_ok() {
            eprintln!("--- {kind}\n{}", s.main.chars().take(3000).collect::<String>());
            for (k, v) in &s.files {
                eprintln!("--- {k}\n{v}");
            }
        }
        let s2 = s.clone();
        // 2 MB is what a thread gets unless its owner asks for more
        let res = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                let mut seen = Seen::default();
                let t = Instant::now();
                let b = judge(&s2, &mut seen);
                (b, seen, t.elapsed().as_millis() as u64)
            })
            .ok()
            .and_then(|h| h.join().ok());
        let Some((bad, seen, ms)) = res else {
            out.count("harness_thread_failed");
            return;
        };
        out.eval();
        out.count(&format!("kind_{kind}"));
        let e = out.counters.entry("max_case_ms".into()).or_insert(0);
        *e = (*e).max(ms);
        if seen.compiled {
            out.count("compiled");
            out.count(&format!("compiled_{kind}"));
            out.add("references_resolved", seen.refs);
            out.add("containers", seen.containers);
            for (k, c) in &seen.kinds {
                out.add(&format!("ref_{k}"), *c);
            }
        } else {
            out.count("rejected");
            if seen.with_line {
                out.count("errors_with_a_line");
            }
        }
        out.nontrivial(hash64(&s.main));
        if seen.compiled && n % 16 != 0 {
            out.sample(json!({"kind": kind, "bytes": s.main.len(), "references": seen.refs, "containers": seen.containers}));
        }
        if let Some(b) = bad {
            let small = {
                let s = s.clone();
                let class = b.class.clone();
                std::thread::Builder::new().stack_size(2 << 20).spawn(move || shrink(&s, &class)).ok().and_then(|h| h.join().ok()).unwrap_or_default()
            };
            let m = judge(&small, &mut Seen::default()).map(|b| b.message).unwrap_or(b.message.clone());
            out.violation(format!("{}: {m}", b.class), format!("{m} [{kind}] source {:?}", small.main.chars().take(300).collect::<String>()), json!({"kind": kind, "message": b.message, "smallest": small.main, "files": small.files, "source": s.main}));
        }
    }
}
