//! C20: the command-line tool: protocol, agreement with the library, compiled output, errors.
use crate::ast;
use crate::corpus;
use crate::r#gen::{Feat, Gen};
use crate::guard;
use crate::host::{Handler, Log};
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::Story;
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub fn def() -> Def {
    Def {
        id: "C20",
        rule: "one run of the tool (play in JSON or text mode with an input script, compile, stats, or a compile error) against the same program and choices in the library; distinct by program, mode and input",
        assumptions: &["a program the library cannot finish within a fixed number of steps is not given to the tool", "stories that draw random numbers are left out: the tool offers no way to fix the seed"],
        make: |c| Box::new(C20 { cfg: c.clone(), dir: scratch(), corpus: vec![] }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 90,
        crash_is_violation: false,
    }
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("vph-c20-{}", std::process::id()));
    let _ = std::fs::create_dir_all(d.join("sub"));
    d
}

struct C20 {
    cfg: Cfg,
    dir: PathBuf,
    corpus: Vec<(String, String)>,
}
impl Drop for C20 {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

struct Ran {
    stdout: Vec<u8>,
    stderr: String,
    code: Option<i32>,
    timed_out: bool,
}

fn run_tool(exe: &str, args: &[&str], cwd: &Path, input: &[u8]) -> Option<Ran> {
    let mut c = Command::new(exe).args(args).current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let mut si = c.stdin.take()?;
    let inp = input.to_vec();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&inp);
    });
    let mut so = c.stdout.take()?;
    let o = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let mut se = c.stderr.take()?;
    let e = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t = Instant::now();
    let mut timed_out = false;
    let code = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s.code(),
            Ok(None) => {}
            Err(_) => return None,
        }
        if t.elapsed() > Duration::from_secs(40) {
            timed_out = true;
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(400));
    };
    let _ = w.join();
    Some(Ran { stdout: o.join().ok()?, stderr: e.join().ok()?, code, timed_out })
}

fn compile(src: &str, filename: &str, dir: &Path) -> Result<String, CompilerError> {
    let c = Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some(filename.into()) });
    c.compile_with_file_handler(src, |inc| std::fs::read_to_string(dir.join(inc)).map_err(|e| CompilerError::invalid_source(format!("Failed to read included file '{inc}': {e}"))))
}

/// What the library shows, one entry per thing the tool has to show.
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Text(String),
    Tags(Vec<String>),
    Issues(Vec<String>),
    Choices(Vec<(String, Vec<String>)>),
    /// a message of the tool to the input (help, failed divert)
    Reply,
    Other(String),
}

struct Lib {
    events: Vec<Ev>,
    /// the same as the text mode prints it
    text: String,
    ok: bool,
    turns: usize,
    panic: Option<String>,
}

/// Plays in the library what the input lines say.
fn library(js: &str, input: &[String], keep: bool) -> Lib {
    let mut l = Lib { events: vec![], text: String::new(), ok: true, turns: 0, panic: None };
    let log: Log = Default::default();
    let mut st = match Story::new(js) {
        Ok(s) => s,
        Err(_) => {
            l.ok = false;
            return l;
        }
    };
    st.set_error_handler(Rc::new(RefCell::new(Handler(log.clone()))));
    st.set_allow_external_function_fallbacks(true);
    let mut lines = input.iter();
    loop {
        while st.can_continue() {
            let t = match st.cont() {
                Ok(t) => t,
                Err(_) => {
                    l.ok = false;
                    return l;
                }
            };
            let tags = st.get_current_tags().unwrap_or_default();
            l.text.push_str(&t);
            l.events.push(Ev::Text(t));
            if !tags.is_empty() {
                l.text.push_str(&format!("# tags: {}\n", tags.join(", ")));
                l.events.push(Ev::Tags(tags));
            }
            let m: Vec<String> = log.borrow_mut().drain(..).collect();
            if !m.is_empty() {
                let mut m: Vec<String> = m.iter().map(|x| x.split_once(' ').unwrap().1.to_string()).collect();
                m.sort();
                l.events.push(Ev::Issues(m));
            }
        }
        let cs = st.get_current_choices();
        if cs.is_empty() {
            if keep {
                l.text.push_str("--- End of story ---\n");
                l.events.push(Ev::Other("end".into()));
            }
            return l;
        }
        l.text.push('\n');
        for (i, c) in cs.iter().enumerate() {
            l.text.push_str(&format!("{}: {}\n", i + 1, c.text));
            if !c.tags.is_empty() {
                l.text.push_str(&format!("# tags: {}\n", c.tags.join(", ")));
            }
        }
        l.events.push(Ev::Choices(cs.iter().map(|c| (c.text.clone(), c.tags.clone())).collect()));
        loop {
            l.events.push(Ev::Other("needInput".into()));
            l.text.push_str("?> ");
            let Some(line) = lines.next() else {
                l.events.push(Ev::Other("close".into()));
                l.text.push_str("<User input stream closed.>\n");
                return l;
            };
            let t = line.trim();
            let low = t.to_lowercase();
            if t.is_empty() {
                continue;
            }
            if low == "quit" || low == "exit" {
                return l;
            }
            if low == "help" {
                l.text.push_str("Type a choice number or a divert (e.g. '-> myKnot'), 'quit' to exit\n");
                l.events.push(Ev::Reply);
                continue;
            }
            let w: Vec<&str> = t.split_whitespace().collect();
            if w.len() == 2 && w[0] == "->" {
                if st.choose_path_string(w[1], true, None).is_err() {
                    l.events.push(Ev::Reply);
                }
                break;
            }
            match t.parse::<usize>() {
                Ok(n) if n >= 1 && n <= cs.len() => {
                    l.turns += 1;
                    if st.choose_choice_index(n - 1).is_err() {
                        l.ok = false;
                        return l;
                    }
                    break;
                }
                _ => continue,
            }
        }
    }
}

fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()
}

/// The JSON objects on standard output as events, or what is wrong with them.
fn parse(out: &[u8]) -> Result<Vec<Ev>, String> {
    let mut v = vec![];
    let it = serde_json::Deserializer::from_slice(out).into_iter::<Value>();
    let mut skip_reply = 0;
    for x in it {
        let x = x.map_err(|e| format!("not JSON: {e}"))?;
        let Some(o) = x.as_object() else { return Err(format!("not an object: {x}")) };
        if o.len() != 1 {
            return Err(format!("object of no documented kind: {x}"));
        }
        let (k, y) = o.iter().next().unwrap();
        let bad = || format!("malformed {k}: {x}");
        let e = match k.as_str() {
            "text" => Ev::Text(y.as_str().ok_or_else(bad)?.into()),
            "tags" => Ev::Tags(strings(y).ok_or_else(bad)?),
            "issues" => {
                let mut s = strings(y).ok_or_else(bad)?;
                if s.len() == 1 && s[0].starts_with("Error diverting to '") {
                    skip_reply += 1;
                    Ev::Reply
                } else {
                    s.sort();
                    Ev::Issues(s)
                }
            }
            "choices" => {
                let mut c = vec![];
                for z in y.as_array().ok_or_else(bad)? {
                    let t = z["text"].as_str().ok_or_else(bad)?;
                    let tags = match z.get("tags") {
                        None => vec![],
                        Some(t) => strings(t).ok_or_else(bad)?,
                    };
                    if let Some(n) = z.get("tag_count") {
                        if n.as_u64() != Some(tags.len() as u64) {
                            return Err(bad());
                        }
                    }
                    if z.as_object().map(|o| o.keys().any(|k| k != "text" && k != "tags" && k != "tag_count")).unwrap_or(true) {
                        return Err(bad());
                    }
                    c.push((t.to_string(), tags));
                }
                Ev::Choices(c)
            }
            "cmdOutput" => {
                y.as_str().ok_or_else(bad)?;
                Ev::Reply
            }
            "needInput" | "end" | "close" if y == true => Ev::Other(k.clone()),
            "compile-success" | "export-complete" if y.is_boolean() => Ev::Other(format!("{k} {y}")),
            "stats" => {
                for f in ["words", "knots", "stitches", "functions", "choices", "gathers", "diverts"] {
                    if !y[f].is_u64() {
                        return Err(bad());
                    }
                }
                Ev::Other(format!("stats {y}"))
            }
            _ => return Err(format!("object of no documented kind: {x}")),
        };
        v.push(e);
    }
    let _ = skip_reply;
    Ok(v)
}

const NASTY: &[&str] = &[
    "plain words", "say \"hi\" now", "back\\\\slash \\\\ n", "tab\there", "bell \u{7} esc \u{1b}[0m", "nul-ish \u{1}\u{2}\u{1f}", "caf\u{e9} \u{1F600}", "del \u{7f} \u{80}\u{9f}", "ls \u{2028} ps \u{2029}", "curly quote \u{201c}x\u{201d}",
    "percent %s %d", "'single' `tick`", "json \"a\": [1,2]", "e\u{301}\u{200d}\u{feff}x", "slash / and \\/ done", "\\u0041 \\\\u0041", "end with backslash \\\\", "\u{c}form feed", "\u{b}vt",
];

fn nasty_program(r: &mut Rng) -> String {
    let mut s = String::from("VAR v = 3\nVAR z = 0\nVAR st = \"str\"\n");
    let n = 2 + r.below(3);
    let line = |r: &mut Rng, s: &mut String, i: &str| {
        let t = *r.pick(NASTY);
        match r.below(9) {
            0 => s.push_str(&format!("{i}{t} # {}\n", r.pick(NASTY))),
            1 => s.push_str(&format!("{i}{t} # a # {} # {{v}} b\n", r.pick(NASTY))),
            2 => s.push_str(&format!("{i}{{v}} {t} {{st}}\n")),
            3 => s.push_str(&format!("{i}{t} <>\n")),
            4 if r.pct(20) => s.push_str(&format!("{i}{t} {{1 / z}}\n")),
            5 if r.pct(30) => s.push_str(&format!("{i}{{ghost()}} {t}\n")),
            6 => s.push_str(&format!("{i}# only a tag\n{i}{t}\n")),
            _ => s.push_str(&format!("{i}{t}\n")),
        }
    };
    s.push_str("-> k0\n");
    for k in 0..n {
        s.push_str(&format!("=== k{k} ===\n"));
        for _ in 0..r.below(4) {
            line(r, &mut s, "");
        }
        for c in 0..1 + r.below(3) {
            let sticky = if r.pct(50) { "+" } else { "*" };
            match r.below(5) {
                0 => s.push_str(&format!("{sticky} c{c} {}\n", r.pick(NASTY))),
                1 => s.push_str(&format!("{sticky} c{c} {} # ct {}\n", r.pick(NASTY), r.pick(NASTY))),
                2 => s.push_str(&format!("{sticky} [c{c} {} # one # two]\n", r.pick(NASTY))),
                3 => s.push_str(&format!("{sticky} c{c} [in {}] out\n", r.pick(NASTY))),
                _ => s.push_str(&format!("{sticky} c{c} {{v}}\n")),
            }
            for _ in 0..r.below(3) {
                line(r, &mut s, "    ");
            }
            s.push_str(&format!("    -> k{}\n", r.below(n)));
        }
        s.push_str(&format!("* -> \n    {} \n    -> {}\n", r.pick(NASTY), if r.pct(70) { "END".to_string() } else { format!("k{}", r.below(n)) }));
    }
    s.push_str("=== function ghost() ===\n{ v == 99:\n    ~ temp g = 1\n}\n~ return g\n");
    s
}

fn script(r: &mut Rng, valid: bool) -> Vec<String> {
    let n = r.below(9);
    (0..n)
        .map(|_| {
            if valid || r.pct(65) {
                return format!("{}", 1 + r.below(3));
            }
            r.pick(&["99", "0", "-1", "abc", "help", "HELP", "", "   ", "-> k1", "-> k0", "-> nowhere", "-> no\"where\\x", "-> caf\u{e9}\u{1}", "->k1", "-> a b", "18446744073709551616", " 1 ", "1 2", "\"", "quit", "exit now", "Quit", "EXIT", "->", "->  k1", "-> k1 k1", "-> k1.", "-> .", "-> END", "+1", "01", "2.", "?", "{\"a\":1}", "-> k0.0", "-> .^", "1.0"]).to_string()
        })
        .collect()
}

impl C20 {
    fn program(&mut self, n: u64, r: &mut Rng, out: &mut Out) -> (String, String) {
        match n % 4 {
            0 => {
                if self.corpus.is_empty() {
                    self.corpus = corpus::entries().into_iter().filter(|e| e.src.len() < 20_000 && !random(&e.src)).map(|e| (e.name, e.src)).collect();
                }
                if self.corpus.is_empty() {
                    return (format!("nasty {n}"), nasty_program(r));
                }
                out.count("programs_fixed");
                self.corpus[(n / 4) as usize % self.corpus.len()].clone()
            }
            1 | 2 => (format!("nasty {n}"), nasty_program(r)),
            _ => {
                let faults = if r.pct(30) { 10 } else { 0 };
                let f = Feat::random(r, Feat { shuffle: false, random: false, hostile: true, faults, ..Feat::rich() });
                let f = Feat { random: false, ..f };
                (format!("generated {n}"), ast::print(&Gen::new(r.fork(), f).program()))
            }
        }
    }
}

fn random(s: &str) -> bool {
    s.contains("RANDOM") || s.contains("shuffle") || s.contains("{~") || s.contains("SEED")
}

fn broken(r: &mut Rng, src: &str) -> String {
    let mut v: Vec<String> = src.lines().map(|l| l.to_string()).collect();
    let i = r.below(v.len() + 1);
    let bad = *r.pick(&["-> nowhere_at_all", "{1 + }", "~ x = ", "{ a: ", "VAR q", "~ temp 3 = 4", "{2 $ 3}", "=== ===", "INCLUDE missing \"file\\.ink", "* [x {1 + ]", "{ - }", "<- nothing_there", "-> nothing_there ->", "VAR y = )", "~ return {", "LIST l = (a"]);
    v.insert(i, bad.into());
    v.join("\n") + "\n"
}

impl Check for C20 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let Ok(exe) = std::env::var("VPH_RINK") else {
            out.count("no_tool");
            return;
        };
        let mut r = Rng::of("C20", self.cfg.seed, n);
        let (name, mut src) = self.program(n, &mut r, out);
        let fname = *r.pick(&["story.ink", "my story.ink", "caf\u{e9}.ink", "dot.ted.ink"]);
        let mut included = false;
        // part of the program in included files
        if r.pct(25) && !src.contains("INCLUDE") {
            if let Some(i) = src.find("\n=== ") {
                let (a, b) = src.split_at(i + 1);
                let sub = *r.pick(&["sub/part.ink", "part two.ink", "Sub/Part.INK", "./Part.ink", "sub/../Again.ink", "sub/caf\u{e9}.ink", "no extension", "UPPER.ink", "a.b.ink", "sub/deep/Er.ink"]);
                let mut inner = if r.pct(30) { broken(&mut r, b) } else { b.to_string() };
                let _ = std::fs::create_dir_all(self.dir.join("sub/deep"));
                let _ = std::fs::create_dir_all(self.dir.join("Sub"));
                if r.pct(40) {
                    // a file included by an included file
                    if let Some(i) = inner[1..].find("\n=== ") {
                        let (x, y) = inner.split_at(i + 2);
                        let _ = std::fs::write(self.dir.join(sub).parent().unwrap_or(&self.dir).join("Nested.ink"), y);
                        inner = format!("INCLUDE Nested.ink\n{x}");
                        out.count("with_nested_include");
                    }
                }
                let _ = std::fs::write(self.dir.join(sub), inner);
                src = if r.pct(50) { format!("INCLUDE {sub}\n{a}") } else { format!("{a}INCLUDE {sub}\n") };
                included = true;
            }
        }
        let mode = r.below(10);
        if mode >= 7 && r.pct(75) {
            src = broken(&mut r, &src);
        }
        let path = self.dir.join(fname);
        let bom = r.pct(10);
        if std::fs::write(&path, if bom { format!("\u{feff}{src}") } else { src.clone() }).is_err() {
            out.count("no_scratch");
            return;
        }
        let dir = self.dir.clone();
        let lib = match guard::guarded(|| compile(&src, fname, &dir)) {
            Ok(x) => x,
            Err(_) => {
                // a compiler panic belongs to C06
                out.count("no_verdict_compiler_panic");
                return;
            }
        };
        let mut rr = r.fork();
        let mut o2 = Out::default();
        match lib {
            Err(e) => self.errors(&exe, &name, fname, &src, &e, &mut rr, &mut o2),
            Ok(js) => {
                if mode < 7 {
                    for _ in 0..3 {
                        self.play(&exe, &name, fname, &src, &js, &mut rr, &mut o2);
                    }
                } else {
                    self.output(&exe, &name, fname, &src, &js, &mut rr, &mut o2);
                }
            }
        }
        if included {
            o2.count("with_included_file");
        }
        super::c02::merge(out, o2);
    }
}

impl C20 {
    fn play(&self, exe: &str, name: &str, fname: &str, src: &str, js: &str, r: &mut Rng, out: &mut Out) {
        let jsonmode = r.pct(65);
        let keep = r.pct(20);
        let from_json = r.pct(25);
        let valid = r.pct(40);
        let input = script(r, valid);
        let mut lib = Lib { events: vec![], text: String::new(), ok: false, turns: 0, panic: None };
        match guard::fueled(60_000, || library(js, &input, keep)) {
            Ok(l) => lib = l,
            Err(guard::Caught::Fuel) => {
                out.count("no_verdict_fuel");
                return;
            }
            Err(guard::Caught::Panic(m)) => lib.panic = Some(m),
        }
        if lib.panic.is_some() {
            // C04 decides panics
            out.count("no_verdict_library_panic");
            return;
        }
        if js.contains("\"lrnd\"") || js.contains("\"rnd\"") || random(js) || js.contains("\"seq\"") {
            return;
        }
        let mut args: Vec<&str> = vec![];
        let file = if from_json {
            let f = format!("{}.json", fname);
            if std::fs::write(self.dir.join(&f), js).is_err() {
                return;
            }
            f
        } else {
            fname.to_string()
        };
        if jsonmode {
            args.push("-j");
        }
        if keep {
            args.push("-k");
        }
        if !from_json {
            args.push("-p");
        }
        let full = self.dir.join(&file).to_string_lossy().into_owned();
        args.push(if r.pct(50) { &full } else { &file });
        let mut bytes = input.join("\n").into_bytes();
        if !input.is_empty() {
            bytes.push(b'\n');
        }
        out.eval();
        out.count(if jsonmode { "plays_json" } else { "plays_text" });
        let cmd = format!("{} <<< {:?}", args.join(" "), input);
        let fail = |w: &str, d: String, out: &mut Out| {
            out.violation(format!("{w}: {name} {cmd}"), format!("{w}: {d}"), json!({"program": name, "source": src, "arguments": args, "input": input, "what": d}));
        };
        let Some(ran) = run_tool(exe, &args, &self.dir, &bytes) else {
            out.count("tool_not_started");
            return;
        };
        if ran.timed_out {
            return fail("the tool does not end", "no exit within 40 s".into(), out);
        }
        if ran.code.is_none() || ran.code == Some(101) {
            return fail("the tool crashed", format!("exit {:?}: {}", ran.code, ran.stderr), out);
        }
        if lib.ok != (ran.code == Some(0)) {
            return fail("exit status", format!("library {}, tool exit {:?} {}", lib.ok, ran.code, ran.stderr), out);
        }
        if jsonmode {
            let ev = match parse(&ran.stdout) {
                Ok(e) => e,
                Err(e) => return fail("standard output is no sequence of documented JSON objects", format!("{e}: {:?}", String::from_utf8_lossy(&ran.stdout).chars().take(2000).collect::<String>()), out),
            };
            out.add("json_objects", ev.len() as u64);
            let mut want = lib.events.clone();
            if !from_json {
                want.insert(0, Ev::Other("compile-success true".into()));
            }
            if !lib.ok {
                return;
            }
            for (i, (a, b)) in want.iter().zip(&ev).enumerate() {
                if a != b {
                    return fail("tool and library differ", format!("object {i}: library {a:?}, tool {b:?}"), out);
                }
            }
            if want.len() != ev.len() {
                return fail("tool and library differ", format!("{} objects wanted, {} written; first extra {:?}", want.len(), ev.len(), want.get(ev.len()).or(ev.get(want.len()))), out);
            }
        } else if lib.ok {
            let got = String::from_utf8_lossy(&ran.stdout).into_owned();
            if got != lib.text {
                let d = crate::host::diff(&lib.text, &got).unwrap_or_default();
                return fail("text mode differs from the library", d, out);
            }
            for e in &lib.events {
                if let Ev::Issues(v) = e {
                    for m in v {
                        if !ran.stderr.contains(m.as_str()) {
                            return fail("a message of the story is not reported", m.clone(), out);
                        }
                    }
                }
            }
        }
        if lib.turns > 0 {
            out.count("plays_with_choices");
        }
        out.nontrivial(hash64(src) ^ hash64(&cmd));
        out.sample(json!({"program": name, "arguments": args, "input": input}));
    }

    fn output(&self, exe: &str, name: &str, fname: &str, src: &str, js: &str, r: &mut Rng, out: &mut Out) {
        let jsonmode = r.pct(50);
        let stats = r.pct(15);
        let default_name = self.dir.join(match fname.rfind('.') {
            Some(i) => format!("{}.ink.json", &fname[..i]),
            None => format!("{fname}.ink.json"),
        });
        let own = self.dir.join("out file.json");
        let _ = std::fs::remove_file(&default_name);
        let _ = std::fs::remove_file(&own);
        let full = self.dir.join(fname).to_string_lossy().into_owned();
        let owns = own.to_string_lossy().into_owned();
        let mut args: Vec<&str> = vec![];
        if jsonmode {
            args.push("-j");
        }
        if stats {
            args.push("-s");
        }
        let o = r.below(3);
        if o == 1 {
            args.extend(["-o", &owns]);
        } else if o == 2 {
            args.extend(["-o", "out file.json"]);
        }
        if r.pct(30) {
            args.push("-c");
        }
        args.push(if r.pct(50) { &full } else { fname });
        out.eval();
        out.count(if stats { "stats" } else { "compiles" });
        let fail = |w: &str, d: String, out: &mut Out| {
            out.violation(format!("{w}: {name} {args:?}"), format!("{w}: {d}"), json!({"program": name, "source": src, "arguments": args, "what": d}));
        };
        let Some(ran) = run_tool(exe, &args, &self.dir, b"") else { return };
        if ran.timed_out || ran.code != Some(0) {
            return fail("compiling failed", format!("exit {:?} {}", ran.code, ran.stderr), out);
        }
        if jsonmode {
            match parse(&ran.stdout) {
                Err(e) => return fail("standard output is no sequence of documented JSON objects", e, out),
                Ok(v) => {
                    let want = [Ev::Other("compile-success true".into()), Ev::Other("export-complete true".into())];
                    if !stats && v != want {
                        return fail("protocol of a compilation", format!("{v:?}"), out);
                    }
                    if stats && !matches!(v.as_slice(), [Ev::Other(s)] if s.starts_with("stats ")) {
                        return fail("protocol of statistics", format!("{v:?}"), out);
                    }
                }
            }
        }
        if stats {
            return;
        }
        let f = if o == 0 { &default_name } else { &own };
        match std::fs::read(f) {
            Ok(b) if b == js.as_bytes() => {}
            Ok(b) => return fail("compiled output differs from the library's", format!("{} vs {} bytes", b.len(), js.len()), out),
            Err(e) => return fail("no compiled output", format!("{}: {e}", f.display()), out),
        }
        out.nontrivial(hash64(src) ^ hash64(&args.join(" ")));
    }

    fn errors(&self, exe: &str, name: &str, fname: &str, src: &str, e: &CompilerError, r: &mut Rng, out: &mut Out) {
        let jsonmode = r.pct(50);
        let play = r.pct(30);
        let stats = r.pct(10);
        let mut args: Vec<&str> = vec![];
        if jsonmode {
            args.push("-j");
        }
        if play {
            args.push("-p");
        }
        if stats {
            args.push("-s");
        }
        args.push(fname);
        out.eval();
        out.count("compile_errors");
        let fail = |w: &str, d: String, out: &mut Out| {
            out.violation(format!("{w}: {name} {args:?} {}", e), format!("{w}: {d}"), json!({"program": name, "source": src, "arguments": args, "what": d}));
        };
        let outfile = self.dir.join(format!("{}.ink.json", &fname[..fname.rfind('.').unwrap_or(fname.len())]));
        let _ = std::fs::remove_file(&outfile);
        let Some(ran) = run_tool(exe, &args, &self.dir, b"1\n") else { return };
        if ran.timed_out {
            return fail("the tool does not end", String::new(), out);
        }
        if stats && ran.code == Some(0) {
            // statistics need only parsing
            return;
        }
        if ran.code.is_none() || ran.code == Some(0) || ran.code == Some(101) {
            return fail("a compile error does not exit non-zero", format!("exit {:?}", ran.code), out);
        }
        if outfile.exists() {
            return fail("a compile error leaves an output file", format!("{e}"), out);
        }
        let report = if jsonmode {
            match parse(&ran.stdout) {
                Err(d) => return fail("standard output is no sequence of documented JSON objects", d, out),
                Ok(v) => {
                    if !stats && v.first() != Some(&Ev::Other("compile-success false".into())) {
                        return fail("protocol of a compile error", format!("{v:?}"), out);
                    }
                    v.iter().filter_map(|x| if let Ev::Issues(i) = x { Some(i.join("\n")) } else { None }).collect::<Vec<_>>().join("\n")
                }
            }
        } else {
            ran.stderr.clone()
        };
        if !report.contains(e.message()) {
            return fail("the compiler's message is not reported", format!("{report:?} lacks {:?}", e.message()), out);
        }
        let (file, line) = match e {
            CompilerError::InvalidSource { file, line, .. } | CompilerError::UnsupportedFeature { file, line, .. } => (file, line),
        };
        let rest = report.replacen(e.message(), "", 1);
        if let Some(f) = file {
            if !rest.contains(f.as_str()) {
                return fail("the file of a compile error is not reported", format!("{report:?} lacks {f:?}"), out);
            }
            out.count("errors_with_file");
        }
        if let Some(l) = line {
            if !rest.split(|c: char| !c.is_ascii_digit()).any(|x| x == l.to_string()) {
                return fail("the line of a compile error is not reported", format!("{report:?} lacks {l}"), out);
            }
            if file.is_none() && !rest.contains(fname) {
                return fail("a line is reported without its file", report.clone(), out);
            }
            out.count("errors_with_line");
        }
        out.nontrivial(hash64(src) ^ hash64(&args.join(" ")));
    }
}
