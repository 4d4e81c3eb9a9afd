//! C12: external functions: arguments, order, timing, lookahead safety, fallbacks.
use crate::corpus;
use crate::host::{Prog, show};
use crate::lock;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::vp_hooks;
use bladeink::value_type::ValueType;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn def() -> Def {
    Def {
        id: "C12",
        rule: "a program whose external calls are numbered, marked in its own text and counted in a variable, played with recording functions; distinct by program and choices, non-trivial when at least one call was made",
        assumptions: &["every call site is preceded by a line that names the calls made before it, so that the handler can tell whether that line was delivered"],
        make: |c| Box::new(C12 { cfg: c.clone() }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C12 {
    cfg: Cfg,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Unsafe,
    Safe,
    /// bound as unsafe, but called from a string or a choice
    Refused,
    Unbound,
}

/// `ext(n, s, m)` returns 7 n. `put(n)` returns nothing.
/// A call is always made as: marker line, `n++`, call.
fn program(r: &mut Rng, mode: Mode, fallback: bool) -> String {
    let mut s = String::new();
    s.push_str("EXTERNAL ext(a, b, c)\nEXTERNAL put(a)\nEXTERNAL many(a, b, c, d, e)\nVAR n = 0\nVAR acc = 0\nVAR str = \"\"\nVAR fl = 1.5\nVAR ok = true\nLIST li = la, (lb), lc\n");
    let nk = 2 + r.below(3);
    let mut site = 0;
    s.push_str("-> k0\n");
    for k in 0..nk {
        s.push_str(&format!("=== k{k} ===\n"));
        let n = 3 + r.below(6);
        for _ in 0..n {
            item(r, &mut s, mode, &mut site, 0);
        }
        for _ in 0..1 + r.below(3) {
            site += 1;
            if mode == Mode::Safe && r.pct(30) {
                s.push_str(&format!("+ {{ext(n, \"q\", 1) >= 0}} choice{site} {{ext(n, \"c{site}\", n)}} x\n"));
            } else if mode == Mode::Refused && r.pct(30) {
                s.push_str(&format!("+ choice{site} {{ext(n, \"c{site}\", n)}} x\n"));
            } else if r.pct(30) {
                s.push_str(&format!("+ [choice{site}]\n"));
            } else {
                s.push_str(&format!("+ choice{site}\n"));
            }
            for _ in 0..r.below(3) {
                item(r, &mut s, mode, &mut site, 1);
            }
            s.push_str(&format!("    -> k{}\n", r.below(nk)));
        }
        s.push_str(&format!("+ [on] -> k{}\n", r.below(nk)));
    }
    s.push_str("=== tun(p) ===\ntunnel {p}\n");
    for _ in 0..2 {
        item(r, &mut s, mode, &mut site, 0);
    }
    s.push_str("->->\n");
    s.push_str("=== function viaf() ===\n~ n++\n~ return ext(n, \"v{n}\", n * 10)\n");
    s.push_str("=== function vias() ===\n~ n++\n~ acc += ext(n, \"v{n}\", n * 10)\n");
    if fallback {
        s.push_str("=== function ext(a, b, c) ===\n~ return a * 7\n=== function put(a) ===\n~ temp unused = a\n=== function many(a, b, c, d, e) ===\n~ return a * 7\n");
    }
    s
}

fn item(r: &mut Rng, s: &mut String, mode: Mode, site: &mut usize, d: usize) {
    *site += 1;
    let i = "    ".repeat(d);
    let w = *site;
    let marker = format!("{i}mark {{n}};\n{i}~ n++\n");
    let args = "ext(n, \"a{n}\", n * 10)";
    match r.below(18) {
        0 => s.push_str(&format!("{i}text {w}\n")),
        1 => s.push_str(&format!("{i}text {w} <>\n")),
        2 => s.push_str(&format!("{i}<> glued {w}\n")),
        3 | 4 => s.push_str(&format!("{marker}{i}~ acc += {args}\n")),
        5 => s.push_str(&format!("{marker}{i}~ put(n)\n")),
        6 | 7 => s.push_str(&format!("{marker}{i}in {w} r{{n}}=({{{args}}}) post\n")),
        8 => s.push_str(&format!("{marker}{i}{{{args} > 0: yes {w}|no {w}}}\n")),
        9 => s.push_str(&format!("{i}mark {{n}};\n{i}~ vias()\n")),
        10 => s.push_str(&format!("{i}mark {{n}};\n{i}by {w} ({{viaf()}}) end\n")),
        11 => s.push_str(&format!("{marker}{i}~ acc += many(n, fl, ok, li, str)\n")),
        12 if d == 0 => s.push_str(&format!("-> tun({w}) ->\n")),
        13 => s.push_str(&format!("{marker}{i}~ temp t{w} = {args} + 1\n{i}<> temp {{t{w}}}\n")),
        14 if d < 2 => {
            s.push_str(&format!("{i}{{ n % 2 == 0:\n"));
            item(r, s, mode, site, d + 1);
            s.push_str(&format!("{i}- else:\n"));
            item(r, s, mode, site, d + 1);
            s.push_str(&format!("{i}}}\n"));
        }
        15 if mode == Mode::Safe => s.push_str(&format!("{marker}{i}~ str = \"<{{{args}}}>\"\n{i}said {{str}} {{ext(n, str, 2)}}\n")),
        16 if mode == Mode::Safe => s.push_str(&format!("{i}tagged {w} # t {{ext(n, \"tag\", 3)}}\n")),
        15 if mode == Mode::Refused => s.push_str(&format!("{marker}{i}~ str = \"<{{{args}}}>\"\n{i}said {{str}}\n")),
        _ => s.push_str(&format!("{i}plain {w}\n")),
    }
}

#[derive(Default)]
struct World {
    /// (function, arguments)
    calls: Vec<(String, Vec<String>)>,
    delivered: String,
    faults: Vec<String>,
    strict: bool,
    /// what a call returns besides the number
    silent: bool,
}

struct F(Rc<RefCell<World>>);
impl ExternalFunction for F {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let mut w = self.0.borrow_mut();
        let a: Vec<String> = args.iter().map(show).collect();
        let n = match args.first() {
            Some(ValueType::Int(i)) => *i,
            _ => {
                w.faults.push(format!("{name} called with {a:?}"));
                0
            }
        };
        let want: Vec<String> = match name {
            "put" => vec![format!("i:{n}")],
            "many" => {
                if a.len() != 5 || a[1] != "f:1.5" || a[2] != "b:true" || a[3] != "l:{li.lb=2}" || !a[4].starts_with("s:") {
                    w.faults.push(format!("many called with {a:?}"));
                }
                a.clone()
            }
            _ if w.strict => {
                let m = a.get(1).cloned().unwrap_or_default();
                if m != format!("s:\"a{n}\"") && m != format!("s:\"v{n}\"") {
                    w.faults.push(format!("{name} called with {a:?}"));
                }
                vec![format!("i:{n}"), m, format!("i:{}", n * 10)]
            }
            _ => a.clone(),
        };
        if a != want {
            w.faults.push(format!("{name} called with {a:?} instead of {want:?}"));
        }
        if w.strict {
            let m = format!("mark {};", n - 1);
            if !w.delivered.contains(&m) {
                w.faults.push(format!("{name} called for n={n} before the line {m:?} was delivered"));
            }
        }
        w.calls.push((name.into(), a));
        if name == "put" || w.silent { None } else { Some(ValueType::Int(n * 7)) }
    }
}

struct H(Rc<RefCell<Vec<String>>>);
impl ErrorHandler for H {
    fn error(&mut self, m: &str, t: ErrorType) {
        self.0.borrow_mut().push(format!("{} {m}", if t == ErrorType::Error { "ERROR" } else { "WARNING" }));
    }
}

struct Run {
    lines: Vec<String>,
    choices: Vec<String>,
    vars: String,
    msgs: Vec<String>,
    n: i32,
    world: Rc<RefCell<World>>,
    panic: Option<String>,
    wrong: Vec<String>,
}

/// Plays with the given choices; `bind` None = nothing bound.
fn play(js: &str, bind: Option<bool>, strict: bool, picks: &[usize], slice: Option<u64>, safe_too: bool) -> Option<Run> {
    let mut st = Story::new(js).ok()?;
    st.vp_set_story_seed(5);
    let world = Rc::new(RefCell::new(World { strict, ..Default::default() }));
    let msgs: Rc<RefCell<Vec<String>>> = Default::default();
    st.set_error_handler(Rc::new(RefCell::new(H(msgs.clone()))));
    st.set_allow_external_function_fallbacks(bind.is_none());
    if let Some(safe) = bind {
        for f in ["ext", "put", "many"] {
            st.bind_external_function(f, Rc::new(RefCell::new(F(world.clone()))), safe).ok()?;
        }
    }
    let mut run = Run { lines: vec![], choices: vec![], vars: String::new(), msgs: vec![], n: 0, world: world.clone(), panic: None, wrong: vec![] };
    let r = lock::tame(|| {
        for turn in 0..=picks.len() {
            let mut k = 0;
            while st.can_continue() && k < 80 {
                k += 1;
                let line = match slice {
                    None => st.cont(),
                    Some(b) => loop {
                        vp_hooks::set_async_budget(b);
                        let x = st.continue_async(1e12);
                        vp_hooks::set_async_budget(u64::MAX);
                        if let Err(e) = x {
                            break Err(e);
                        }
                        if let Ok(t) = st.get_current_text() {
                            break Ok(t);
                        }
                    },
                };
                match line {
                    Ok(t) => {
                        world.borrow_mut().delivered.push_str(&t);
                        let tags = st.get_current_tags().unwrap_or_default();
                        // a call held back until the last line was delivered runs in a continue of its own
                        if safe_too || !t.is_empty() || !tags.is_empty() {
                            run.lines.push(format!("{t:?} {tags:?}"));
                        }
                        let n = int(&st, "n");
                        if safe_too {
                            run.lines.push(format!("n {n} acc {}", int(&st, "acc")));
                        }
                        if strict {
                            // exactly the calls executed so far, however far the engine looked ahead
                            let made = world.borrow().calls.len() as i32;
                            if made != n {
                                run.wrong.push(format!("{made} calls made but {n} executed after line {t:?}"));
                            }
                            for part in t.split("r").skip(1) {
                                if let Some((a, b)) = part.split_once("=(") {
                                    if let (Ok(a), Some(Ok(b))) = (a.parse::<i32>(), b.split(')').next().map(|b| b.parse::<i32>())) {
                                        if b != a * 7 {
                                            run.wrong.push(format!("call {a} shows {b}"));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Err(e) => {
                        run.lines.push(format!("error {e}"));
                        break;
                    }
                }
                if !msgs.borrow().is_empty() {
                    break;
                }
            }
            let cs: Vec<String> = st.get_current_choices().iter().map(|c| format!("{} {:?}", c.text, c.tags)).collect();
            run.choices.push(cs.join("|"));
            if turn < picks.len() {
                if cs.is_empty() || st.choose_choice_index(picks[turn] % cs.len()).is_err() {
                    break;
                }
            }
        }
        run.n = int(&st, "n");
        run.vars = format!("n {} acc {} str {}", run.n, int(&st, "acc"), crate::host::show_opt(st.get_variable("str")));
    });
    if let Err(m) = r {
        run.panic = Some(m);
    }
    run.msgs = msgs.borrow().clone();
    Some(run)
}

fn int(s: &Story, n: &str) -> i32 {
    match s.get_variable(n) {
        Some(ValueType::Int(i)) => i,
        _ => i32::MIN,
    }
}

impl Check for C12 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C12", self.cfg.seed, n);
        let mode = *r.pick(&[Mode::Unsafe, Mode::Unsafe, Mode::Safe, Mode::Refused, Mode::Unbound]);
        let fallback = mode != Mode::Unbound || r.pct(50);
        let src = program(&mut r, if mode == Mode::Unbound { Mode::Unsafe } else { mode }, fallback);
        let js = match crate::guard::guarded(|| corpus::compile(&src)) {
            Ok(Ok(js)) => js,
            e => {
                out.count("no_verdict_compile");
                if std::env::var("VPH_SHOW").is_ok() {
                    eprintln!("{e:?}\n{src}");
                }
                return;
            }
        };
        let p = Prog::from_json(&format!("{mode:?} {n}"), &src, &js);
        let rounds = if self.cfg.thorough() { 6 } else { 3 };
        for _ in 0..rounds {
            let mut rr = r.fork();
            super::case(500_000, out, |o| one(&p, &mut rr, mode, fallback, o));
        }
    }
}

fn one(p: &Prog, r: &mut Rng, mode: Mode, fallback: bool, out: &mut Out) {
    let picks: Vec<usize> = (0..3 + r.below(5)).map(|_| r.below(4)).collect();
    let fail = |what: &str, d: String, out: &mut Out| {
        out.violation(format!("{what}: {} {picks:?}", p.name), format!("{what}: {d}"), json!({"program": p.name, "source": p.src, "choices": picks, "what": d}));
    };
    out.eval();
    out.count(&format!("mode_{mode:?}"));
    match mode {
        Mode::Unsafe => {
            let slice = if r.pct(40) { Some(1 + r.below(9) as u64) } else { None };
            let Some(a) = play(&p.json, Some(false), true, &picks, slice, false) else { return };
            if let Some(m) = a.panic {
                return fail("panic", m, out);
            }
            let w = a.world.borrow();
            out.add("calls", w.calls.len() as u64);
            if let Some(f) = w.faults.first() {
                return fail("call as not bound", f.clone(), out);
            }
            if let Some(f) = a.wrong.first() {
                return fail("calls and execution disagree", f.clone(), out);
            }
            for (i, c) in w.calls.iter().enumerate() {
                if c.1.first() != Some(&format!("i:{}", i + 1)) {
                    return fail("calls out of order or repeated", format!("call {i} is {c:?}"), out);
                }
            }
            if let Some(m) = a.msgs.first() {
                return fail("message", m.clone(), out);
            }
            if w.calls.len() as i32 != a.n {
                return fail("number of calls", format!("{} calls, {} executed", w.calls.len(), a.n), out);
            }
            // the same story with Ink functions that compute the same
            let Some(b) = play(&p.json, None, false, &picks, None, false) else { return };
            // glue cannot join across a call that must wait for the line, so only glue-free programs compare line by line
            if !p.src.contains("<>") {
                if let Some(d) = differ(&a, &b) {
                    return fail("output differs from Ink functions of the same result", d, out);
                }
                out.count("compared_with_ink_functions");
            }
            if !w.calls.is_empty() {
                out.nontrivial(hash64(&p.json) ^ hash64(&format!("{picks:?}{slice:?}")));
            }
        }
        Mode::Safe => {
            let Some(a) = play(&p.json, Some(true), false, &picks, None, true) else { return };
            let Some(b) = play(&p.json, None, false, &picks, None, true) else { return };
            if let Some(m) = a.panic.as_ref().or(b.panic.as_ref()) {
                return fail("panic", m.clone(), out);
            }
            let w = a.world.borrow();
            out.add("calls", w.calls.len() as u64);
            if let Some(f) = w.faults.first() {
                return fail("call as not bound", f.clone(), out);
            }
            if let Some(d) = differ(&a, &b) {
                return fail("output differs from Ink functions of the same result", d, out);
            }
            if let Some(m) = a.msgs.first() {
                return fail("message", m.clone(), out);
            }
            // every executed call was made at least once
            for k in 1..=a.n {
                if !w.calls.iter().any(|c| c.1.first() == Some(&format!("i:{k}"))) {
                    return fail("executed call was never made", format!("n={k}"), out);
                }
            }
            out.count("compared_with_ink_functions");
            if !w.calls.is_empty() {
                out.nontrivial(hash64(&p.json) ^ hash64(&format!("{picks:?}")));
            }
        }
        Mode::Refused => {
            let Some(a) = play(&p.json, Some(false), true, &picks, None, false) else { return };
            if let Some(m) = a.panic {
                return fail("panic", m, out);
            }
            let w = a.world.borrow();
            out.add("calls", w.calls.len() as u64);
            if let Some(f) = w.faults.first() {
                return fail("call from a string or choice was made", f.clone(), out);
            }
            // no call with an argument only strings and choices use
            let refused = a.msgs.iter().any(|m| m.starts_with("ERROR") && m.contains("could not be called"));
            if refused {
                out.count("refused_in_string");
                out.nontrivial(hash64(&p.json) ^ hash64(&format!("{picks:?}")));
            }
            let reached = a.lines.iter().any(|l| l.contains("said ")) || a.choices.iter().any(|c| c.split("choice").skip(1).any(|x| x.contains(' ') && x.contains(" x")));
            if reached && !refused {
                return fail("call from a string or choice was not refused", format!("{:?} {:?}", a.lines.last(), a.choices.last()), out);
            }
        }
        Mode::Unbound => unbound(p, r, fallback, &picks, out),
    }
    out.sample(json!({"program": p.name, "source": p.src, "choices": picks}));
}

fn differ(a: &Run, b: &Run) -> Option<String> {
    for (i, (x, y)) in a.lines.iter().zip(&b.lines).enumerate() {
        if x != y {
            return Some(format!("line {i}: {x} vs {y}"));
        }
    }
    if a.lines.len() != b.lines.len() {
        return Some(format!("{} vs {} lines", a.lines.len(), b.lines.len()));
    }
    if a.choices != b.choices {
        return Some(format!("{:?} vs {:?}", a.choices, b.choices));
    }
    if a.vars != b.vars {
        return Some(format!("{} vs {}", a.vars, b.vars));
    }
    None
}

fn unbound(p: &Prog, r: &mut Rng, fallback: bool, picks: &[usize], out: &mut Out) {
    let fail = |what: &str, d: String, out: &mut Out| {
        out.violation(format!("{what}: {} {picks:?}", p.name), format!("{what}: {d}"), json!({"program": p.name, "source": p.src, "what": d}));
    };
    let Ok(mut st) = Story::new(&p.json) else { return };
    st.vp_set_story_seed(5);
    let allow = r.pct(50);
    st.set_allow_external_function_fallbacks(allow);
    let msgs: Rc<RefCell<Vec<String>>> = Default::default();
    if r.pct(50) {
        st.set_error_handler(Rc::new(RefCell::new(H(msgs.clone()))));
    }
    let some = r.pct(40);
    let world = Rc::new(RefCell::new(World { strict: true, ..Default::default() }));
    if some {
        let _ = st.bind_external_function("ext", Rc::new(RefCell::new(F(world.clone()))), false);
    }
    // only functions the story calls somewhere have to be there
    let missing = ["ext", "put", "many"].iter().any(|x| p.json.contains(&format!("\"x()\":\"{x}\"")) && !(some && *x == "ext"));
    let should_work = !missing || (fallback && allow);
    let first = match lock::tame(|| if r.pct(50) { st.cont().map(|_| ()) } else { st.continue_async(1e12) }) {
        Ok(x) => x,
        Err(m) => return fail("panic", m, out),
    };
    if first.is_ok() != should_work {
        return fail("first continue", format!("fallback in Ink: {fallback}, allowed: {allow}, result {:?}", first.map_err(|e| e.to_string())), out);
    }
    if !should_work {
        out.count("unbound_refused");
        // still refused, and nothing was played
        if lock::tame(|| st.cont().is_ok()) != Ok(false) {
            return fail("second continue", "accepted".into(), out);
        }
        if !world.borrow().calls.is_empty() {
            return fail("call made although the continue failed", format!("{:?}", world.borrow().calls), out);
        }
        // binding the rest makes it play
        for f in ["ext", "put", "many"] {
            if f != "ext" || !some {
                if st.bind_external_function(f, Rc::new(RefCell::new(F(world.clone()))), false).is_err() {
                    return fail("binding after a refused continue fails", f.into(), out);
                }
            }
        }
        match lock::tame(|| st.cont().map_err(|e| e.to_string())) {
            Ok(Ok(_)) => {}
            x => return fail("continue after binding", format!("{x:?}"), out),
        }
    } else if !missing {
        out.count("nothing_missing");
    } else {
        out.count("fallbacks_used");
        let Some(b) = play(&p.json, None, false, picks, None, true) else { return };
        if let Some(m) = b.panic {
            return fail("panic", m, out);
        }
        if let Some(m) = b.msgs.first() {
            return fail("message with fallbacks", m.clone(), out);
        }
        // each call with a shown result shows the fallback's
        for l in &b.lines {
            for part in l.split("r").skip(1) {
                if let Some((a, c)) = part.split_once("=(") {
                    if let (Ok(a), Some(Ok(c))) = (a.parse::<i32>(), c.split(')').next().map(|x| x.parse::<i32>())) {
                        if c != a * 7 {
                            return fail("fallback result", format!("call {a} shows {c}"), out);
                        }
                    }
                }
            }
        }
    }
    out.nontrivial(hash64(&p.json) ^ hash64(&format!("{allow}{some}")));
}
