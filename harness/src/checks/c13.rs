//! C13: every error and warning is delivered exactly once.
use crate::corpus;
use crate::guard;
use crate::host::{Handler, Log, Prog};
use crate::lock;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::Story;
use bladeink::story::vp_hooks;
use bladeink::value_type::ValueType;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn def() -> Def {
    Def {
        id: "C13",
        rule: "a program that counts its own warnings (wc) and errors (ec) next to the site that raises them, played through random host calls with and without a handler; after every call the messages delivered are compared with the counters; distinct by program and calls, non-trivial when a message was raised",
        assumptions: &["a counter and its fault are evaluated without a line end between them, so they are kept or discarded together"],
        make: |c| Box::new(C13 { cfg: c.clone() }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C13 {
    cfg: Cfg,
}

fn place(r: &mut Rng, s: &mut String, x: &str, w: usize, i: &str) {
    let t = match r.below(21) {
        0 | 1 => format!("{i}line {w} {{{x}}} end\n"),
        2 => format!("{i}{{{x}}}\n"),
        3 => format!("{i}~ v = {x}\n"),
        4 => format!("{i}~ {x}\n"),
        5 => format!("{i}{{{x} > 0: yes {w}|no {w}}}\n"),
        6 => format!("{i}{{{x} < -5: yes {w}}}\n"),
        7 => format!("{i}{{\n{i}    - {x} < 0:\n{i}        a{w}\n{i}    - else:\n{i}        b{w}\n{i}}}\n"),
        8 => format!("{i}~ st = \"s{{{x}}}\"\n"),
        9 => format!("{i}text {w} # tag {{{x}}}\n"),
        10 => format!("{i}-> tun({x}) ->\n"),
        11 => format!("{i}{{add({x}, 1)}} sum\n"),
        12 => format!("{i}<> glue {{{x}}} <>\n"),
        13 => format!("{i}~ temp t{w} = {x}\n{i}{{t{w}}}\n"),
        14 => format!("{i}{{&{{{x}}}|b|c {{{x}}}}}\n"),
        15 => format!("{i}a {w}\n{i}~ v += {x}\n"),
        16 => format!("{i}a {w}\n{i}{{{x}}} <>\n{i}b\n"),
        17 => format!("{i}{{say({x})}}\n"),
        18 => format!("{i}{{{x}}}{{{x}}}\n"),
        19 => format!("{i}<- thr({x})\n"),
        _ => format!("{i}{{max({x}, {x})}}\n").replace("max", "MAX"),
    };
    s.push_str(&t);
}

fn items(r: &mut Rng, s: &mut String, site: &mut usize, i: &str, errors: u32, warns: u32) {
    for _ in 0..1 + r.below(5) {
        *site += 1;
        let w = *site;
        if r.pct(errors) {
            match r.below(8) {
                0 => s.push_str(&format!("{i}~ ec++\n{i}~ dv = 3\n{i}-> dv\n")),
                1 => s.push_str(&format!("{i}text\n{i}-> stop\n")),
                2 => s.push_str(&format!("{i}-> stop\n")),
                3 => s.push_str(&format!("{i}~ ec++\n{i}-> lost ->\n")),
                4 => s.push_str(&format!("{i}~ ec++\n{i}~ v = st - 1\n")),
                5 => s.push_str(&format!("{i}~ ec++\n{i}->->\n")),
                _ => place(r, s, "e()", w, i),
            }
        } else if r.pct(warns) {
            place(r, s, "w()", w, i);
        } else {
            match r.below(5) {
                0 => s.push_str(&format!("{i}glued {w} <>\n")),
                1 => s.push_str(&format!("{i}~ v++\n")),
                2 => s.push_str(&format!("{i}v {{v}} # tag{w}\n")),
                _ => s.push_str(&format!("{i}plain {w}\n")),
            }
        }
    }
}

const HEAD: &str = "VAR wc = 0\nVAR ec = 0\nVAR z = 0\nVAR v = 0\nVAR st = \"q\"\nVAR dv = -> k0\n-> k0\n";
const TAIL: &str = "=== tun(a) ===\ntun {a}\n->->\n=== thr(a) ===\nthread {a}\n-> DONE\n=== lost ===\nlost\n=== stop ===\n~ ec++\n=== function w() ===\n~ wc++\n{ wc < 0:\n    ~ temp g = 1\n}\n~ return g\n=== function e() ===\n~ ec++\n~ return 1 / z\n=== function add(a, b) ===\n~ return a + b\n=== function say(a) ===\nsaid {a}\n=== function ww() ===\n~ temp q = w() + w()\nin ww {q}\n~ return 5\n=== function fine() ===\nfine text\n~ return v\n";

fn program(r: &mut Rng) -> String {
    let errors = *r.pick(&[0, 6, 12, 25]);
    let warns = *r.pick(&[10, 30, 60]);
    let mut s = String::from(HEAD);
    let nk = 2 + r.below(3);
    let mut site = 0;
    for k in 0..nk {
        s.push_str(&format!("=== k{k} ===\n"));
        items(r, &mut s, &mut site, "", errors, warns);
        for _ in 0..1 + r.below(3) {
            site += 1;
            match r.below(8) {
                0 if r.pct(warns) => s.push_str(&format!("+ {{w() == 0}} c{site}\n")),
                1 if r.pct(warns) => s.push_str(&format!("+ c{site} {{w()}} [x{{w()}}] y {{w()}}\n")),
                2 if r.pct(warns) => s.push_str(&format!("+ [c{site} # t{{w()}}]\n")),
                3 if r.pct(errors) => s.push_str(&format!("+ c{site} {{e()}}\n")),
                4 if r.pct(errors) => s.push_str(&format!("+ {{e() > 0}} c{site}\n")),
                _ => s.push_str(&format!("+ c{site}\n")),
            }
            if r.pct(70) {
                items(r, &mut s, &mut site, "    ", errors, warns);
            }
            if r.pct(60) {
                s.push_str(&format!("    -> k{}\n", r.below(nk)));
            }
        }
        if r.pct(30) {
            s.push_str(&format!("- gathered {k}\n"));
            items(r, &mut s, &mut site, "", errors, warns);
        } else {
            s.push_str(&format!("+ [on] -> k{}\n- \n", r.below(nk)));
        }
        s.push_str(&format!("-> k{}\n", (k + 1) % nk));
    }
    s.push_str(TAIL);
    s
}

struct M {
    st: Story,
    log: Log,
    /// delivered warnings and errors
    w: i64,
    e: i64,
    /// counters of the story are short of the messages raised by this much (resets, loads)
    w0: i64,
    e0: i64,
    handler: bool,
    /// no-handler mode: warnings and errors that should be readable since the last reset
    err_calls: i64,
    /// messages raised before a handler was set
    trace: Vec<String>,
    texts: Vec<String>,
}

fn int(s: &Story, n: &str) -> i64 {
    match s.get_variable(n) {
        Some(ValueType::Int(i)) => i as i64,
        _ => i64::MIN,
    }
}

impl M {
    fn new(js: &str, handler: bool) -> Option<M> {
        let mut st = Story::new(js).ok()?;
        st.vp_set_story_seed(3);
        let log: Log = Default::default();
        if handler {
            st.set_error_handler(Rc::new(RefCell::new(Handler(log.clone()))));
        }
        Some(M { st, log, w: 0, e: 0, w0: 0, e0: 0, handler, err_calls: 0, trace: vec![], texts: vec![] })
    }

    fn raised(&self) -> (i64, i64) {
        (int(&self.st, "wc") + self.w0, int(&self.st, "ec") + self.e0)
    }

    /// Compares what was delivered by one call with what it raised.
    fn check(&mut self, before: (i64, i64), r: &Result<String, String>, evaluates: bool) -> Option<String> {
        let (rw, re) = self.raised();
        let (nw, ne) = (rw - before.0, re - before.1);
        let new: Vec<String> = self.log.borrow_mut().drain(..).collect();
        let dw = new.iter().filter(|m| m.starts_with("WARNING")).count() as i64;
        let de = new.len() as i64 - dw;
        self.w += dw;
        self.e += de;
        for m in &new {
            let kind_ok = if m.starts_with("WARNING") { m.contains("Variable not found") } else { !m.contains("Variable not found") };
            if !kind_ok {
                return Some(format!("message of the wrong kind: {m}"));
            }
        }
        self.texts.extend(new.iter().cloned());
        if self.handler {
            if dw != nw || de != ne {
                return Some(format!("raised {nw} warnings and {ne} errors, the handler received {dw} and {de}: {new:?}"));
            }
            if r.is_err() {
                return Some(format!("Err with a handler set: {r:?}"));
            }
            if self.st.has_error() || !self.st.get_current_warnings().is_empty() {
                return Some(format!("still readable after delivery: {:?} {:?}", self.st.get_current_errors(), self.st.get_current_warnings()));
            }
        } else {
            if r.is_err() != (ne > 0) {
                return Some(format!("raised {ne} errors and {nw} warnings, result {r:?}"));
            }
            if ne > 0 {
                self.err_calls += 1;
                if let (Err(m), Some(last)) = (r, self.st.get_current_errors().last()) {
                    if !m.contains(last.as_str()) && !evaluates {
                        return Some(format!("Err {m:?} does not report {last:?}"));
                    }
                }
            }
            let (sw, se) = (int(&self.st, "wc"), int(&self.st, "ec"));
            let (hw, he) = (self.st.get_current_warnings().len() as i64, self.st.get_current_errors().len() as i64);
            let _ = (sw, se);
            self.w += nw;
            self.e += ne;
            if hw != self.w {
                return Some(format!("{} warnings raised since the last reset, {hw} readable: {:?}", self.w, self.st.get_current_warnings()));
            }
            if he != self.e {
                return Some(format!("{} errors raised since the last reset, {he} readable: {:?}", self.e, self.st.get_current_errors()));
            }
            if self.st.has_error() != (he > 0) {
                return Some("has_error disagrees with the errors".into());
            }
        }
        if ne > 0 && !evaluates {
            if self.st.can_continue() {
                return Some("can continue after an error".into());
            }
            if !self.st.get_current_choices().is_empty() {
                return Some("offers choices after an error".into());
            }
        }
        None
    }
}

fn play(p: &Prog, r: &mut Rng, thorough: bool, out: &mut Out) {
    let handler = r.pct(60);
    let mut seed = r.fork();
    let Some(mut m) = M::new(&p.json, handler) else { return };
    let mut stopped = false;
    let mut raised_any = false;
    let calls = if thorough { 40 } else { 24 };
    let style = r.below(3);
    for _ in 0..calls {
        let r = &mut seed;
        let before = m.raised();
        let mut evaluates = false;
        let can = m.st.can_continue();
        let n = m.st.get_current_choices().len();
        let (name, res): (String, Result<Result<String, String>, String>) = if can && r.pct(85) {
            match if style == 0 { 0 } else { r.below(4) } {
                0 | 1 => ("cont".into(), lock::tame(|| m.st.cont().map_err(|e| e.to_string()))),
                2 => {
                    let b = 1 + r.below(6) as u64;
                    let mut early = None;
                    let x = lock::tame(|| {
                        for _ in 0..5000 {
                            vp_hooks::set_async_budget(b);
                            let x = m.st.continue_async(1e12);
                            vp_hooks::set_async_budget(u64::MAX);
                            if let Err(e) = x {
                                return Err(e.to_string());
                            }
                            if m.st.get_current_text().is_ok() {
                                return Ok("sliced".to_string());
                            }
                            if !m.log.borrow().is_empty() {
                                early = Some(());
                            }
                        }
                        Ok("never".to_string())
                    });
                    vp_hooks::set_async_budget(u64::MAX);
                    if early.is_some() {
                        // allowed by the statement, but then it must still be delivered once
                        out.count("delivered_before_line_end");
                    }
                    (format!("sliced {b}"), x)
                }
                _ => {
                    // maximal play stops at the first error
                    ("max".into(), lock::tame(|| m.st.continue_maximally().map_err(|e| e.to_string())))
                }
            }
        } else {
            match r.below(12) {
                0..=5 if n > 0 && !can => {
                    let i = r.below(n);
                    (format!("choose {i}"), lock::tame(|| m.st.choose_choice_index(i).map(|_| String::new()).map_err(|e| e.to_string())))
                }
                6 => {
                    evaluates = true;
                    let f = *r.pick(&["w", "ww", "fine", "e"]);
                    // a faulty function ends the whole story; only sometimes
                    let f = if f == "e" && r.pct(60) { "w" } else { f };
                    let mut t = String::new();
                    (format!("eval {f}"), lock::tame(|| m.st.evaluate_function(f, None, &mut t).map(|_| String::new()).map_err(|e| e.to_string())))
                }
                7 => {
                    let x = lock::tame(|| m.st.reset_state().map(|_| String::new()).map_err(|e| e.to_string()));
                    m.w0 = before.0;
                    m.e0 = before.1;
                    if !m.handler {
                        m.w = 0;
                        m.e = 0;
                        if m.st.has_error() || !m.st.get_current_warnings().is_empty() {
                            return fail(p, &m, "messages survive a reset", format!("{:?}", m.st.get_current_errors()), out);
                        }
                    }
                    stopped = false;
                    ("reset".into(), x)
                }
                8 => {
                    stopped = false;
                    let k = *r.pick(&["k0", "k1"]);
                    (format!("path {k}"), lock::tame(|| m.st.choose_path_string(k, true, None).map(|_| String::new()).map_err(|e| e.to_string())))
                }
                9 if m.handler => {
                    // messages are no part of a save
                    ("reload".into(), lock::tame(|| {
                        let s = m.st.save_state().map_err(|e| e.to_string())?;
                        m.st.load_state(&s).map(|_| String::new()).map_err(|e| e.to_string())
                    }))
                }
                10 => {
                    let f = *r.pick(&["other", "second"]);
                    let x = lock::tame(|| {
                        let a = m.st.switch_flow(f).map(|_| String::new()).map_err(|e| e.to_string());
                        m.st.switch_to_default_flow();
                        a
                    });
                    (format!("flow {f} and back"), x)
                }
                _ if !can && n == 0 => {
                    // refused: nothing may be delivered
                    let x = lock::tame(|| m.st.cont().map_err(|e| e.to_string()));
                    m.trace.push("refused cont".into());
                    match x {
                        Err(e) => return fail(p, &m, "panic", e, out),
                        Ok(Ok(t)) => return fail(p, &m, "continue accepted although it cannot continue", t, out),
                        Ok(Err(_)) => {}
                    }
                    if !m.log.borrow().is_empty() {
                        let d = format!("{:?}", m.log.borrow());
                        return fail(p, &m, "message delivered by a refused continue", d, out);
                    }
                    out.count("refused_continues");
                    let k = *r.pick(&["k0", "k1"]);
                    stopped = false;
                    (format!("path {k}"), lock::tame(|| m.st.choose_path_string(k, true, None).map(|_| String::new()).map_err(|e| e.to_string())))
                }
                _ => continue,
            }
        };
        m.trace.push(name.clone());
        out.count("host_calls");
        let res = match res {
            Ok(x) => x,
            Err(e) => return fail(p, &m, "panic", e, out),
        };
        // an evaluated function that fails is an Err of the call as well
        let shown = if evaluates && m.handler { res.clone().or(Ok(String::new())) } else { res.clone() };
        let now = m.raised();
        if now != before {
            raised_any = true;
            out.add("warnings_raised", (now.0 - before.0).max(0) as u64);
            out.add("errors_raised", (now.1 - before.1).max(0) as u64);
        }
        if let Some(d) = m.check(before, &shown, evaluates) {
            return fail(p, &m, "delivery", format!("{name}: {d}"), out);
        }
        if now.1 > before.1 {
            stopped = true;
        }
        if stopped && !evaluates && (m.st.can_continue() || !m.st.get_current_choices().is_empty()) {
            return fail(p, &m, "an error does not stop the story", name, out);
        }
        out.eval();
    }
    if raised_any {
        out.nontrivial(hash64(&p.json) ^ hash64(&m.trace.join(";")) ^ handler as u64);
    }
    out.count(if handler { "histories_with_handler" } else { "histories_without_handler" });
    out.sample(json!({"program": p.name, "source": p.src, "handler": handler, "calls": m.trace}));
}

fn fail(p: &Prog, m: &M, what: &str, d: String, out: &mut Out) {
    out.violation(
        format!("{what}: {} handler {} [{}]", p.name, m.handler, m.trace.join("; ")),
        format!("{what}: {d}"),
        json!({"program": p.name, "source": p.src, "handler": m.handler, "calls": m.trace, "what": d}),
    );
}

/// The same calls with and without a handler raise the same messages in the same order,
/// and a handler set later is not told of what was raised before.
fn twin(p: &Prog, r: &mut Rng, out: &mut Out) {
    let (Some(mut a), Some(mut b)) = (M::new(&p.json, true), M::new(&p.json, false)) else { return };
    let mut picks = vec![];
    for _ in 0..6 {
        let mut k = 0;
        while b.st.can_continue() && k < 40 {
            k += 1;
            let (ew, ee) = (b.st.get_current_warnings().len(), b.st.get_current_errors().len());
            let x = lock::tame(|| a.st.cont().map_err(|e| e.to_string()));
            let y = lock::tame(|| b.st.cont().map_err(|e| e.to_string()));
            out.eval();
            let mut told: Vec<String> = b.st.get_current_errors()[ee..].iter().map(|m| format!("ERROR {m}")).collect();
            told.extend(b.st.get_current_warnings()[ew..].iter().map(|m| format!("WARNING {m}")));
            let mut got: Vec<String> = a.log.borrow_mut().drain(..).collect();
            // the two lists are each in order; between them no order is fixed
            got.sort_by_key(|m| m.starts_with("WARNING"));
            a.trace.push("cont".into());
            if got != told {
                return fail(p, &a, "messages with a handler differ from those readable without", format!("{got:?} vs {told:?}"), out);
            }
            match (x, y) {
                (Ok(Ok(x)), Ok(Ok(y))) if x == y => {}
                (Ok(Ok(_)), Ok(Err(_))) if !b.st.get_current_errors()[ee..].is_empty() => {}
                (x, y) => return fail(p, &a, "play with and without a handler differs", format!("{x:?} vs {y:?}"), out),
            }
        }
        let n = b.st.get_current_choices().len();
        if n == 0 {
            break;
        }
        let i = r.below(n);
        picks.push(i);
        a.trace.push(format!("choose {i}"));
        if a.st.choose_choice_index(i).is_err() || b.st.choose_choice_index(i).is_err() {
            break;
        }
    }
    // a late handler
    let known = b.raised();
    let log: Log = Default::default();
    b.st.set_error_handler(Rc::new(RefCell::new(Handler(log.clone()))));
    if b.st.choose_path_string("k1", true, None).is_ok() {
        let mut k = 0;
        while b.st.can_continue() && k < 10 {
            k += 1;
            if let Err(e) = lock::tame(|| b.st.cont().map(|_| ()).map_err(|e| e.to_string())) {
                return fail(p, &b, "panic", e, out);
            }
        }
        let now = b.raised();
        let got = log.borrow().len() as i64;
        let new = now.0 - known.0 + now.1 - known.1;
        if got != new {
            return fail(p, &b, "a handler set late", format!("{new} messages raised after it was set, {got} delivered: {:?}", log.borrow()), out);
        }
        out.count("late_handlers");
    }
    out.count("twins");
}

/// The warning of an old story format comes once, with the first continue.
fn version(p: &Prog, out: &mut Out) {
    let js = p.json.replacen("\"inkVersion\":21", "\"inkVersion\":20", 1);
    if js == p.json {
        return;
    }
    for handler in [true, false] {
        let Some(mut m) = M::new(&js, handler) else { return };
        let mut seen = 0;
        let mut k = 0;
        while m.st.can_continue() && k < 6 {
            k += 1;
            let x = lock::tame(|| m.st.cont().map(|_| ()).map_err(|e| e.to_string()));
            if let Err(e) = x {
                return fail(p, &m, "panic", e, out);
            }
            m.trace.push("cont".into());
            let hits = if handler { m.log.borrow().iter().filter(|x| x.contains("Version of ink")).count() } else { m.st.get_current_warnings().iter().filter(|x| x.contains("Version of ink")).count() };
            seen = seen.max(hits);
            if hits != 1 {
                return fail(p, &m, "version warning", format!("delivered {hits} times after {k} continues"), out);
            }
        }
        if seen == 1 {
            out.count("version_warnings");
        }
    }
}

impl Check for C13 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C13", self.cfg.seed, n);
        let src = program(&mut r);
        let js = match guard::guarded(|| corpus::compile(&src)) {
            Ok(Ok(js)) => js,
            e => {
                out.count("no_verdict_compile");
                if std::env::var("VPH_SHOW").is_ok() {
                    eprintln!("{e:?}\n{src}");
                }
                return;
            }
        };
        let p = Prog::from_json(&format!("messages {n}"), &src, &js);
        let thorough = self.cfg.thorough();
        for _ in 0..if thorough { 8 } else { 4 } {
            let mut rr = r.fork();
            super::case(200_000, out, |o| play(&p, &mut rr, thorough, o));
        }
        for _ in 0..2 {
            let mut rr = r.fork();
            super::case(200_000, out, |o| twin(&p, &mut rr, o));
        }
        if n % 8 == 0 {
            super::case(200_000, out, |o| version(&p, o));
        }
    }
}
