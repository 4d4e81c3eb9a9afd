//! C16: evaluating an Ink function from the host returns its value and text and disturbs nothing.
use crate::corpus;
use crate::ast;
use crate::r#gen::{FSig, Feat, Gen};
use crate::guard;
use crate::host::{Host, Opts, Prog, canon, diff, save_diff, show, show_opt};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::vp_hooks;
use bladeink::value_type::ValueType;
use serde_json::{Value, json};

pub fn def() -> Def {
    Def {
        id: "C16",
        rule: "a program extended by functions of known meaning, played twice with the same calls, once with function evaluations inserted; results against the known meaning, play and saves against the undisturbed twin; distinct by program, calls and evaluations",
        assumptions: &["visit counts of the evaluated function and of what it calls are left out of the comparison", "programs draw no random numbers, so the evaluation cannot shift them"],
        make: |c| Box::new(C16 { cfg: c.clone(), pool: Pool::new(true), fixed: vec![] }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C16 {
    cfg: Cfg,
    pool: Pool,
    fixed: Vec<Option<Prog>>,
}

const LIB: &str = "
=== function zq_add(zqap, zqbp)
~ return zqap + zqbp
=== function zq_echo(zqap)
~ return zqap
=== function zq_none()
~ temp unused = 1
=== function zq_say(zqnp)
said {zqnp}
=== function zq_lines(zqnp)
first {zqnp}
second {zqnp}
third
=== function zq_both(zqnp)
before {zqnp}
~ temp zqm = zqnp * 2
after {zqm}
~ return zqm + 1
=== function zq_fact(zqnp)
{ zqnp <= 1:
    ~ return 1
}
~ return zqnp * zq_fact(zqnp - 1)
=== function zq_glue(zqnp)
one {zqnp}<>
two <>
three
=== function zq_cond(zqnp)
{ zqnp > 3:
    big
- else:
    small
}
~ return zqnp > 3
=== function zq_nested(zqnp)
start {zq_say(zqnp)} end {zq_add(zqnp, 1)}
~ return zq_add(zq_fact(3), zqnp)
=== function zq_join(zqap, zqbp)
~ return \"<\" + zqap + \"|\" + zqbp + \">\"
=== function zq_get()
~ return zqv
=== function zq_set(zqnp)
~ zqv = zqnp
~ return zqv
=== function zq_seq()
{one|two|three}{!a|b}{&x|y}
=== function zq_ref(ref zqap)
~ zqap = zqap + 1
~ return zqap
=== function zq_viaref(zqnp)
~ temp zqtt = zqnp
~ zq_ref(zqtt)
~ return zqtt
=== function zq_temp(zqap)
~ temp zqt = zqap
{ zqt > 0:
    ~ temp zqi = zqt + 1
    ~ zqt = zqi
}
~ return zqt
=== function zq_str(zqnp)
~ temp zqs = \"v{zqnp}w\"
~ return zqs
=== function zq_loop(zqnp)
{ zqnp <= 0:
    ~ return 0
}
row {zqnp}
~ return zq_loop(zqnp - 1) + 1
=== function zq_turn()
~ return TURNS()
=== function zq_tagged(zqnp)
tagged {zqnp} # atag
~ return zqnp
";

const OPEN: &str = "VAR zqv = 11\nLIST zql = zqla, (zqlb), zqlc\n";

fn extend(name: &str, src: &str) -> Option<Prog> {
    let full = format!("{OPEN}{src}\n{LIB}");
    match guard::guarded(|| corpus::compile(&full)) {
        Ok(Ok(js)) => {
            let mut p = Prog::from_json(name, &full, &js);
            // the host neither jumps into the added functions nor sets their variable
            p.paths.retain(|x| !x.starts_with("zq_"));
            p.globals.retain(|x| x != "zqv");
            Some(p)
        }
        _ => None,
    }
}

fn show_args(a: &[ValueType]) -> String {
    a.iter().map(show).collect::<Vec<_>>().join(",")
}

/// The text a host gets for the lines a function prints.
fn squash(t: &str) -> Vec<String> {
    t.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| !l.is_empty()).collect()
}

struct Call {
    f: String,
    args: Vec<ValueType>,
    /// expected value (as shown), expected lines; None: unknown
    want: Option<(String, Vec<String>)>,
    repeatable: bool,
}

fn known(r: &mut Rng, h: &Host, p: &Prog) -> Call {
    let n = r.range(-4, 9) as i32;
    let m = r.range(-4, 9) as i32;
    let i = |x: i32| ValueType::Int(x);
    let some = |v: String, t: &[String]| Some((v, t.to_vec()));
    let iv = |x: i32| format!("i:{x}");
    let none = || "none".to_string();
    let (f, args, want): (&str, Vec<ValueType>, Option<(String, Vec<String>)>) = match r.below(22) {
        0 => ("zq_add", vec![i(n), i(m)], some(iv(n + m), &[])),
        1 | 2 => {
            let v = match r.below(7) {
                0 => i(n),
                1 => ValueType::Float(n as f32 + 0.5),
                2 => ValueType::Bool(n > 0),
                3 => ValueType::from(*r.pick(&["", "word", " two words ", "é\n\"x\\", "0"])),
                4 => h.story.get_variable("zql").unwrap_or(i(n)),
                _ => {
                    let g: Vec<ValueType> = p.globals.iter().filter_map(|g| h.story.get_variable(g)).filter(|v| !matches!(v, ValueType::DivertTarget(_))).collect();
                    if g.is_empty() { i(n) } else { g[r.below(g.len())].clone() }
                }
            };
            let s = show(&v);
            ("zq_echo", vec![v], some(s, &[]))
        }
        3 => ("zq_none", vec![], some(none(), &[])),
        4 => ("zq_say", vec![i(n)], some(none(), &[format!("said {n}")])),
        5 => ("zq_lines", vec![i(n)], some(none(), &[format!("first {n}"), format!("second {n}"), "third".into()])),
        6 => ("zq_both", vec![i(n)], some(iv(2 * n + 1), &[format!("before {n}"), format!("after {}", n * 2)])),
        7 => {
            let k = n.clamp(0, 8);
            ("zq_fact", vec![i(k)], some(iv((1..=k).product()), &[]))
        }
        8 => ("zq_glue", vec![i(n)], some(none(), &[format!("one {n}two three")])),
        9 => ("zq_cond", vec![i(n)], some(format!("b:{}", n > 3), &[if n > 3 { "big".into() } else { "small".into() }])),
        10 => ("zq_nested", vec![i(n)], some(iv(6 + n), &[format!("start said {n} end {}", n + 1)])),
        11 => ("zq_join", vec![ValueType::from("a b"), i(n)], some(format!("s:{:?}", format!("<a b|{n}>")), &[])),
        12 => ("zq_get", vec![], some(show_opt(h.story.get_variable("zqv")), &[])),
        13 => ("zq_set", vec![i(n)], some(iv(n), &[])),
        14 => ("zq_seq", vec![], None),
        15 => ("zq_viaref", vec![i(n)], some(iv(n + 1), &[])),
        16 => ("zq_temp", vec![i(n)], some(iv(if n > 0 { n + 1 } else { n }), &[])),
        17 => ("zq_str", vec![i(n)], some(format!("s:{:?}", format!("v{n}w")), &[])),
        18 => {
            let k = n.clamp(0, 5);
            let t: Vec<String> = (1..=k).rev().map(|x| format!("row {x}")).collect();
            ("zq_loop", vec![i(k)], some(iv(k), &t))
        }
        19 => ("zq_tagged", vec![i(n)], Some((iv(n), vec!["?".into()]))),
        20 => ("zq_turn", vec![], None),
        _ => ("zq_echo", vec![ValueType::from("-> x")], some("s:\"-> x\"".into(), &[])),
    };
    Call { f: f.into(), args, want, repeatable: !matches!(f, "zq_seq") }
}

fn eval(h: &mut Host, c: &Call) -> Result<(String, String), String> {
    let mut t = String::new();
    match lock::tame(|| h.story.evaluate_function(&c.f, if c.args.is_empty() { None } else { Some(&c.args) }, &mut t)) {
        Ok(Ok(v)) => Ok((show_opt(v), t)),
        Ok(Err(e)) => Err(e.to_string()),
        Err(m) => Err(format!("PANIC {m}")),
    }
}

/// A save without what the evaluated functions may change.
fn strip(save: &str, fns: &[String]) -> String {
    let Ok(mut v) = serde_json::from_str::<Value>(save) else { return save.into() };
    for k in ["visitCounts", "turnIndices"] {
        if let Some(o) = v[k].as_object_mut() {
            let drop: Vec<String> = o.keys().filter(|p| fns.iter().any(|f| *p == f || p.starts_with(&format!("{f}.")))).cloned().collect();
            for d in drop {
                o.remove(&d);
            }
        }
    }
    if let Some(o) = v["variablesState"].as_object_mut() {
        o.remove("zqv");
    }
    v.to_string()
}

fn save(h: &Host, fns: &[String]) -> String {
    match lock::tame(|| h.story.save_state().map_err(|e| e.to_string())) {
        Ok(Ok(s)) => strip(&canon(&s), fns),
        Ok(Err(e)) => format!("{{\"save error\": {e:?}}}"),
        Err(m) => format!("{{\"save panic\": {m:?}}}"),
    }
}

fn view(h: &mut Host, p: &Prog, fns: &[String]) -> String {
    h.view(p).lines().filter(|l| !l.starts_with("var zqv") && !fns.iter().any(|f| l.starts_with(&format!("visits {f}")))).map(|l| format!("{l}\n")).collect()
}

fn step(h: &mut Host, p: &Prog, op: &Op, fns: &[String]) -> String {
    let mut s = lock::apply(h, p, op);
    match lock::tame(|| view(h, p, fns)) {
        Ok(v) => s.push_str(&v),
        Err(m) => s.push_str(&format!("PANIC in view {m}\n")),
    }
    let mut obs: Vec<String> = h.obs.borrow_mut().drain(..).filter(|l| !l.contains(" zqv = ")).collect();
    obs.sort();
    s.push_str(&obs.join("\n"));
    let calls: Vec<String> = h.calls.borrow_mut().drain(..).collect();
    s.push_str(&calls.join("\n"));
    s
}

fn one(p: &Prog, sigs: &[FSig], r: &mut Rng, thorough: bool, out: &mut Out) {
    let mut fns: Vec<String> = p.functions.iter().map(|f| f.0.clone()).collect();
    fns.extend(sigs.iter().map(|s| s.name.clone()));
    fns.extend(LIB.lines().filter_map(|l| l.strip_prefix("=== function ")).map(|l| l.split('(').next().unwrap_or("").to_string()));
    let o = Opts { observe: true, handler: true, ..Opts::default() };
    let (Ok(mut a), Ok(mut b)) = (Host::new(p, &o), Host::new(p, &o)) else { return };
    let pure_sigs: Vec<&FSig> = sigs.iter().filter(|s| s.pure_ && !has_state(p, &s.name, 0)).collect();
    let mix = Mix { path: 2, set: 3, flow: 5, reload: 1, reset: 0, ..Mix::play() };
    let mut log: Vec<String> = vec![];
    let mut evals = 0;
    let fail = |w: &str, d: String, log: &[String], out: &mut Out| {
        out.violation(format!("{w}: {} [{}]", p.name, log.join("; ")), format!("{w}: {d}"), json!({"program": p.name, "source": p.src, "calls": log, "what": d}));
    };
    for _ in 0..if thorough { 24 } else { 14 } {
        // evaluations in b only
        for _ in 0..r.below(3) {
            let own = !pure_sigs.is_empty() && r.pct(40);
            let call = if own {
                let s = pure_sigs[r.below(pure_sigs.len())];
                Call { f: s.name.clone(), args: (0..s.params.len()).map(|_| ValueType::Int(r.range(-2, 6) as i32)).collect(), want: None, repeatable: true }
            } else {
                let mut c = known(r, &b, p);
                // more arguments than the function takes: those in front are left over
                if r.pct(12) && c.want.as_ref().is_some_and(|w| w.0 != "none") {
                    for _ in 0..1 + r.below(2) {
                        let v = match r.below(3) {
                            0 => ValueType::Int(r.range(100, 200) as i32),
                            1 => ValueType::from("left over"),
                            _ => ValueType::Bool(true),
                        };
                        c.args.insert(0, v);
                    }
                    out.count("with_extra_arguments");
                }
                c
            };
            let (s0, v0) = (save(&b, &fns), view(&mut b, p, &fns));
            let vb = int(&b, "zqv");
            let res = eval(&mut b, &call);
            log.push(format!("eval {}({})", call.f, show_args(&call.args)));
            out.eval();
            evals += 1;
            b.obs.borrow_mut().clear();
            if own {
                b.calls.borrow_mut().clear();
                out.count("evaluations_of_program_functions");
            } else {
                out.count("evaluations_of_known_functions");
            }
            let (val, txt) = match res {
                Ok(x) => x,
                Err(e) => {
                    if own && !e.starts_with("PANIC ") {
                        out.count("faulty_program_function");
                        return;
                    }
                    return fail("evaluation failed", e, &log, out);
                }
            };
            let msgs = b.take_msgs();
            if !msgs.is_empty() {
                if own {
                    out.count("faulty_program_function");
                    return;
                }
                return fail("evaluation raised a message", msgs, &log, out);
            }
            if let Some((wv, wt)) = &call.want {
                if *wv != val {
                    return fail("wrong value", format!("{} gave {val}, not {wv}", call.f), &log, out);
                }
                let got = squash(&txt);
                if *wt != ["?"] && got != *wt {
                    return fail("wrong text", format!("{} printed {txt:?}, not {wt:?}", call.f), &log, out);
                }
                if call.f == "zq_tagged" && !got.first().map(|l| l.starts_with("tagged")).unwrap_or(false) {
                    return fail("wrong text", format!("{} printed {txt:?}", call.f), &log, out);
                }
            }
            if call.f == "zq_set" {
                if show_opt(b.story.get_variable("zqv")) != show(call.args.last().unwrap()) {
                    return fail("assignment in a function lost", show_opt(b.story.get_variable("zqv")), &log, out);
                }
            } else if int(&b, "zqv") != vb {
                return fail("another variable changed", format!("{vb} {}", int(&b, "zqv")), &log, out);
            }
            if let Some(d) = diff(&v0, &view(&mut b, p, &fns)) {
                return fail("evaluation changed what is shown", format!("{}: {d}", call.f), &log, out);
            }
            if let Some(d) = save_diff(&s0, &save(&b, &fns)) {
                return fail("evaluation changed the state", format!("{}: {d}", call.f), &log, out);
            }
            if call.repeatable && r.pct(50) {
                match eval(&mut b, &call) {
                    Ok((v2, t2)) if v2 == val && t2 == txt => out.count("repeated"),
                    x => return fail("repeated evaluation differs", format!("{}: first {:?}, then {x:?}", call.f, (val, txt)), &log, out),
                }
                b.obs.borrow_mut().clear();
                if own {
                    b.calls.borrow_mut().clear();
                }
            }
        }
        // refused evaluations
        if r.pct(15) {
            let (s0, v0) = (save(&b, &fns), view(&mut b, p, &fns));
            let (f, args): (&str, Vec<ValueType>) = match r.below(4) {
                0 => ("", vec![]),
                1 => ("  \t", vec![ValueType::Int(1)]),
                2 => ("zq_nothing", vec![ValueType::Int(1)]),
                _ => ("zq_add.0", vec![]),
            };
            let c = Call { f: f.into(), args, want: None, repeatable: false };
            log.push(format!("eval {f:?}"));
            match eval(&mut b, &c) {
                Err(e) if !e.starts_with("PANIC ") => out.count("refused"),
                x => return fail("evaluation of an unknown function", format!("{f:?}: {x:?}"), &log, out),
            }
            if let Some(d) = diff(&v0, &view(&mut b, p, &fns)).or_else(|| save_diff(&s0, &save(&b, &fns))) {
                return fail("refused evaluation changed something", d, &log, out);
            }
        }
        // inside an unfinished line the call is refused, and the line is what it would have been
        if a.story.can_continue() && r.pct(10) {
            let x = a.cont();
            vp_hooks::set_async_budget(1 + r.below(5) as u64);
            let res = lock::tame(|| b.story.continue_async(1e12).map_err(|e| e.to_string()));
            vp_hooks::set_async_budget(u64::MAX);
            log.push("half a line".into());
            if let Ok(Ok(())) = res {
                if b.story.get_current_text().is_err() {
                    let c = Call { f: "zq_add".into(), args: vec![ValueType::Int(1), ValueType::Int(2)], want: None, repeatable: false };
                    match eval(&mut b, &c) {
                        Err(e) if !e.starts_with("PANIC ") => out.count("refused_unfinished"),
                        x => return fail("evaluation inside an unfinished line", format!("{x:?}"), &log, out),
                    }
                    let y = b.cont();
                    if x != y {
                        return fail("line differs after a refused evaluation", format!("{x} vs {y}"), &log, out);
                    }
                }
            }
            let (va, vb) = (view(&mut a, p, &fns), view(&mut b, p, &fns));
            if let Some(d) = diff(&va, &vb) {
                return fail("line differs after a refused evaluation", d, &log, out);
            }
            for h in [&mut a, &mut b] {
                h.take_msgs();
                h.obs.borrow_mut().clear();
                h.calls.borrow_mut().clear();
                *h.lines.borrow_mut() = 0;
            }
            continue;
        }
        let Some(op) = lock::random_op(r, &mut a, p, &mix) else { break };
        log.push(format!("{op:?}"));
        let x = step(&mut a, p, &op, &fns);
        let y = step(&mut b, p, &op, &fns);
        out.count("lockstep_ops");
        if let Some(d) = diff(&x, &y) {
            return fail("later play differs", format!("undisturbed (left) and disturbed (right) story after {op:?}: {d}"), &log, out);
        }
        if x.contains("PANIC ") {
            return;
        }
        if let Some(d) = save_diff(&save(&a, &fns), &save(&b, &fns)) {
            return fail("later state differs", format!("after {op:?}: {d}"), &log, out);
        }
    }
    if evals > 0 {
        out.nontrivial(hash64(&p.json) ^ hash64(&log.join(";")));
    }
    out.sample(json!({"program": p.name, "source": p.src, "calls": log}));
}

/// A function that prints by its own visit count says something else when repeated.
fn has_state(p: &Prog, name: &str, depth: usize) -> bool {
    let Ok(v) = serde_json::from_str::<Value>(&p.json) else { return true };
    let Some(c) = v["root"].as_array().and_then(|a| a.last()).and_then(|o| o.get(name)) else { return true };
    let t = c.to_string();
    if depth > 6 || t.contains("\"visit\"") {
        return true;
    }
    p.functions.iter().any(|f| f.0 != name && t.contains(&format!("\"f()\":\"{}\"", f.0)) && has_state(p, &f.0, depth + 1))
}

fn int(h: &Host, n: &str) -> i32 {
    match h.story.get_variable(n) {
        Some(ValueType::Int(i)) => i,
        _ => i32::MIN,
    }
}

impl Check for C16 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C16", self.cfg.seed, n);
        let (p, sigs) = if n % 3 == 0 {
            if self.fixed.is_empty() {
                self.fixed = self.pool.fixed.iter().map(|p| if p.src.contains("RANDOM") || p.src.contains("shuffle") || p.src.contains("{~") { None } else { extend(&p.name, &p.src) }).collect();
            }
            let usable: Vec<&Prog> = self.fixed.iter().flatten().collect();
            if usable.is_empty() {
                return;
            }
            out.count("programs_fixed");
            (usable[(n / 3) as usize % usable.len()].clone(), vec![])
        } else {
            let mut base = Feat { random: false, shuffle: false, externals: r.pct(30), ..Feat::rich() };
            if r.pct(20) {
                base.faults = 10;
            }
            let f = Feat::random(&mut r, base);
            let mut g = Gen::new(r.fork(), f);
            let prog = g.program();
            let src = ast::print(&prog);
            match extend(&format!("generated {n}"), &src) {
                Some(p) => {
                    out.count("programs_generated");
                    (p, g.funcs.clone())
                }
                None => {
                    out.count("no_verdict_compile");
                    return;
                }
            }
        };
        let thorough = self.cfg.thorough();
        for _ in 0..3 {
            let mut rr = r.fork();
            super::case(300_000, out, |o| one(&p, &sigs, &mut rr, thorough, o));
        }
    }
}
