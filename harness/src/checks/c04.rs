//! C04: faults in a story are errors; nothing panics; integers wrap; a reset after an error plays afresh.
use crate::corpus;
use crate::r#gen::Feat;
use crate::guard;
use crate::host::{Host, Opts, Prog, canon, diff, save_diff, show_opt};
use crate::lock::{self, Mix, Op};
use crate::pool::{self, Pool};
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Helper, Out};
use bladeink::story::vp_hooks;
use bladeink::value_type::ValueType;
use serde_json::{Value, json};

pub fn def() -> Def {
    Def {
        id: "C04",
        rule: "a program with faults played through a random sequence of valid and invalid host calls in a debug and a release build; a fault placed in one of the positions an expression can have; every operator, built-in, assignment and divert with operands of every kind; integer arithmetic on extreme operands; distinct by program and transcript",
        assumptions: &["a story that never ends a line is stopped after a fixed number of steps and gives no verdict"],
        make: |c| Box::new(C04 { cfg: c.clone(), pool: Pool::new(true), helper: None }),
        budget: (50, 900),
        hang_is_violation: false,
        stall: 15,
        crash_is_violation: true,
    }
}

struct C04 {
    cfg: Cfg,
    pool: Pool,
    helper: Option<Helper>,
}

fn any_value(r: &mut Rng, h: &Host, p: &Prog) -> ValueType {
    match r.below(9) {
        0 | 1 => ValueType::Int(*r.pick(&[0, 1, -1, 7, i32::MAX, i32::MIN, i32::MAX - 1, 1000000])),
        2 => ValueType::Float(*r.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e38, -2.5, 3e9])),
        3 => ValueType::Bool(r.pct(50)),
        4 | 5 => ValueType::from(*r.pick(&["", "0", "12", "true", "abc", "\n", "  ", "é\u{1F600}", "99999999999", "-> knot", "\"\\"])),
        _ => {
            // a value of some variable of the story: lists, divert targets
            if p.globals.is_empty() {
                return ValueType::Int(3);
            }
            h.story.get_variable(r.pick::<String>(&p.globals)).unwrap_or(ValueType::Int(5))
        }
    }
}

fn any_path(r: &mut Rng, p: &Prog) -> String {
    let known = if p.paths.is_empty() { "x".to_string() } else { r.pick(&p.paths).clone() };
    match r.below(12) {
        0..=3 => known,
        4 => format!("{known}.{}", r.below(12)),
        5 => format!("{known}.c-{}", r.below(3)),
        6 => format!("{known}.{}.g-0.{}", r.below(4), r.below(4)),
        7 => format!("0.{}", r.below(9)),
        8 => r.pick(&["", ".", "..", "^", ".^.^", "^.^", "nowhere", "a.b.c", "0", "-1", "99999999999999999999", "4294967296", "é.ü", " ", "g-0", "0.g-0", "global decl", "global decl.3"]).to_string(),
        9 => format!("{known}.{}", r.pick(&["", "^", ".", "nothing", "-1", "#f", "#n", "s", "b"])),
        10 => format!(".^.{known}"),
        _ => format!("{known}.{}.{}.{}", r.below(5), r.below(5), r.below(5)),
    }
}

/// One host call, sensible or not.
fn wild(r: &mut Rng, h: &mut Host, p: &Prog) -> String {
    let k = r.below(24);
    let res = lock::tame(|| match k {
        0 | 1 => format!("cont {:?}", h.story.cont().map_err(|e| e.to_string())),
        2 | 3 => {
            let b = 1 + r.below(12) as u64;
            vp_hooks::set_async_budget(b);
            let x = h.story.continue_async(1e12);
            vp_hooks::set_async_budget(u64::MAX);
            format!("async {b} {:?}", x.map_err(|e| e.to_string()))
        }
        4 => {
            let i = *r.pick(&[0, 1, 2, 7, usize::MAX, usize::MAX / 2, 1 << 31, 1 << 32]);
            format!("choose {i} {:?}", h.story.choose_choice_index(i).map_err(|e| e.to_string()))
        }
        5 | 6 | 7 => {
            let s = any_path(r, p);
            let reset = r.pct(50);
            let args: Vec<ValueType> = (0..r.below(4)).map(|_| any_value(r, h, p)).collect();
            let x = h.story.choose_path_string(&s, reset, if args.is_empty() { None } else { Some(&args) });
            format!("path {s:?} {reset} {} {:?}", args.len(), x.map_err(|e| e.to_string()))
        }
        8 | 9 | 10 => {
            let n = if p.globals.is_empty() || r.pct(10) { "nothing".to_string() } else { r.pick(&p.globals).clone() };
            let v = any_value(r, h, p);
            format!("set {n} {} {:?}", crate::host::show(&v), h.story.set_variable(&n, &v).map_err(|e| e.to_string()))
        }
        11 | 12 | 13 => {
            let n = match r.below(6) {
                0 => any_path(r, p),
                1 => if p.externals.is_empty() { "ext".into() } else { r.pick(&p.externals).0.clone() },
                _ => if p.functions.is_empty() { any_path(r, p) } else { r.pick(&p.functions).0.clone() },
            };
            let args: Vec<ValueType> = (0..r.below(4)).map(|_| any_value(r, h, p)).collect();
            let mut t = String::new();
            let x = h.story.evaluate_function(&n, if args.is_empty() { None } else { Some(&args) }, &mut t);
            format!("eval {n:?} {} {:?} {t:?}", args.len(), x.map(show_opt).map_err(|e| e.to_string()))
        }
        14 => {
            let n = *r.pick(&["", "DEFAULT_FLOW", "flowA", "flow \"B\"", "\n"]);
            format!("flow {n:?} {:?}", h.story.switch_flow(n).map_err(|e| e.to_string()))
        }
        15 => {
            let n = *r.pick(&["", "DEFAULT_FLOW", "flowA", "flow \"B\"", "\n"]);
            format!("remove flow {n:?} {:?}", h.story.remove_flow(n).map_err(|e| e.to_string()))
        }
        16 => {
            let s = any_path(r, p);
            format!("visits {s:?} {:?}", h.story.get_visit_count_at_path_string(&s).map_err(|e| e.to_string()))
        }
        17 => {
            let s = any_path(r, p);
            format!("tags at {s:?} {:?}", h.story.tags_for_content_at_path(&s).map_err(|e| e.to_string()))
        }
        18 => format!("global tags {:?}", h.story.get_global_tags().map_err(|e| e.to_string())),
        19 => format!("hierarchy {}", h.story.build_string_of_hierarchy().len() > 0),
        20 => {
            let s = h.story.save_state().map_err(|e| e.to_string());
            match s {
                Ok(s) => format!("reload {:?}", h.story.load_state(&s).map_err(|e| e.to_string())),
                Err(e) => format!("save {e}"),
            }
        }
        21 => format!("max {:?} {:?}", h.story.get_current_path(), h.story.continue_maximally().map_err(|e| e.to_string())),
        22 => {
            h.story.switch_to_default_flow();
            "default flow".into()
        }
        _ => {
            let seed = h.story.vp_story_seed();
            let x = h.story.reset_state().map_err(|e| e.to_string());
            h.story.vp_set_story_seed(seed);
            format!("reset {x:?}")
        }
    });
    match res {
        Ok(s) => format!("{s}\n{}", h.take_msgs()),
        Err(m) => format!("PANIC op {k}: {m}\n"),
    }
}

fn save(h: &Host) -> String {
    match lock::tame(|| h.story.save_state().map_err(|e| e.to_string())) {
        Ok(Ok(s)) => canon(&s),
        Ok(Err(e)) => format!("{{\"save error\": {e:?}}}"),
        Err(m) => format!("{{\"PANIC \": {m:?}}}"),
    }
}

fn opts(r: &mut Rng) -> Opts {
    Opts { seed: r.below(1000) as i32, handler: r.pct(50), bind: r.pct(80), safe: r.pct(50), observe: r.pct(50), fallbacks: r.pct(50) }
}

/// Plays a program with wild host calls; the transcript.
fn run(p: &Prog, seed: u64, n: u64, len: usize) -> Vec<String> {
    let mut r = Rng::of("C04run", seed, n);
    let o = opts(&mut r);
    let mut v = vec![];
    let mut h = match lock::tame(|| Host::new(p, &o)) {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return vec![format!("load {e}")],
        Err(m) => return vec![format!("PANIC load {m}")],
    };
    let mix = Mix { reload: 1, eval: 3, path: 4, set: 4, flow: 3, ..Mix::play() };
    let wildness = *r.pick(&[5, 25, 60]);
    for _ in 0..len {
        let t = if r.pct(wildness) {
            wild(&mut r, &mut h, p)
        } else {
            match lock::random_op(&mut r, &mut h, p, &mix) {
                Some(op) => format!("{op:?}\n{}", lock::apply(&mut h, p, &op)),
                None => wild(&mut r, &mut h, p),
            }
        };
        let mut t = t;
        match lock::tame(|| h.view(p)) {
            Ok(s) => t.push_str(&s),
            Err(m) => t.push_str(&format!("PANIC in view {m}\n")),
        }
        t.push_str(&format!("errors {:?} warnings {:?}\n", h.story.get_current_errors(), h.story.get_current_warnings()));
        let s = save(&h);
        if s.contains("\"PANIC \"") {
            t.push_str(&format!("PANIC in save {s}\n"));
        } else {
            t.push_str(&format!("save {:x}\n", hash64(&s)));
        }
        let mut obs: Vec<String> = h.obs.borrow_mut().drain(..).collect();
        obs.sort();
        t.push_str(&obs.join("\n"));
        let stop = t.contains("PANIC ");
        v.push(t);
        if stop {
            break;
        }
    }
    v
}

impl C04 {
    fn len(&self) -> usize {
        if self.cfg.thorough() { 40 } else { 20 }
    }
    fn hostile(&mut self, n: u64, r: &mut Rng, out: &mut Out) {
        let f = Feat { faults: *r.pick(&[0, 20, 60]), hostile: r.pct(50), externals: r.pct(50), ..Feat::rich() };
        let picked = if n % 4 == 0 { self.pool.pick(n / 4 * 3, r, f, out) } else { pool::generated(n, r, f, out) };
        let Some((p, _)) = picked else { return };
        let (seed, len) = (self.cfg.seed, self.len());
        for round in 0..4u64 {
            let id = n * 16 + round;
            let mut a = vec![];
            let mut bad = None;
            let ran = guard::fueled(200_000, || {
                a = run(&p, seed, id, len);
            });
            out.eval();
            match ran {
                Ok(()) => {}
                Err(guard::Caught::Fuel) => {
                    out.count("no_verdict_fuel");
                    continue;
                }
                Err(guard::Caught::Panic(m)) => {
                    bad = Some(("panic", m));
                }
            }
            out.add("host_calls", a.len() as u64);
            let all = a.join("\n");
            out.add("errors_seen", all.matches("ERROR ").count() as u64);
            if let Some(t) = a.last() {
                if let Some(l) = t.lines().find(|l| l.contains("PANIC ")) {
                    bad = Some(("panic", l.to_string()));
                }
            }
            if bad.is_none() {
                if let Ok(exe) = std::env::var("VPH_RELEASE") {
                    let cfg = self.cfg.clone();
                    let h = self.helper.get_or_insert_with(|| Helper::start(&exe, &cfg));
                    match h.ask(&json!({"name": p.name, "src": p.src, "json": p.json, "n": id, "len": len})) {
                        Ok(v) if v["fuel"] == true => out.count("no_verdict_fuel"),
                        Ok(v) => {
                            out.count("release_runs");
                            let b: Vec<String> = serde_json::from_value(v["run"].clone()).unwrap_or_default();
                            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                                if let Some(d) = diff(x, y) {
                                    bad = Some(("debug and release builds differ", format!("call {i}: {d}")));
                                    break;
                                }
                            }
                            if bad.is_none() && a.len() != b.len() {
                                bad = Some(("debug and release builds differ", format!("{} vs {} calls", a.len(), b.len())));
                            }
                        }
                        Err(e) => {
                            bad = Some(("release build process ended", e));
                            self.helper = None;
                        }
                    }
                }
            }
            let calls: Vec<&str> = a.iter().map(|t| t.lines().next().unwrap_or("")).collect();
            if let Some((w, d)) = bad {
                out.violation(format!("{w}: {} calls {}", p.name, hash64(&calls.join(";"))), format!("{w}: {d}"), json!({"program": p.name, "source": p.src, "calls": calls, "what": d}));
                return;
            }
            out.nontrivial(hash64(&p.json) ^ hash64(&all));
            out.sample(json!({"program": p.name, "source": p.src, "calls": calls}));
            let mut rr = r.fork();
            super::case(300_000, out, |o| reset_after_error(&p, &mut rr, o));
        }
    }
}

/// Plays until an error is reported, resets and plays against a fresh story.
fn reset_after_error(p: &Prog, r: &mut Rng, out: &mut Out) {
    let o = opts(r);
    let Ok(mut a) = Host::new(p, &o) else { return };
    let mix = Mix { eval: 4, path: 5, set: 4, flow: 3, ..Mix::play() };
    let mut hist = vec![];
    let mut errored = false;
    for _ in 0..15 {
        let Some(op) = lock::random_op(r, &mut a, p, &mix) else { break };
        hist.push(op.clone());
        let t = lock::apply(&mut a, p, &op);
        if t.contains("PANIC ") {
            out.violation(format!("panic: {} [{}]", p.name, lock::render(&hist)), format!("panic: {t}"), json!({"program": p.name, "source": p.src, "history": lock::render(&hist)}));
            return;
        }
        if a.story.has_error() || t.contains("ERROR") || t.starts_with("error") {
            errored = true;
            break;
        }
    }
    if !errored {
        return;
    }
    out.eval();
    out.count("resets_after_error");
    let hist = lock::render(&hist);
    let fail = |d: String, out: &mut Out| {
        out.violation(format!("reset after error: {} [{hist}]", p.name), format!("after an error and a reset: {d}"), json!({"program": p.name, "source": p.src, "history": hist, "what": d}));
    };
    let t = lock::apply(&mut a, p, &Op::Reset);
    if !t.starts_with("Ok") {
        return fail(format!("reset refused {t}"), out);
    }
    a.story.vp_set_story_seed(o.seed);
    *a.lines.borrow_mut() = 0;
    a.obs.borrow_mut().clear();
    let Ok(mut b) = Host::new(p, &o) else { return };
    if let Some(d) = diff(&a.view(p), &b.view(p)) {
        return fail(d, out);
    }
    if a.story.has_error() || !a.story.get_current_warnings().is_empty() {
        return fail(format!("messages survive: {:?} {:?}", a.story.get_current_errors(), a.story.get_current_warnings()), out);
    }
    for _ in 0..10 {
        let Some(op) = lock::random_op(r, &mut b, p, &Mix::rich()) else { break };
        let x = lock::step(&mut a, p, &op);
        let y = lock::step(&mut b, p, &op);
        if let Some(d) = diff(&x, &y) {
            return fail(format!("{op:?}: {d}"), out);
        }
        if let Some(d) = save_diff(&save(&a), &save(&b)) {
            return fail(format!("{op:?}: {d}"), out);
        }
    }
}

// ---- faults in every position ------------------------------------------------

/// (name, expression that is a fault when evaluated)
const FAULTS: &[(&str, &str)] = &[
    ("division by zero", "7 / z"),
    ("division of the smallest integer by zero", "lo / z"),
    ("modulo by zero", "7 % z"),
    ("mod word by zero", "7 mod z"),
    ("nested division by zero", "1 + (2 * (3 / z))"),
    ("string minus int", "t - 1"),
    ("string times string", "t * t"),
    ("string divided", "t / 2"),
    ("negated string", "-t"),
    ("division by zero in a function", "divide(1, z)"),
    ("unset temporary", "ghost()"),
    ("unbound external", "outside(1)"),
    ("divert plus int", "d + 1"),
    ("string less than number is a number order", "d < 1"),
    ("list value of int", "LIST_VALUE(d)"),
    ("floor of divert", "FLOOR(d)"),
    ("minimum with divert", "MIN(d, 1)"),
    ("random with strings", "RANDOM(d, 3)"),
];

/// (name, text with `X` for the expression). The fault is reached by playing on and taking choice 0.
const PLACES: &[(&str, &str)] = &[
    ("line", "before {X} after\n"),
    ("line start", "{X}\n"),
    ("after a line", "a line\n{X}\n"),
    ("after two lines", "a line\nanother\n{X} text\n"),
    ("glued", "a line <>\n{X}<> more\n"),
    ("assignment", "~ v = X\n"),
    ("temporary", "~ temp q = X\n{q}\n"),
    ("statement after a line", "a line\n~ v = X\n"),
    ("condition", "{X: yes|no}\n"),
    ("condition block", "{\n    - X:\n        yes\n    - else:\n        no\n}\n"),
    ("switch", "{ X:\n    - 1: one\n    - else: two\n}\n"),
    ("choice text", "* c {X} [d]\n"),
    ("choice only text", "* c [d {X}]\n"),
    ("choice end text", "* c [d] e {X}\n"),
    ("choice condition", "* {X} c\n"),
    ("fallback choice", "* -> over\n- (over) {X}\n"),
    ("choice body", "* c\n    body {X}\n"),
    ("gather", "* c\n- after {X}\n"),
    ("string", "~ t = \"s {X} e\"\n"),
    ("argument", "{same(X)}\n"),
    ("by tunnel argument", "-> tun(X) ->\n"),
    ("divert argument", "-> knot(X)\n"),
    ("thread argument", "<- knot(X)\n"),
    ("return value", "~ give = true\n{giver()}\n"),
    ("in a function", "~ infn()\n"),
    ("in a tunnel", "-> intun ->\n"),
    ("in a thread", "<- inthread\n"),
    ("sequence", "{&{X}|b}\n"),
    ("tag", "text # tag {X}\n"),
    ("logic and", "{true && X}\n"),
    ("comparison", "{1 == X}\n"),
    ("operand", "{1 + X}\n"),
];

fn fault_program(x: &str, place: &str) -> String {
    let with = |s: &str| s.replace('X', x);
    let own = |name: &str, body: &str, other: &str| if place == name { with(body) } else { other.to_string() };
    let (pname, text) = PLACES.iter().find(|p| p.0 == place).copied().unwrap_or(("", ""));
    let mut s = String::from("EXTERNAL outside(a)\nVAR z = 0\nVAR v = 1\nVAR t = \"word\"\nVAR d = -> knot2\nVAR lo = -2147483647\nVAR give = false\nLIST L = l1, l2\n");
    s.push_str(&with(text));
    s.push_str("- the end\n-> DONE\n");
    let _ = pname;
    s.push_str("=== knot(a) ===\nknot {a}\n-> DONE\n=== knot2 ===\nx\n-> DONE\n");
    s.push_str("=== tun(a) ===\ntunnel {a}\n->->\n");
    s.push_str(&format!("=== intun ===\nin tunnel\n{}->->\n", own("in a tunnel", "{X}\n", "")));
    s.push_str(&format!("=== inthread ===\nin thread\n{}-> DONE\n", own("in a thread", "{X}\n", "")));
    s.push_str("=== function same(a) ===\n~ return a\n=== function divide(a, b) ===\n~ return a / b\n");
    s.push_str("=== function ghost() ===\n{ z == 5:\n    ~ temp unset = 1\n}\n~ return unset\n");
    s.push_str(&format!("=== function giver() ===\n{}\n", own("return value", "~ return X", "~ return 1")));
    s.push_str(&format!("=== function infn() ===\n~ v = 2\n{}", own("in a function", "~ v = X\n", "")));
    s
}

fn placed(n: u64, r: &mut Rng, out: &mut Out) {
    let n = n as usize;
    let (fname, x) = FAULTS[n % FAULTS.len()];
    let (place, _) = PLACES[(n / FAULTS.len()) % PLACES.len()];
    let src = fault_program(x, place);
    let js = match guard::guarded(|| corpus::compile(&src)) {
        Ok(Ok(j)) => j,
        e => {
            out.count("no_verdict_compile");
            if std::env::var("VPH_SHOW").is_ok() {
                eprintln!("{fname} / {place}: {e:?}");
            }
            return;
        }
    };
    let p = Prog::from_json(&format!("{fname} in {place}"), &src, &js);
    for handler in [true, false] {
        let slice = r.pct(30);
        let mut verdict = None;
        super::case(50_000, out, |o| {
            o.eval();
            o.count("placed_faults");
            let Ok(mut h) = Host::new(&p, &Opts { handler, bind: false, fallbacks: false, ..Opts::default() }) else { return };
            let mut log = String::new();
            let mut surfaced = false;
            'turns: for _ in 0..4 {
                let mut k = 0;
                while h.story.can_continue() && k < 40 {
                    k += 1;
                    let t = if slice {
                        vp_hooks::set_async_budget(2);
                        let x = lock::tame(|| match h.story.continue_async(1e12) {
                            Ok(()) => "slice".to_string(),
                            Err(e) => format!("error {e}"),
                        });
                        vp_hooks::set_async_budget(u64::MAX);
                        match x {
                            Ok(s) => format!("{s}\n{}", h.take_msgs()),
                            Err(m) => format!("PANIC {m}"),
                        }
                    } else {
                        lock::apply(&mut h, &p, &Op::Cont)
                    };
                    log.push_str(&t);
                    if t.contains("PANIC ") {
                        verdict = Some(("panic", log.clone()));
                        return;
                    }
                    if t.starts_with("error") || t.contains("msg ") || h.story.has_error() || !h.story.get_current_warnings().is_empty() {
                        surfaced = true;
                        break 'turns;
                    }
                }
                if h.n_choices() == 0 || h.story.choose_choice_index(0).is_err() {
                    break;
                }
            }
            if !surfaced {
                verdict = Some(("fault is silent", log.clone()));
                return;
            }
            // an error stops the story; reset plays again as at first
            if h.story.has_error() && h.story.can_continue() {
                verdict = Some(("story continues after an error", log.clone()));
                return;
            }
            if h.story.reset_state().is_err() {
                if !slice {
                    verdict = Some(("reset refused", log.clone()));
                }
                return;
            }
            h.story.vp_set_story_seed(42);
            let Ok(mut f) = Host::new(&p, &Opts { handler, bind: false, fallbacks: false, ..Opts::default() }) else { return };
            let (a, b) = (h.view(&p) + &h.run_turn(20) + &h.view(&p), f.view(&p) + &f.run_turn(20) + &f.view(&p));
            if let Some(d) = diff(&a, &b) {
                verdict = Some(("reset after the fault", d));
            }
        });
        if let Some((w, d)) = verdict {
            out.violation(format!("{w}: {fname} in {place}, handler {handler}, sliced {slice}"), format!("{w}: {fname} in {place}: {d}"), json!({"source": src, "handler": handler, "sliced": slice, "what": d}));
            return;
        }
        out.nontrivial(hash64(&p.name) ^ handler as u64 ^ ((slice as u64) << 1));
    }
}

// ---- operands of every kind ---------------------------------------------------

/// One expression for every kind of value, including what a function leaves that returns nothing.
const KINDS: &[&str] = &["7", "0", "-3", "2.5", "true", "\"word\"", "\"\"", "\"12\"", "(l1, m2)", "l2", "()", "LL", "d", "-> knot2", "nothing()", "ghost()", "LL(99)", "lo", "LIST_ALL(LL)", "LIST_INVERT(LL)", "LIST_MIN(())", "POW(0, -1)", "0.0 / 0.0", "outside(nothing())", "w"];

/// Content with `A`, `B`, `C` for operands.
const FORMS: &[&str] = &[
    "{-(A)}", "{not (A)}", "{FLOOR(A)}", "{CEILING(A)}", "{INT(A)}", "{FLOAT(A)}", "{LIST_COUNT(A)}", "{LIST_MIN(A)}", "{LIST_MAX(A)}", "{LIST_ALL(A)}", "{LIST_INVERT(A)}", "{LIST_VALUE(A)}",
    "{LIST_RANDOM(A)}", "~ SEED_RANDOM(A)", "{LL(A)}", "{READ_COUNT(A)}", "{TURNS_SINCE(A)}",
    "{A + B}", "{A - B}", "{A * B}", "{A / B}", "{A % B}", "{A && B}", "{A || B}", "{A == B}", "{A != B}", "{A < B}", "{A > B}", "{A <= B}", "{A >= B}", "{A ? B}", "{A !? B}", "{A ^ B}",
    "{MIN(A, B)}", "{MAX(A, B)}", "{POW(A, B)}", "{RANDOM(A, B)}", "{LIST_RANGE(A, B, C)}",
    "~ w = A", "~ w = A\n~ w += B\n{w}", "~ w = A\n~ w -= B\n{w}", "~ w = A\n~ w++\n{w}", "~ w = A\n~ w--\n{w}", "~ temp t = A\n~ t += B\n~ t--\n{t}",
    "~ w = A\n-> w", "~ w = A\n-> w ->\nback", "~ w = A\n<- w\nback", "-> tun(A) ->\nback", "-> byvar(A)", "-> leave(A) ->\nback", "~ w = A\n<- thr(w)",
    "{A: yes|no}", "{ A:\n- B: one\n- C: two\n- else: three\n}", "{\n- A: one\n- B: two\n- else: three\n}", "* {A} {B} c {C}\n    d\n* e {A}\n    f\n", "* -> over(A)", "before {A} {B}<> after", "{\"s {A} e {B}\"}", "text # tag {A}",
    "~ w = B\n~ bump(w)\n{w}", "~ w = A\n{same(same(w))} {nothing()}", "{outside(A)}", "~ outside(nothing())", "{A}{nothing()}{B}", "~ nothing()\n{giving(A) + B}", "{&{A}|{B}|{C}}\n{~{A}|{B}}",
    "~ w = A\n{ w == B && w != C: same|other}", "{ LIST_COUNT(A) > LIST_VALUE(B): x}", "~ w = \"{A}\"\n{w + B}", "~ L = A\n{L}\n~ L += B\n{L}\n~ L -= C\n{L}{LIST_ALL(L)}", "~ LL = A\n~ LL++\n{LL}",
];

fn operands(n: u64, r: &mut Rng, out: &mut Out) {
    let form = FORMS[n as usize % FORMS.len()];
    for _ in 0..10 {
        let ops = [*r.pick(KINDS), *r.pick(KINDS), *r.pick(KINDS)];
        // only single capital letters that stand alone are operands
        let b = form.as_bytes();
        let lone = |i: usize| {
            let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
            matches!(b[i], b'A'..=b'C') && (i == 0 || !w(b[i - 1])) && (i + 1 == b.len() || !w(b[i + 1]))
        };
        let mut text = String::new();
        for (i, c) in form.char_indices() {
            if c.is_ascii() && lone(i) { text.push_str(ops[(b[i] - b'A') as usize]) } else { text.push(c) }
        }
        let src = format!(
            "EXTERNAL outside(a)\nVAR w = 1\nVAR d = -> knot2\nVAR lo = -2147483647\nVAR z = 0\nLIST LL = l1, (l2), l3 = 7\nLIST M = (m1), m2\nLIST L = x1\nFine.\n-> DONE\n=== place\n{text}\n- -> DONE\n=== over(a)\nover {{a}}\n-> DONE\n=== knot2\nx\n-> DONE\n=== tun(a)\ntunnel {{a}}\n->->\n=== leave(-> a)\n->-> a\n=== byvar(-> a)\n-> a\n=== thr(a)\nthread {{a}}\n* in thread {{a}}\n-> DONE\n- -> DONE\n=== function same(a)\n~ return a\n=== function giving(a)\ntext\n~ return a\n=== function bump(ref a)\n~ a++\n~ a += 2\n=== function nothing()\n~ z++\n=== function ghost()\n{{ z == -5:\n    ~ temp unset = 1\n}}\n~ return unset\n=== function outside(a)\n~ return a\n"
        );
        let js = match guard::guarded(|| corpus::compile(&src)) {
            Ok(Ok(j)) => j,
            e => {
                out.count("operands_not_compiled");
                if std::env::var("VPH_SHOW").is_ok() {
                    eprintln!("{text:?}: {e:?}");
                }
                continue;
            }
        };
        let p = Prog::from_json("operands", &src, &js);
        let (handler, bind) = (r.pct(50), r.pct(50));
        let mut verdict = None;
        super::case(20_000, out, |o| {
            o.eval();
            o.count("operand_forms");
            let Ok(mut h) = Host::new(&p, &Opts { handler, bind, fallbacks: true, ..Opts::default() }) else { return };
            let mut log = String::new();
            let jump = lock::tame(|| h.story.choose_path_string("place", true, None).is_ok());
            if jump != Ok(true) {
                verdict = Some(("jump refused or panicked", format!("{jump:?}")));
                return;
            }
            for _ in 0..3 {
                let mut k = 0;
                while h.story.can_continue() && k < 12 {
                    k += 1;
                    let t = lock::apply(&mut h, &p, &Op::Cont);
                    log.push_str(&t);
                    if t.contains("PANIC ") {
                        verdict = Some(("panic", log.clone()));
                        return;
                    }
                    if t.starts_with("error") || t.contains("msg ") {
                        o.count("operands_refused");
                    }
                }
                let saved = lock::tame(|| h.story.save_state().is_ok());
                if saved != Ok(true) {
                    verdict = Some(("saving", format!("{saved:?} after {log}")));
                    return;
                }
                if h.story.has_error() && h.story.can_continue() {
                    verdict = Some(("story continues after an error", log.clone()));
                    return;
                }
                if h.n_choices() == 0 || h.story.choose_choice_index(0).is_err() {
                    break;
                }
            }
            let again = lock::tame(|| {
                h.story.reset_state().map_err(|e| e.to_string())?;
                h.story.cont().map_err(|e| e.to_string())
            });
            if again != Ok(Ok("Fine.\n".to_string())) {
                verdict = Some(("reset after the operands", format!("{again:?} after {log}")));
            }
            o.nontrivial(hash64(&format!("{text}{log}")));
        });
        if let Some((w, d)) = verdict {
            out.violation(format!("{w}: operands {text:?}"), format!("{w}: {text:?}: {d}"), json!({"source": src, "handler": handler, "what": d}));
            return;
        }
    }
}

// ---- integer arithmetic -------------------------------------------------------

const EDGE: &[i32] = &[0, 1, -1, 2, -2, 3, 7, -7, 10, 46340, 46341, -46341, 65535, 65536, -65536, 1 << 30, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 715827883, 1431655766];

fn arith_program() -> &'static str {
    "VAR a = 0\nVAR b = 0\nVAR c = 0\n-> k\n=== k ===\n{a + b},{a - b},{a * b},{-a},{- -b}\n~ c = a + b\n{c}\n~ c = a\n~ c += b\n{c}\n~ c = a\n~ c -= b\n{c}\n~ c = a\n~ c++\n{c}\n~ c = a\n~ c--\n{c}\n{sum(a, b)},{a + b - a * b},{(a + b) * (a - b)}\n{a == b},{a < b},{a + 1 > a}\n~ temp t = a * b\n~ t += a\n{t}\n-> DONE\n=== q ===\n{a / b},{a % b},{a mod b}\n-> DONE\n=== function sum(x, y) ===\n~ x += y\n~ return x\n"
}

fn arith(r: &mut Rng, js: &str, out: &mut Out) {
    let pick = |r: &mut Rng| if r.pct(70) { *r.pick(EDGE) } else { r.next() as i32 };
    let (a, b) = (pick(r), pick(r));
    let bo = |x: bool| if x { "true" } else { "false" };
    let (s, d, m) = (a.wrapping_add(b), a.wrapping_sub(b), a.wrapping_mul(b));
    let want = format!(
        "{s},{d},{m},{},{b}\n{s}\n{s}\n{d}\n{}\n{}\n{s},{},{}\n{},{},{}\n{}\n",
        a.wrapping_neg(),
        a.wrapping_add(1),
        a.wrapping_sub(1),
        s.wrapping_sub(m),
        s.wrapping_mul(d),
        bo(a == b),
        bo(a < b),
        bo(a.wrapping_add(1) > a),
        m.wrapping_add(a)
    );
    out.eval();
    out.count("arithmetic");
    let fail = |w: &str, got: String, out: &mut Out| {
        out.violation(format!("{w}: a={a} b={b}"), format!("{w}: a={a} b={b}: got {got:?}, wanted {want:?}"), json!({"a": a, "b": b, "got": got, "wanted": want, "source": arith_program()}));
    };
    let p = Prog { name: "arithmetic".into(), json: js.into(), ..Default::default() };
    let Ok(mut h) = Host::new(&p, &Opts { handler: false, ..Opts::default() }) else { return };
    let got = lock::tame(|| -> Result<String, String> {
        let e = |e: bladeink::story_error::StoryError| e.to_string();
        h.story.set_variable("a", &ValueType::Int(a)).map_err(e)?;
        h.story.set_variable("b", &ValueType::Int(b)).map_err(e)?;
        h.story.continue_maximally().map_err(e)
    });
    match got {
        Ok(Ok(g)) if g == want => {}
        Ok(x) => return fail("integer arithmetic", format!("{x:?}"), out),
        Err(m) => return fail("panic", m, out),
    }
    // evaluate_function
    let mut t = String::new();
    let v = lock::tame(|| h.story.evaluate_function("sum", Some(&vec![ValueType::Int(a), ValueType::Int(b)]), &mut t).map_err(|e| e.to_string()));
    match v {
        Ok(Ok(Some(ValueType::Int(x)))) if x == s => {}
        x => return fail("function result", format!("{:?}", x.map(|y| y.map(show_opt))), out),
    }
    // division and modulo
    let got = lock::tame(|| {
        h.story.choose_path_string("k", true, None).ok();
        let _ = h.story.choose_path_string("q", true, None);
        h.story.continue_maximally().map_err(|e| e.to_string())
    });
    match got {
        Err(m) => fail("panic", m, out),
        Ok(Ok(g)) => {
            if b == 0 {
                return fail("division by zero gives a value", g, out);
            }
            if !(a == i32::MIN && b == -1) {
                let w = format!("{},{},{}\n", a / b, a % b, a % b);
                if g != w {
                    fail("integer division", format!("{g:?} instead of {w:?}"), out);
                }
            }
        }
        Ok(Err(e)) => {
            if b != 0 && !(a == i32::MIN && b == -1) {
                fail("division refused", e, out);
            }
        }
    }
    out.nontrivial(hash64(&format!("{a} {b}")));
}

impl Check for C04 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C04", self.cfg.seed, n);
        match n % 4 {
            3 => operands(n / 4, &mut r, out),
            0 => placed(n / 4, &mut r, out),
            1 => {
                let Ok(Ok(js)) = guard::guarded(|| corpus::compile(arith_program())) else {
                    out.count("no_verdict_compile");
                    return;
                };
                for _ in 0..20 {
                    super::case(100_000, out, |o| arith(&mut r, &js, o));
                }
            }
            _ => self.hostile(n / 4, &mut r, out),
        }
    }
    fn serve(&mut self, q: &Value) -> Value {
        let p = Prog::from_json(q["name"].as_str().unwrap_or(""), q["src"].as_str().unwrap_or(""), q["json"].as_str().unwrap_or(""));
        let (n, seed, len) = (q["n"].as_u64().unwrap_or(0), self.cfg.seed, q["len"].as_u64().unwrap_or(1) as usize);
        match guard::fueled(200_000, || run(&p, seed, n, len)) {
            Ok(v) => json!({"run": v}),
            Err(guard::Caught::Fuel) => json!({"fuel": true}),
            Err(guard::Caught::Panic(m)) => json!({"run": [format!("PANIC {m}")]}),
        }
    }
}
