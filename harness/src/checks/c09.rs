//! C09: refused host calls change nothing.
use crate::r#gen::Feat;
use crate::host::{Ext, Host, Obs, Opts, Prog, canon, diff, save_diff};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::value_type::ValueType;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub fn def() -> Def {
    Def {
        id: "C09",
        rule: "one history played as is and again with refused calls inserted at random points: each refused call returned an error, left the save and view as they were, and every later step equal; distinct by program, history and inserted calls",
        assumptions: &["saves are compared as JSON values"],
        make: |c| Box::new(C09 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C09 {
    cfg: Cfg,
    pool: Pool,
}

#[derive(Clone, Debug)]
enum Bad {
    Cont,
    ContAsync,
    Choose(usize),
    SetUndeclared(String),
    SetBadValue(String),
    ObserveUndeclared(String),
    EvalUnknown(String),
    EvalTooMany(String, usize),
    JumpUnknown(String, bool),
    JumpBadArg(String),
    RemoveFlow(String),
    RemoveObserver(Option<String>),
    BindTwice(String),
    Unbind(String),
    LoadGarbage(String),
    TagsUnknown(String),
}

fn bad_path(r: &mut Rng, p: &Prog) -> String {
    let base = if p.paths.is_empty() { "k".to_string() } else { r.pick(&p.paths).clone() };
    match r.below(9) {
        0 => "no_such_knot".into(),
        1 => format!("{base}.no_such_stitch"),
        2 => format!("{base}.99999"),
        3 => format!("{base}.0.0.0.0.0.0.0.0.0.7"),
        4 => format!(".{base}x"),
        5 => "".into(),
        6 => format!("{base}.c-987"),
        7 => ".^.^.^.^.^.^.^.^.^".into(),
        _ => format!("{base}."),
    }
}

fn gen_bad(r: &mut Rng, h: &Host, p: &Prog, save: &str) -> Bad {
    let n = h.n_choices();
    let name = r.pick(&["nope", "", "x y", "DEFAULT_FLOW", "é"]).to_string();
    match r.below(17) {
        0 if !h.story.can_continue() => Bad::Cont,
        1 if !h.story.can_continue() => Bad::ContAsync,
        0 | 1 | 2 => Bad::Choose(*r.pick(&[n, n + 1, n + 17, usize::MAX])),
        3 => Bad::SetUndeclared(name),
        4 => Bad::ObserveUndeclared(name),
        5 => Bad::EvalUnknown(r.pick(&["nope", "", "  ", "nope.deep", "0"]).to_string()),
        6 => match p.functions.is_empty() {
            true => Bad::EvalUnknown("nope".into()),
            false => {
                let f = r.pick(&p.functions).clone();
                Bad::EvalTooMany(f.0, f.1)
            }
        },
        7 | 8 => Bad::JumpUnknown(bad_path(r, p), r.pct(50)),
        9 => match lock::targets(p).first() {
            Some(t) => Bad::JumpBadArg(t.clone()),
            None => Bad::JumpUnknown("nope".into(), true),
        },
        10 => Bad::RemoveFlow(r.pick(&["not there", "", "DEFAULT_FLOW", "flowZ"]).to_string()),
        11 => Bad::RemoveObserver(match r.below(3) {
            0 => None,
            1 => p.globals.first().cloned(),
            _ => Some("nope".into()),
        }),
        12 if !p.externals.is_empty() => Bad::BindTwice(r.pick(&p.externals).0.clone()),
        12 | 13 => Bad::Unbind("nope".into()),
        14 => {
            let cut = save.char_indices().map(|x| x.0).nth(r.below(save.chars().count().max(1))).unwrap_or(0);
            Bad::LoadGarbage(match r.below(8) {
                5 => save.replacen("\"threads\":[", "\"threads\":7,\"x\":[", 1),
                6 => save.replacen("\"variablesState\":{", "\"variablesState\":[],\"x\":{", 1),
                7 => save.replace("\"turnIdx\":", "\"turnIdx\":\"many\",\"x\":"),
                0 => String::new(),
                1 => "{}".into(),
                2 => save[..cut].to_string(),
                3 => save.replace("\"inkSaveVersion\":", "\"inkSaveVersions\":"),
                _ => save.replacen("\"cPath\":\"", "\"cPath\":\"nowhere.", 1),
            })
        }
        15 | 16 => Bad::TagsUnknown("no_such_knot.x".into()),
        _ => Bad::SetBadValue(name),
    }
}

/// Some(text) = accepted.
fn attempt(h: &mut Host, p: &Prog, b: &Bad) -> Option<String> {
    let ob: Rc<RefCell<dyn bladeink::story::variable_observer::VariableObserver>> =
        Rc::new(RefCell::new(Obs { tag: "stranger".into(), log: h.obs.clone() }));
    let ext = || Rc::new(RefCell::new(Ext { log: h.calls.clone(), lines: h.lines.clone(), slow: h.slow.clone() }));
    let _ = p;
    match b {
        Bad::Cont => h.story.cont().ok(),
        Bad::ContAsync => h.story.continue_async(5.0).ok().map(|_| "ok".into()),
        Bad::Choose(i) => h.story.choose_choice_index(*i).ok().map(|_| "ok".into()),
        Bad::SetUndeclared(n) | Bad::SetBadValue(n) => h.story.set_variable(n, &ValueType::Int(1)).ok().map(|_| "ok".into()),
        Bad::ObserveUndeclared(n) => h.story.observe_variable(n, ob).ok().map(|_| "ok".into()),
        Bad::EvalUnknown(n) => {
            let mut t = String::new();
            h.story.evaluate_function(n, None, &mut t).ok().map(|v| format!("{:?}", v.is_some()))
        }
        Bad::EvalTooMany(f, n) => {
            // an argument no function accepts
            let a: Vec<ValueType> = (0..*n + 1).map(|_| pointer_like()).collect();
            let mut t = String::new();
            let _ = f;
            h.story.evaluate_function(f, Some(&a), &mut t).ok().map(|v| format!("{:?}", v.is_some()))
        }
        Bad::JumpUnknown(s, reset) => h.story.choose_path_string(s, *reset, None).ok().map(|_| "ok".into()),
        Bad::JumpBadArg(s) => {
            let a = vec![pointer_like()];
            h.story.choose_path_string(s, true, Some(&a)).ok().map(|_| "ok".into())
        }
        Bad::RemoveFlow(n) => h.story.remove_flow(n).ok().map(|_| "ok".into()),
        Bad::RemoveObserver(n) => h.story.remove_variable_observer(&ob, n.as_deref()).ok().map(|_| "ok".into()),
        Bad::BindTwice(n) => {
            let e = ext();
            h.story.bind_external_function(n, e, false).ok().map(|_| "ok".into())
        }
        Bad::Unbind(n) => h.story.unbind_external_function(n).ok().map(|_| "ok".into()),
        Bad::LoadGarbage(s) => h.story.load_state(s).ok().map(|_| "ok".into()),
        Bad::TagsUnknown(n) => h.story.tags_for_content_at_path(n).ok().map(|v| format!("{v:?}")),
    }
}

/// A value the API documents as not allowed as an argument.
fn pointer_like() -> ValueType {
    let js = crate::corpus::compile("VAR d = -> k\n-> k\n== k\nx\n-> END\n").unwrap_or_default();
    bladeink::story::Story::new(&js).ok().and_then(|s| s.get_variable("d")).unwrap_or(ValueType::Int(0))
}

impl Check for C09 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C09", self.cfg.seed, n);
        let base = Feat { externals: r.pct(40), faults: if r.pct(25) { 3 } else { 0 }, ..Feat::rich() };
        let Some((p, _)) = self.pool.pick(n, &mut r, base, out) else { return };
        let len = if self.cfg.thorough() { 24 } else { 12 };
        for _ in 0..3 {
            let mut rr = r.fork();
            super::case(400_000, out, |o| one(&p, &mut rr, len, o));
        }
    }
}

fn one(p: &Prog, r: &mut Rng, len: usize, out: &mut Out) {
    let o = Opts { observe: true, handler: r.pct(60), ..Opts::default() };
    let Ok(mut a) = Host::new(p, &o) else { return };
    let mix = Mix { reload: 1, eval: 2, reset: 1, ..Mix::rich() };
    let mut ops: Vec<Op> = vec![];
    let mut seen = vec![];
    for _ in 0..len {
        let Some(op) = lock::random_op(r, &mut a, p, &mix) else { break };
        let t = lock::step(&mut a, p, &op);
        if t.contains("PANIC ") {
            out.count("original_panicked");
            return;
        }
        ops.push(op);
        let save = a.story.save_state().map(|s| canon(&s)).unwrap_or_default();
        seen.push((format!("{t}{}", logs(&a)), save));
    }
    let Ok(mut b) = Host::new(p, &o) else { return };
    let mut script = vec![];
    for i in 0..=ops.len() {
        for _ in 0..r.below(4) {
            let Ok(Ok(before)) = lock::tame(|| b.story.save_state()) else { return };
            let view = b.view(p);
            let errs = (b.story.get_current_errors().to_vec(), b.story.get_current_warnings().to_vec());
            let bad = gen_bad(r, &b, p, &before);
            script.push(format!("{i}: {bad:?}"));
            out.eval();
            out.count(&format!("refused_{}", format!("{bad:?}").split(['(', ' ']).next().unwrap_or("")));
            let fail = |what: &str, d: String, out: &mut Out| {
                out.violation(format!("{what}: {bad:?} in {}", p.name), format!("{what}: {bad:?}: {d}"), json!({"program": p.name, "source": p.src, "history": lock::render(&ops[..i]), "call": format!("{bad:?}"), "what": d, "handler": o.handler}));
            };
            match lock::tame(|| attempt(&mut b, p, &bad)) {
                Err(m) => return fail("refused call panics", m, out),
                Ok(Some(t)) => {
                    if matches!(bad, Bad::TagsUnknown(_) | Bad::JumpUnknown(..) | Bad::LoadGarbage(_)) && tolerated(&bad, p) {
                        out.count("accepted_as_valid");
                        return;
                    }
                    return fail("bad call accepted", t, out);
                }
                Ok(None) => {}
            }
            match lock::tame(|| b.story.save_state()) {
                Ok(Ok(after)) => {
                    if let Some(d) = save_diff(&canon(&before), &canon(&after)) {
                        return fail("refused call changes the save", d, out);
                    }
                }
                Ok(Err(e)) => return fail("save fails after refused call", e.to_string(), out),
                Err(m) => return fail("save panics after refused call", m, out),
            }
            match lock::tame(|| b.view(p)) {
                Ok(v) => {
                    if let Some(d) = diff(&view, &v) {
                        return fail("refused call changes what is shown", d, out);
                    }
                }
                Err(m) => return fail("panic after refused call", m, out),
            }
            let errs2 = (b.story.get_current_errors().to_vec(), b.story.get_current_warnings().to_vec());
            if errs != errs2 {
                return fail("refused call changes the error lists", format!("{errs:?} vs {errs2:?}"), out);
            }
            let l = format!("{}{}", b.take_msgs(), logs(&b));
            if !l.is_empty() {
                return fail("refused call notifies", l, out);
            }
        }
        if i == ops.len() {
            break;
        }
        let t = format!("{}{}", lock::step(&mut b, p, &ops[i]), logs(&b));
        let save = lock::tame(|| b.story.save_state().map(|s| canon(&s)).unwrap_or_default()).unwrap_or_default();
        let d = diff(&seen[i].0, &t).or_else(|| save_diff(&seen[i].1, &save));
        if let Some(d) = d {
            let hist = lock::render(&ops);
            out.violation(format!("play differs after refused calls: {} [{hist}] {script:?}", p.name), format!("op {i} after refused calls {script:?}: {d}"), json!({"program": p.name, "source": p.src, "history": hist, "refused": script, "what": d, "handler": o.handler}));
            return;
        }
    }
    out.nontrivial(hash64(&p.json) ^ hash64(&lock::render(&ops)) ^ hash64(&format!("{script:?}")));
    out.sample(json!({"program": p.name, "source": p.src, "history": lock::render(&ops), "refused": script}));
}

/// A generated "bad" argument can be valid after all; decided from the documents, not the engine.
fn tolerated(b: &Bad, p: &Prog) -> bool {
    match b {
        Bad::JumpUnknown(s, _) | Bad::TagsUnknown(s) => {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(p.json.trim_start_matches('\u{feff}')) else { return true };
            match crate::paths::Doc::new(&v) {
                Ok(mut d) => d.lookup(s).is_some(),
                Err(_) => true,
            }
        }
        // a prefix of a save is never a save, but replacing a key that is not there changes nothing
        // and an unknown position may be approximated: which saves are bad is another property's question
        Bad::LoadGarbage(s) => serde_json::from_str::<serde_json::Value>(s).map(|v| v["inkSaveVersion"].is_number()).unwrap_or(false),
        _ => false,
    }
}

fn logs(h: &Host) -> String {
    let mut s = String::new();
    let mut obs: Vec<String> = h.obs.borrow_mut().drain(..).collect();
    obs.sort();
    for o in obs {
        s.push_str(&format!("obs {o}\n"));
    }
    for c in h.calls.borrow_mut().drain(..) {
        s.push_str(&format!("{c}\n"));
    }
    s
}
