//! C17: reset equals fresh construction; a path jump with a call-stack reset keeps variables and counts only.
use crate::checks::c02::merge;
use crate::r#gen::Feat;
use crate::guard;
use crate::host::{Host, Opts, Prog, canon, diff, save_diff};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use serde_json::{Value, json};

pub fn def() -> Def {
    Def {
        id: "C17",
        rule: "a history (possibly ended by an error or mid-turn) followed by a reset (or a path jump with call-stack reset) and then played in lockstep with a fresh (or stripped) story; distinct by program and history",
        assumptions: &["the story seed is set to the same value in both stories (a reset draws a new one)", "the stripped story of the path-jump rule is built through load_state, which C02 checks"],
        make: |c| Box::new(C17 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C17 {
    cfg: Cfg,
    pool: Pool,
}

impl Check for C17 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C17", self.cfg.seed, n);
        let mut f = Feat::rich();
        if r.pct(40) {
            f.faults = 15;
        }
        f.externals = r.pct(40);
        let Some((p, _)) = self.pool.pick(n, &mut r, f, out) else { return };
        for round in 0..6 {
            let mut rr = r.fork();
            let mut o2 = Out::default();
            let res = guard::fueled(300_000, || if round % 3 == 2 { jump(&p, &mut rr, &mut o2) } else { reset(&p, &mut rr, &mut o2) });
            match res {
                Ok(()) => {}
                Err(guard::Caught::Fuel) => out.count("no_verdict_fuel"),
                Err(guard::Caught::Panic(m)) => { eprintln!("escaped panic {m}"); out.count("escaped_panic") }
            }
            merge(out, o2);
        }
    }
}

fn save(h: &Host) -> String {
    match lock::tame(|| h.story.save_state()) {
        Ok(Ok(s)) => canon(&s),
        Ok(Err(e)) => format!("{{\"save error\": {:?}}}", e.to_string()),
        Err(m) => format!("{{\"save panic\": {m:?}}}"),
    }
}

fn reset(p: &Prog, r: &mut Rng, out: &mut Out) {
    let o = Opts { handler: r.pct(60), observe: true, fallbacks: true, ..Opts::default() };
    let Ok(mut a) = Host::new(p, &o) else { return };
    let mut mix = Mix { reload: 2, eval: 2, flow: 4, path: 4, set: 4, ..Mix::play() };
    if r.pct(20) {
        mix.reset = 4;
    }
    let k = r.below(12);
    let (ops, seen) = lock::history(r, &mut a, p, &mix, k);
    let hist = lock::render(&ops);
    let panicked = seen.last().map(|s| s.contains("PANIC ")).unwrap_or(false);
    if panicked {
        out.count("history_panicked");
        return;
    }
    // leave a time-limited continue finished or not started: reset is refused in between
    let had_error = a.story.has_error();
    let e = lock::apply(&mut a, p, &Op::Reset);
    let Ok(mut b) = Host::new(p, &o) else { return };
    out.eval();
    let sig = |w: &str| format!("{w}: {} after [{hist}]", p.name);
    let det = |d: &str, cont: &str| json!({"program": p.name, "source": p.src, "history": hist, "continuation": cont, "what": d});
    if !e.starts_with("Ok(())") {
        out.violation(sig("reset refused"), format!("reset_state failed: {e}"), det(&e, ""));
        return;
    }
    a.story.vp_set_story_seed(42);
    a.obs.borrow_mut().clear();
    a.calls.borrow_mut().clear();
    *a.lines.borrow_mut() = 0;
    if let Some(d) = diff(&a.view(p), &b.view(p)) {
        out.violation(sig("reset view"), format!("after reset the story shows something else than a fresh one: {d}"), det(&d, ""));
        return;
    }
    if let Some(d) = save_diff(&save(&a), &save(&b)) {
        out.violation(sig("reset state"), format!("after reset the saved state differs from a fresh one: {d}"), det(&d, ""));
        return;
    }
    let mut cont = vec![];
    let m2 = if r.pct(50) { Mix::play() } else { Mix::rich() };
    for _ in 0..14 {
        let Some(op) = lock::random_op(r, &mut b, p, &m2) else { break };
        cont.push(op.clone());
        let x = lock::step(&mut a, p, &op);
        let y = lock::step(&mut b, p, &op);
        out.count("lockstep_ops");
        if let Some(d) = diff(&x, &y) {
            out.violation(sig("reset play"), format!("reset story (left) and fresh story (right) differ after {}: {d}", lock::render(&cont)), det(&d, &lock::render(&cont)));
            return;
        }
        if y.contains("PANIC ") {
            return;
        }
        let (oa, ob) = (a.obs.borrow().join("\n"), b.obs.borrow().join("\n"));
        if let Some(d) = diff(&sorted(&oa), &sorted(&ob)) {
            out.violation(sig("reset observers"), format!("observer notifications differ after reset: {d}"), det(&d, &lock::render(&cont)));
            return;
        }
        let (ca, cb) = (a.calls.borrow().join("\n"), b.calls.borrow().join("\n"));
        if let Some(d) = diff(&ca, &cb) {
            out.violation(sig("reset externals"), format!("external calls differ after reset: {d}"), det(&d, &lock::render(&cont)));
            return;
        }
    }
    if let Some(d) = save_diff(&save(&a), &save(&b)) {
        out.violation(sig("reset later state"), format!("states differ after the same play: {d}"), det(&d, &lock::render(&cont)));
        return;
    }
    if !ops.is_empty() {
        out.nontrivial(hash64(&p.json) ^ hash64(&hist));
    }
    out.count(if had_error { "resets_after_error" } else { "resets" });
    if ops.iter().any(|o| matches!(o, Op::Flow(_))) {
        out.count("resets_with_flows");
    }
    out.sample(json!({"program": p.name, "source": p.src, "history": hist, "continuation": lock::render(&cont)}));
}

fn sorted(s: &str) -> String {
    let mut v: Vec<&str> = s.lines().collect();
    v.sort();
    v.join("\n")
}

fn jump(p: &Prog, r: &mut Rng, out: &mut Out) {
    let ts = lock::targets(p);
    if ts.is_empty() {
        return;
    }
    let o = Opts::default();
    let Ok(mut a) = Host::new(p, &o) else { return };
    let k = r.below(12);
    let (ops, seen) = lock::history(r, &mut a, p, &Mix { set: 4, ..Mix::play() }, k);
    let hist = lock::render(&ops);
    if seen.last().map(|s| s.contains("PANIC ")).unwrap_or(false) {
        return;
    }
    // between lines only a complete line may be pending; the jump itself is legal anywhere
    let Ok(before) = a.story.save_state() else { return };
    let target = r.pick(&ts).clone();
    // the stripped story: same variables and counts, a fresh call stack
    let Ok(mut b) = Host::new(p, &o) else { return };
    let fresh = match b.story.save_state() {
        Ok(s) => s,
        Err(_) => return,
    };
    let (mut v, f): (Value, Value) = match (serde_json::from_str(&before), serde_json::from_str(&fresh)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return,
    };
    v["flows"] = f["flows"].clone();
    v["evalStack"] = json!([]);
    if let Some(o) = v.as_object_mut() {
        o.remove("currentDivertTarget");
    }
    if b.story.load_state(&v.to_string()).is_err() {
        out.count("stripped_load_refused");
        return;
    }
    out.eval();
    let op = Op::Path(target.clone(), true);
    let vars_before = a.vars(p);
    let x = lock::apply(&mut a, p, &op);
    let y = lock::apply(&mut b, p, &op);
    let sig = |w: &str| format!("{w}: {} after [{hist}] to {target}", p.name);
    let det = |d: &str, c: &str| json!({"program": p.name, "source": p.src, "history": hist, "target": target, "continuation": c, "what": d});
    if let Some(d) = diff(&x, &y) {
        out.violation(sig("jump result"), format!("jump differs: {d}"), det(&d, ""));
        return;
    }
    if !x.starts_with("Ok") {
        return;
    }
    // variables unchanged
    let strip = |s: &str| s.lines().filter(|l| l.starts_with("var ")).collect::<Vec<_>>().join("\n");
    if let Some(d) = diff(&strip(&vars_before), &strip(&a.vars(p))) {
        out.violation(sig("jump variables"), format!("the jump changed a variable: {d}"), det(&d, ""));
        return;
    }
    // the call stack of the flow is one thread with one frame
    if let Ok(s) = a.story.save_state() {
        let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
        let name = v["currentFlowName"].as_str().unwrap_or("").to_string();
        let th = &v["flows"][&name]["callstack"]["threads"];
        let frames: usize = th.as_array().map(|t| t.iter().map(|x| x["callstack"].as_array().map(|c| c.len()).unwrap_or(0)).sum()).unwrap_or(0);
        if th.as_array().map(|t| t.len()) != Some(1) || frames != 1 {
            out.violation(sig("jump call stack"), format!("after the jump the call stack still holds {frames} frames"), det(&s, ""));
            return;
        }
        // ... with the temporaries and the position the same jump gives without any history
        let w: Value = b.story.save_state().ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
        let wname = w["currentFlowName"].as_str().unwrap_or("").to_string();
        let (ca, cb) = (canon(&th[0]["callstack"].to_string()), canon(&w["flows"][&wname]["callstack"]["threads"][0]["callstack"].to_string()));
        out.count("call_stacks_compared");
        if let Some(d) = diff(&ca, &cb) {
            out.violation(sig("jump frame"), format!("after the jump (left) the call stack differs from that of a story without history (right): {d}"), det(&d, ""));
            return;
        }
        if v["flows"][&name]["currentChoices"].as_array().map(|c| !c.is_empty()).unwrap_or(false) {
            out.violation(sig("jump choices"), "choices survive the jump", det(&s, ""));
            return;
        }
    }
    let mut cont = vec![op];
    for _ in 0..12 {
        let Some(op) = lock::random_op(r, &mut b, p, &Mix::play()) else { break };
        cont.push(op.clone());
        let x = lock::step(&mut a, p, &op);
        let y = lock::step(&mut b, p, &op);
        out.count("lockstep_ops");
        if let Some(d) = diff(&x, &y) {
            out.violation(sig("jump play"), format!("after the jump (left) the story differs from one with the same variables and no call stack (right): {d}"), det(&d, &lock::render(&cont)));
            return;
        }
        if y.contains("PANIC ") {
            return;
        }
    }
    out.count("jumps");
    out.nontrivial(hash64(&p.json) ^ hash64(&hist) ^ hash64(&target));
}
