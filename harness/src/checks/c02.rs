//! C02: a restored story is indistinguishable from the original.
use crate::r#gen::Feat;
use crate::guard;
use crate::host::{Host, Opts, Prog, canon, detail, diff, save_diff};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use serde_json::json;

pub fn def() -> Def {
    Def {
        id: "C02",
        rule: "a history point at which a save was taken, restored into a fresh story, and both were played on in lockstep; distinct by program text and save text",
        assumptions: &[
            "saves are compared as JSON values (object key order ignored)",
            "the generator and the corpus decide which programs and states are reached",
        ],
        make: |c| Box::new(C02 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C02 {
    cfg: Cfg,
    pool: Pool,
}

fn opts(seed: i32) -> Opts {
    Opts { seed, ..Opts::default() }
}

impl Check for C02 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C02", self.cfg.seed, n);
        let Some((p, _)) = self.pool.pick(n, &mut r, Feat::rich(), out) else { return };
        let max = if self.cfg.thorough() { 24 } else { 14 };
        for round in 0..3 {
            let mut rr = r.fork();
            let mut o2 = Out::default();
            match guard::fueled(400_000, || one(&p, &mut rr, max, round, &mut o2)) {
                Ok(()) => {}
                Err(guard::Caught::Fuel) => out.count("no_verdict_fuel"),
                Err(guard::Caught::Panic(m)) => { eprintln!("escaped panic {m}"); out.count("escaped_panic") }
            }
            merge(out, o2);
        }
    }
}

pub fn merge(out: &mut Out, o: Out) {
    out.evals += o.evals;
    out.nontrivial.extend(o.nontrivial);
    for (k, v) in o.counters {
        out.add(&k, v);
    }
    for v in o.violations {
        if out.violations.len() < 8 {
            out.violations.push(v);
        }
    }
    if let Some(s) = o.sample {
        out.sample(s);
    }
}

fn one(p: &Prog, r: &mut Rng, max: usize, round: u64, out: &mut Out) {
    let Ok(mut a) = Host::new(p, &opts(42)) else { return };
    let mut mix = if round == 0 { Mix::play() } else { Mix { reload: if round == 2 { 3 } else { 0 }, eval: 2, ..Mix::rich() } };
    // some histories stop at every line, for long turns
    if r.pct(40) {
        mix.max = 0;
    }
    let len = 4 + r.below(max);
    // the original saves at every boundary
    let mut ops: Vec<Op> = vec![];
    let mut seen = vec![a.view(p)];
    let mut saves = vec![lock::tame(|| a.story.save_state()).map_err(|e| format!("PANIC {e}")).and_then(|x| x.map_err(|e| e.to_string()))];
    let mut paths = vec![a.story.get_current_path()];
    // the history, and at its end mostly what is left of the turn and one of the choices it offers
    let tail = if r.pct(70) { 3 } else { 0 };
    for step in 0..len + tail {
        let op = match step.checked_sub(len) {
            None => lock::random_op(r, &mut a, p, &mix),
            Some(1) => match a.n_choices() {
                0 => None,
                n => Some(Op::Choose(r.below(n))),
            },
            Some(_) if a.story.can_continue() => Some(Op::Max),
            Some(_) => continue,
        };
        let Some(op) = op else { break };
        let t = lock::step(&mut a, p, &op);
        if t.contains("PANIC ") {
            out.count("original_panicked");
            break;
        }
        ops.push(op);
        seen.push(t);
        paths.push(a.story.get_current_path());
        saves.push(lock::tame(|| a.story.save_state()).map_err(|e| format!("PANIC {e}")).and_then(|x| x.map_err(|e| e.to_string())));
    }
    let hist = lock::render(&ops);
    // an original that never saves shows the same
    {
        let Ok(mut b) = Host::new(p, &opts(42)) else { return };
        for (i, op) in ops.iter().enumerate() {
            let t = lock::step(&mut b, p, op);
            if let Some(d) = diff(&seen[i + 1], &t) {
                out.violation(format!("saving changes play: {}", p.name), format!("saving changed what the story does after op {i}: {d}"), detail(p, &hist, &d));
                return;
            }
        }
    }
    for i in 0..saves.len() {
        out.eval();
        out.count("save_points");
        let s = match &saves[i] {
            Ok(s) => s,
            Err(e) => {
                out.violation(format!("save fails: {} {e}", p.name), format!("save_state after op {i} failed: {e}"), detail(p, &hist, e));
                continue;
            }
        };
        match restored(p, r, s, i, &ops, &seen, &paths, &saves, out) {
            Ok(()) => {}
            Err((what, d)) => {
                out.violation(
                    format!("{what}: {} save {i} of [{hist}]", p.name),
                    format!("{what} (save point {i}): {d}"),
                    json!({"program": p.name, "source": p.src, "history": hist, "save_point": i, "what": d, "save": s}),
                );
                continue;
            }
        }
        if s.contains("currentChoices\":[{") {
            out.count("saves_with_choices");
        }
        if s.contains("choiceThreads") {
            out.count("saves_with_choice_threads");
        }
        if s.contains("\"type\":1") {
            out.count("saves_inside_function");
        }
        if s.matches("\"cPath\"").count() > 1 {
            out.count("saves_with_several_frames");
        }
        out.nontrivial(hash64(&p.json) ^ hash64(s));
        out.sample(json!({"program": p.name, "source": p.src, "history": hist, "save_point": i}));
    }
}

type Saved = Result<String, String>;

#[allow(clippy::too_many_arguments)]
fn restored(p: &Prog, r: &mut Rng, s: &str, i: usize, ops: &[Op], seen: &[String], paths: &[Option<String>], saves: &[Saved], out: &mut Out) -> Result<(), (&'static str, String)> {
    // a different seed, so that the seed must come from the save
    let Ok(mut b) = Host::new(p, &opts(7)) else { return Ok(()) };
    if r.pct(30) {
        // a story that has already been played on
        let k = r.below(4);
        let _ = lock::history(r, &mut b, p, &Mix::rich(), k);
        out.count("loaded_over_played_story");
        let _ = b.take_msgs();
    }
    match lock::tame(|| b.story.load_state(s).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(("load refused", e)),
        Err(m) => return Err(("load panicked", m)),
    }
    let _ = b.take_msgs();
    let view = lock::tame(|| b.view(p)).map_err(|m| ("panic after load", m))?;
    if let Some(d) = diff(&view_part(&seen[i]), &view_part(&view)) {
        return Err(("restored story shows something else", d));
    }
    if paths[i] != b.story.get_current_path() {
        return Err(("restored story is elsewhere", format!("{:?} vs {:?}", paths[i], b.story.get_current_path())));
    }
    match lock::tame(|| b.story.save_state()) {
        Ok(Ok(s2)) => {
            if let Some(d) = save_diff(&canon(s), &canon(&s2)) {
                return Err(("second save differs", d));
            }
        }
        Ok(Err(e)) => return Err(("second save fails", e.to_string())),
        Err(m) => return Err(("second save panics", m)),
    }
    for j in i..ops.len() {
        out.count("lockstep_ops");
        let t = lock::step(&mut b, p, &ops[j]);
        if let Some(d) = diff(&seen[j + 1], &t) {
            return Err(("restored story plays differently", format!("after op {j}: {d}")));
        }
        // what is not shown yet: above all the threads of pending choices, once they are no longer running
        let turn_end = t.contains("can=false") && !seen[j].contains("can=false");
        if turn_end || r.pct(10) {
            if let (Ok(x), Ok(Ok(y))) = (&saves[j + 1], lock::tame(|| b.story.save_state())) {
                out.count("later_saves_compared");
                if let Some(d) = save_diff(&canon(x), &canon(&y)) {
                    return Err(("later saves differ", format!("after op {j}: {d}")));
                }
            }
        }
    }
    // and the same state at the end
    if let (Ok(x), Ok(Ok(y))) = (&saves[saves.len() - 1], lock::tame(|| b.story.save_state())) {
        if let Some(d) = save_diff(&canon(x), &canon(&y)) {
            return Err(("later saves differ", d));
        }
    }
    Ok(())
}

/// The state part of a step's text.
fn view_part(s: &str) -> String {
    match s.find("can=") {
        Some(k) => s[k..].to_string(),
        None => s.to_string(),
    }
}
