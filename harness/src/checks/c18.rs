//! C18: a dropped story leaves nothing behind; resets and loads do not grow the heap.
use crate::alloc::live;
use crate::r#gen::Feat;
use crate::host::{Host, Opts, Prog};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::Story;
use bladeink::story::vp_hooks;
use bladeink::value_type::ValueType;
use serde_json::json;

pub fn def() -> Def {
    Def {
        id: "C18",
        rule: "a program created, played by a fixed random history and dropped several times with the live heap counted after every drop; and one instance reset or loaded again and again with the live heap counted after each; distinct by program and history",
        assumptions: &["the live heap is what the counting global allocator of the harness has handed out and not got back on the one thread that runs the story"],
        make: |c| Box::new(C18 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C18 {
    cfg: Cfg,
    pool: Pool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Cycle,
    Resets,
    Loads,
    Saves,
    Flows,
    Evals,
    Observers,
}

fn wild(r: &mut Rng, h: &mut Host, p: &Prog) {
    match r.below(11) {
        0 => {
            let _ = h.story.save_state();
        }
        1 => {
            let _ = h.story.load_state("{\"inkSaveVersion\":10,\"flows\":{}}");
        }
        2 => {
            vp_hooks::set_async_budget(2);
            let _ = h.story.continue_async(1e12);
            vp_hooks::set_async_budget(u64::MAX);
        }
        3 => {
            let _ = h.story.choose_path_string("nowhere.at.all", false, None);
        }
        4 => {
            let mut t = String::new();
            if let Some(f) = p.functions.first() {
                let a: Vec<ValueType> = (0..f.1).map(|_| ValueType::Int(2)).collect();
                let _ = h.story.evaluate_function(&f.0, if a.is_empty() { None } else { Some(&a) }, &mut t);
            }
        }
        5 => {
            let _ = h.story.switch_flow("tmp");
        }
        6 => {
            let _ = h.story.remove_flow("tmp");
        }
        9 => {
            let a = vec![ValueType::Int(1); 3];
            let mut t = String::new();
            if let Some(k) = p.paths.first() {
                let _ = h.story.choose_path_string(k, r.pct(50), Some(&a));
            }
            if let Some(f) = p.functions.first() {
                let _ = h.story.evaluate_function(&f.0, Some(&a), &mut t);
            }
        }
        10 => {
            let _ = h.story.choose_choice_index(1000);
            let _ = h.story.set_variable("no such variable", &ValueType::new::<&str>("some text that is not short"));
            let _ = h.story.remove_flow("no such flow");
            let _ = h.story.unbind_external_function("no such function");
            let _ = h.story.get_visit_count_at_path_string("no.such.path");
        }
        7 => {
            let _ = h.story.build_string_of_hierarchy();
            let _ = h.story.get_global_tags();
        }
        _ => {
            if let Some(k) = p.paths.first() {
                let _ = h.story.tags_for_content_at_path(k);
                let _ = h.story.get_visit_count_at_path_string(k);
            }
        }
    }
}

/// Plays the history of seed `r`; returns how many operations were made.
fn play(h: &mut Host, p: &Prog, r: &mut Rng, len: usize, mix: &Mix, wildness: u32) -> usize {
    let mut n = 0;
    for _ in 0..len {
        if r.pct(wildness) {
            wild(r, h, p);
        } else {
            let Some(op) = lock::random_op(r, h, p, mix) else { break };
            lock::apply(h, p, &op);
        }
        n += 1;
    }
    n
}

fn one(p: &Prog, r: &mut Rng, kind: Kind, thorough: bool, out: &mut Out) {
    let seed = r.fork();
    let o = Opts { handler: r.pct(50), observe: r.pct(50), bind: r.pct(80), ..Opts::default() };
    let len = if thorough { 4 + r.below(30) } else { 4 + r.below(14) };
    let mix = Mix { reload: 3, reset: 2, eval: 4, flow: 6, path: 3, set: 4, ..Mix::play() };
    let calm = Mix { flow: 4, set: 3, ..Mix::play() };
    let wildness = *r.pick(&[0, 15, 40]);
    out.eval();
    out.count(&format!("kind_{kind:?}"));
    let rounds: usize = if thorough { 32 } else { 16 };
    let mut v: Vec<(i64, i64)> = Vec::with_capacity(64);
    let mut ops = 0;
    let mut history = String::new();
    if kind == Kind::Cycle {
        for _ in 0..5 {
            let before = live();
            let mut rr = seed.clone();
            {
                let Ok(mut h) = Host::new(p, &o) else { return };
                ops += play(&mut h, p, &mut rr, len, &mix, wildness);
            }
            let after = live();
            v.push((after.0 - before.0, after.1 - before.1));
        }
        out.add("stories_dropped", 5);
        // the first round may fill caches of the process
        if v[2..].iter().all(|x| x.0 > 0) {
            history = format!("{} operations", ops / 5);
            return leak(p, kind, &v, &history, out);
        }
    } else {
        let Ok(mut h) = Host::new(p, &o) else { return };
        let mut rr = seed.clone();
        ops = play(&mut h, p, &mut rr, len, &calm, 0);
        let save = match h.story.save_state() {
            Ok(s) => s,
            Err(_) => return,
        };
        for _ in 0..rounds {
            let mut rr = seed.clone();
            match kind {
                Kind::Resets => {
                    let _ = h.story.reset_state();
                    h.story.vp_set_story_seed(o.seed);
                    ops += play(&mut h, p, &mut rr, len, &calm, wildness);
                    h.story.switch_to_default_flow();
                    while h.story.get_current_text().is_err() {
                        let _ = h.story.cont();
                    }
                    let _ = h.story.reset_state();
                    h.story.vp_set_story_seed(o.seed);
                }
                Kind::Loads => {
                    let _ = h.story.load_state(&save);
                    ops += play(&mut h, p, &mut rr, len.min(6), &calm, 0);
                    if h.story.load_state(&save).is_err() {
                        out.count("load_refused");
                        return;
                    }
                }
                Kind::Saves => {
                    let _ = h.story.save_state();
                    let _ = h.story.get_current_choices();
                    let _ = h.story.get_current_text();
                    let _ = h.story.get_current_tags();
                    let _ = h.story.load_state("not a save");
                    let _ = Story::new("{\"inkVersion\":21,\"root\":[\"^a\",{\"k\":[\"^b\",null]}]}");
                }
                Kind::Flows => {
                    for f in ["fa", "fb"] {
                        let _ = h.story.switch_flow(f);
                        if let Some(k) = p.paths.first() {
                            lock::apply(&mut h, p, &Op::Path(k.clone(), true));
                            let _ = h.story.reset_state().is_err();
                            h.story.vp_set_story_seed(o.seed);
                        }
                    }
                    let _ = h.story.load_state(&save);
                    let _ = h.story.switch_flow("fc");
                    h.story.switch_to_default_flow();
                    let _ = h.story.remove_flow("fc");
                }
                Kind::Evals => {
                    for f in &p.functions {
                        let a: Vec<ValueType> = (0..f.1).map(|_| ValueType::Int(2)).collect();
                        let mut t = String::new();
                        let _ = h.story.evaluate_function(&f.0, if a.is_empty() { None } else { Some(&a) }, &mut t);
                    }
                    let _ = h.story.load_state(&save);
                }
                _ => {
                    let log: crate::host::Log = Default::default();
                    for g in &p.globals {
                        let ob: std::rc::Rc<std::cell::RefCell<dyn bladeink::story::variable_observer::VariableObserver>> =
                            std::rc::Rc::new(std::cell::RefCell::new(crate::host::Obs { tag: "x".into(), log: log.clone() }));
                        let _ = h.story.observe_variable(g, ob.clone());
                        let _ = h.story.remove_variable_observer(&ob, Some(g));
                        let _ = h.story.observe_variable(g, ob.clone());
                        let _ = h.story.remove_variable_observer(&ob, None);
                    }
                    let f = std::rc::Rc::new(std::cell::RefCell::new(crate::host::Ext { log: log.clone(), lines: Default::default(), slow: Default::default() }));
                    let _ = h.story.bind_external_function("not_in_the_story", f, true);
                    let _ = h.story.unbind_external_function("not_in_the_story");
                }
            }
            h.msgs.borrow_mut().clear();
            h.msgs.borrow_mut().shrink_to_fit();
            h.obs.borrow_mut().clear();
            h.obs.borrow_mut().shrink_to_fit();
            h.calls.borrow_mut().clear();
            h.calls.borrow_mut().shrink_to_fit();
            v.push(live());
            let _ = &mut history;
        }
        out.add("rounds_on_one_story", rounds as u64);
        // grows in every quarter: not a cache that fills up
        let q = rounds / 4;
        let at = |i: usize| v[i - 1];
        let grows = |f: fn(&(i64, i64)) -> i64| f(&at(q)) < f(&at(2 * q)) && f(&at(2 * q)) < f(&at(3 * q)) && f(&at(3 * q)) < f(&at(4 * q));
        if grows(|x| x.0) && grows(|x| x.1) {
            let d: Vec<(i64, i64)> = v.iter().map(|x| (x.0 - v[0].0, x.1 - v[0].1)).collect();
            return leak(p, kind, &d, &format!("{} operations", ops), out);
        }
    }
    out.add("operations", ops as u64);
    if ops > 0 || kind == Kind::Saves {
        let mut rr = seed.clone();
        out.nontrivial(hash64(&p.json) ^ rr.next() ^ kind as u64);
    }
    out.sample(json!({"program": p.name, "source": p.src, "kind": format!("{kind:?}"), "live_after_each_round": v}));
}

fn leak(p: &Prog, kind: Kind, v: &[(i64, i64)], history: &str, out: &mut Out) {
    out.violation(
        format!("live heap grows ({kind:?}): {}", p.name),
        format!("live heap grows ({kind:?}): {} after {history}: (bytes, blocks) after each round {v:?}", p.name),
        json!({"program": p.name, "source": p.src, "kind": format!("{kind:?}"), "live": v}),
    );
}

impl Check for C18 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C18", self.cfg.seed, n);
        let mut f = Feat { externals: r.pct(30), ..Feat::rich() };
        if r.pct(30) {
            f.faults = 15;
        }
        let Some((p, _)) = self.pool.pick(n, &mut r, f, out) else { return };
        let probe = live();
        let b = std::hint::black_box(Box::new([n as u8; 64]));
        if live().0 - probe.0 != 64 {
            panic!("the counting allocator is not installed");
        }
        drop(b);
        let thorough = self.cfg.thorough();
        for k in [Kind::Cycle, Kind::Resets, Kind::Cycle, Kind::Loads, *r.pick(&[Kind::Saves, Kind::Flows, Kind::Evals, Kind::Observers])] {
            let mut rr = r.fork();
            super::case(2_000_000, out, |o| one(&p, &mut rr, k, thorough, o));
        }
    }
}
