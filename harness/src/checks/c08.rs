//! C08: slicing a continue into time-limited pieces changes nothing.
use crate::r#gen::Feat;
use crate::host::{Host, Opts, Prog, canon, diff, save_diff};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::vp_hooks;
use bladeink::value_type::ValueType;
use serde_json::json;

pub fn def() -> Def {
    Def {
        id: "C08",
        rule: "one history played with blocking continues and again with every line cut into time-limited slices of chosen step counts, all text, tags, choices, variables, counts, notifications, calls and saves compared; distinct by program, history and slice lengths",
        assumptions: &[
            "the virtual clock hook decides after how many steps a slice ends; a part of the runs uses the real clock with slow external functions instead",
            "a host learns that a line is finished from get_current_text no longer being refused",
        ],
        make: |c| Box::new(C08 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C08 {
    cfg: Cfg,
    pool: Pool,
}

#[derive(Clone, Copy, Debug)]
enum Cut {
    /// slices of exactly this many steps
    Every(u64),
    /// random slices up to this many steps
    Upto(u64),
    /// a few slices, then a blocking continue
    Finish(u64),
    /// the real clock
    Clock,
}

struct Sliced {
    cut: Cut,
    slices: u64,
    refused: u64,
    max: u64,
}

/// Calls that must be refused while a line is unfinished.
fn refused(h: &mut Host, p: &Prog, r: &mut Rng, save: &str, which: usize) -> Result<(), String> {
    let mut text = String::new();
    let g = p.globals.first().cloned().unwrap_or_else(|| "x".into());
    let k = p.paths.first().cloned().unwrap_or_else(|| "k".into());
    let ok = match which {
        0 => h.story.choose_choice_index(0).is_ok(),
        1 => h.story.choose_path_string(&k, r.pct(50), None).is_ok(),
        2 => h.story.set_variable(&g, &ValueType::Int(99)).is_ok(),
        3 => h.story.switch_flow("other").is_ok(),
        4 => h.story.remove_flow("flowA").is_ok(),
        5 => h.story.reset_state().is_ok(),
        6 => h.story.load_state(save).is_ok(),
        7 => match p.functions.first() {
            Some(f) => {
                let a: Vec<ValueType> = (0..f.1).map(|_| ValueType::Int(1)).collect();
                h.story.evaluate_function(&f.0, Some(&a), &mut text).is_ok()
            }
            None => false,
        },
        8 => h.story.continue_maximally().is_ok(),
        9 => {
            let o = std::rc::Rc::new(std::cell::RefCell::new(crate::host::Obs { tag: "late".into(), log: h.obs.clone() }));
            h.story.observe_variable(&g, o).is_ok()
        }
        10 => {
            let f = std::rc::Rc::new(std::cell::RefCell::new(crate::host::Ext { log: h.calls.clone(), lines: h.lines.clone(), slow: h.slow.clone() }));
            h.story.bind_external_function("never bound before", f, true).is_ok()
        }
        11 => match p.externals.first() {
            Some(e) => h.story.unbind_external_function(&e.0).is_ok(),
            None => false,
        },
        12 => {
            // cannot report a refusal: must do nothing
            h.story.switch_to_default_flow();
            false
        }
        _ => false,
    };
    if ok { Err(format!("state-changing call {which} was accepted while a line was unfinished")) } else { Ok(()) }
}

/// One line in slices. The text matches what `Host::cont` gives.
fn sliced(h: &mut Host, p: &Prog, r: &mut Rng, s: &mut Sliced, save: &str) -> Result<String, String> {
    let mut n = 0u64;
    loop {
        n += 1;
        s.slices += 1;
        let (limit, blocking) = match s.cut {
            Cut::Every(k) => {
                vp_hooks::set_async_budget(k);
                (1e12f32, false)
            }
            Cut::Upto(k) => {
                vp_hooks::set_async_budget(1 + r.below(k as usize) as u64);
                (1e12, false)
            }
            Cut::Finish(k) => {
                vp_hooks::set_async_budget(1 + r.below(k as usize) as u64);
                (1e12, n > 1 + r.below(3) as u64)
            }
            Cut::Clock => {
                vp_hooks::set_async_budget(u64::MAX);
                (1e-3, false)
            }
        };
        let res = if blocking { h.story.cont().map(|_| ()) } else { h.story.continue_async(limit) };
        vp_hooks::set_async_budget(u64::MAX);
        s.max = s.max.max(n);
        if let Err(e) = res {
            *h.lines.borrow_mut() += 1;
            if h.story.get_current_text().is_err() && h.story.can_continue() {
                return Err(format!("continue failed ({e}) but the line is still unfinished"));
            }
            return Ok(format!("error {e}"));
        }
        match h.story.get_current_text() {
            Ok(t) => {
                *h.lines.borrow_mut() += 1;
                return Ok(format!("line {t:?}"));
            }
            Err(_) => {
                if r.pct(25) {
                    s.refused += 1;
                    let w = r.below(13);
                    refused(h, p, r, save, w)?;
                }
            }
        }
        if n > 200_000 {
            return Err("the line never finishes".into());
        }
    }
}

fn drain(h: &Host) -> String {
    let mut s = String::new();
    let mut obs: Vec<String> = h.obs.borrow_mut().drain(..).collect();
    obs.sort();
    for o in obs {
        s.push_str(&format!("obs {o}\n"));
    }
    for c in h.calls.borrow_mut().drain(..) {
        s.push_str(&format!("{c}\n"));
    }
    s
}

impl Check for C08 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C08", self.cfg.seed, n);
        let base = Feat { externals: r.pct(50), ..Feat::rich() };
        let Some((p, _)) = self.pool.pick(n, &mut r, base, out) else { return };
        let len = if self.cfg.thorough() { 20 } else { 10 };
        super::case(900_000, out, |o| one(&p, &mut r, len, o));
    }
}

fn one(p: &Prog, r: &mut Rng, len: usize, out: &mut Out) {
    let mut o = Opts { observe: true, ..Opts::default() };
    o.handler = r.pct(60);
    o.safe = r.pct(60);
    o.bind = r.pct(90);
    let Ok(mut a) = Host::new(p, &o) else { return };
    let mix = if r.pct(40) { Mix { max: 0, ..Mix::play() } } else { Mix { max: 0, reload: 2, eval: 2, reset: 1, ..Mix::rich() } };
    let mut ops: Vec<Op> = vec![];
    let mut seen = vec![];
    for _ in 0..len {
        let Some(op) = lock::random_op(r, &mut a, p, &mix) else { break };
        let mut t = lock::step(&mut a, p, &op);
        if t.contains("PANIC ") {
            out.count("original_panicked");
            return;
        }
        t.push_str(&drain(&a));
        ops.push(op);
        let save = a.story.save_state().map(|s| canon(&s)).unwrap_or_default();
        seen.push((t, save));
    }
    let foreign = Host::new(p, &o).ok().and_then(|h| h.story.save_state().ok()).unwrap_or_default();
    let mut cuts = vec![Cut::Every(1), Cut::Every(2 + r.below(6) as u64), Cut::Upto(12), Cut::Finish(9)];
    if !p.externals.is_empty() || p.name.contains("slow") {
        cuts.push(Cut::Clock);
    }
    for cut in cuts {
        let Ok(mut b) = Host::new(p, &o) else { return };
        *b.slow.borrow_mut() = matches!(cut, Cut::Clock);
        let mut s = Sliced { cut, slices: 0, refused: 0, max: 0 };
        let mut bad = None;
        for (i, op) in ops.iter().enumerate() {
            let t = match op {
                Op::Cont => {
                    let line = lock::tame(|| sliced(&mut b, p, r, &mut s, &foreign));
                    match line {
                        Ok(Ok(l)) => {
                            let m = b.take_msgs();
                            match lock::tame(|| b.view(p)) {
                                Ok(v) => format!("{l}\n{m}{v}"),
                                Err(m) => format!("PANIC {m}"),
                            }
                        }
                        Ok(Err(e)) => {
                            bad = Some((i, e));
                            break;
                        }
                        Err(m) => format!("PANIC {m}"),
                    }
                }
                _ => lock::step(&mut b, p, op),
            };
            let t = format!("{t}{}", drain(&b));
            if let Some(d) = diff(&seen[i].0, &t) {
                bad = Some((i, d));
                break;
            }
            let save = lock::tame(|| b.story.save_state().map(|s| canon(&s)).unwrap_or_default()).unwrap_or_default();
            if let Some(d) = save_diff(&seen[i].1, &save) {
                bad = Some((i, format!("save {d}")));
                break;
            }
        }
        out.eval();
        out.add("slices", s.slices);
        out.add("refused_calls_tried", s.refused);
        out.add("max_slices_in_a_line", 0);
        let e = out.counters.entry("max_slices_in_a_line".into()).or_insert(0);
        *e = (*e).max(s.max);
        if matches!(cut, Cut::Clock) {
            out.add("real_clock_slices", s.slices);
        }
        if let Some((i, d)) = bad {
            let hist = lock::render(&ops);
            out.violation(format!("sliced play differs: {} [{hist}]", p.name), format!("with {cut:?}, op {i}: {d}"), json!({"program": p.name, "source": p.src, "history": hist, "cut": format!("{cut:?}"), "what": d}));
            return;
        }
        out.nontrivial(hash64(&p.json) ^ hash64(&lock::render(&ops)) ^ hash64(&format!("{cut:?}{}", s.slices)));
        out.sample(json!({"program": p.name, "source": p.src, "history": lock::render(&ops), "cut": format!("{cut:?}"), "slices": s.slices}));
    }
}
