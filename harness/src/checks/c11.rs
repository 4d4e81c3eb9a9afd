//! C11: observers see every committed change once, with the final value.
use crate::corpus;
use crate::host::{Host, Opts, Prog, show_opt};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::r#gen::Feat;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::vp_hooks;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn def() -> Def {
    Def {
        id: "C11",
        rule: "a host call during which the notification log of several observers was compared with the values before and after it; distinct by program and history, non-trivial when something was notified",
        assumptions: &[
            "in the purpose-built programs every assignment changes the value for good, so an unchanged variable must not be notified at all; elsewhere one notification of an unchanged variable is accepted (assigned and set back)",
            "notifications of a reset or load are not judged",
        ],
        make: |c| Box::new(C11 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (40, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C11 {
    cfg: Cfg,
    pool: Pool,
}

/// (observer, variable, value)
type Seen = Rc<RefCell<Vec<(usize, String, String)>>>;

struct O {
    id: usize,
    log: Seen,
}
impl VariableObserver for O {
    fn changed(&mut self, name: &str, v: &ValueType) {
        self.log.borrow_mut().push((self.id, name.into(), crate::host::show(v)));
    }
}

/// A program in which every assignment increases a variable (or lengthens a string).
fn monotone(r: &mut Rng) -> String {
    let nv = 2 + r.below(4);
    let mut s = String::new();
    for i in 0..nv {
        s.push_str(&format!("VAR v{i} = {}\n", r.below(5)));
    }
    s.push_str("VAR str = \"s\"\nLIST li = i0, i1, i2, i3, i4, i5, i6, i7\nVAR fl = 0.5\n");
    s.push_str("-> k0\n");
    let nk = 2 + r.below(3);
    let mut w = 0;
    for k in 0..nk {
        s.push_str(&format!("=== k{k} ===\n"));
        let n = 3 + r.below(6);
        items(r, &mut s, n, nv, &mut w, 0, true);
        let nc = 1 + r.below(3);
        for _ in 0..nc {
            w += 1;
            let b = *r.pick(&["+", "*", "+"]);
            let t = match r.below(4) {
                0 => format!("[c{w}]"),
                1 => format!("c{w} {{bump(v{})}} x", r.below(nv)),
                2 => format!("c{w}[ {{bump(v{})}}] y", r.below(nv)),
                _ => format!("c{w}"),
            };
            s.push_str(&format!("{b} {t}\n"));
            let mut body = String::new();
            let n = r.below(4);
            items(r, &mut body, n, nv, &mut w, 0, true);
            for l in body.lines() {
                s.push_str(&format!("    {l}\n"));
            }
            s.push_str(&format!("    -> k{}\n", r.below(nk)));
        }
        s.push_str(&format!("+ [go on] -> k{}\n", r.below(nk)));
    }
    s.push_str("=== tun(n) ===\n");
    items(r, &mut s, 3, nv, &mut w, 0, false);
    s.push_str("->->\n=== function bump(ref x) ===\n~ x = x + 1\n~ return x\n=== function quiet() ===\n~ return 4\n");
    s.push_str(&format!("=== function loud() ===\nloud {{v0}}\n~ v{} += 3\nmore\n", r.below(nv)));
    s
}

fn items(r: &mut Rng, s: &mut String, n: usize, nv: usize, w: &mut usize, d: usize, tun: bool) {
    for _ in 0..n {
        *w += 1;
        let v = r.below(nv);
        let ind = "    ".repeat(d);
        match r.below(16) {
            0 | 1 => s.push_str(&format!("{ind}line {w} {{v{v}}}\n")),
            2 => s.push_str(&format!("{ind}line {w} <>\n")),
            3 => s.push_str(&format!("{ind}<> line {w} {{v{v}}}\n")),
            4 | 5 => s.push_str(&format!("{ind}~ v{v} += {}\n", 1 + r.below(4))),
            6 => s.push_str(&format!("{ind}~ v{v}++\n")),
            7 => s.push_str(&format!("{ind}~ bump(v{v})\n")),
            8 => s.push_str(&format!("{ind}in {w} {{bump(v{v})}} line\n")),
            9 => s.push_str(&format!("{ind}~ str = str + \"s\"\n")),
            10 => s.push_str(&format!("{ind}~ li += LIST_MIN(LIST_INVERT(li))\n{ind}~ fl = fl + 0.25\n")),
            11 if tun => s.push_str(&format!("{ind}-> tun({w}) ->\n")),
            12 if d < 2 => {
                s.push_str(&format!("{ind}{{ v{v} > {}:\n", r.below(6)));
                items(r, s, 2, nv, w, d + 1, false);
                s.push_str(&format!("{ind}- else:\n"));
                items(r, s, 1, nv, w, d + 1, false);
                s.push_str(&format!("{ind}}}\n"));
            }
            13 => s.push_str(&format!("{ind}{{ v{v} > 3: yes {w}|no {w}}} # tag {{v{v}}}\n")),
            14 => s.push_str(&format!("{ind}~ temp tt{w} = quiet()\n")),
            _ => s.push_str(&format!("{ind}text {w}\n")),
        }
    }
}

impl Check for C11 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C11", self.cfg.seed, n);
        let (p, mono) = if n % 4 != 0 {
            let src = monotone(&mut r);
            match crate::guard::guarded(|| corpus::compile(&src)) {
                Ok(Ok(js)) => (Prog::from_json(&format!("monotone {n}"), &src, &js), true),
                e => {
                    out.count("no_verdict_compile");
                    if std::env::var("VPH_SHOW").is_ok() {
                        eprintln!("{e:?}\n{src}");
                    }
                    return;
                }
            }
        } else {
            let base = Feat { externals: r.pct(30), ..Feat::rich() };
            match self.pool.pick(n / 4, &mut r, base, out) {
                Some((p, _)) => (p, false),
                None => return,
            }
        };
        if p.globals.is_empty() {
            return;
        }
        let len = if self.cfg.thorough() { 40 } else { 20 };
        for _ in 0..3 {
            let mut rr = r.fork();
            super::case(500_000, out, |o| one(&p, &mut rr, len, mono, o));
        }
    }
}

fn values(h: &Host, p: &Prog) -> BTreeMap<String, String> {
    p.globals.iter().map(|g| (g.clone(), show_opt(h.story.get_variable(g)))).collect()
}

fn one(p: &Prog, r: &mut Rng, len: usize, mono: bool, out: &mut Out) {
    let Ok(mut h) = Host::new(p, &Opts { handler: r.pct(70), ..Opts::default() }) else { return };
    let log: Seen = Default::default();
    let obs: Vec<Rc<RefCell<dyn VariableObserver>>> = (0..3).map(|id| Rc::new(RefCell::new(O { id, log: log.clone() })) as Rc<RefCell<dyn VariableObserver>>).collect();
    // who watches what, as the host knows it
    let mut reg: Vec<(usize, String)> = vec![];
    for id in 0..3 {
        for g in &p.globals {
            if id == 0 || r.pct(50) {
                if h.story.observe_variable(g, obs[id].clone()).is_err() {
                    return;
                }
                reg.push((id, g.clone()));
            }
        }
    }
    let mut script: Vec<String> = vec![format!("registered {reg:?}")];
    let mut notified = 0u64;
    let mix = Mix { max: 3, set: 12, flow: 3, path: 2, reset: 1, reload: 2, eval: 4, ..Mix::play() };
    let fail = |what: &str, d: String, script: &[String], out: &mut Out| {
        out.violation(format!("{what}: {} {script:?}", p.name), format!("{what}: {d}"), json!({"program": p.name, "source": p.src, "script": script, "what": d}));
    };
    for _ in 0..len {
        // registrations change between calls
        if r.pct(15) {
            let id = r.below(3);
            match r.below(4) {
                0 => {
                    let mine: Vec<String> = reg.iter().filter(|x| x.0 == id).map(|x| x.1.clone()).collect();
                    if !mine.is_empty() {
                        let g = r.pick(&mine).clone();
                        script.push(format!("remove observer {id} of {g}"));
                        out.count("removals");
                        match lock::tame(|| h.story.remove_variable_observer(&obs[id], Some(&g)).map_err(|e| e.to_string())) {
                            Ok(Ok(())) => reg.retain(|x| !(x.0 == id && x.1 == g)),
                            Ok(Err(e)) | Err(e) => return fail("removing an observer fails", e, &script, out),
                        }
                    }
                }
                1 if r.pct(50) => {
                    if reg.iter().any(|x| x.0 == id) {
                        script.push(format!("remove observer {id}"));
                        out.count("removals");
                        match lock::tame(|| h.story.remove_variable_observer(&obs[id], None).map_err(|e| e.to_string())) {
                            Ok(Ok(())) => reg.retain(|x| x.0 != id),
                            Ok(Err(e)) | Err(e) => return fail("removing an observer fails", e, &script, out),
                        }
                    }
                }
                _ => {
                    let g = r.pick(&p.globals).clone();
                    if !reg.contains(&(id, g.clone())) {
                        script.push(format!("observe {g} with {id}"));
                        if h.story.observe_variable(&g, obs[id].clone()).is_err() {
                            return fail("observing refused", g, &script, out);
                        }
                        reg.push((id, g));
                    }
                }
            }
        }
        let mut op = match lock::random_op(r, &mut h, p, &mix) {
            Some(op) => op,
            None => break,
        };
        if let Op::Set(g, v) = &mut op {
            // keep monotone programs monotone: host assignments may set anything, but strings are left alone
            if mono && matches!(v, lock::V::S(_) | lock::V::F(_)) {
                continue;
            }
            let _ = g;
        }
        let before = values(&h, p);
        log.borrow_mut().clear();
        let sliced = matches!(op, Op::Cont) && r.pct(30);
        script.push(format!("{op:?}{}", if sliced { " in slices" } else { "" }));
        let t = if sliced {
            let res = lock::tame(|| {
                let mut k = 0;
                loop {
                    vp_hooks::set_async_budget(1 + r.below(9) as u64);
                    let x = h.story.continue_async(1e12);
                    vp_hooks::set_async_budget(u64::MAX);
                    k += 1;
                    if x.is_err() || h.story.get_current_text().is_ok() || k > 100_000 {
                        break;
                    }
                    if !log.borrow().is_empty() {
                        return Some("notified before the line was finished".to_string());
                    }
                }
                None
            });
            match res {
                Ok(None) => String::new(),
                Ok(Some(d)) => return fail("early notification", d, &script, out),
                Err(m) => format!("PANIC {m}"),
            }
        } else {
            lock::apply(&mut h, p, &op)
        };
        if t.contains("PANIC ") {
            out.count("panicked");
            return;
        }
        let after = values(&h, p);
        let seen: Vec<(usize, String, String)> = log.borrow_mut().drain(..).collect();
        out.eval();
        notified += seen.len() as u64;
        // nobody hears about what he does not watch
        for (id, g, v) in &seen {
            if !reg.contains(&(*id, g.clone())) {
                return fail("notified without being registered", format!("observer {id} of {g} = {v}"), &script, out);
            }
        }
        if matches!(op, Op::Reset | Op::Reload) {
            // registrations survive; what they hear now is not specified
            continue;
        }
        let many = matches!(op, Op::Max | Op::Eval(..));
        for (id, g) in &reg {
            let mine: Vec<&String> = seen.iter().filter(|x| x.0 == *id && x.1 == *g).map(|x| &x.2).collect();
            let changed = before[g] != after[g];
            let what = || format!("observer {id} of {g}: {} -> {}, notified {mine:?}", before[g], after[g]);
            if changed && mine.is_empty() {
                return fail("a change was not notified", what(), &script, out);
            }
            if mine.last().map(|v| **v != after[g]).unwrap_or(false) {
                return fail("notified with a stale value", what(), &script, out);
            }
            if !many && mine.len() > 1 {
                return fail("notified more than once", what(), &script, out);
            }
            let may_be_silent_only = mono || matches!(op, Op::Choose(_) | Op::Path(..) | Op::Flow(_) | Op::DefaultFlow);
            if !changed && !after[g].contains("li.i7") && may_be_silent_only && !mine.is_empty() && !matches!(op, Op::Set(..)) {
                return fail("notified without a change", what(), &script, out);
            }
            if let Op::Set(n, _) = &op {
                if n != g && !mine.is_empty() {
                    return fail("an assignment notified another variable", what(), &script, out);
                }
            }
        }
        // all observers of one variable hear the same
        for g in &p.globals {
            let counts: Vec<usize> = reg.iter().filter(|x| x.1 == *g).map(|x| seen.iter().filter(|s| s.0 == x.0 && s.1 == *g).count()).collect();
            if counts.windows(2).any(|w| w[0] != w[1]) {
                return fail("observers of one variable hear different things", format!("{g}: {counts:?}"), &script, out);
            }
        }
    }
    out.add("notifications", notified);
    if notified > 0 {
        out.nontrivial(hash64(&p.json) ^ hash64(&script.join(";")));
    }
    out.sample(json!({"program": p.name, "source": p.src, "script": script}));
}
