//! C10: flows over disjoint content behave as if each ran alone.
use crate::ast::{self, Div, Program, St};
use crate::corpus;
use crate::r#gen::{Feat, Gen};
use crate::host::{Host, Opts, Prog, canon, diff, save_diff};
use crate::lock::{self, Mix, Op};
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use serde_json::json;

pub fn def() -> Def {
    Def {
        id: "C10",
        rule: "2-4 flows over disjoint knots and variables whose operations were interleaved (with switches, saves/loads, and other flows created and removed), each flow's transcript compared with the one it gives alone; distinct by program and interleaving",
        assumptions: &[
            "the generated programs of one story share nothing: the global turn counter and RANDOM are left out",
            "a flow's transcript is everything a host can read in it: text, tags, choices, its own variables and visit counts, and messages",
        ],
        make: |c| Box::new(C10 { cfg: c.clone() }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C10 {
    cfg: Cfg,
}

const PRE: [&str; 4] = ["pa", "qb", "rc", "sd"];
const NAMES: [&str; 4] = ["DEFAULT_FLOW", "second", "third \"flow\"", "четыре"];

fn no_turns(src: &str) -> bool {
    !src.contains("TURNS") && !src.contains("RANDOM")
}

/// One story made of independent parts.
fn combined(r: &mut Rng, n: usize) -> Option<(String, String)> {
    let mut all = Program::default();
    for pre in PRE.iter().take(n) {
        let base = Feat { prefix: pre.to_string(), random: false, turns_since: false, faults: if r.pct(10) { 2 } else { 0 }, ..Feat::rich() };
        let mut f = Feat::random(r, base);
        f.random = false;
        let mut part = None;
        for _ in 0..12 {
            let p = Gen::new(r.fork(), f.clone()).program();
            if no_turns(&ast::print(&p)) {
                part = Some(p);
                break;
            }
        }
        let p = part?;
        all.globals.extend(p.globals);
        all.lists.extend(p.lists);
        all.consts.extend(p.consts);
        all.externals.extend(p.externals);
        all.knots.extend(p.knots);
    }
    all.root = vec![St::Divert(Div::Done)];
    let src = format!("{}\nVAR zv = 0\n=== zznoise ===\n~ zv++\nNoise {{zv}} <>\n+ [a] -> zznoise\n+ [b] -> zznoise\n", ast::print(&all));
    let js = crate::guard::guarded(|| corpus::compile(&src)).ok()?.ok()?;
    Some((src, js))
}

fn mine(name: &str, i: usize) -> bool {
    name.starts_with(PRE[i])
}

/// What a host reads in the current flow, limited to the part's own variables and knots.
fn view(h: &mut Host, p: &Prog, i: usize) -> String {
    let mut s = h.shown();
    s.push_str(&format!("path {:?}\n", h.story.get_current_path()));
    for g in p.globals.iter().filter(|g| mine(g, i)) {
        s.push_str(&format!("var {}={}\n", g, crate::host::show_opt(h.story.get_variable(g))));
    }
    for k in p.paths.iter().filter(|k| mine(k, i)) {
        if let Ok(n) = h.story.get_visit_count_at_path_string(k) {
            if n > 0 {
                s.push_str(&format!("visits {k}={n}\n"));
            }
        }
    }
    s
}

fn enter(h: &mut Host, i: usize) -> Result<(), String> {
    if i == 0 {
        h.story.switch_to_default_flow();
        Ok(())
    } else {
        h.story.switch_flow(NAMES[i]).map_err(|e| e.to_string())
    }
}

fn own_op(r: &mut Rng, h: &mut Host, p: &Prog, i: usize) -> Option<Op> {
    if r.pct(8) {
        let ks: Vec<&String> = p.paths.iter().filter(|k| mine(k, i) && !p.functions.iter().any(|f| k.split('.').next() == Some(f.0.as_str()))).collect();
        if !ks.is_empty() {
            return Some(Op::Path(r.pick(&ks).to_string(), r.pct(60)));
        }
    }
    if r.pct(4) {
        let gs: Vec<&String> = p.globals.iter().filter(|g| mine(g, i)).collect();
        if let Some(g) = gs.first() {
            if let Some(bladeink::value_type::ValueType::Int(_)) = h.story.get_variable(g) {
                return Some(Op::Set(g.to_string(), lock::V::I(r.range(-2, 7) as i32)));
            }
        }
    }
    if r.pct(6) {
        let fs: Vec<&(String, usize)> = p.functions.iter().filter(|f| f.1 == 0 && mine(&f.0, i)).collect();
        if !fs.is_empty() {
            return Some(Op::Eval(r.pick(&fs).0.clone(), vec![]));
        }
    }
    lock::random_op(r, h, p, &Mix::play())
}

fn do_op(h: &mut Host, p: &Prog, i: usize, op: &Op) -> String {
    let mut t = lock::apply(h, p, op);
    match lock::tame(|| view(h, p, i)) {
        Ok(v) => t.push_str(&v),
        Err(m) => t.push_str(&format!("PANIC {m}")),
    }
    t
}

impl Check for C10 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C10", self.cfg.seed, n);
        let nf = 2 + r.below(3);
        let Some((src, js)) = combined(&mut r, nf) else {
            out.count("no_verdict_compile");
            return;
        };
        let p = Prog::from_json(&format!("generated {n}"), &src, &js);
        let len = if self.cfg.thorough() { 16 } else { 9 };
        for round in 0..4 {
            let mut rr = r.fork();
            super::case(600_000, out, |o| one(&p, &mut rr, nf, len, round, o));
        }
    }
}

fn one(p: &Prog, r: &mut Rng, nf: usize, len: usize, round: usize, out: &mut Out) {
    // each flow alone
    let mut solo: Vec<Vec<(Op, String)>> = vec![];
    for i in 0..nf {
        let Ok(mut h) = Host::new(p, &Opts::default()) else { return };
        if enter(&mut h, i).is_err() {
            return;
        }
        let start = Op::Path(format!("{}k0", PRE[i]), r.pct(50));
        let t = do_op(&mut h, p, i, &start);
        let mut v = vec![(start, t)];
        for _ in 0..len {
            let Some(op) = own_op(r, &mut h, p, i) else { break };
            let t = do_op(&mut h, p, i, &op);
            if t.contains("PANIC ") {
                out.count("original_panicked");
                return;
            }
            v.push((op, t));
        }
        solo.push(v);
    }
    // all together
    let Ok(mut h) = Host::new(p, &Opts::default()) else { return };
    let mut at = vec![0usize; nf];
    let mut script = vec![];
    let mut last: Vec<Option<String>> = vec![None; nf];
    let mut switches = 0u64;
    let mut gone = vec![false; nf];
    let fail = |what: &str, d: String, script: &[String], out: &mut Out| {
        out.violation(format!("{what}: {} {script:?}", p.name), format!("{what}: {d}"), json!({"program": p.name, "source": p.src, "script": script, "what": d}));
    };
    loop {
        let left: Vec<usize> = (0..nf).filter(|i| at[*i] < solo[*i].len()).collect();
        if left.is_empty() {
            break;
        }
        let i = *r.pick(&left);
        // noise that must not matter
        if r.pct(12) {
            script.push("noise flow".into());
            let _ = h.story.switch_flow("noise");
            if r.pct(60) {
                let _ = lock::tame(|| h.story.choose_path_string("zznoise", true, None).is_ok());
                for _ in 0..r.below(3) {
                    let _ = lock::tame(|| h.cont());
                    if h.n_choices() > 0 {
                        let _ = lock::tame(|| h.story.choose_choice_index(0).is_ok());
                    }
                }
            }
            if r.pct(50) {
                let _ = lock::tame(|| h.story.remove_flow("noise").is_ok());
                out.count("flows_removed");
            }
            let _ = h.take_msgs();
        }
        if let Err(e) = enter(&mut h, i) {
            return fail("switch refused", e, &script, out);
        }
        switches += 1;
        script.push(format!("in {}: {:?}", NAMES[i], solo[i][at[i]].0));
        // back in the flow: nothing changed
        if let Some(l) = &last[i] {
            let v = view(&mut h, p, i);
            if let Some(d) = diff(l, &v) {
                return fail("a flow changed while away", d, &script, out);
            }
        }
        if round > 0 && r.pct(20) {
            // away and back is a no-op
            let j = r.below(nf);
            if at[j] > 0 && !gone[j] {
                if let Ok(before) = h.story.save_state() {
                    let _ = enter(&mut h, j);
                    let _ = enter(&mut h, i);
                    switches += 2;
                    if let Ok(after) = h.story.save_state() {
                        out.eval();
                        if let Some(d) = save_diff(&canon(&before), &canon(&after)) {
                            return fail("switching away and back changes the state", d, &script, out);
                        }
                    }
                }
            }
        }
        let (op, want) = &solo[i][at[i]];
        let got = do_op(&mut h, p, i, op);
        out.eval();
        if let Some(d) = diff(want, &got) {
            return fail("a flow plays differently among others", format!("flow {} step {}: {d}", NAMES[i], at[i]), &script, out);
        }
        last[i] = Some(view(&mut h, p, i));
        at[i] += 1;
        if round > 1 && r.pct(20) {
            // all flows survive a save
            let Ok(Ok(s)) = lock::tame(|| h.story.save_state()) else { return fail("save fails", String::new(), &script, out) };
            let Ok(mut b) = Host::new(p, &Opts { seed: 9, ..Opts::default() }) else { return };
            script.push("save and load".into());
            out.count("saves_loaded");
            match lock::tame(|| b.story.load_state(&s).map_err(|e| e.to_string())) {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => return fail("load fails", e, &script, out),
            }
            h = b;
            let _ = h.take_msgs();
        }
        // a flow that is finished can be removed; the others do not notice
        if round == 3 && at[i] == solo[i].len() && i > 0 {
            script.push(format!("remove {}", NAMES[i]));
            gone[i] = true;
            out.count("flows_removed");
            if r.pct(50) && i + 1 < nf && at[i + 1] > 0 && at[i + 1] < solo[i + 1].len() {
                let _ = enter(&mut h, i + 1);
            }
            match lock::tame(|| h.story.remove_flow(NAMES[i]).map_err(|e| e.to_string())) {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => return fail("removing a flow fails", e, &script, out),
            }
        }
    }
    out.add("switches", switches);
    out.add("flows", nf as u64);
    out.nontrivial(hash64(&p.json) ^ hash64(&script.join(";")));
    out.sample(json!({"program": p.name, "source": p.src, "script": script}));
}
