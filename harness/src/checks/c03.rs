//! C03: play is a function of program, seed and host calls; compilation is a function of the source.
use crate::ast;
use crate::corpus;
use crate::r#gen::{Feat, Gen};
use crate::guard;
use crate::host::{Host, Opts, Prog, canon, diff, save_diff};
use crate::lock::{self, Mix};
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Helper, Out};
use serde_json::{Value, json};

pub fn def() -> Def {
    Def {
        id: "C03",
        rule: "a program compiled and played through one random history several times in this process and once in another process built in release mode, all transcripts and saves compared; distinct by program and transcript",
        assumptions: &["hash-order effects differ between story instances, so repeated runs in one process expose them"],
        make: |c| Box::new(C03 { cfg: c.clone(), pool: Pool::new(true), helper: None }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C03 {
    cfg: Cfg,
    pool: Pool,
    helper: Option<Helper>,
}

fn mix(n: u64) -> Mix {
    if n % 4 == 0 { Mix::play() } else { Mix { reload: 2, reset: 1, eval: 3, ..Mix::rich() } }
}

/// One run: what every operation showed and every save.
fn run(p: &Prog, n: u64, seed: u64, len: usize) -> Vec<(String, String)> {
    let mut r = Rng::of("C03run", seed, n);
    let mut v = vec![];
    let mut h = match lock::tame(|| Host::new(p, &Opts { seed: r.below(100) as i32, observe: true, ..Opts::default() })) {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return vec![(format!("load: {e}"), String::new())],
        Err(e) => return vec![(format!("PANIC load: {e}"), String::new())],
    };
    let m = mix(n);
    for _ in 0..len {
        let Some(op) = lock::random_op(&mut r, &mut h, p, &m) else { break };
        let mut t = format!("{op:?}\n");
        t.push_str(&lock::step(&mut h, p, &op));
        // notifications of different variables are not ordered by the property
        let mut obs: Vec<String> = h.obs.borrow_mut().drain(..).collect();
        obs.sort();
        for o in obs {
            t.push_str(&format!("obs {o}\n"));
        }
        for c in h.calls.borrow_mut().drain(..) {
            t.push_str(&format!("{c}\n"));
        }
        let save = match lock::tame(|| h.story.save_state().map_err(|e| e.to_string())) {
            Ok(Ok(s)) => canon(&s),
            Ok(Err(e)) => format!("save error {e}"),
            Err(m) => format!("PANIC {m}"),
        };
        let stop = t.contains("PANIC ");
        v.push((t, save));
        if stop {
            break;
        }
    }
    v
}

fn compare(a: &[(String, String)], b: &[(String, String)]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some(d) = diff(&x.0, &y.0) {
            return Some(format!("after op {i}: {d}"));
        }
        if let Some(d) = save_diff(&x.1, &y.1) {
            return Some(format!("save after op {i}: {d}"));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} vs {} operations", a.len(), b.len()));
    }
    None
}

fn compile(src: &str) -> String {
    match guard::guarded(|| corpus::compile(src)) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) => format!("error {e}"),
        Err(e) => format!("{e:?}"),
    }
}

impl C03 {
    fn prog(&self, n: u64, r: &mut Rng, out: &mut Out) -> Option<(Prog, String)> {
        if n % 3 == 0 && !self.pool.fixed.is_empty() {
            out.count("programs_fixed");
            let p = self.pool.fixed[(n / 3) as usize % self.pool.fixed.len()].clone();
            let src = p.src.clone();
            return Some((p, src));
        }
        let f = Feat::random(r, Feat { lists: true, random: true, ..Feat::rich() });
        let src = ast::print(&Gen::new(r.fork(), f).program());
        let js = compile(&src);
        if !js.starts_with('{') {
            out.count("no_verdict_compile");
            return None;
        }
        out.count("programs_generated");
        Some((Prog::from_json(&format!("generated {n}"), &src, &js), src))
    }
    fn len(&self) -> usize {
        if self.cfg.thorough() { 30 } else { 14 }
    }
}

impl Check for C03 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C03", self.cfg.seed, n);
        let Some((p, src)) = self.prog(n, &mut r, out) else { return };
        // compilation
        let first = compile(&src);
        for _ in 0..3 {
            out.eval();
            out.count("compiles");
            let again = compile(&src);
            if again != first {
                let d = save_diff(&canon(&first), &canon(&again)).unwrap_or_else(|| "same value, different bytes".into());
                out.violation(format!("compile differs: {}", p.name), format!("two compilations of one source differ: {d}"), json!({"source": src}));
                return;
            }
        }
        // play
        let len = self.len();
        let seed = self.cfg.seed;
        let mut a = vec![];
        let mut bad = None;
        super::case(600_000, out, |o| {
            a = run(&p, n, seed, len);
            for k in 0..3 {
                // noise between the runs
                let junk: Vec<String> = (0..k * 7).map(|i| format!("junk {i}")).collect();
                let b = run(&p, n, seed, len);
                drop(junk);
                o.eval();
                o.add("replayed_ops", b.len() as u64);
                if let Some(d) = compare(&a, &b) {
                    bad = Some(("two runs in one process differ", d));
                    break;
                }
            }
        });
        if bad.is_none() && !a.is_empty() {
            if let Ok(exe) = std::env::var("VPH_RELEASE") {
                let cfg = self.cfg.clone();
                let h = self.helper.get_or_insert_with(|| Helper::start(&exe, &cfg));
                match h.ask(&json!({"n": n, "src": src, "json": p.json, "name": p.name, "len": len})) {
                    Ok(v) if v["fuel"] == true => out.count("no_verdict_fuel"),
                    Ok(v) => {
                        out.eval();
                        out.count("other_process_runs");
                        let js = v["compiled"].as_str().unwrap_or("?");
                        if js != first {
                            bad = Some(("two processes compile differently", save_diff(&canon(&first), &canon(js)).unwrap_or_else(|| "bytes".into())));
                        }
                        let b: Vec<(String, String)> = serde_json::from_value(v["run"].clone()).unwrap_or_default();
                        if let Some(d) = compare(&a, &b) {
                            bad = Some(("two processes play differently", d));
                        }
                    }
                    Err(e) => {
                        eprintln!("release helper: {e}");
                        out.count("no_verdict_helper");
                    }
                }
            }
        }
        let ops: Vec<&str> = a.iter().map(|x| x.0.lines().next().unwrap_or("")).collect();
        if let Some((what, d)) = bad {
            out.violation(format!("{what}: {}", p.name), format!("{what}: {d}"), json!({"program": p.name, "source": src, "history": ops, "what": d}));
            return;
        }
        let all: String = a.iter().map(|x| x.0.as_str()).collect();
        out.nontrivial(hash64(&p.json) ^ hash64(&all));
        out.sample(json!({"program": p.name, "source": src, "history": ops}));
    }
    fn serve(&mut self, q: &Value) -> Value {
        let src = q["src"].as_str().unwrap_or("");
        let n = q["n"].as_u64().unwrap_or(0);
        let compiled = compile(src);
        let p = Prog::from_json(q["name"].as_str().unwrap_or(""), src, q["json"].as_str().unwrap_or(""));
        let (seed, len) = (self.cfg.seed, q["len"].as_u64().unwrap_or(1) as usize);
        match guard::fueled(600_000, || run(&p, n, seed, len)) {
            Ok(v) => json!({"compiled": compiled, "run": v}),
            Err(_) => json!({"fuel": true}),
        }
    }
}
