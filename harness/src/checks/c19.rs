//! C19: object paths resolve back to their objects; path text round trips; saved positions are exact.
use crate::checks::c02::merge;
use crate::r#gen::Feat;
use crate::guard;
use crate::host::{Host, Opts, Prog};
use crate::lock::{self, Mix};
use crate::paths::Doc;
use crate::pool::Pool;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use serde_json::{Value, json};

pub fn def() -> Def {
    Def {
        id: "C19",
        rule: "a loaded story whose every object was audited (path resolves to the object, text round trip, hash/equality, relative paths between pairs), and the positions in saves taken while playing it; distinct by story document",
        assumptions: &["pairs of objects are strided: all pairs for small stories, a spread of near and far pairs for larger ones"],
        make: |c| Box::new(C19 { cfg: c.clone(), pool: Pool::new(true) }),
        budget: (30, 600),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C19 {
    cfg: Cfg,
    pool: Pool,
}

impl Check for C19 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C19", self.cfg.seed, n);
        let Some((p, _)) = self.pool.pick(n, &mut r, Feat::rich(), out) else { return };
        audit(&p, &mut r, if self.cfg.thorough() { 60_000 } else { 12_000 }, out);
        let mut rr = r.fork();
        let mut o2 = Out::default();
        match guard::fueled(200_000, || positions(&p, &mut rr, &mut o2)) {
            Ok(()) => {}
            Err(guard::Caught::Fuel) => out.count("no_verdict_fuel"),
            Err(guard::Caught::Panic(m)) => { eprintln!("escaped panic {m}"); out.count("escaped_panic") }
        }
        merge(out, o2);
    }
}

fn audit(p: &Prog, r: &mut Rng, pairs: usize, out: &mut Out) {
    let Ok(h) = Host::new(p, &Opts { bind: false, ..Opts::default() }) else { return };
    let a = match lock::tame(|| h.story.vp_audit(pairs, r.below(1000))) {
        Ok(a) => a,
        Err(m) => {
            out.violation(format!("audit panics: {m}"), format!("{}: {m}", p.name), json!({"program": p.name, "source": p.src}));
            return;
        }
    };
    out.eval();
    out.add("objects", a.objects as u64);
    out.add("pairs", a.pairs as u64);
    out.add("relative_paths", a.relative_paths as u64);
    for (rule, path, d) in a.failures.iter().take(4) {
        out.violation(format!("{rule}: {} {path}", p.name), format!("{rule} fails for {path} in {}: {d}", p.name), json!({"program": p.name, "source": p.src, "path": path, "detail": d}));
    }
    out.nontrivial(hash64(&p.json));
    out.sample(json!({"program": p.name, "objects": a.objects, "pairs": a.pairs, "relative_paths": a.relative_paths}));
}

/// Positions in saves and choices resolve exactly, by an independent resolver over the document.
fn positions(p: &Prog, r: &mut Rng, out: &mut Out) {
    let Ok(doc) = serde_json::from_str::<Value>(&p.json) else { return };
    let Ok(d) = Doc::new(&doc) else { return };
    let Ok(mut h) = Host::new(p, &Opts::default()) else { return };
    for _ in 0..12 {
        let Some(op) = lock::random_op(r, &mut h, p, &Mix::rich()) else { break };
        let t = lock::step(&mut h, p, &op);
        if t.contains("PANIC ") {
            return;
        }
        let Ok(s) = h.story.save_state() else { return };
        let Ok(v) = serde_json::from_str::<Value>(&s) else { return };
        let mut bad = vec![];
        let mut seen = 0;
        walk(&v, &mut |k, o| {
            match k {
                "cPath" => {
                    seen += 1;
                    let path = o["cPath"].as_str().unwrap_or("");
                    match d.lookup(path) {
                        Some(len) => {
                            let i = o["idx"].as_i64().unwrap_or(-99);
                            if i < -1 || i > len as i64 {
                                bad.push(format!("index {i} outside {path:?} ({len} children)"));
                            }
                        }
                        None => bad.push(format!("call-stack path {path:?} does not resolve")),
                    }
                }
                "previousContentObject" | "originalChoicePath" | "targetPath" => {
                    seen += 1;
                    let path = o[k].as_str().unwrap_or("");
                    if d.lookup(path).is_none() {
                        bad.push(format!("{k} {path:?} does not resolve"));
                    }
                }
                _ => {}
            }
        });
        if let Some(m) = v["visitCounts"].as_object() {
            for k in m.keys() {
                seen += 1;
                if d.lookup(k).is_none() {
                    bad.push(format!("visit count of {k:?}: no such content"));
                }
            }
        }
        out.eval();
        out.add("saved_positions", seen);
        if let Some(b) = bad.first() {
            out.violation(format!("saved position: {} {b}", p.name), format!("{} after {op:?}: {b}", p.name), json!({"program": p.name, "source": p.src, "save": s}));
            return;
        }
    }
}

fn walk(v: &Value, f: &mut dyn FnMut(&str, &Value)) {
    match v {
        Value::Object(o) => {
            for k in o.keys() {
                f(k, v);
            }
            o.values().for_each(|x| walk(x, f));
        }
        Value::Array(a) => a.iter().for_each(|x| walk(x, f)),
        _ => {}
    }
}
