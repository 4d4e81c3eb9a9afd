//! C05: this compiler's story and the reference compiler's story play alike along every choice path.
use crate::corpus::{self, Entry};
use crate::guard;
use crate::host::{Host, Opts, Prog, diff};
use crate::lock;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use serde_json::json;
use std::collections::BTreeSet;

pub fn def() -> Def {
    Def {
        id: "C05",
        rule: "a choice path of a corpus story played on the Rust-compiled and on the reference-compiled document with the same seed; distinct by story and path",
        assumptions: &["stories that shuffle are compared as sets of transcripts over many seeds (shuffle order depends on container paths)", "paths are bounded in depth and number (per-story counts under observed)"],
        make: |c| {
            let v: Vec<Entry> = corpus::entries().into_iter().filter(|e| e.reference.is_some()).collect();
            Box::new(C05 { cfg: c.clone(), v, cache: None })
        },
        budget: (60, 900),
        hang_is_violation: false,
        stall: 120,
        crash_is_violation: false,
    }
}

struct C05 {
    cfg: Cfg,
    v: Vec<Entry>,
    cache: Option<(usize, Prog, Prog)>,
}

fn host(p: &Prog, seed: i32) -> Result<Host, String> {
    Host::new(p, &Opts { seed, ..Opts::default() })
}

/// Transcript of a whole path, and the number of choices at its end.
fn play(p: &Prog, seed: i32, path: &[usize]) -> (String, usize) {
    let mut h = match host(p, seed) {
        Ok(h) => h,
        Err(e) => return (format!("load {e}"), 0),
    };
    let mut s = match lock::tame(|| h.run_turn(300)) {
        Ok(t) => t,
        Err(m) => return (format!("PANIC {m}"), 0),
    };
    for i in path {
        s.push_str(&format!("> {i}\n"));
        match lock::tame(|| h.story.choose_choice_index(*i)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                s.push_str(&format!("refused {e}\n"));
                return (s, 0);
            }
            Err(m) => return (format!("PANIC {m}"), 0),
        }
        match lock::tame(|| h.run_turn(300)) {
            Ok(t) => s.push_str(&t),
            Err(m) => return (format!("PANIC {m}"), 0),
        }
    }
    let n = h.n_choices();
    for g in &p.globals {
        s.push_str(&format!("var {g}={}\n", crate::host::show_opt(h.story.get_variable(g))));
    }
    // counts of knots and stitches are host-visible too
    (s, n)
}

impl C05 {
    fn pair(&mut self, i: usize) -> Option<(Prog, Prog)> {
        if let Some((k, a, b)) = &self.cache {
            if *k == i {
                return Some((a.clone(), b.clone()));
            }
        }
        let e = &self.v[i];
        let js = match guard::guarded(|| corpus::compile_entry(e)) {
            Ok(Ok(j)) => j,
            Ok(Err(m)) => return Some((Prog { name: m, ..Default::default() }, Prog::default())),
            Err(m) => return Some((Prog { name: format!("{m:?}"), ..Default::default() }, Prog::default())),
        };
        let mut a = Prog::from_json(&e.name, &e.src, &js);
        let mut b = Prog::from_json(&e.name, &e.src, e.reference.as_ref().unwrap());
        a.externals.extend(b.externals.clone());
        a.externals.sort();
        a.externals.dedup_by(|x, y| x.0 == y.0);
        b.externals = a.externals.clone();
        // the variables of the reference are the ones compared
        a.globals = b.globals.clone();
        self.cache = Some((i, a.clone(), b.clone()));
        Some((a, b))
    }
}

impl Check for C05 {
    fn total(&self) -> u64 {
        // first pass: breadth-first; later passes: random deep walks
        self.v.len() as u64 * if self.cfg.thorough() { 200 } else { 12 }
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let i = (n % self.v.len() as u64) as usize;
        let pass = n / self.v.len() as u64;
        let name = self.v[i].name.clone();
        let src = self.v[i].src.clone();
        let Some((a, b)) = self.pair(i) else { return };
        if a.json.is_empty() {
            out.eval();
            out.violation(format!("does not compile: {name}"), format!("{name}: {}", a.name), json!({"source": src}));
            return;
        }
        let shuffles = b.json.contains("\"seq\"") || a.json.contains("\"seq\"");
        let mut fail = |out: &mut Out, path: &[usize], d: String| {
            out.violation(format!("{name} along {path:?}"), format!("{name} along {path:?} (left: this compiler, right: reference): {d}"), json!({"program": name, "source": src, "path": path, "what": d}));
        };
        if pass == 0 {
            if load_state_ok(&a).is_err() != load_state_ok(&b).is_err() {
                fail(out, &[], format!("{:?} vs {:?}", load_state_ok(&a), load_state_ok(&b)));
                return;
            }
        }
        let r = guard::fueled(if self.cfg.thorough() { 200_000_000 } else { 20_000_000 }, || {
            if shuffles {
                let seeds = if self.cfg.thorough() { 600 } else { 160 };
                let mut queue = vec![vec![]];
                let mut k = 0;
                let cap = if pass > 0 { 0 } else { 12 };
                while let Some(path) = queue.pop() {
                    k += 1;
                    if k > cap {
                        break;
                    }
                    let mut xs = BTreeSet::new();
                    let mut ys = BTreeSet::new();
                    let mut most = 0;
                    for s in 0..seeds {
                        let (x, nx) = play(&a, s, &path);
                        let (y, _) = play(&b, s, &path);
                        most = most.max(nx);
                        xs.insert(x);
                        ys.insert(y);
                    }
                    out.eval();
                    out.count("shuffle_sets");
                    out.add("shuffle_transcripts", xs.len() as u64);
                    // sets are complete only when small against the number of seeds
                    if (xs.len() as i32) < seeds / 8 && (ys.len() as i32) < seeds / 8 {
                        if xs != ys {
                            let d = xs.symmetric_difference(&ys).next().cloned().unwrap_or_default();
                            fail(out, &path, format!("only one of them can show: {d}"));
                            break;
                        }
                    } else {
                        // too many orders: compare the lines regardless of order
                        let bag = |s: &BTreeSet<String>| s.iter().flat_map(|t| t.lines().map(|l| l.to_string()).collect::<Vec<_>>()).collect::<BTreeSet<String>>();
                        if bag(&xs) != bag(&ys) {
                            let d = bag(&xs).symmetric_difference(&bag(&ys)).next().cloned().unwrap_or_default();
                            fail(out, &path, format!("only one of them can show the line {d}"));
                            break;
                        }
                    }
                    out.nontrivial(hash64(&name) ^ hash64(&format!("{path:?}")));
                    if path.len() < 4 {
                        for c in 0..most {
                            let mut q = path.clone();
                            q.push(c);
                            queue.insert(0, q);
                        }
                    }
                }
            } else if pass == 0 {
                let cap = if self.cfg.thorough() { 20_000 } else { 500 };
                let depth = if self.cfg.thorough() { 14 } else { 9 };
                let mut queue = std::collections::VecDeque::from([vec![]]);
                let mut k = 0;
                while let Some(path) = queue.pop_front() {
                    k += 1;
                    if k > cap {
                        out.count("stories_cut_at_cap");
                        break;
                    }
                    let (x, nx) = play(&a, 42, &path);
                    let (y, _) = play(&b, 42, &path);
                    out.eval();
                    out.count("paths");
                    if let Some(d) = diff(&x, &y) {
                        fail(out, &path, d);
                        break;
                    }
                    out.nontrivial(hash64(&name) ^ hash64(&format!("{path:?}")));
                    out.sample(json!({"story": name, "path": path, "transcript": x}));
                    if path.len() < depth {
                        for c in 0..nx {
                            let mut q = path.clone();
                            q.push(c);
                            queue.push_back(q);
                        }
                    }
                }
            } else {
                // deep random walks, in lockstep; also jumps to every knot
                let mut r = Rng::of("C05", self.cfg.seed, n);
                let seed = r.below(1000) as i32;
                let (Ok(mut x), Ok(mut y)) = (host(&a, seed), host(&b, seed)) else { return };
                let mut path = vec![];
                let mut turns = 0;
                loop {
                    let tx = lock::tame(|| x.run_turn(300)).unwrap_or_else(|m| format!("PANIC {m}"));
                    let ty = lock::tame(|| y.run_turn(300)).unwrap_or_else(|m| format!("PANIC {m}"));
                    out.eval();
                    out.count("walk_turns");
                    if let Some(d) = diff(&tx, &ty) {
                        fail(out, &path, d);
                        break;
                    }
                    for g in &b.globals {
                        let (p, q) = (crate::host::show_opt(x.story.get_variable(g)), crate::host::show_opt(y.story.get_variable(g)));
                        if p != q {
                            fail(out, &path, format!("variable {g}: {p} vs {q}"));
                            return;
                        }
                    }
                    out.nontrivial(hash64(&name) ^ hash64(&format!("{path:?}{seed}")));
                    let k = y.n_choices();
                    turns += 1;
                    if k == 0 || turns > 60 || tx.contains("PANIC") {
                        break;
                    }
                    let c = r.below(k);
                    path.push(c);
                    let (p, q) = (x.story.choose_choice_index(c).is_ok(), y.story.choose_choice_index(c).is_ok());
                    if p != q {
                        fail(out, &path, "choice refused by one".into());
                        break;
                    }
                }
            }
        });
        match r {
            Ok(()) => {}
            Err(guard::Caught::Fuel) => out.count("no_verdict_fuel"),
            Err(guard::Caught::Panic(m)) => { eprintln!("escaped panic {m}"); out.count("escaped_panic") }
        }
    }
}

fn load_state_ok(p: &Prog) -> Result<(), String> {
    Host::new(p, &Opts::default()).map(|_| ())
}
