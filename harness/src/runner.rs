//! Parent/worker orchestration: sharding, crash and hang attribution, evidence.
use crate::guard;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Cfg {
    pub id: String,
    pub tier: String,
    pub seed: u64,
}
impl Cfg {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

#[derive(Default)]
pub struct Out {
    pub evals: u64,
    pub nontrivial: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Value>,
    pub sample: Option<Value>,
}
impl Out {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial.push(h);
    }
    /// `sig` identifies the specific failing input or call site (known findings match on it).
    pub fn violation(&mut self, sig: impl Into<String>, message: impl Into<String>, detail: Value) {
        if self.violations.len() < 8 {
            self.violations.push(json!({"sig": sig.into(), "message": message.into(), "detail": detail}));
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.sample.is_none() {
            self.sample = Some(v);
        }
    }
}

pub trait Check {
    fn total(&self) -> u64;
    fn run_case(&mut self, n: u64, out: &mut Out);
    /// A value that a differently built binary computes for the same case.
    fn serve(&mut self, _req: &Value) -> Value {
        Value::Null
    }
}

pub struct Def {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub make: fn(&Cfg) -> Box<dyn Check>,
    /// seconds of work per worker: (quick, thorough)
    pub budget: (u64, u64),
    /// a hang is a violation of the property itself
    pub hang_is_violation: bool,
    /// seconds a case may take before it is taken out
    pub stall: u64,
    /// an abort/signal/stack overflow is a violation of this property
    pub crash_is_violation: bool,
}

pub fn case_out_json(out: &Out) -> Value {
    json!({"e": out.evals, "t": out.nontrivial, "c": out.counters, "v": out.violations, "s": out.sample})
}

pub fn worker(def: &Def, cfg: &Cfg, shard: u64, shards: u64, from: u64, budget_ms: u64, only: Option<u64>) {
    guard::install_hook();
    let start = Instant::now();
    let mut check = (def.make)(cfg);
    let total = check.total();
    let stdout = std::io::stdout();
    let mut n = from;
    if let Some(o) = only {
        n = o;
    }
    while n < total {
        if only.is_none() && n % shards != shard {
            n += 1;
            continue;
        }
        if only.is_none() && start.elapsed().as_millis() as u64 > budget_ms {
            break;
        }
        {
            let mut o = stdout.lock();
            let _ = writeln!(o, "B {n}");
            let _ = o.flush();
        }
        let mut out = Out::default();
        let r = guard::guarded(|| check.run_case(n, &mut out));
        bladeink::story::vp_hooks::set_fuel(u64::MAX);
        match r {
            Ok(()) => {}
            Err(guard::Caught::Fuel) => out.count("no_verdict_fuel"),
            Err(guard::Caught::Panic(m)) => {
                if m.starts_with("src/") || m.contains("/verif/harness") {
                    out.violations.clear();
                    out.count("harness_panic");
                    eprintln!("harness panic in case {n}: {m}");
                } else {
                    out.count("escaped_panic");
                    eprintln!("escaped panic in case {n}: {m}");
                    if def.crash_is_violation {
                        out.violation(format!("panic {m}"), format!("panic: {m}"), json!({"case": n}));
                    }
                }
            }
        }
        {
            let mut o = stdout.lock();
            let _ = writeln!(o, "E {n} {}", case_out_json(&out));
            let _ = o.flush();
        }
        if only.is_some() {
            break;
        }
        n += 1;
    }
    let mut o = stdout.lock();
    let _ = writeln!(o, "D {}", if n >= total { 1 } else { 0 });
    let _ = o.flush();
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

struct W {
    child: Child,
    inflight: Option<(u64, Instant)>,
    done: bool,
    deadline: Instant,
    shard: u64,
    generation: usize,
    last: u64,
}

fn spawn(cfg: &Cfg, shard: u64, shards: u64, from: u64, budget_ms: u64, only: Option<u64>, slot: usize, tx: &mpsc::Sender<Msg>) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.args(["worker", &cfg.id, &cfg.tier, &cfg.seed.to_string(), &shard.to_string(), &shards.to_string(), &from.to_string(), &budget_ms.to_string()]);
    if let Some(o) = only {
        cmd.arg(o.to_string());
    }
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = cmd.spawn().expect("spawn worker");
    let so = child.stdout.take().unwrap();
    let se = child.stderr.take().unwrap();
    let tx1 = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx1.send(Msg::Line(slot, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx1.send(Msg::Eof(slot));
    });
    std::thread::spawn(move || {
        for l in BufReader::new(se).lines().map_while(Result::ok).take(2000) {
            eprintln!("[w{shard}] {}", l.chars().take(400).collect::<String>());
        }
    });
    child
}

#[derive(Default)]
pub struct Total {
    pub evals: u64,
    pub cases: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(u64, Value)>,
    pub samples: Vec<Value>,
    pub exhausted: bool,
}

fn absorb(t: &mut Total, n: u64, v: &Value) {
    t.cases += 1;
    t.evals += v["e"].as_u64().unwrap_or(0);
    for h in v["t"].as_array().into_iter().flatten() {
        if let Some(h) = h.as_u64() {
            t.nontrivial.insert(h);
        }
    }
    if let Some(m) = v["c"].as_object() {
        for (k, x) in m {
            let x = x.as_u64().unwrap_or(0);
            let e = t.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") { *e = (*e).max(x) } else { *e += x }
        }
    }
    for x in v["v"].as_array().into_iter().flatten() {
        t.violations.push((n, x.clone()));
    }
    if !v["s"].is_null() && (t.samples.len() < 3 || (t.samples.len() < 6 && n % 7 == 0)) {
        t.samples.push(v["s"].clone());
    }
}

fn describe_status(st: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(s) => format!("signal {s}"),
        None => format!("exit code {}", st.code().unwrap_or(-1)),
    }
}

/// Runs one case alone in a fresh process. Ok(json) or Err(how it ended).
fn run_alone(cfg: &Cfg, n: u64, limit: Duration) -> Result<Value, String> {
    let (tx, rx) = mpsc::channel();
    let mut child = spawn(cfg, 0, 1, n, u64::MAX / 4, Some(n), 0, &tx);
    let start = Instant::now();
    let mut res = None;
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(_, l)) => {
                if let Some(rest) = l.strip_prefix("E ") {
                    if let Some((_, js)) = rest.split_once(' ') {
                        res = serde_json::from_str(js).ok();
                    }
                }
            }
            Ok(Msg::Eof(_)) => break,
            Err(_) => {
                if start.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err("timeout".into());
                }
            }
        }
    }
    let st = child.wait().unwrap();
    match res {
        Some(v) => Ok(v),
        None => Err(describe_status(st)),
    }
}

fn known_findings() -> Vec<Value> {
    let p = std::env::var("VPH_KNOWN").unwrap_or_else(|_| "/verif/known_findings.json".into());
    match std::fs::read_to_string(p) {
        Ok(s) => serde_json::from_str::<Value>(&s).ok().and_then(|v| v["findings"].as_array().cloned()).unwrap_or_default(),
        Err(_) => vec![],
    }
}

pub fn check(def: &Def, cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let shards: u64 = std::env::var("VPH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut budget = if cfg.thorough() { def.budget.1 } else { def.budget.0 };
    if let Some(b) = std::env::var("VPH_BUDGET").ok().and_then(|s| s.parse().ok()) {
        budget = b;
    }
    let budget_ms = budget * 1000;
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = Vec::new();
    let mut t = Total { exhausted: true, ..Default::default() };
    let mut crashed: Vec<(u64, String)> = Vec::new();
    let mut slots: Vec<usize> = Vec::new(); // slot -> worker index
    for s in 0..shards {
        let slot = slots.len();
        slots.push(s as usize);
        let child = spawn(cfg, s, shards, 0, budget_ms, None, slot, &tx);
        ws.push(W { child, inflight: None, done: false, deadline: Instant::now() + Duration::from_millis(budget_ms), shard: s, generation: slot, last: 0 });
    }
    let mut stop_on_violations = false;
    while ws.iter().any(|w| !w.done) {
        let msg = rx.recv_timeout(Duration::from_millis(250));
        match msg {
            Ok(Msg::Line(slot, l)) => {
                let wi = slots[slot];
                let w = &mut ws[wi];
                if w.generation != slot {
                    continue;
                }
                if let Some(n) = l.strip_prefix("B ") {
                    let n: u64 = n.parse().unwrap_or(0);
                    w.inflight = Some((n, Instant::now()));
                    w.last = n;
                } else if let Some(rest) = l.strip_prefix("E ") {
                    w.inflight = None;
                    if let Some((n, js)) = rest.split_once(' ') {
                        let n: u64 = n.parse().unwrap_or(0);
                        match serde_json::from_str::<Value>(js) {
                            Ok(v) => absorb(&mut t, n, &v),
                            Err(e) => eprintln!("bad worker line: {e}"),
                        }
                    }
                    if t.violations.len() > 60 {
                        stop_on_violations = true;
                    }
                } else if let Some(d) = l.strip_prefix("D ") {
                    w.done = true;
                    if d.trim() != "1" {
                        t.exhausted = false;
                    }
                }
            }
            Ok(Msg::Eof(slot)) => {
                let wi = slots[slot];
                if ws[wi].generation != slot {
                    continue;
                }
                let st = ws[wi].child.wait().unwrap();
                if !ws[wi].done {
                    let inflight = ws[wi].inflight.take();
                    let next = match inflight {
                        Some((n, _)) => {
                            crashed.push((n, describe_status(st)));
                            n + 1
                        }
                        None => {
                            eprintln!("worker {} ended unexpectedly: {}", ws[wi].shard, describe_status(st));
                            *t.counters.entry("worker_lost".into()).or_insert(0) += 1;
                            ws[wi].last + 1
                        }
                    };
                    restart(&mut ws[wi], wi, &mut slots, cfg, shards, next, &tx, crashed.len());
                }
            }
            Err(_) => {}
        }
        for wi in 0..ws.len() {
            if ws[wi].done {
                continue;
            }
            if let Some((n, since)) = ws[wi].inflight {
                if since.elapsed() > Duration::from_secs(def.stall) {
                    let _ = ws[wi].child.kill();
                    let _ = ws[wi].child.wait();
                    crashed.push((n, "timeout".into()));
                    restart(&mut ws[wi], wi, &mut slots, cfg, shards, n + 1, &tx, crashed.len());
                }
            }
        }
        if stop_on_violations {
            for w in ws.iter_mut() {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
            t.exhausted = false;
        }
    }
    // crashes and hangs: attribute by running the case alone
    let mut confirm = 0;
    for (n, how) in &crashed {
        *t.counters.entry(format!("case_{}", if how == "timeout" { "stalled" } else { "crashed" })).or_insert(0) += 1;
        eprintln!("case {n} of {}: {how}", cfg.id);
        if confirm >= 3 || !(if how == "timeout" { def.hang_is_violation } else { def.crash_is_violation }) {
            continue;
        }
        confirm += 1;
        let limit = if cfg.thorough() { 300 } else { 90 };
        match run_alone(cfg, *n, Duration::from_secs(limit)) {
            Ok(v) => absorb(&mut t, *n, &v),
            Err(h) if h == "timeout" => {
                if def.hang_is_violation {
                    t.violations.push((*n, json!({"sig": format!("hang case {n}"), "message": format!("no result within {limit} s"), "detail": {}})));
                }
            }
            Err(h) => {
                if def.crash_is_violation {
                    t.violations.push((*n, json!({"sig": format!("crash {h} case {n}"), "message": format!("process ended: {h}"), "detail": {}})));
                } else {
                    *t.counters.entry("no_verdict_crash".into()).or_insert(0) += 1;
                }
            }
        }
    }
    finish(def, cfg, t, t0)
}

fn restart(w: &mut W, wi: usize, slots: &mut Vec<usize>, cfg: &Cfg, shards: u64, next: u64, tx: &mpsc::Sender<Msg>, crashes: usize) {
    let left = w.deadline.saturating_duration_since(Instant::now());
    w.inflight = None;
    if left.as_millis() < 200 || crashes > 200 {
        w.done = true;
        return;
    }
    let slot = slots.len();
    slots.push(wi);
    w.generation = slot;
    w.child = spawn(cfg, w.shard, shards, next, left.as_millis() as u64, None, slot, tx);
}

fn finish(def: &Def, cfg: &Cfg, t: Total, t0: Instant) -> i32 {
    let verif = std::env::var("VPH_DIR").unwrap_or_else(|_| "/verif".into());
    let evdir = format!("{verif}/evidence");
    let _ = std::fs::create_dir_all(format!("{evdir}/replays"));
    let known = known_findings();
    let mut hit: BTreeMap<usize, u64> = BTreeMap::new();
    let mut fresh: Vec<(u64, Value)> = Vec::new();
    for (n, v) in &t.violations {
        let sig = v["sig"].as_str().unwrap_or("");
        let k = known.iter().position(|k| {
            k["property"] == cfg.id.as_str() && k["status"] == "known" && k["sig"].as_str().map(|s| s == sig).unwrap_or(false)
        });
        match k {
            Some(i) => *hit.entry(i).or_insert(0) += 1,
            None => fresh.push((*n, v.clone())),
        }
    }
    for (i, k) in known.iter().enumerate() {
        if k["property"] == cfg.id.as_str() && k["status"] == "known" {
            println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", cfg.id, k["what"].as_str().unwrap_or(""), hit.get(&i).copied().unwrap_or(0));
        }
    }
    let mut rc = 0;
    let mut seen_sig = HashSet::new();
    let mut reported = 0;
    for (n, v) in &fresh {
        let sig = v["sig"].as_str().unwrap_or("").to_string();
        if !seen_sig.insert(sig.clone()) {
            continue;
        }
        rc = 1;
        reported += 1;
        if reported > 10 {
            continue;
        }
        let path = format!("{evdir}/replays/{}-{}-{}.json", cfg.id, n, crate::rng::hash64(&sig) % 100000);
        let replay = json!({"property": cfg.id, "tier": cfg.tier, "seed": cfg.seed, "case": n, "sig": sig, "message": v["message"], "detail": v["detail"],
            "how": format!("./run.sh replay {} {} {} {}", cfg.id, cfg.tier, cfg.seed, n)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
        println!("VIOLATION property={} replay={}", cfg.id, path);
        println!("  {}: {}", sig, v["message"].as_str().unwrap_or("").chars().take(600).collect::<String>());
    }
    let hp = t.counters.get("harness_panic").copied().unwrap_or(0) + t.counters.get("worker_lost").copied().unwrap_or(0);
    let mut samples = t.samples.clone();
    samples.truncate(6);
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(t.evals));
    cov.insert("distinct_nontrivial".into(), json!(t.nontrivial.len()));
    cov.insert("rule".into(), json!(def.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("cases".into(), json!(t.cases));
    cov.insert("case_list_finished".into(), json!(t.exhausted));
    cov.insert("observed".into(), json!(t.counters));
    let ev = json!({"property": cfg.id, "tier": if cfg.thorough() {"thorough"} else {"quick"}, "seed": cfg.seed, "level": "exploration", "coverage": cov,
        "assumptions": def.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": seen_sig.len()});
    let _ = std::fs::write(format!("{evdir}/{}.json", cfg.id), serde_json::to_string_pretty(&ev).unwrap());
    println!("{} {}: {} cases, {} evaluations, {} distinct non-trivial, {} new violations, {:.1}s; {:?}", cfg.id, cfg.tier, t.cases, t.evals, t.nontrivial.len(), seen_sig.len(), t0.elapsed().as_secs_f64(), t.counters);
    if rc == 0 && (t.evals == 0 || (hp > 0 && hp * 5 > t.cases)) {
        eprintln!("the check could not do its work");
        return 2;
    }
    rc
}

/// A helper process of another build of this harness that computes `serve` replies.
pub struct Helper {
    child: Child,
    inp: std::process::ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    exe: String,
    cfg: Cfg,
}
impl Helper {
    pub fn start(exe: &str, cfg: &Cfg) -> Helper {
        let mut child = Command::new(exe)
            .args(["serve", &cfg.id, &cfg.tier, &cfg.seed.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("start helper {exe}: {e}"));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Helper { child, inp, out, exe: exe.into(), cfg: cfg.clone() }
    }
    pub fn ask(&mut self, req: &Value) -> Result<Value, String> {
        let ok = writeln!(self.inp, "{req}").and_then(|_| self.inp.flush());
        let mut line = String::new();
        if ok.is_ok() {
            let _ = self.out.read_line(&mut line);
        }
        if line.is_empty() {
            let st = self.child.wait().map(describe_status).unwrap_or_default();
            *self = Helper::start(&self.exe.clone(), &self.cfg.clone());
            return Err(st);
        }
        serde_json::from_str(&line).map_err(|e| e.to_string())
    }
}
impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn serve(def: &Def, cfg: &Cfg) {
    guard::install_hook();
    let mut check = (def.make)(cfg);
    for l in std::io::stdin().lock().lines().map_while(Result::ok) {
        let req: Value = match serde_json::from_str(&l) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let r = guard::guarded(|| check.serve(&req));
        bladeink::story::vp_hooks::set_fuel(u64::MAX);
        let v = match r {
            Ok(v) => v,
            Err(guard::Caught::Fuel) => json!({"fuel": true}),
            Err(guard::Caught::Panic(m)) => json!({"panic": m}),
        };
        println!("{v}");
        let _ = std::io::stdout().flush();
    }
}
