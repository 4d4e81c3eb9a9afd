//! C15: malformed stories and saves are refused, never crash; a failed load leaves a resettable story.
use crate::guard;
use crate::host::{Host, Opts, Prog, canon, diff, save_diff};
use crate::jsontext::{self, Style};
use crate::lock::{self, Mix, Op};
use crate::pool::Pool;
use crate::r#gen::Feat;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Helper, Out};
use bladeink::story::Story;
use serde_json::{Map, Number, Value, json};
use std::time::Instant;

pub fn def() -> Def {
    Def {
        id: "C15",
        rule: "one malformed document given to both story loaders, or one malformed save given to a story in play: Ok or Err, no panic, in time; after a refused load a reset and a play in lockstep with a fresh story; distinct by document",
        assumptions: &["a load that has not returned after the stall limit has hung"],
        make: |c| Box::new(C15 { cfg: c.clone(), pool: Pool::new(true), helper: None }),
        budget: (60, 900),
        hang_is_violation: true,
        stall: 45,
        crash_is_violation: true,
    }
}

struct C15 {
    cfg: Cfg,
    pool: Pool,
    helper: Option<Helper>,
}

const WORDS: &[&str] = &[
    "", "^", "\n", "^x", "<>", "ev", "/ev", "out", "pop", "~ret", "->->", "du", "str", "/str", "nop", "choiceCnt", "turn", "turns", "readc", "rnd", "srnd", "visit", "seq",
    "thread", "done", "end", "listInt", "range", "lrnd", "#", "/#", "void", "NaN", "L^", "+", "-", "/", "%", "_", "!", "?", "LIST_ALL", "LIST_INVERT", "POW", "FLOOR", "INT",
    "unknown", "é", ".", "..", ".^", ".^.^.^.^.^.^.^", ".^.0", "0", "-1", "99999999999999999999", "0.0.0", "global decl", "a.b", ".^.s", "k", "DEFAULT_FLOW",
    "^->", "^var", "ci", "->", "f()", "->t->", "x()", "var", "c", "exArgs", "*", "flg", "VAR?", "CNT?", "VAR=", "temp=", "re", "list", "origins", "#f", "#n",
    "originalChoicePath", "text", "index", "targetPath", "originalThreadIndex", "isInvisibleDefault", "tags", "inkVersion", "root", "listDefs", "flows", "callstack", "threads",
    "threadIndex", "threadCounter", "previousContentObject", "cPath", "idx", "exp", "type", "temp", "outputStream", "currentChoices", "choiceThreads", "variablesState",
    "evalStack", "visitCounts", "turnIndices", "turnIdx", "storySeed", "previousRandom", "inkSaveVersion", "inkFormatVersion", "currentFlowName", "currentDivertTarget",
];

fn scalar(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(r.pct(50)),
        2 | 3 => json!(*r.pick(&[0i64, 1, -1, 2, 3, 4, 7, 8, 255, 65536, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN])),
        4 => json!(*r.pick(&[0.5, -0.0, 1e10, 1e300, -1e39, 3.0, f64::MAX])),
        5 => json!(u64::MAX),
        _ => json!(*r.pick(WORDS)),
    }
}

fn any(r: &mut Rng, depth: usize) -> Value {
    if depth > 3 || r.pct(60) {
        return scalar(r);
    }
    if r.pct(50) {
        Value::Array((0..r.below(4)).map(|_| any(r, depth + 1)).collect())
    } else {
        Value::Object((0..r.below(4)).map(|_| (r.pick(WORDS).to_string(), any(r, depth + 1))).collect())
    }
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}

fn nth<'a>(v: &'a mut Value, k: &mut usize) -> Option<&'a mut Value> {
    if *k == 0 {
        return Some(v);
    }
    *k -= 1;
    match v {
        Value::Array(a) => a.iter_mut().find_map(|x| nth(x, k)),
        Value::Object(o) => o.values_mut().find_map(|x| nth(x, k)),
        _ => None,
    }
}

fn pick_node<'a>(v: &'a mut Value, r: &mut Rng) -> &'a mut Value {
    let c = count(v);
    // prefer the outer structure sometimes: it is a small part of a large document
    let mut k = if r.pct(25) { r.below(c.min(60)) } else { r.below(c) };
    // nth cannot fail: k < c
    let p = v as *mut Value;
    nth(v, &mut k).unwrap_or_else(|| unsafe { &mut *p })
}

fn deep(r: &mut Rng, n: usize) -> Value {
    let mut v = scalar(r);
    let obj = r.pct(30);
    for _ in 0..n {
        v = if obj { json!({"s": [v, null]}) } else { json!([v, null]) };
    }
    v
}

/// Changes one place of a value.
fn mutate(doc: &mut Value, r: &mut Rng) -> &'static str {
    let donor = {
        let mut d = doc.clone();
        pick_node(&mut d, r).clone()
    };
    let node = pick_node(doc, r);
    match r.below(14) {
        0 | 1 => {
            *node = scalar(r);
            "scalar"
        }
        2 => {
            *node = any(r, 0);
            "subtree"
        }
        3 => {
            *node = donor;
            "donor"
        }
        4 => {
            let n = *r.pick(&[1, 5, 20, 40, 60, 61, 62, 63]);
            *node = deep(r, n);
            "deep"
        }
        5 => {
            *node = json!([]);
            "empty array"
        }
        6 => {
            *node = json!({});
            "empty object"
        }
        _ => match node {
            Value::Object(o) if !o.is_empty() => {
                let k = o.keys().nth(r.below(o.len())).unwrap().clone();
                match r.below(5) {
                    0 | 1 => {
                        o.remove(&k);
                        "missing key"
                    }
                    2 => {
                        let v = o.remove(&k).unwrap();
                        o.insert(r.pick(WORDS).to_string(), v);
                        "renamed key"
                    }
                    3 => {
                        o.insert(r.pick(WORDS).to_string(), donor);
                        "extra key"
                    }
                    _ => {
                        o.insert(k, any(r, 0));
                        "value of a key"
                    }
                }
            }
            Value::Array(a) if !a.is_empty() => {
                let i = r.below(a.len());
                match r.below(5) {
                    0 | 1 => {
                        a.remove(i);
                        "removed element"
                    }
                    2 => {
                        a.insert(i, any(r, 0));
                        "extra element"
                    }
                    3 => {
                        let j = r.below(a.len());
                        a.swap(i, j);
                        "swapped elements"
                    }
                    _ => {
                        a.truncate(i);
                        "truncated array"
                    }
                }
            }
            Value::Number(n) => {
                *n = match r.below(8) {
                    0 => Number::from(i32::MAX),
                    1 => Number::from(i32::MIN),
                    2 => Number::from(i64::MAX),
                    3 => Number::from(-1),
                    4 => Number::from(n.as_i64().unwrap_or(0).wrapping_add(1)),
                    5 => Number::from(n.as_i64().unwrap_or(0).wrapping_sub(1)),
                    6 => Number::from_f64(0.5).unwrap(),
                    _ => Number::from(r.below(100)),
                };
                "number"
            }
            Value::String(s) => {
                match r.below(6) {
                    0 => s.clear(),
                    1 => {
                        s.pop();
                    }
                    2 => s.push_str(*r.pick(&[".0", ".^", ".", "é", " ", ".99", "0"])),
                    3 if !s.is_empty() => {
                        let i = (0..=s.len()).rev().find(|i| *i <= s.len() / 2 && s.is_char_boundary(*i)).unwrap_or(0);
                        s.truncate(i);
                    }
                    4 => s.insert_str(0, *r.pick(&[".", "^", ".^.", "-", "0.", "#"])),
                    _ => *s = r.pick(WORDS).to_string(),
                }
                "string"
            }
            _ => {
                *node = scalar(r);
                "scalar"
            }
        },
    }
}

fn cut(s: &str, i: usize) -> usize {
    let mut i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn mutate_text(s: &str, r: &mut Rng) -> String {
    let (a, b) = {
        let x = cut(s, r.below(s.len() + 1));
        let y = cut(s, x + r.below(12));
        (x, y.max(x))
    };
    match r.below(6) {
        0 | 1 => s[..a].to_string(),
        2 => format!("{}{}", &s[..a], &s[b..]),
        3 => format!("{}{}{}", &s[..b], &s[a..b], &s[b..]),
        4 => {
            let bad = *r.pick(&["\"", "\\", "{", "}", "[", "]", ",", ":", "\u{0}", "\u{1}", "é", "\\u", "\\uD800", "\\uD83D\\u0041", "\\x", "-", "+", ".", "e", "0", "null", "nan", "Infinity", "\u{feff}", " ", "//", "1e999", "00", "tru"]);
            format!("{}{}{}", &s[..a], bad, &s[if r.pct(50) { a } else { b }..])
        }
        _ => format!("{}{}", s, *r.pick(&["x", "}", "]", ",", "null", " \u{0}", "\u{feff}", "{}"])),
    }
}

fn arbitrary(n: u64, r: &mut Rng) -> String {
    let many = *r.pick(&[126usize, 127, 128, 129, 1000, 100_000]);
    match n % 20 {
        0 => String::new(),
        1 => r.pick(&[" ", "\n", "[]", "{}", "null", "0", "\"\"", "{", "[", "\"", "-", "{\"", "{\"inkVersion\"", "{\"inkVersion\":", "{\"inkVersion\":21", "{\"inkVersion\":21,", "true", "\u{feff}{}", "{\"inkVersion\":21,\"root\"", "\\", "{\"inkVersion\":\"21\"}", "{\"inkVersion\":21,\"root\":[],\"listDefs\":{}}", "{\"inkVersion\":21,\"root\":[null],\"listDefs\":{}}", "{\"inkVersion\":21,\"root\":null,\"listDefs\":{}}", "{\"inkVersion\":21,\"root\":{},\"listDefs\":{}}", "{\"inkVersion\":21,\"root\":[[\"\",null],null],\"listDefs\":{}}", "{\"inkVersion\":21,\"root\":[null],\"listDefs\":[]}", "{\"inkVersion\":21,\"root\":[null],\"listDefs\":{\"a\":1}}", "{\"inkVersion\":1e999,\"root\":[null],\"listDefs\":{}}", "{\"inkVersion\":20.5,\"root\":[null],\"listDefs\":{}}"]).to_string(),
        2 => "[".repeat(many),
        3 => "{\"a\":".repeat(many),
        4 => format!("{{\"inkVersion\":21,\"root\":{}null{},\"listDefs\":{{}}}}", "[".repeat(many), "]".repeat(many)),
        5 => format!("{{\"inkVersion\":21,\"root\":{}null{},\"listDefs\":{{}}}}", "[".repeat(many), ",null]".repeat(many)),
        6 => format!("{{\"inkVersion\":21,\"root\":[{}[null]{},null],\"listDefs\":{{}}}}", "[\"^a\",{\"s\":".repeat(many / 2), "}]".repeat(many / 2)),
        7 => format!("{{\"x\":{},\"inkVersion\":21,\"root\":[null],\"listDefs\":{{}}}}", "[".repeat(many)),
        8 => format!("{{\"inkVersion\":{},\"root\":[null],\"listDefs\":{{}}}}", "9".repeat(many.min(5000))),
        9 => format!("{{\"inkVersion\":21,\"root\":[{{\"->\":\"{}\"}},null],\"listDefs\":{{}}}}", ".^".repeat(many)),
        10 => format!("{{\"inkVersion\":21,\"root\":[\"^{}", "é".repeat(many)),
        11 | 12 => jsontext::text(&any(r, 0), &Style::random(r), r),
        13 => (0..r.below(40)).map(|_| *r.pick(&["{", "}", "[", "]", "\"", ":", ",", "a", "1", "null", "\\", " ", "é", "-", "."])).collect(),
        // documents whose declarations never end, or name themselves
        14 => {
            let g = *r.pick(&[
                r#"["ev",{"->":"global decl"},null]"#,
                r#"["ev",{"f()":"global decl"},"end",null]"#,
                r#"["ev",{"->t->":"global decl"},"end",null]"#,
                r#"["ev","thread",{"->":"global decl"},"end",null]"#,
                r#"["ev","str",{"->":"global decl"},"end",null]"#,
                r#"["ev",1,0,"/","end",null]"#,
                r#"["ev",1,2147483647,"seq","end",null]"#,
                r#"["visit","du","du","pop","pop","pop","pop",null]"#,
                r#"["/ev","/str","/#","out","~ret","->->",null]"#,
                r#"["ev",{"^var":"x","ci":5},{"VAR=":"y"},{"VAR?":"y"},"out","end",null]"#,
                r#"["ev",{"^var":"x"},{"VAR=":"x"},{"VAR?":"x"},"out","end",null]"#,
                r#"["ev",{"^var":"y"},{"VAR=":"x"},{"^var":"x"},{"VAR=":"y"},{"VAR?":"x"},"out",1,{"VAR=":"x","re":true},"end",null]"#,
                r#"["ev",1,"listInt","end",null]"#,
                r#"["ev","^a",1,"listInt","out","end",null]"#,
                r#"["ev",{"list":{"A.a":1}},-2147483648,"-","out",{"list":{"A.a":1}},2147483647,"+","out","end",null]"#,
                r#"["ev",{"list":{"A.a":1}},2147483647,-2147483648,"range","out","end",null]"#,
                r#"["ev",2147483647,-2147483648,"rnd","out","end",null]"#,
                r#"["ev",{"x()":"f","exArgs":18446744073709551615},"end",null]"#,
                r#"["ev",{"x()":"f","exArgs":1000000000000},"end",null]"#,
                r#"["ev",{"->":"x","var":true},"end",null]"#,
                r#"[{"*":".^.^.^.^.c","flg":31},"choiceCnt","turn","turns","readc","end",null]"#,
                r#"["ev","str","^a","/str",{"*":"","flg":255},"end",null]"#,
                r#"["ev",{"CNT?":"nowhere"},{"CNT?":""},"out","end",null]"#,
                r#"["ev",{"^->":"global decl"},"turns",{"^->":""},"readc","end",null]"#,
            ]);
            format!("{{\"inkVersion\":21,\"root\":[[\"^a\",null],\"done\",{{\"global decl\":{g},\"#f\":7}}],\"listDefs\":{{\"A\":{{\"a\":1}}}}}}")
        }
        15 => {
            let mut o = Map::new();
            for k in ["inkVersion", "root", "listDefs"] {
                if r.pct(80) {
                    o.insert(k.into(), match r.below(3) {
                        0 => any(r, 0),
                        _ => match k {
                            "inkVersion" => json!(21),
                            "root" => json!([any(r, 0), any(r, 0), null]),
                            _ => json!({"L": any(r, 1)}),
                        },
                    });
                }
            }
            Value::Object(o).to_string()
        }
        // a straight line of declarations that doubles a string
        16 => {
            let k = *r.pick(&[10usize, 20, 40, 70]);
            format!("{{\"inkVersion\":21,\"root\":[[\"^a\",null],\"done\",{{\"global decl\":[\"ev\",\"str\",\"^abcd\",\"/str\",{}{{\"VAR=\":\"x\"}},\"/ev\",\"end\",null]}}],\"listDefs\":{{}}}}", "\"du\",\"+\",".repeat(k))
        }
        _ => {
            let t = any(r, 0).to_string();
            mutate_text(&t, r)
        }
    }
}

fn panic_of<T>(r: Result<Result<T, String>, String>) -> (Option<T>, String) {
    match r {
        Ok(Ok(t)) => (Some(t), "ok".into()),
        Ok(Err(e)) => (None, format!("refused {e}")),
        Err(m) => (None, format!("PANIC {m}")),
    }
}

/// Loads a document as a story on a thread with the stack a host thread has.
fn load_story(js: &str) -> String {
    let t = js.to_string();
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        match guard::guarded(|| Story::new(&t).map(|_| ()).map_err(|e| e.to_string())) {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("refused {e}"),
            Err(guard::Caught::Fuel) => "fuel".to_string(),
            Err(guard::Caught::Panic(m)) => format!("PANIC {m}"),
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(s)) => s,
        _ => "PANIC in thread".into(),
    }
}

fn panic_sig(m: &str) -> String {
    // the place, not the values in the message
    m.split(": ").next().unwrap_or(m).to_string()
}

impl C15 {
    fn story_case(&mut self, js: &str, how: &str, name: &str, out: &mut Out) -> bool {
        let t0 = Instant::now();
        let a = load_story(js);
        let ms = t0.elapsed().as_millis() as u64;
        out.eval();
        out.count("story_documents");
        let show: String = js.chars().take(20_000).collect();
        if a.starts_with("PANIC") {
            out.violation(format!("load panics {}", panic_sig(&a)), format!("the default loader: {a} ({how} of {name})"), json!({"json": show, "program": name, "mutation": how}));
            return false;
        }
        if ms > 20_000 {
            out.violation(format!("slow load {name}"), format!("the default loader took {ms} ms for {} bytes ({how})", js.len()), json!({"json": show}));
            return false;
        }
        out.count(if a == "ok" { "stories_accepted" } else { "stories_refused" });
        if let Ok(exe) = std::env::var("VPH_STREAM") {
            let cfg = self.cfg.clone();
            let h = self.helper.get_or_insert_with(|| Helper::start(&exe, &cfg));
            let b = match h.ask(&json!({"js": js})) {
                Ok(v) => v["load"].as_str().map(|s| s.to_string()).unwrap_or_else(|| format!("PANIC {v}")),
                Err(e) => format!("PANIC the process ended: {e}"),
            };
            out.count("stream_documents");
            if b.starts_with("PANIC") {
                out.violation(format!("stream load panics {}", panic_sig(&b)), format!("the streaming loader: {b} ({how} of {name})"), json!({"json": show, "program": name, "mutation": how}));
                return false;
            }
            out.count(if b == "ok" { "stream_accepted" } else { "stream_refused" });
        }
        out.nontrivial(hash64(js));
        true
    }

    fn save_case(&mut self, p: &Prog, other: &Prog, r: &mut Rng, out: &mut Out) {
        let o = Opts { handler: r.pct(50), observe: r.pct(50), ..Opts::default() };
        let Ok(mut h) = Host::new(p, &o) else { return };
        let k = r.below(9);
        let mix = Mix { reload: 1, eval: 2, ..Mix::rich() };
        let (ops, seen) = lock::history(r, &mut h, p, &mix, k);
        if seen.last().is_some_and(|s| s.contains("PANIC ")) {
            return;
        }
        let Ok(save) = h.story.save_state() else { return };
        let Ok(sv) = serde_json::from_str::<Value>(&save) else { return };
        for _ in 0..10 {
            let (bad, how) = match r.below(12) {
                0 | 1 => (mutate_text(&save, r), "text".to_string()),
                2 => (arbitrary(r.next(), r), "arbitrary".to_string()),
                3 => {
                    let Ok(mut g) = Host::new(other, &o) else { continue };
                    let _ = lock::history(r, &mut g, other, &mix, 6);
                    match lock::tame(|| g.story.save_state().map_err(|e| e.to_string())) {
                        Ok(Ok(s)) => (s, format!("save of {}", other.name)),
                        _ => continue,
                    }
                }
                _ => {
                    let mut v = sv.clone();
                    let c = 1 + r.below(3);
                    let how: Vec<&str> = (0..c).map(|_| mutate(&mut v, r)).collect();
                    (v.to_string(), how.join(", "))
                }
            };
            // into the story in play, or into a fresh one
            let mut t = if r.pct(60) {
                let Ok(mut t) = Host::new(p, &o) else { return };
                for op in &ops {
                    lock::apply(&mut t, p, op);
                }
                t
            } else {
                let Ok(t) = Host::new(p, &o) else { return };
                t
            };
            let t0 = Instant::now();
            let (_, res) = panic_of(lock::tame(|| t.story.load_state(&bad).map_err(|e| e.to_string())));
            out.eval();
            out.count("saves");
            let det = |what: &str, cont: &str| json!({"program": p.name, "source": p.src, "history": lock::render(&ops), "save": bad.chars().take(30_000).collect::<String>(), "mutation": how, "what": what, "continuation": cont});
            if res.starts_with("PANIC") {
                out.violation(format!("load_state panics {}", panic_sig(&res)), format!("load_state: {res} ({how})"), det(&res, ""));
                return;
            }
            if t0.elapsed().as_secs() > 20 {
                out.violation(format!("slow load_state {}", p.name), format!("load_state took {:?} ({how})", t0.elapsed()), det(&res, ""));
                return;
            }
            out.nontrivial(hash64(&bad));
            if res == "ok" {
                out.count("saves_accepted");
                // what an altered save leads to is not specified: only watched
                for _ in 0..4 {
                    let Some(op) = lock::random_op(r, &mut t, p, &Mix::play()) else { break };
                    let x = lock::step(&mut t, p, &op);
                    if let Some(l) = x.lines().find(|l| l.contains("PANIC ")) {
                        out.count("later_panic");
                        if std::env::var("VPH_SHOW").is_ok() {
                            eprintln!("later panic: {how} {l}");
                        }
                        break;
                    }
                }
                continue;
            }
            out.count("saves_refused");
            // reset, then in lockstep with a fresh story
            let e = lock::apply(&mut t, p, &Op::Reset);
            if !e.starts_with("Ok(())") {
                out.violation(format!("reset after a failed load: {}", p.name), format!("reset_state after a refused save: {e}"), det(&e, ""));
                return;
            }
            t.story.vp_set_story_seed(o.seed);
            let Ok(mut f) = Host::new(p, &o) else { return };
            let show = |h: &mut Host| lock::tame(|| h.view(p)).unwrap_or_else(|m| format!("PANIC {m}"));
            let mut bad_at = diff(&show(&mut t), &show(&mut f));
            let mut cont = vec![];
            for _ in 0..8 {
                if bad_at.is_some() {
                    break;
                }
                let Some(op) = lock::random_op(r, &mut f, p, &Mix::rich()) else { break };
                cont.push(op.clone());
                let x = lock::step(&mut t, p, &op);
                let y = lock::step(&mut f, p, &op);
                out.count("lockstep_ops");
                bad_at = diff(&x, &y);
            }
            if bad_at.is_none() {
                let s = |h: &Host| lock::tame(|| h.story.save_state().map_err(|e| e.to_string())).unwrap_or_else(Err).map(|s| canon(&s)).unwrap_or_default();
                bad_at = save_diff(&s(&t), &s(&f));
            }
            if let Some(d) = bad_at {
                out.violation(format!("after a failed load and a reset: {}", p.name), format!("reset after a refused save (left) differs from a fresh story (right): {d} ({how})"), det(&d, &lock::render(&cont)));
                return;
            }
            out.count("resets_after_refused_load");
        }
    }
}

impl Check for C15 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C15", self.cfg.seed, n);
        if n % 5 == 4 {
            let d = arbitrary(n / 5, &mut r);
            if self.story_case(&d, "arbitrary", "", out) {
                // the same text as a save
                if let Some(p) = self.pool.fixed.first().cloned() {
                    if let Ok(mut h) = Host::new(&p, &Opts::default()) {
                        let (_, res) = panic_of(lock::tame(|| h.story.load_state(&d).map_err(|e| e.to_string())));
                        out.eval();
                        if res.starts_with("PANIC") {
                            out.violation(format!("load_state panics {}", panic_sig(&res)), format!("load_state: {res}"), json!({"save": d.chars().take(3000).collect::<String>()}));
                        }
                    }
                }
            }
            return;
        }
        let Some((p, _)) = self.pool.pick(n, &mut r, Feat { lists: true, ..Feat::rich() }, out) else { return };
        if n % 5 < 2 {
            let Ok(doc) = serde_json::from_str::<Value>(p.json.trim_start_matches('\u{feff}')) else { return };
            for _ in 0..12 {
                let (js, how) = if r.pct(25) {
                    (mutate_text(p.json.trim_start_matches('\u{feff}'), &mut r), "text".to_string())
                } else {
                    let mut v = doc.clone();
                    let c = 1 + r.below(3);
                    let how: Vec<&str> = (0..c).map(|_| mutate(&mut v, &mut r)).collect();
                    (v.to_string(), how.join(", "))
                };
                if !self.story_case(&js, &how, &p.name, out) {
                    return;
                }
                out.sample(json!({"program": p.name, "mutation": how, "json": js.chars().take(2000).collect::<String>()}));
            }
        } else {
            let other = self.pool.fixed[r.below(self.pool.fixed.len())].clone();
            let mut me = std::mem::take(&mut self.helper);
            let mut inner = C15 { cfg: self.cfg.clone(), pool: Pool::none(), helper: me.take() };
            super::case(150_000, out, |o| inner.save_case(&p, &other, &mut r, o));
            self.helper = inner.helper.take();
        }
    }
    fn serve(&mut self, q: &Value) -> Value {
        json!({"load": load_story(q["js"].as_str().unwrap_or(""))})
    }
}
