//! C14: the default and the streaming loader build the same story from the same JSON.
use crate::guard;
use crate::host::{Host, Opts, Prog, diff};
use crate::jsontext::{self, Style};
use crate::lock::{self, Mix};
use crate::pool::Pool;
use crate::r#gen::Feat;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Helper, Out};
use bladeink::story::Story;
use serde_json::{Map, Value, json};

pub fn def() -> Def {
    Def {
        id: "C14",
        rule: "a compiled story written in several equivalent JSON layouts, loaded by both builds: every object of the tree (path, kind, value), the list definitions and a random play compared; distinct by JSON text",
        assumptions: &["the two builds differ only in the stream-json-parser feature"],
        make: |c| Box::new(C14 { cfg: c.clone(), pool: Pool::new(true), helper: None }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C14 {
    cfg: Cfg,
    pool: Pool,
    helper: Option<Helper>,
}

/// Everything one build makes of a document: load result, tree, what a play shows.
fn digest(js: &str, seed: u64, n: u64, len: usize) -> Value {
    let loaded = match lock::tame(|| Story::new(js).map_err(|e| e.to_string())) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return json!({"load": "refused", "message": e}),
        Err(m) => return json!({"load": format!("PANIC {m}")}),
    };
    let tree: Vec<String> = match lock::tame(|| loaded.vp_audit(0, 0)) {
        Ok(a) => a.entries.iter().map(|(p, k, t)| format!("{p} {k} {t}")).collect(),
        Err(m) => vec![format!("PANIC audit {m}")],
    };
    let p = Prog::from_json("doc", "", js);
    let mut r = Rng::of("C14play", seed, n);
    let mut play = String::new();
    let mix = if n % 3 == 0 { Mix { reset: 1, reload: 2, ..Mix::rich() } } else { Mix::play() };
    match lock::tame(|| Host::new(&p, &Opts { seed: 11, ..Opts::default() })) {
        Ok(Ok(mut h)) => {
            if p.paths.iter().any(|x| x == "zz_lists") {
                play.push_str(&format!("{:?}\n", lock::tame(|| h.story.choose_path_string("zz_lists", true, None).map_err(|e| e.to_string()))));
                play.push_str(&lock::tame(|| h.run_turn(40)).unwrap_or_else(|m| format!("PANIC {m}")));
                let _ = lock::apply(&mut h, &p, &lock::Op::Reset);
            }
            for _ in 0..len {
                let Some(op) = lock::random_op(&mut r, &mut h, &p, &mix) else { break };
                play.push_str(&format!("{op:?}\n"));
                let t = lock::step(&mut h, &p, &op);
                play.push_str(&t);
                for c in h.calls.borrow_mut().drain(..) {
                    play.push_str(&format!("{c}\n"));
                }
                if t.contains("PANIC ") {
                    break;
                }
            }
        }
        Ok(Err(e)) => play = format!("host error {e}"),
        Err(m) => play = format!("PANIC {m}"),
    }
    json!({"load": "ok", "tree": tree, "play": play})
}

pub fn hostile_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        s.push_str(*r.pick(&[
            "a", "word", " ", "\"", "\\", "/", "\t", "\r", "\u{8}", "\u{c}", "\n", "\u{0}", "\u{1}", "\u{1f}", "\u{7f}", "é", "中", "😀", "\u{1f468}\u{200d}\u{1f469}",
            "\u{feff}", "\u{2028}", "\u{a0}", "\u{e000}", "\u{ffff}", "\u{10ffff}", "e\u{301}", "\\u0041", "\\n", "^", "<>", "{", "}", "[", "]", ",", ":", "null", "true", "1.5", "#f",
        ]));
    }
    s
}

/// Replaces text with hostile text, at random.
fn dirty(v: &mut Value, r: &mut Rng, p: u32) {
    match v {
        Value::Array(a) => {
            // the length of a shuffle is the work it takes
            let shuffle = a.iter().any(|x| x == "seq");
            for x in a.iter_mut() {
                if !(shuffle && x.is_i64()) {
                    dirty(x, r, p);
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "#" && x.is_string() && r.pct(p) {
                    *x = json!(hostile_text(r));
                } else if x.is_array() && k != "origins" {
                    dirty(x, r, p);
                }
            }
        }
        Value::String(s) if s.starts_with('^') && r.pct(p) => {
            let t = hostile_text(r);
            *s = if r.pct(50) { format!("^{t}") } else { format!("{s}{t}") };
        }
        Value::Number(n) if r.pct(p / 4) => {
            if n.is_f64() {
                *v = json!(*r.pick(&[0.0, -0.0, 1.0, 1.5, -2.25, 1e10, 1e-10, 3.4028234663852886e38, 1e39, 5e-324, 0.1, 16777217.0, 1e15, 123456789.125]));
            } else if n.is_i64() {
                *v = json!(*r.pick(&[0i64, -1, 1, 7, i32::MAX as i64, i32::MIN as i64, 2147483648, -2147483649, i64::MAX, i64::MIN, 1000000]));
            }
        }
        _ => {}
    }
}

/// A knot that shows every list definition.
fn list_probe(doc: &mut Value) {
    let Some(defs) = doc.get("listDefs").and_then(|x| x.as_object()).cloned() else { return };
    let mut c: Vec<Value> = vec![];
    for (l, items) in &defs {
        c.extend([json!("ev"), json!({"list": {}, "origins": [l]}), json!("LIST_ALL"), json!("out"), json!("/ev"), json!("\n")]);
        for (i, _) in items.as_object().into_iter().flatten() {
            c.extend([json!("ev"), json!({"VAR?": format!("{l}.{i}")}), json!("LIST_VALUE"), json!("out"), json!("/ev"), json!("^ ")]);
        }
        c.push(json!("\n"));
    }
    c.push(json!("end"));
    c.push(Value::Null);
    let Some(last) = doc.get_mut("root").and_then(|x| x.as_array_mut()).and_then(|a| a.last_mut()) else { return };
    if last.is_null() {
        *last = Value::Object(Map::new());
    }
    if let Some(o) = last.as_object_mut() {
        o.insert("zz_lists".into(), Value::Array(c));
    }
}

/// A document with one of every kind of object, playable or not.
fn synthetic(r: &mut Rng) -> Value {
    fn container(r: &mut Rng, depth: usize, name: Option<&str>) -> Value {
        let mut a: Vec<Value> = vec![];
        for _ in 0..r.below(7) {
            a.push(match r.below(26) {
                0 | 1 => json!(format!("^{}", hostile_text(r))),
                2 => json!("\n"),
                3 => json!(*r.pick(&["<>", "void", "nop", "done", "end", "ev", "/ev", "str", "/str", "#", "/#", "out", "pop", "du", "choiceCnt", "turn", "turns", "readc", "rnd", "srnd", "visit", "seq", "thread", "->->", "~ret", "listInt", "range", "lrnd"])),
                4 => json!(*r.pick(&["+", "-", "*", "/", "%", "_", "==", ">", "<", ">=", "<=", "!=", "!", "&&", "||", "MIN", "MAX", "POW", "FLOOR", "CEILING", "INT", "FLOAT", "?", "!?", "L^", "LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_COUNT", "LIST_VALUE", "LIST_INVERT"])),
                5 => json!(*r.pick(&[0i64, -1, 5, i32::MAX as i64, i32::MIN as i64])),
                6 => json!(*r.pick(&[0.0, -0.0, 1.0, 0.1, -2.5, 1e20, 1e-7, 100.0])),
                7 => json!(r.pct(50)),
                8 => json!({"->": *r.pick(&["k", ".^", ".^.^.0", "0", "k.0.s"]), "c": true}),
                9 => json!({"->": "d", "var": true}),
                10 => json!({"f()": "k"}),
                11 => json!({"->t->": "k"}),
                12 => json!({"x()": "ext", "exArgs": r.below(4)}),
                13 => json!({"*": ".^.c-0", "flg": r.below(32)}),
                14 => json!({"VAR?": *r.pick(&["x", "list", "é"])}),
                15 => json!({"CNT?": "k"}),
                16 => json!({"VAR=": "x", "re": true}),
                17 => json!({"temp=": "y"}),
                18 => json!({"#": hostile_text(r)}),
                19 => json!({"list": {"A.a": 1, "B.b": -3}}),
                20 => json!({"list": {}, "origins": ["A", "B"]}),
                21 => json!({"^->": "k.0"}),
                22 => json!({"^var": "x", "ci": *r.pick(&[-1, 0, 1, 2])}),
                23 => json!({"^var": "x"}),
                24 => json!({"x()": "ext", "exArgs": 1, "var": true}),
                _ if depth < 4 => container(r, depth + 1, None),
                _ => json!("^deep"),
            });
        }
        let mut o = Map::new();
        if r.pct(40) {
            o.insert("#f".into(), json!(1 + r.below(7)));
        }
        if r.pct(40) && name.is_none() {
            o.insert("#n".into(), json!(*r.pick(&["g-0", "c-0", "s", "origins", "list", "-> x"])));
        }
        if depth < 4 {
            for k in ["s", "c-0", "origins", "list", "var", "flg", "c", "re", "ci", "text", "b", "é 😀", "->", "VAR?", "exArgs"] {
                if r.pct(8) {
                    o.insert(k.into(), container(r, depth + 1, Some(k)));
                }
            }
        }
        a.push(if o.is_empty() && r.pct(70) { Value::Null } else { Value::Object(o) });
        Value::Array(a)
    }
    let mut o = Map::new();
    o.insert("k".into(), container(r, 1, Some("k")));
    o.insert("global decl".into(), json!(["ev", 1, {"VAR=": "x"}, {"^->": "k"}, {"VAR=": "d"}, "/ev", "end", null]));
    let top = json!([container(r, 1, None), "done", o]);
    json!({"inkVersion": *r.pick(&[18, 19, 20, 21]), "root": top, "listDefs": {"A": {"a": 1, "a2": 2}, "B": {"b": -3, "é": i32::MAX}}})
}

impl C14 {
    fn doc(&mut self, n: u64, r: &mut Rng, out: &mut Out) -> Option<(String, Value)> {
        if n % 4 == 3 {
            out.count("docs_synthetic");
            return Some((format!("synthetic {n}"), synthetic(r)));
        }
        let (p, _) = self.pool.pick(n, r, Feat { lists: true, hostile: true, ..Feat::rich() }, out)?;
        let mut v: Value = serde_json::from_str(p.json.trim_start_matches('\u{feff}')).ok()?;
        list_probe(&mut v);
        let m = *r.pick(&[0, 0, 5, 40]);
        dirty(&mut v, r, m);
        Some((p.name, v))
    }
    fn compare(a: &Value, b: &Value) -> Option<String> {
        if b["fuel"] == true || b["panic"].is_string() {
            return Some(format!("the streaming build answered {b}"));
        }
        if a["load"] != b["load"] {
            return Some(format!("default loader: {} {}; streaming loader: {} {}", a["load"], a["message"], b["load"], b["message"]));
        }
        let (x, y) = (a["tree"].as_array(), b["tree"].as_array());
        if x != y {
            let (x, y) = (x.cloned().unwrap_or_default(), y.cloned().unwrap_or_default());
            for i in 0..x.len().max(y.len()) {
                if x.get(i) != y.get(i) {
                    return Some(format!("tree differs: default {:?}, streaming {:?}", x.get(i).map(|v| v.to_string()), y.get(i).map(|v| v.to_string())));
                }
            }
        }
        diff(a["play"].as_str().unwrap_or(""), b["play"].as_str().unwrap_or("")).map(|d| format!("play differs: {d}"))
    }
}

impl Check for C14 {
    fn total(&self) -> u64 {
        10_000_000
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C14", self.cfg.seed, n);
        let Ok(exe) = std::env::var("VPH_STREAM") else {
            out.count("no_verdict_helper");
            return;
        };
        let Some((name, doc)) = self.doc(n, &mut r, out) else { return };
        let len = if self.cfg.thorough() { 20 } else { 8 };
        let seed = self.cfg.seed;
        for k in 0..3 {
            let st = if k == 0 { Style { space: 0, escape: 0, shuffle: 0, numbers: 0 } } else { Style::random(&mut r) };
            let mut d2 = doc.clone();
            if k == 2 && r.pct(30) {
                if let Some(o) = d2.as_object_mut() {
                    o.insert("comment".into(), json!({"any": [1, {"x": null}, "\\\"", [[]]], "n": -1.5e3}));
                }
            }
            let js = jsontext::text(&d2, &st, &mut r);
            // the writer must have kept the value
            match serde_json::from_str::<Value>(&js) {
                Ok(v) if crate::host::canon(&v.to_string()) == crate::host::canon(&d2.to_string()) => {}
                e => {
                    out.count("no_verdict_writer");
                    if std::env::var("VPH_SHOW").is_ok() {
                        eprintln!("writer: {:?}", e.err());
                    }
                    continue;
                }
            }
            let a = match guard::fueled(20_000, || digest(&js, seed, n, len)) {
                Ok(v) => v,
                Err(guard::Caught::Fuel) => {
                    out.count("no_verdict_fuel");
                    continue;
                }
                Err(guard::Caught::Panic(m)) => json!({"load": format!("PANIC {m}")}),
            };
            let cfg = self.cfg.clone();
            let h = self.helper.get_or_insert_with(|| Helper::start(&exe, &cfg));
            let b = match h.ask(&json!({"js": js, "n": n, "len": len})) {
                Ok(v) => v,
                Err(e) => json!({"panic": format!("process ended: {e}")}),
            };
            out.eval();
            out.count(if a["load"] == "ok" { "documents_loaded" } else { "documents_refused_by_both" });
            out.add("tree_objects", a["tree"].as_array().map_or(0, |t| t.len() as u64));
            if let Some(d) = Self::compare(&a, &b) {
                let sig = format!("loaders differ: {}", d.chars().take(60).collect::<String>());
                out.violation(sig, format!("{d} ({name})"), json!({"program": name, "json": js, "style": format!("{st:?}")}));
                return;
            }
            if a["load"] == "ok" {
                out.nontrivial(hash64(&js));
                out.sample(json!({"program": name, "style": format!("{st:?}"), "json": js.chars().take(3000).collect::<String>()}));
            }
        }
    }
    fn serve(&mut self, q: &Value) -> Value {
        let seed = self.cfg.seed;
        match guard::fueled(40_000, || digest(q["js"].as_str().unwrap_or(""), seed, q["n"].as_u64().unwrap_or(0), q["len"].as_u64().unwrap_or(0) as usize)) {
            Ok(v) => v,
            Err(guard::Caught::Fuel) => json!({"fuel": true}),
            Err(guard::Caught::Panic(m)) => json!({"panic": m}),
        }
    }
}
