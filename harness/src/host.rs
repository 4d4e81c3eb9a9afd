//! Driving a story as a host does, with everything it shows recorded as text.
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::rc::Rc;

pub type Log = Rc<RefCell<Vec<String>>>;

pub fn show(v: &ValueType) -> String {
    match v {
        ValueType::Bool(b) => format!("b:{b}"),
        ValueType::Int(i) => format!("i:{i}"),
        ValueType::Float(f) => format!("f:{f}"),
        ValueType::String(s) => format!("s:{:?}", s.string),
        ValueType::DivertTarget(p) => format!("d:{p}"),
        ValueType::VariablePointer(_) => "p".into(),
        ValueType::List(l) => {
            let mut items: Vec<String> = l.items.iter().map(|(k, v)| format!("{}={}", k.get_full_name(), v)).collect();
            items.sort();
            format!("l:{{{}}}", items.join(","))
        }
    }
}

pub fn show_opt(v: Option<ValueType>) -> String {
    v.map(|v| show(&v)).unwrap_or_else(|| "none".into())
}

pub struct Handler(pub Log);
impl ErrorHandler for Handler {
    fn error(&mut self, message: &str, t: ErrorType) {
        let k = match t {
            ErrorType::Error => "ERROR",
            ErrorType::Warning => "WARNING",
        };
        self.0.borrow_mut().push(format!("{k} {message}"));
    }
}

pub struct Obs {
    pub tag: String,
    pub log: Log,
}
impl VariableObserver for Obs {
    fn changed(&mut self, name: &str, v: &ValueType) {
        self.log.borrow_mut().push(format!("{} {} = {}", self.tag, name, show(v)));
    }
}

/// External function returning a value computed from its arguments.
pub struct Ext {
    pub log: Log,
    pub lines: Rc<RefCell<usize>>,
    /// sleeps in every call, so that the real clock runs out
    pub slow: Rc<RefCell<bool>>,
}
pub fn ext_result(name: &str, args: &[ValueType]) -> ValueType {
    let mut acc: i32 = name.len() as i32;
    for (i, a) in args.iter().enumerate() {
        let x = match a {
            ValueType::Int(n) => *n,
            ValueType::Bool(b) => *b as i32,
            ValueType::Float(f) => *f as i32,
            ValueType::String(s) => s.string.chars().count() as i32,
            ValueType::List(l) => l.items.len() as i32,
            _ => 7,
        };
        acc = acc.wrapping_add(x.wrapping_mul(i as i32 + 1));
    }
    ValueType::Int(acc % 1000)
}
impl ExternalFunction for Ext {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        if *self.slow.borrow() {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        let a: Vec<String> = args.iter().map(show).collect();
        self.log.borrow_mut().push(format!("CALL {}({}) after {}", name, a.join(","), self.lines.borrow()));
        Some(ext_result(name, &args))
    }
}

/// What is known about a program without looking at the engine.
#[derive(Clone, Default)]
pub struct Prog {
    pub name: String,
    pub src: String,
    pub json: String,
    pub globals: Vec<String>,
    pub paths: Vec<String>,
    /// functions a host may call: (name, number of arguments)
    pub functions: Vec<(String, usize)>,
    pub externals: Vec<(String, usize)>,
}

fn named_of(container: &Value) -> Option<&Map<String, Value>> {
    container.as_array()?.last()?.as_object()
}

fn scan_ext(v: &Value, out: &mut Vec<(String, usize)>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| scan_ext(x, out)),
        Value::Object(o) => {
            if let Some(n) = o.get("x()").and_then(|x| x.as_str()) {
                let c = o.get("exArgs").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                if !out.iter().any(|x| x.0 == n) {
                    out.push((n.into(), c));
                }
            }
            o.values().for_each(|x| scan_ext(x, out));
        }
        _ => {}
    }
}

fn scan_calls(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| scan_calls(x, out)),
        Value::Object(o) => {
            if let Some(n) = o.get("f()").and_then(|x| x.as_str()) {
                let n = n.rsplit('.').next().unwrap_or(n).to_string();
                if !out.contains(&n) {
                    out.push(n);
                }
            }
            o.values().for_each(|x| scan_calls(x, out));
        }
        _ => {}
    }
}

impl Prog {
    pub fn from_json(name: &str, src: &str, js: &str) -> Prog {
        let mut p = Prog { name: name.into(), src: src.into(), json: js.into(), ..Default::default() };
        let Ok(v) = serde_json::from_str::<Value>(js.trim_start_matches('\u{feff}')) else { return p };
        let root = &v["root"];
        if let Some(named) = named_of(root) {
            for (k, c) in named {
                if k == "global decl" {
                    for t in c.as_array().into_iter().flatten() {
                        if let Some(n) = t.get("VAR=").and_then(|x| x.as_str()) {
                            p.globals.push(n.into());
                        }
                    }
                } else if c.is_array() {
                    p.paths.push(k.clone());
                    if let Some(sub) = named_of(c) {
                        for (k2, c2) in sub {
                            if c2.is_array() && !k2.contains('-') {
                                p.paths.push(format!("{k}.{k2}"));
                            }
                        }
                    }
                    // a function: starts with its parameters
                }
            }
        }
        p.globals.sort();
        p.paths.sort();
        scan_ext(&v["root"], &mut p.externals);
        let mut calls = vec![];
        scan_calls(&v["root"], &mut calls);
        calls.sort();
        for f in calls {
            if p.externals.iter().any(|e| e.0 == f) {
                continue;
            }
            let Some(c) = named_of(root).and_then(|n| n.get(&f)).and_then(|c| c.as_array()) else { continue };
            let mut n = 0;
            for t in c {
                if t.get("temp=").is_some() && t.get("re").is_none() {
                    n += 1;
                } else {
                    break;
                }
            }
            p.functions.push((f, n));
        }
        p
    }
}

pub struct Host {
    pub story: Story,
    pub msgs: Log,
    pub obs: Log,
    pub calls: Log,
    pub lines: Rc<RefCell<usize>>,
    pub slow: Rc<RefCell<bool>>,
}

#[derive(Clone)]
pub struct Opts {
    pub seed: i32,
    pub handler: bool,
    pub bind: bool,
    pub safe: bool,
    pub observe: bool,
    pub fallbacks: bool,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { seed: 42, handler: true, bind: true, safe: true, observe: false, fallbacks: true }
    }
}

impl Host {
    pub fn new(p: &Prog, o: &Opts) -> Result<Host, String> {
        let mut story = Story::new(&p.json).map_err(|e| e.to_string())?;
        story.vp_set_story_seed(o.seed);
        let msgs: Log = Default::default();
        let obs: Log = Default::default();
        let calls: Log = Default::default();
        let lines = Rc::new(RefCell::new(0));
        let slow = Rc::new(RefCell::new(false));
        if o.handler {
            story.set_error_handler(Rc::new(RefCell::new(Handler(msgs.clone()))));
        }
        story.set_allow_external_function_fallbacks(o.fallbacks);
        if o.bind {
            for (n, _) in &p.externals {
                let f = Rc::new(RefCell::new(Ext { log: calls.clone(), lines: lines.clone(), slow: slow.clone() }));
                story.bind_external_function(n, f, o.safe).map_err(|e| e.to_string())?;
            }
        }
        if o.observe {
            let ob = Rc::new(RefCell::new(Obs { tag: "obs".into(), log: obs.clone() }));
            for g in &p.globals {
                story.observe_variable(g, ob.clone()).map_err(|e| e.to_string())?;
            }
        }
        Ok(Host { story, msgs, obs, calls, lines, slow })
    }

    /// Everything a host can see now (no side effects on the story).
    pub fn view(&mut self, p: &Prog) -> String {
        let mut s = String::new();
        s.push_str(&format!("can={}\n", self.story.can_continue()));
        s.push_str(&format!("text={:?}\n", self.story.get_current_text().map_err(|e| e.to_string())));
        s.push_str(&format!("tags={:?}\n", self.story.get_current_tags().map_err(|e| e.to_string())));
        for c in self.story.get_current_choices() {
            s.push_str(&format!("choice {} {:?} {:?}\n", c.index.borrow(), c.text, c.tags));
        }
        s.push_str(&self.vars(p));
        s
    }

    pub fn shown(&mut self) -> String {
        let mut s = String::new();
        s.push_str(&format!("can={}\n", self.story.can_continue()));
        s.push_str(&format!("text={:?}\n", self.story.get_current_text().map_err(|e| e.to_string())));
        s.push_str(&format!("tags={:?}\n", self.story.get_current_tags().map_err(|e| e.to_string())));
        for c in self.story.get_current_choices() {
            s.push_str(&format!("choice {} {:?} {:?}\n", c.index.borrow(), c.text, c.tags));
        }
        s
    }

    pub fn vars(&self, p: &Prog) -> String {
        let mut s = String::new();
        for g in &p.globals {
            s.push_str(&format!("var {}={}\n", g, show_opt(self.story.get_variable(g))));
        }
        for k in &p.paths {
            let c = self.story.get_visit_count_at_path_string(k);
            match c {
                Ok(0) => {}
                Ok(n) => s.push_str(&format!("visits {k}={n}\n")),
                Err(e) => s.push_str(&format!("visits {k} error {e}\n")),
            }
        }
        s
    }

    pub fn cont(&mut self) -> String {
        let r = self.story.cont();
        *self.lines.borrow_mut() += 1;
        match r {
            Ok(t) => format!("line {t:?}"),
            Err(e) => format!("error {e}"),
        }
    }

    pub fn take_msgs(&self) -> String {
        let v: Vec<String> = self.msgs.borrow_mut().drain(..).collect();
        v.iter().map(|x| format!("msg {x}\n")).collect()
    }

    /// Continues until it cannot (or an error / the line limit); returns the transcript.
    pub fn run_turn(&mut self, max_lines: usize) -> String {
        let mut s = String::new();
        let mut n = 0;
        while self.story.can_continue() && n < max_lines {
            n += 1;
            s.push_str(&self.cont());
            s.push('\n');
            if let Ok(t) = self.story.get_current_tags() {
                if !t.is_empty() {
                    s.push_str(&format!("tags {t:?}\n"));
                }
            }
            let m = self.take_msgs();
            s.push_str(&m);
            if self.story.has_error() {
                s.push_str(&format!("errors {:?}\n", self.story.get_current_errors()));
                break;
            }
        }
        for c in self.story.get_current_choices() {
            s.push_str(&format!("choice {:?} {:?}\n", c.text, c.tags));
        }
        s
    }

    pub fn n_choices(&self) -> usize {
        self.story.get_current_choices().len()
    }
}

fn sort_value(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            keys.sort();
            let mut m = Map::new();
            for k in keys {
                m.insert(k.clone(), sort_value(&o[k]));
            }
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(sort_value).collect()),
        _ => v.clone(),
    }
}

/// A save as an order-free value (object keys sorted).
pub fn canon(save: &str) -> String {
    match serde_json::from_str::<Value>(save) {
        Ok(v) => sort_value(&v).to_string(),
        Err(e) => format!("unparseable save: {e}"),
    }
}

/// First difference of two multi-line texts.
pub fn diff(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut n = 0;
    loop {
        n += 1;
        match (x.next(), y.next()) {
            (Some(p), Some(q)) if p == q => continue,
            (None, None) => return Some("differ in line ends".into()),
            (p, q) => {
                return Some(format!("line {n}: {:?} vs {:?}", p.unwrap_or("<end>"), q.unwrap_or("<end>")));
            }
        }
    }
}

/// First difference of two canonical saves.
pub fn save_diff(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    fn go(p: &str, a: &Value, b: &Value) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    match y.get(k) {
                        None => return Some(format!("{p}/{k} only in first: {}", short(v))),
                        Some(w) => {
                            if let Some(d) = go(&format!("{p}/{k}"), v, w) {
                                return Some(d);
                            }
                        }
                    }
                }
                for (k, v) in y {
                    if !x.contains_key(k) {
                        return Some(format!("{p}/{k} only in second: {}", short(v)));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                for i in 0..x.len().min(y.len()) {
                    if let Some(d) = go(&format!("{p}/{i}"), &x[i], &y[i]) {
                        return Some(d);
                    }
                }
                if x.len() != y.len() {
                    return Some(format!("{p} lengths {} vs {}: {} / {}", x.len(), y.len(), short(a), short(b)));
                }
                None
            }
            _ if a == b => None,
            _ => Some(format!("{p}: {} vs {}", short(a), short(b))),
        }
    }
    let (x, y): (Value, Value) = match (serde_json::from_str(a), serde_json::from_str(b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Some("unparseable".into()),
    };
    go("", &x, &y)
}

fn short(v: &Value) -> String {
    v.to_string().chars().take(160).collect()
}

pub fn detail(p: &Prog, history: &str, what: &str) -> Value {
    json!({"program": p.name, "source": p.src, "history": history, "what": what})
}
