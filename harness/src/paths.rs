//! Independent reader of compiled stories: resolves every reference in the JSON document itself,
//! without the engine (its resolver approximates).
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Ref {
    pub at: String,
    pub kind: String,
    pub text: String,
    pub problem: String,
}

struct Node<'a> {
    v: &'a Value,
    parent: Option<usize>,
    path: String,
}

pub struct Doc<'a> {
    nodes: Vec<Node<'a>>,
    /// node -> (children by position, children by name)
    kids: Vec<(Vec<usize>, Vec<(String, usize)>)>,
    pub globals: BTreeSet<String>,
    /// temporary variables and parameters, by the knot or function that declares them ("" is the root)
    pub temps: BTreeMap<String, BTreeSet<String>>,
    pub externals: BTreeSet<String>,
    lists: BTreeMap<String, i64>,
    list_names: BTreeSet<String>,
    pub refs: usize,
    pub containers: usize,
    pub kinds: std::collections::BTreeMap<String, u64>,
}

fn terminator(v: &Value) -> Option<&Map<String, Value>> {
    v.as_array()?.last()?.as_object()
}

impl<'a> Doc<'a> {
    pub fn new(doc: &'a Value) -> Result<Doc<'a>, String> {
        let root = doc.get("root").ok_or("no root")?;
        if !root.is_array() {
            return Err("root is not a container".into());
        }
        let mut d = Doc { nodes: vec![], kids: vec![], globals: BTreeSet::new(), temps: Default::default(), externals: BTreeSet::new(), lists: Default::default(), list_names: BTreeSet::new(), refs: 0, containers: 0, kinds: Default::default() };
        d.add(root, None, String::new());
        for (l, items) in doc.get("listDefs").and_then(|x| x.as_object()).into_iter().flatten() {
            d.list_names.insert(l.clone());
            for i in items.as_object().into_iter().flatten() {
                d.lists.insert(format!("{l}.{}", i.0), i.1.as_i64().unwrap_or(i64::MIN));
                d.globals.insert(i.0.clone());
                d.globals.insert(format!("{l}.{}", i.0));
            }
        }
        for i in 0..d.nodes.len() {
            if let Some(o) = d.nodes[i].v.as_object() {
                if let Some(n) = o.get("temp=").and_then(|x| x.as_str()) {
                    if o.get("re").and_then(|x| x.as_bool()) != Some(true) {
                        let s = d.scope(i);
                        d.temps.entry(s).or_default().insert(n.to_string());
                    }
                }
                if let Some(n) = o.get("x()").and_then(|x| x.as_str()) {
                    d.externals.insert(n.to_string());
                }
                if d.nodes[i].path.starts_with("global decl") {
                    if let Some(n) = o.get("VAR=").and_then(|x| x.as_str()) {
                        d.globals.insert(n.to_string());
                    }
                }
            }
        }
        Ok(d)
    }

    fn add(&mut self, v: &'a Value, parent: Option<usize>, path: String) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node { v, parent, path: path.clone() });
        self.kids.push((vec![], vec![]));
        let join = |c: &str| if path.is_empty() { c.to_string() } else { format!("{path}.{c}") };
        if let Value::Array(a) = v {
            self.containers += 1;
            let n = a.len().saturating_sub(1);
            for (i, c) in a.iter().take(n).enumerate() {
                let name = terminator(c).and_then(|t| t.get("#n")).and_then(|x| x.as_str()).filter(|_| c.is_array());
                let p = match name {
                    Some(nm) => join(nm),
                    None => join(&i.to_string()),
                };
                let k = self.add(c, Some(id), p);
                self.kids[id].0.push(k);
                if let Some(nm) = name {
                    self.kids[id].1.push((nm.to_string(), k));
                }
            }
            if let Some(t) = terminator(v) {
                for (name, c) in t {
                    if name.starts_with('#') || !c.is_array() {
                        continue;
                    }
                    let k = self.add(c, Some(id), join(name));
                    self.kids[id].1.push((name.clone(), k));
                }
            }
        }
        id
    }

    /// The knot or function an object is in.
    fn scope(&self, i: usize) -> String {
        let p = &self.nodes[i].path;
        let first = p.split('.').next().unwrap_or("");
        if self.kids[0].1.iter().any(|(n, _)| n == first) { first.to_string() } else { String::new() }
    }

    fn known(&self, i: usize, name: &str) -> bool {
        self.globals.contains(name) || self.temps.get(&self.scope(i)).is_some_and(|t| t.contains(name))
    }

    /// Resolves `path` as written in the object `from`. Err says which component fails.
    pub fn resolve(&self, from: usize, path: &str) -> Result<usize, String> {
        let (rel, p) = match path.strip_prefix('.') {
            Some(r) => (true, r),
            None => (false, path),
        };
        let mut cur = if rel { from } else { 0 };
        for c in p.split('.') {
            let next = if c == "^" {
                self.nodes[cur].parent
            } else if !c.is_empty() && c.bytes().all(|b| b.is_ascii_digit()) {
                c.parse::<usize>().ok().and_then(|i| self.kids[cur].0.get(i).copied())
            } else {
                let m: Vec<usize> = self.kids[cur].1.iter().filter(|(n, _)| n == c).map(|x| x.1).collect();
                m.first().copied()
            };
            match next {
                Some(n) => cur = n,
                None => return Err(format!("component {c:?} of {path:?} not found in {:?}", self.nodes[cur].path)),
            }
        }
        Ok(cur)
    }

    /// Length of the content found at an absolute path, or None. The root is the empty path.
    pub fn lookup(&self, path: &str) -> Option<usize> {
        if path.is_empty() {
            return Some(self.kids[0].0.len());
        }
        self.resolve(0, path).ok().map(|i| self.kids[i].0.len())
    }

    pub fn container_paths(&self) -> Vec<String> {
        self.nodes.iter().filter(|n| n.v.is_array()).map(|n| n.path.clone()).collect()
    }

    /// Every reference in the document that does not resolve exactly.
    pub fn check(&mut self) -> Vec<Ref> {
        let mut bad = vec![];
        // a function or knot parameter is bound by "temp=", so every variable a story names is assigned somewhere
        for i in 0..self.nodes.len() {
            let Some(o) = self.nodes[i].v.as_object() else { continue };
            let is_var = o.get("var").and_then(|x| x.as_bool()) == Some(true);
            for (k, needs_container) in [("->", false), ("f()", true), ("->t->", false), ("*", true), ("CNT?", true), ("^->", false)] {
                let Some(t) = o.get(k) else { continue };
                let mut problem = None;
                match t.as_str() {
                    None => problem = Some("target is not text".to_string()),
                    Some(p) => {
                        self.refs += 1;
                        *self.kinds.entry(k.to_string()).or_insert(0) += 1;
                        if is_var && matches!(k, "->" | "f()" | "->t->") {
                            if !self.known(i, p) {
                                problem = Some(format!("variable {p:?} is not declared here"));
                            }
                        } else {
                            match self.resolve(i, p) {
                                Err(e) => problem = Some(e),
                                Ok(n) => {
                                    if needs_container && !self.nodes[n].v.is_array() {
                                        problem = Some(format!("{p:?} is not a container"));
                                    }
                                }
                            }
                        }
                    }
                }
                if let Some(problem) = problem {
                    bad.push(Ref { at: self.nodes[i].path.clone(), kind: k.into(), text: t.to_string(), problem });
                }
            }
            if let Some(items) = o.get("list").and_then(|x| x.as_object()) {
                for (name, v) in items {
                    if self.lists.get(name).copied() != v.as_i64() {
                        bad.push(Ref { at: self.nodes[i].path.clone(), kind: "list".into(), text: name.clone(), problem: format!("no list declares the item {name:?} with the value {v}") });
                    }
                }
                for l in o.get("origins").and_then(|x| x.as_array()).into_iter().flatten() {
                    if !l.as_str().is_some_and(|l| self.list_names.contains(l)) {
                        bad.push(Ref { at: self.nodes[i].path.clone(), kind: "origin".into(), text: l.to_string(), problem: format!("no list is called {l}") });
                    }
                }
            }
            for k in ["VAR?", "VAR=", "temp=", "^var"] {
                if let Some(n) = o.get(k).and_then(|x| x.as_str()) {
                    self.refs += 1;
                    *self.kinds.entry(k.to_string()).or_insert(0) += 1;
                    if !self.known(i, n) {
                        *self.kinds.entry("unknown variable".into()).or_insert(0) += 1;
                        bad.push(Ref { at: self.nodes[i].path.clone(), kind: k.into(), text: n.into(), problem: format!("variable {n:?} is not declared here") });
                    }
                }
            }
        }
        bad
    }
}
