//! Reference interpreter: plays source-level programs (ast.rs) by the rules of the language.
//! It runs a whole turn at once and splits its output into lines afterwards, so it has no
//! look-ahead, no rewinding and no compiled paths to get wrong.
use crate::ast::{Ch, Div, Ex, Inl, Program, Sk, St, Txt};
use crate::expr::{self, Decls, V};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    T(String),
    Nl,
    Glue,
    TagB,
    TagE,
    FnB,
    FnE,
}

/// Why a case has no verdict.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Fuel,
    Skip(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
enum Val {
    P(V),
    Ref(String),
    /// a divert target held by a variable
    To(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Root,
    Tunnel,
    Fn,
}

#[derive(Clone, Debug)]
struct Frame {
    kind: Kind,
    pos: Option<(usize, usize)>,
    temps: Vec<(String, Val)>,
    ret: Option<Val>,
}

#[derive(Clone)]
enum Nd {
    Line(Txt, Vec<Txt>, Option<Div>),
    /// the part of a line before a tunnel or thread
    Part(Txt, Vec<Txt>),
    Set(String, &'static str, Ex),
    Temp(String, Ex),
    Do(Ex),
    Return(Option<Ex>),
    Divert(Div),
    Tunnel(String, Vec<Ex>),
    Thread(String, Vec<Ex>),
    If(Vec<(Ex, usize)>, Option<usize>),
    Switch(Ex, Vec<(Ex, usize)>, Option<usize>),
    Seq(Sk, usize, Vec<usize>),
    Choices(Vec<(Ch, usize)>, bool),
    Label(String),
    /// end of line
    Nl,
}

struct Blk {
    st: Vec<Nd>,
    next: Option<(usize, usize)>,
    /// the knot or stitch it is written in
    flow: String,
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub text: String,
    pub tags: Vec<String>,
    at: (usize, usize, usize),
    thread: Vec<Frame>,
    invisible: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Choices,
    Done,
    RanOut,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    pub tags: Vec<String>,
    /// globals and visit counts at the end of the line
    pub obs: String,
}

#[derive(Clone, Debug)]
pub struct Turn {
    pub lines: Vec<Line>,
    pub choices: Vec<(String, Vec<String>)>,
    pub end: End,
}

struct Shape {
    blks: Vec<Blk>,
    paths: BTreeMap<String, (usize, usize)>,
    params: BTreeMap<String, Vec<(String, bool)>>,
    /// choice labels: path to (block, statement, choice)
    chlabels: BTreeMap<String, (usize, usize, usize)>,
    /// knots and stitches
    flows: Vec<String>,
    consts: Vec<(String, Ex)>,
}

#[derive(Clone)]
pub struct Vm {
    sh: std::rc::Rc<Shape>,
    globals: Vec<(String, Val)>,
    visits: BTreeMap<String, i32>,
    turns: BTreeMap<String, i32>,
    seqs: BTreeMap<usize, i32>,
    chosen: BTreeMap<usize, i32>,
    turn: i32,
    threads: Vec<Vec<Frame>>,
    choices: Vec<Choice>,
    /// events written when the flow last ended by itself
    safe: Option<usize>,
    ev: Vec<(Ev, usize)>,
    obs: Vec<String>,
    /// a divert inside the line being written has left it
    jumped: bool,
    deep: usize,
    pub fuel: u64,
    /// language features met while playing, for coverage
    pub seen: BTreeMap<&'static str, u64>,
}

impl Shape {
    fn block(&mut self, next: Option<(usize, usize)>, flow: &str) -> usize {
        self.blks.push(Blk { st: vec![], next, flow: flow.into() });
        self.blks.len() - 1
    }

    fn lower(&mut self, body: &[St], b: usize, path: &str) {
        for s in body {
            let i = self.blks[b].st.len();
            let sub = |sh: &mut Shape, body: &[St], at: usize| {
                let k = sh.block(Some((b, at)), path);
                // a block starts on a new line
                sh.blks[k].st.push(Nd::Nl);
                sh.lower(body, k, path);
                k
            };
            match s {
                St::Line { txt, tags, div: Some(Div::Tunnel(t, a)) } => {
                    self.blks[b].st.push(Nd::Part(txt.clone(), tags.clone()));
                    self.blks[b].st.push(Nd::Tunnel(t.clone(), a.clone()));
                    self.blks[b].st.push(Nd::Nl);
                }
                St::Line { txt, tags, div: Some(Div::Thread(t, a)) } => {
                    self.blks[b].st.push(Nd::Part(txt.clone(), tags.clone()));
                    self.blks[b].st.push(Nd::Thread(t.clone(), a.clone()));
                    self.blks[b].st.push(Nd::Nl);
                }
                St::Line { txt, tags, div } => self.blks[b].st.push(Nd::Line(txt.clone(), tags.clone(), div.clone())),
                St::Set { var, op, ex } => self.blks[b].st.push(Nd::Set(var.clone(), op, ex.clone())),
                St::Temp { var, ex } => self.blks[b].st.push(Nd::Temp(var.clone(), ex.clone())),
                St::Do(e) => self.blks[b].st.push(Nd::Do(e.clone())),
                St::Return(e) => self.blks[b].st.push(Nd::Return(e.clone())),
                St::Divert(d) => self.blks[b].st.push(Nd::Divert(d.clone())),
                // on lines of their own these write no line end
                St::Tunnel(t, a) => self.blks[b].st.push(Nd::Tunnel(t.clone(), a.clone())),
                St::Thread(t, a) => self.blks[b].st.push(Nd::Thread(t.clone(), a.clone())),
                St::Chain(v, last) => {
                    for (t, a) in v {
                        self.blks[b].st.push(Nd::Tunnel(t.clone(), a.clone()));
                    }
                    if let Some(d) = last {
                        self.blks[b].st.push(Nd::Divert(d.clone()));
                    }
                }
                St::If(arms, els) => {
                    self.blks[b].st.push(Nd::Nl);
                    let v = arms.iter().map(|(c, x)| (c.clone(), sub(self, x, i + 1))).collect();
                    let e = els.as_ref().map(|x| sub(self, x, i + 1));
                    self.blks[b].st[i] = Nd::If(v, e);
                    self.blks[b].st.push(Nd::Nl);
                }
                St::Switch(c, arms, els) => {
                    self.blks[b].st.push(Nd::Nl);
                    let v = arms.iter().map(|(c, x)| (c.clone(), sub(self, x, i + 1))).collect();
                    let e = els.as_ref().map(|x| sub(self, x, i + 1));
                    self.blks[b].st[i] = Nd::Switch(c.clone(), v, e);
                    self.blks[b].st.push(Nd::Nl);
                }
                St::Seq(k, id, bs) => {
                    self.blks[b].st.push(Nd::Nl);
                    let v = bs.iter().map(|x| sub(self, x, i + 1)).collect();
                    self.blks[b].st[i] = Nd::Seq(*k, *id, v);
                    self.blks[b].st.push(Nd::Nl);
                }
                St::Choices { list, gather, stop } => {
                    self.blks[b].st.push(Nd::Nl);
                    let mut v = vec![];
                    for (j, c) in list.iter().enumerate() {
                        let k = self.block(Some((b, i + 1)), path);
                        if let Some(Div::Tunnel(t, a)) = &c.div {
                            self.blks[k].st.push(Nd::Tunnel(t.clone(), a.clone()));
                            self.blks[k].st.push(Nd::Nl);
                        }
                        self.lower(&c.body, k, path);
                        let mut c = c.clone();
                        if let Some(l) = &c.label {
                            let full = if path.is_empty() { l.clone() } else { format!("{path}.{l}") };
                            self.chlabels.insert(full.clone(), (b, i, j));
                            c.label = Some(full);
                        }
                        c.body.clear();
                        v.push((c, k));
                    }
                    // the top level always gathers, if only to end
                    self.blks[b].st[i] = Nd::Choices(v, *stop || b == 0);
                    if let Some(Some(l)) = gather {
                        self.label(b, l, path);
                    }
                }
                St::Label(l) => self.label(b, l, path),
                St::Raw(r) => panic!("no meaning for {r}"),
            }
        }
    }

    fn label(&mut self, b: usize, l: &str, path: &str) {
        let full = if path.is_empty() { l.to_string() } else { format!("{path}.{l}") };
        self.paths.insert(full.clone(), (b, self.blks[b].st.len()));
        self.blks[b].st.push(Nd::Label(full));
    }
}

fn clean(s: &str) -> String {
    let mut out = String::new();
    let mut space = false;
    let mut line_start = true;
    for c in s.chars() {
        if c == ' ' || c == '\t' {
            space = true;
            continue;
        }
        if space && c != '\n' && !line_start {
            out.push(' ');
        }
        space = false;
        line_start = c == '\n';
        out.push(c);
    }
    out
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| c == ' ' || c == '\t')
}

/// The text written so far on the current line.
#[derive(Clone, Default)]
struct Stream {
    s: Vec<Ev>,
    fns: Vec<Option<usize>>,
}

impl Stream {
    fn push(&mut self, e: &Ev) {
        match e {
            Ev::FnB => self.fns.push(Some(self.s.len())),
            Ev::FnE => {
                let from = self.fns.pop().flatten().unwrap_or(0);
                let mut i = self.s.len();
                while i > from {
                    i -= 1;
                    match &self.s[i] {
                        Ev::Nl => {
                            self.s.remove(i);
                        }
                        Ev::T(t) if blank(t) => {
                            self.s.remove(i);
                        }
                        Ev::T(_) => break,
                        _ => {}
                    }
                }
            }
            Ev::TagB | Ev::TagE => self.s.push(e.clone()),
            Ev::Glue => {
                let mut from = None;
                for i in (0..self.s.len()).rev() {
                    match &self.s[i] {
                        Ev::TagB | Ev::TagE => break,
                        Ev::T(t) if !blank(t) => break,
                        Ev::Nl => from = Some(i),
                        _ => {}
                    }
                }
                if let Some(f) = from {
                    let tail: Vec<Ev> = self.s.drain(f..).filter(|x| !matches!(x, Ev::T(_) | Ev::Nl)).collect();
                    self.s.extend(tail);
                }
                self.s.push(Ev::Glue);
            }
            Ev::T(_) | Ev::Nl => {
                let newline = *e == Ev::Nl;
                let mut ftrim = self.fns.last().copied().flatten();
                let mut glue = false;
                for i in (0..self.s.len()).rev() {
                    match &self.s[i] {
                        Ev::Glue => {
                            glue = true;
                            break;
                        }
                        Ev::TagB => {
                            if ftrim.is_some_and(|f| i >= f) {
                                ftrim = None;
                            }
                            break;
                        }
                        _ => {}
                    }
                }
                if glue || ftrim.is_some() {
                    if newline {
                        return;
                    }
                    let Ev::T(t) = e else { unreachable!() };
                    if !blank(t) {
                        if glue {
                            let mut i = self.s.len();
                            while i > 0 {
                                i -= 1;
                                match self.s[i] {
                                    Ev::Glue => {
                                        self.s.remove(i);
                                    }
                                    Ev::TagB | Ev::TagE => break,
                                    _ => {}
                                }
                            }
                        }
                        if ftrim.is_some() {
                            self.fns.iter_mut().for_each(|f| *f = None);
                        }
                    }
                } else if newline {
                    let content = self.s.iter().any(|x| matches!(x, Ev::T(_) | Ev::Nl));
                    if !content || self.ends_in_newline() {
                        return;
                    }
                }
                self.s.push(e.clone());
            }
        }
    }

    fn ends_in_newline(&self) -> bool {
        for x in self.s.iter().rev() {
            match x {
                Ev::TagB | Ev::TagE => return false,
                Ev::Nl => return true,
                Ev::T(t) if !blank(t) => return false,
                _ => {}
            }
        }
        false
    }

    /// text outside tags, and the tags
    fn read(&self) -> (String, Vec<String>) {
        let (mut t, mut tags, mut tag, mut inside) = (String::new(), vec![], String::new(), false);
        for x in &self.s {
            match x {
                Ev::TagB => {
                    if inside && !tag.is_empty() {
                        tags.push(clean_tag(&tag));
                        tag.clear();
                    }
                    inside = true;
                }
                Ev::TagE => {
                    if !tag.is_empty() {
                        tags.push(clean_tag(&tag));
                        tag.clear();
                    }
                    inside = false;
                }
                Ev::T(s) if inside => tag.push_str(s),
                Ev::T(s) => t.push_str(s),
                Ev::Nl if !inside => t.push('\n'),
                _ => {}
            }
        }
        if !tag.is_empty() {
            tags.push(clean_tag(&tag));
        }
        (t, tags)
    }
}

fn clean_tag(s: &str) -> String {
    clean(s).trim_end_matches([' ', '\t']).to_string()
}

/// Splits what a turn wrote into lines; also where the last one starts.
fn lines(ev: &[(Ev, usize)], obs: &[String], last: &str) -> (Vec<Line>, usize) {
    let mut out = vec![];
    let mut cur = Stream::default();
    // state right after the line end we may have to come back to: (events used, stream, text, tags, state)
    let mut mark: Option<(usize, Stream, String, Vec<String>, usize)> = None;
    let mut i = 0;
    let mut start = 0;
    while i < ev.len() {
        cur.push(&ev[i].0);
        i += 1;
        if let Some((at, s, text, tags, o)) = &mark {
            let (t, g) = cur.read();
            let t = clean(&t);
            let still = t.len() >= text.len() && t.as_bytes().get(text.len() - 1) == Some(&b'\n');
            if !still {
                mark = None;
            } else if g.len() > tags.len() || t[text.len()..].chars().any(|c| c != ' ' && c != '\t') {
                out.push(Line { text: text.clone(), tags: tags.clone(), obs: obs[*o].clone() });
                i = *at;
                start = i;
                cur = Stream { s: vec![], fns: s.fns.clone() };
                mark = None;
                continue;
            }
        }
        if mark.is_none() && cur.ends_in_newline() {
            let (t, g) = cur.read();
            mark = Some((i, cur.clone(), clean(&t), g, ev[i - 1].1));
        }
    }
    let (t, g) = cur.read();
    out.push(Line { text: clean(&t), tags: g, obs: last.to_string() });
    (out, start)
}

fn op_name(op: &str) -> &str {
    match op {
        "and" => "&&",
        "or" => "||",
        "mod" => "%",
        "has" => "?",
        "hasnt" => "!?",
        o => o,
    }
}

/// Does evaluating it call something (such a line of logic is followed by a line end)?
fn calls(e: &Ex) -> bool {
    match e {
        Ex::Bin(_, a, b) => calls(a) || calls(b),
        Ex::Not(a) | Ex::Neg(a) => calls(a),
        Ex::Call(..) | Ex::TurnsSince(_) | Ex::Turns | Ex::ChoiceCount => true,
        _ => false,
    }
}

impl Vm {
    pub fn new(p: &Program) -> Option<Vm> {
        let mut sh = Shape { blks: vec![], paths: BTreeMap::new(), params: BTreeMap::new(), chlabels: BTreeMap::new(), flows: vec![], consts: p.consts.clone() };
        let root = sh.block(None, "");
        sh.lower(&p.root, root, "");
        // the top level ends by itself
        sh.blks[root].st.push(Nd::Divert(Div::Done));
        for k in &p.knots {
            let b = sh.block(None, &k.name);
            sh.paths.insert(k.name.clone(), (b, 0));
            sh.params.insert(k.name.clone(), k.params.clone());
            sh.flows.push(k.name.clone());
            sh.lower(&k.body, b, &k.name);
            for (i, s) in k.stitches.iter().enumerate() {
                let n = format!("{}.{}", k.name, s.name);
                let b = sh.block(None, &n);
                sh.paths.insert(n.clone(), (b, 0));
                sh.params.insert(n.clone(), s.params.clone());
                sh.flows.push(n.clone());
                sh.lower(&s.body, b, &n);
                if i == 0 && k.body.is_empty() {
                    // a knot without content of its own starts at its first stitch
                    let kb = sh.paths[&k.name].0;
                    sh.blks[kb].st.push(Nd::Divert(Div::To(n, vec![])));
                }
            }
        }
        let mut vm = Vm {
            sh: std::rc::Rc::new(sh), globals: vec![], visits: BTreeMap::new(), turns: BTreeMap::new(), seqs: BTreeMap::new(), chosen: BTreeMap::new(), turn: -1,
            threads: vec![vec![Frame { kind: Kind::Root, pos: Some((root, 0)), temps: vec![], ret: None }]],
            choices: vec![], safe: None, ev: vec![], obs: vec![], jumped: false, deep: 0, fuel: 20_000, seen: BTreeMap::new(),
        };
        for (n, e) in &p.globals {
            let v = match e {
                Ex::Raw(s) if s.starts_with("-> ") => Val::To(s[3..].to_string()),
                e => Val::P(vm.eval(e).ok()?),
            };
            vm.globals.push((n.clone(), v));
        }
        Some(vm)
    }

    fn note(&mut self, k: &'static str) {
        *self.seen.entry(k).or_default() += 1;
    }

    fn top(&mut self) -> &mut Frame {
        self.threads.last_mut().unwrap().last_mut().unwrap()
    }

    fn emit(&mut self, e: Ev) {
        let mut at = usize::MAX;
        if e == Ev::Nl {
            self.obs.push(self.observe());
            at = self.obs.len() - 1;
        }
        self.ev.push((e, at));
    }

    /// Globals and visit counts, as Host::vars shows them.
    pub fn observe(&self) -> String {
        let mut s = String::new();
        let mut g: Vec<&(String, Val)> = self.globals.iter().collect();
        g.sort_by(|a, b| a.0.cmp(&b.0));
        for (n, v) in g {
            match v {
                Val::P(v) => s.push_str(&format!("var {n}={}\n", v.shown())),
                Val::To(t) => s.push_str(&format!("var {n}=d:{t}\n")),
                Val::Ref(_) => {}
            }
        }
        for f in &self.sh.flows {
            if let Some(c) = self.visits.get(f) {
                s.push_str(&format!("visits {f}={c}\n"));
            }
        }
        s
    }

    pub fn flows(&self) -> Vec<String> {
        self.sh.flows.clone()
    }

    /// Entering `flow`: it and the knot it is part of are counted unless play comes from inside them.
    fn enter(&mut self, flow: &str, from: &str) {
        let inside = |f: &str| from == f || from.strip_prefix(f).is_some_and(|r| r.starts_with('.'));
        let mut f = flow;
        while !f.is_empty() && !inside(f) {
            self.visit(f);
            f = f.rsplit_once('.').map(|x| x.0).unwrap_or("");
        }
    }

    fn here(&mut self) -> String {
        match self.top().pos {
            Some((b, _)) => self.sh.blks[b].flow.clone(),
            None => String::new(),
        }
    }

    fn visit(&mut self, path: &str) {
        *self.visits.entry(path.into()).or_default() += 1;
        self.turns.insert(path.into(), self.turn);
    }

    // ---- variables

    fn get_raw(&mut self, n: &str) -> Option<Val> {
        if let Some(v) = self.top().temps.iter().rev().find(|t| t.0 == n) {
            return Some(v.1.clone());
        }
        self.globals.iter().find(|g| g.0 == n).map(|g| g.1.clone())
    }

    fn get_val(&mut self, n: &str) -> R<Val> {
        let consts = self.sh.consts.iter().find(|c| c.0 == n).cloned();
        if let Some((_, e)) = consts {
            return Ok(Val::P(self.eval(&e)?));
        }
        match self.get_raw(n) {
            Some(Val::Ref(g)) => self.globals.iter().find(|x| x.0 == g).map(|x| x.1.clone()).ok_or(Stop::Skip(format!("reference to {g}"))),
            Some(v) => Ok(v),
            None => Err(Stop::Skip(format!("unset {n}"))),
        }
    }

    fn set(&mut self, n: &str, v: Val) -> R<()> {
        if let Some(t) = self.top().temps.iter_mut().rev().find(|t| t.0 == n) {
            if let Val::Ref(g) = &t.1 {
                let g = g.clone();
                return self.set_global(&g, v);
            }
            t.1 = v;
            return Ok(());
        }
        self.set_global(n, v)
    }

    fn set_global(&mut self, n: &str, v: Val) -> R<()> {
        match self.globals.iter_mut().find(|g| g.0 == n) {
            Some(g) => {
                g.1 = v;
                Ok(())
            }
            None => Err(Stop::Skip(format!("unset {n}"))),
        }
    }

    fn bind(&mut self, n: &str, v: Val) {
        let t = &mut self.top().temps;
        match t.iter_mut().find(|x| x.0 == n) {
            Some(x) => x.1 = v,
            None => t.push((n.into(), v)),
        }
    }

    // ---- expressions

    fn eval_val(&mut self, e: &Ex) -> R<Val> {
        match e {
            Ex::V(n) => self.get_val(n),
            Ex::Raw(s) if s.starts_with("-> ") => Ok(Val::To(s[3..].to_string())),
            e => Ok(Val::P(self.eval(e)?)),
        }
    }

    fn eval(&mut self, e: &Ex) -> R<V> {
        let skip = |s: expr::Skip| Stop::Skip(format!("{s:?}"));
        let none = Decls::default();
        Ok(match e {
            Ex::I(i) => V::I(*i),
            Ex::B(b) => V::B(*b),
            Ex::F(s) => V::F(s.parse().map_err(|_| Stop::Skip("float".into()))?),
            Ex::S(s) => V::S(s.clone()),
            Ex::V(n) => match self.get_val(n)? {
                Val::P(v) => v,
                _ => return Err(Stop::Skip("divert target as a value".into())),
            },
            Ex::Bin(op, a, b) => {
                let x = self.eval(a)?;
                let y = self.eval(b)?;
                expr::binary(&none, op_name(op), x, y).map_err(skip)?
            }
            Ex::Not(a) => {
                let x = self.eval(a)?;
                expr::unary("!", x).map_err(skip)?
            }
            Ex::Neg(a) => {
                let x = self.eval(a)?;
                expr::unary("-", x).map_err(skip)?
            }
            Ex::Count(p) => {
                self.note("read count");
                self.known(p)?;
                V::I(self.visits.get(p).copied().unwrap_or(0))
            }
            Ex::TurnsSince(p) => {
                self.note("TURNS_SINCE");
                self.known(p)?;
                V::I(self.turns.get(p).map(|t| self.turn - t).unwrap_or(-1))
            }
            Ex::Turns => V::I(self.turn + 1),
            Ex::ChoiceCount => {
                self.note("CHOICE_COUNT");
                V::I(self.choices.len() as i32)
            }
            Ex::Call(f, a) if f == "MIN" || f == "MAX" => {
                let x = self.eval(&a[0])?;
                let y = self.eval(&a[1])?;
                expr::binary(&none, f, x, y).map_err(skip)?
            }
            Ex::Call(f, a) => match self.call(f, a)? {
                Some(Val::P(v)) => v,
                _ => return Err(Stop::Skip("no value".into())),
            },
            Ex::Raw(s) => return Err(Stop::Skip(format!("raw {s}"))),
        })
    }

    fn args(&mut self, path: &str, a: &[Ex]) -> R<Vec<(String, Val)>> {
        let ps = self.sh.params.get(path).cloned().unwrap_or_default();
        if ps.len() != a.len() {
            return Err(Stop::Skip("arity".into()));
        }
        let mut v = vec![];
        for ((n, by_ref), e) in ps.iter().zip(a) {
            if *by_ref {
                let Ex::V(g) = e else { return Err(Stop::Skip("ref".into())) };
                // a reference handed on refers to the same variable
                let g = match self.top().temps.iter().rev().find(|t| t.0 == *g) {
                    Some((_, Val::Ref(x))) => x.clone(),
                    Some(_) => return Err(Stop::Skip("reference to a temporary".into())),
                    None => g.clone(),
                };
                v.push((n.clone(), Val::Ref(g)));
            } else {
                v.push((n.clone(), self.eval_val(e)?));
            }
        }
        Ok(v)
    }

    fn call(&mut self, f: &str, a: &[Ex]) -> R<Option<Val>> {
        self.note("function call");
        let args = self.args(f, a)?;
        let Some(&pos) = self.sh.paths.get(f) else { return Err(Stop::Skip(format!("no function {f}"))) };
        if self.threads.last().unwrap().len() > 20 {
            return Err(Stop::Skip("deep recursion".into()));
        }
        self.emit(Ev::FnB);
        let from = self.here();
        self.threads.last_mut().unwrap().push(Frame { kind: Kind::Fn, pos: Some(pos), temps: args, ret: None });
        self.enter(f, &from);
        let depth = self.threads.last().unwrap().len();
        while self.top().pos.is_some() {
            self.step()?;
            debug_assert!(self.threads.last().unwrap().len() == depth);
        }
        let fr = self.threads.last_mut().unwrap().pop().unwrap();
        self.emit(Ev::FnE);
        Ok(fr.ret)
    }

    // ---- text

    fn text(&mut self, t: &Txt) -> R<()> {
        self.text_and(t, "")
    }

    /// `rest`: more of the text, after what `t` renders as. Adjacent pieces are one string.
    fn text_and(&mut self, t: &Txt, rest: &str) -> R<()> {
        let mut lit = String::new();
        for i in t {
            if let Inl::T(s) = i {
                lit.push_str(s);
                continue;
            }
            if !lit.is_empty() {
                self.emit(Ev::T(std::mem::take(&mut lit)));
            }
            match i {
                Inl::T(_) => unreachable!(),
                Inl::Div(d) => {
                    self.note("divert inside a line");
                    self.divert(d)?;
                    self.jumped = true;
                }
                Inl::Glue => {
                    self.note("glue");
                    self.emit(Ev::Glue)
                }
                Inl::E(Ex::Call(f, a)) if f != "MIN" && f != "MAX" => {
                    if let Some(Val::P(v)) = self.call(f, a)? {
                        self.emit(Ev::T(v.text()));
                    }
                }
                Inl::E(e) => {
                    let v = self.eval(e)?;
                    self.emit(Ev::T(v.text()));
                }
                Inl::Cond(c, a, b) => {
                    let v = self.truth(c)?;
                    self.note("inline conditional");
                    self.text(if v { a } else { b })?;
                }
                Inl::Seq(k, id, bs) => {
                    if let Some(n) = self.seq(*k, *id, bs.len())? {
                        self.text(&bs[n])?;
                    }
                }
            }
            if self.jumped {
                return Ok(());
            }
            if self.fuel == 0 {
                return Err(Stop::Fuel);
            }
            self.fuel -= 1;
        }
        lit.push_str(rest);
        if !lit.is_empty() {
            self.emit(Ev::T(lit));
        }
        Ok(())
    }

    fn seq(&mut self, k: Sk, id: usize, n: usize) -> R<Option<usize>> {
        let c = self.seqs.entry(id).or_default();
        let i = *c as usize;
        *c += 1;
        Ok(match k {
            Sk::Stop => {
                self.note("stopping");
                Some(i.min(n - 1))
            }
            Sk::Cycle => {
                self.note("cycle");
                Some(i % n)
            }
            Sk::Once => {
                self.note("once");
                (i < n).then_some(i)
            }
            Sk::Shuffle => return Err(Stop::Skip("shuffle".into())),
        })
    }

    fn truth(&mut self, e: &Ex) -> R<bool> {
        let v = self.eval(e)?;
        v.truthy().ok_or(Stop::Skip("truth of a string".into()))
    }

    fn tags(&mut self, t: &[Txt]) -> R<()> {
        for x in t {
            self.note("tag");
            self.emit(Ev::TagB);
            self.text(x)?;
            self.emit(Ev::TagE);
        }
        Ok(())
    }

    /// Evaluates choice text apart from the story's output.
    fn string(&mut self, t: &Txt, tags: &[Txt]) -> R<(String, Vec<String>)> {
        let was = std::mem::take(&mut self.ev);
        let r = self.text_and(t, if tags.is_empty() { "" } else { " " }).and_then(|_| self.tags(tags));
        let ev = std::mem::replace(&mut self.ev, was);
        r?;
        let mut s = Stream::default();
        for e in &ev {
            s.push(&e.0);
        }
        Ok(s.read())
    }

    // ---- statements

    fn step(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        let (b, i) = self.top().pos.unwrap();
        let sh = self.sh.clone();
        if i >= sh.blks[b].st.len() {
            let next = sh.blks[b].next;
            self.top().pos = next;
            return Ok(());
        }
        self.top().pos = Some((b, i + 1));
        match &sh.blks[b].st[i] {
            Nd::Nl => self.emit(Ev::Nl),
            Nd::Part(t, tags) => {
                self.text_and(t, if t.is_empty() { "" } else { " " })?;
                if !std::mem::take(&mut self.jumped) {
                    self.tags(tags)?;
                }
            }
            Nd::Line(t, tags, d) => {
                let some = !t.is_empty() && (!tags.is_empty() || d.is_some());
                self.text_and(t, if some { " " } else { "" })?;
                if std::mem::take(&mut self.jumped) {
                    return Ok(());
                }
                self.tags(tags)?;
                match d {
                    Some(d) => {
                        self.note("divert at the end of a line");
                        self.divert(d)?;
                    }
                    None => self.emit(Ev::Nl),
                }
            }
            Nd::Set(v, op, e) => {
                let cur = if *op == "=" { None } else { Some(self.eval(&Ex::V(v.clone()))?) };
                let val = match *op {
                    "=" => self.eval_val(e)?,
                    o => {
                        let x = self.eval(e)?;
                        let o = &o[..1];
                        Val::P(expr::binary(&Decls::default(), o, cur.unwrap(), x).map_err(|s| Stop::Skip(format!("{s:?}")))?)
                    }
                };
                self.set(v, val)?;
                if calls(e) {
                    self.emit(Ev::Nl);
                }
            }
            Nd::Temp(v, e) => {
                let x = self.eval_val(e)?;
                self.bind(v, x);
                if calls(e) {
                    self.emit(Ev::Nl);
                }
            }
            Nd::Do(Ex::Call(f, a)) => {
                self.call(f, a)?;
                self.emit(Ev::Nl);
            }
            Nd::Do(e) => {
                self.eval(e)?;
            }
            Nd::Return(e) => {
                let v = match e {
                    Some(e) => Some(self.eval_val(e)?),
                    None => None,
                };
                let f = self.top();
                f.ret = v;
                f.pos = None;
            }
            Nd::Divert(d) => self.divert(d)?,
            Nd::Tunnel(t, a) => {
                self.note("tunnel");
                let args = self.args(t, a)?;
                let pos = self.target(t)?;
                if self.threads.last().unwrap().len() > 60 {
                    return Err(Stop::Skip("deep tunnels".into()));
                }
                let from = self.here();
                self.threads.last_mut().unwrap().push(Frame { kind: Kind::Tunnel, pos: Some(pos), temps: args, ret: None });
                self.enter(t, &from);
            }
            Nd::Thread(t, a) => {
                self.note("thread");
                let args = self.args(t, a)?;
                let fork = self.threads.last().unwrap().clone();
                self.threads.push(fork);
                self.go(t, args)?;
            }
            Nd::If(arms, els) => {
                for (c, k) in arms {
                    if self.truth(c)? {
                        self.note("block conditional");
                        self.top().pos = Some((*k, 0));
                        return Ok(());
                    }
                }
                if let Some(k) = els {
                    self.note("else");
                    self.top().pos = Some((*k, 0));
                }
            }
            Nd::Switch(e, arms, els) => {
                let v = self.eval(e)?;
                for (c, k) in arms {
                    let w = self.eval(c)?;
                    if expr::binary(&Decls::default(), "==", v.clone(), w).map_err(|s| Stop::Skip(format!("{s:?}")))? == V::B(true) {
                        self.note("switch");
                        self.top().pos = Some((*k, 0));
                        return Ok(());
                    }
                }
                if let Some(k) = els {
                    self.note("else");
                    self.top().pos = Some((*k, 0));
                }
            }
            Nd::Seq(k, id, bs) => {
                self.note("block sequence");
                if let Some(n) = self.seq(*k, *id, bs.len())? {
                    self.top().pos = Some((bs[n], 0));
                }
            }
            Nd::Label(l) => {
                self.note("label");
                self.visit(l);
            }
            Nd::Choices(list, stop) => {
                for (j, (c, _)) in list.iter().enumerate() {
                    self.offer(c, (b, i, j))?;
                }
                if *stop {
                    // what follows the first choices of the top level is its end
                    if b == 0 && !sh.blks[0].st[..i].iter().any(|s| matches!(s, Nd::Choices(..))) {
                        return self.divert(&Div::Done);
                    }
                    self.top().pos = None;
                }
            }
        }
        Ok(())
    }

    fn offer(&mut self, c: &Ch, at: (usize, usize, usize)) -> R<()> {
        let (s, mut tags) = self.string(&c.start, &c.start_tags)?;
        let (o, t2) = self.string(&c.only, &c.only_tags)?;
        tags.extend(t2);
        let mut show = true;
        for e in &c.conds {
            show &= self.truth(e)?;
        }
        if !show {
            self.note("choice hidden by its condition");
        }
        if show && !c.sticky && self.chosen.get(&c.id).copied().unwrap_or(0) > 0 {
            self.note("once-only choice used up");
            show = false;
        }
        if !show {
            return Ok(());
        }
        if c.fallback {
            self.note("fallback offered");
        }
        let text = format!("{s}{o}");
        let text = text.trim_matches([' ', '\t']).to_string();
        let thread = self.threads.last().unwrap().clone();
        self.choices.push(Choice { text, tags, at, thread, invisible: c.fallback });
        Ok(())
    }

    fn known(&self, p: &str) -> R<()> {
        if self.sh.paths.contains_key(p) || self.sh.chlabels.contains_key(p) { Ok(()) } else { Err(Stop::Skip(format!("unknown {p}"))) }
    }

    fn target(&mut self, t: &str) -> R<(usize, usize)> {
        self.sh.paths.get(t).copied().ok_or(Stop::Skip(format!("no target {t}")))
    }

    /// A divert in the current frame.
    fn go(&mut self, t: &str, args: Vec<(String, Val)>) -> R<()> {
        let from = self.here();
        self.go_from(t, args, from)
    }

    fn go_from(&mut self, t: &str, args: Vec<(String, Val)>, from: String) -> R<()> {
        if let Some(&at) = self.sh.chlabels.get(t) {
            self.note("divert to a choice");
            let flow = self.sh.blks[at.0].flow.clone();
            self.enter(&flow, &from);
            return self.enter_choice(at);
        }
        let pos = self.target(t)?;
        for (n, v) in args {
            self.bind(&n, v);
        }
        self.top().pos = Some(pos);
        // a label counts itself when it is reached
        if self.sh.params.contains_key(t) {
            self.enter(t, &from);
        } else {
            self.note("divert to a label");
            let flow = self.sh.blks[pos.0].flow.clone();
            self.enter(&flow, &from);
        }
        Ok(())
    }

    /// To a target that is a value: it alone counts, wherever play comes from.
    fn go_to_value(&mut self, t: &str, args: Vec<(String, Val)>) -> R<()> {
        let pos = self.target(t)?;
        for (n, v) in args {
            self.bind(&n, v);
        }
        self.top().pos = Some(pos);
        self.visit(t);
        Ok(())
    }

    fn divert(&mut self, d: &Div) -> R<()> {
        match d {
            Div::To(t, a) => {
                if !self.sh.paths.contains_key(t) && !self.sh.chlabels.contains_key(t) {
                    // a variable holds the target
                    let Val::To(x) = self.get_val(t)? else { return Err(Stop::Skip("divert to a value".into())) };
                    self.note("divert by variable");
                    let args = self.args(&x, a)?;
                    return self.go_to_value(&x, args);
                }
                let args = if self.sh.params.contains_key(t) { self.args(t, a)? } else { vec![] };
                self.go(t, args)?;
            }
            Div::Done => {
                if self.threads.len() > 1 {
                    self.threads.pop();
                } else {
                    self.safe = Some(self.ev.len());
                    self.top().pos = None;
                }
            }
            Div::End => {
                self.note("END");
                self.threads = vec![vec![Frame { kind: Kind::Root, pos: None, temps: vec![], ret: None }]];
                self.choices.clear();
                self.safe = Some(self.ev.len());
            }
            Div::TunnelRet => {
                if self.top().kind != Kind::Tunnel {
                    return Err(Stop::Skip("->-> outside a tunnel".into()));
                }
                self.threads.last_mut().unwrap().pop();
            }
            Div::RetTo(t) => {
                if self.top().kind != Kind::Tunnel {
                    return Err(Stop::Skip("->-> outside a tunnel".into()));
                }
                self.note("return to elsewhere");
                let args = self.args(t, &[])?;
                self.threads.last_mut().unwrap().pop();
                self.go_to_value(t, args)?;
            }
            Div::Tunnel(..) | Div::Thread(..) => unreachable!("lowered apart"),
        }
        Ok(())
    }

    fn enter_choice(&mut self, at: (usize, usize, usize)) -> R<()> {
        let sh = self.sh.clone();
        let Nd::Choices(list, _) = &sh.blks[at.0].st[at.1] else { unreachable!() };
        let (c, body) = &list[at.2];
        self.deep += 1;
        if self.deep > 100 {
            return Err(Stop::Fuel);
        }
        *self.chosen.entry(c.id).or_default() += 1;
        if let Some(l) = &c.label {
            self.visit(l);
        }
        self.top().pos = Some((*body, 0));
        self.text_and(&c.start, if c.start_tags.is_empty() { "" } else { " " })?;
        self.tags(&c.start_tags)?;
        self.text_and(&c.end, if c.end_tags.is_empty() { "" } else { " " })?;
        self.tags(&c.end_tags)?;
        match &c.div {
            Some(Div::Tunnel(..)) => {
                if !c.fallback {
                    self.emit(Ev::T(" ".into()));
                }
                self.deep -= 1;
                Ok(())
            }
            Some(d) => {
                if !c.fallback {
                    self.emit(Ev::T(" ".into()));
                }
                self.divert(d)?;
                self.deep -= 1;
                Ok(())
            }
            None => {
                self.emit(Ev::Nl);
                self.deep -= 1;
                Ok(())
            }
        }
    }

    /// Runs until the player has to act.
    fn run(&mut self) -> R<()> {
        loop {
            // out of content here: back to whoever forked this thread
            while self.top().pos.is_some() || self.threads.len() > 1 {
                if self.top().pos.is_none() {
                    self.threads.pop();
                    continue;
                }
                self.step()?;
            }
            if !self.choices.is_empty() && self.choices.iter().all(|c| c.invisible) {
                self.note("fallback followed");
                let c = self.choices[0].clone();
                self.choices.clear();
                self.threads = vec![c.thread];
                self.enter_choice(c.at)?;
                continue;
            }
            break;
        }
        Ok(())
    }

    pub fn play(&mut self) -> R<Turn> {
        self.run()?;
        let (lines, last) = lines(&self.ev, &self.obs, &self.observe());
        let end = if !self.choices.is_empty() {
            End::Choices
        } else if self.safe.is_some_and(|s| s >= last) {
            End::Done
        } else {
            End::RanOut
        };
        self.ev.clear();
        self.obs.clear();
        let choices = self.choices.iter().filter(|c| !c.invisible).map(|c| (c.text.clone(), c.tags.clone())).collect();
        Ok(Turn { lines, choices, end })
    }

    pub fn choose(&mut self, i: usize) -> R<()> {
        let c = self.choices.iter().filter(|c| !c.invisible).nth(i).cloned().ok_or(Stop::Skip("index".into()))?;
        self.note("choice taken");
        self.choices.clear();
        self.threads = vec![c.thread];
        self.turn += 1;
        self.safe = None;
        self.enter_choice(c.at)
    }
}
