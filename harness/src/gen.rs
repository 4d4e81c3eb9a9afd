//! Grammar-directed generator of Ink programs.
use crate::ast::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Feat {
    pub size: usize,
    pub choices: bool,
    pub threads: bool,
    pub tunnels: bool,
    pub functions: bool,
    pub shuffle: bool,
    pub random: bool,
    pub lists: bool,
    pub externals: bool,
    pub faults: u32,
    pub hostile: bool,
    pub tags: bool,
    pub glue: bool,
    pub seq_in_choice: bool,
    /// prefix for every knot and variable name (disjoint programs)
    pub prefix: String,
    pub strings: bool,
    pub blocks: bool,
    pub turns_since: bool,
    /// loops back through a label from a choice body
    pub labels: bool,
    /// tags inside choices, diverts inside lines, by variable and to choices, choices in blocks, constants
    pub wide: bool,
    /// text that needs escapes or looks like something else
    pub odd_text: bool,
}

impl Feat {
    pub fn core() -> Feat {
        Feat {
            size: 6, choices: true, threads: true, tunnels: true, functions: true, shuffle: false, random: false, lists: false,
            externals: false, faults: 0, hostile: false, tags: true, glue: true, seq_in_choice: true, prefix: String::new(), strings: true,
            blocks: true, turns_since: true, labels: true, wide: true, odd_text: true,
        }
    }
    /// everything the differential monitors can use
    pub fn rich() -> Feat {
        Feat { shuffle: true, random: true, lists: true, ..Feat::core() }
    }
    pub fn random(r: &mut Rng, base: Feat) -> Feat {
        let mut f = base;
        f.size = 3 + r.below(7);
        if r.pct(25) { f.threads = false }
        if r.pct(30) { f.wide = false }
        if r.pct(25) { f.tunnels = false }
        if r.pct(20) { f.functions = false }
        if r.pct(30) { f.tags = false }
        if r.pct(30) { f.glue = false }
        if r.pct(40) { f.lists = false }
        if r.pct(40) { f.random = false }
        f
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    Tunnel,
    Thread,
}

#[derive(Clone)]
struct Sig {
    name: String,
    kind: Kind,
    params: usize,
    stitches: Vec<String>,
}

#[derive(Clone)]
pub struct FSig {
    pub name: String,
    /// true: by reference
    pub params: Vec<bool>,
    /// 'i' int, 'b' bool, 's' string, 't' prints text and returns nothing
    pub ret: char,
    pub pure_: bool,
}

pub struct Gen {
    pub r: Rng,
    pub f: Feat,
    ints: Vec<String>,
    bools: Vec<String>,
    strs: Vec<String>,
    list_vars: Vec<String>,
    list_items: Vec<String>,
    list_names: Vec<String>,
    knots: Vec<Sig>,
    pub funcs: Vec<FSig>,
    temps: Vec<String>,
    ids: usize,
    word: usize,
    labels: Vec<String>,
    pub count_paths: Vec<String>,
    cur: Ctx,
    exts: Vec<(String, usize)>,
    /// labelled choices of the flow being written, as diverts name them
    ch_labels: Vec<String>,
    /// variables that hold divert targets
    tvars: Vec<String>,
    consts: Vec<String>,
    allow_div: bool,
}

#[derive(Clone)]
struct Ctx {
    knot: usize,
    kind: Kind,
    path: String,
    in_func: Option<usize>,
    pure_: bool,
    loops: Vec<String>,
    /// inside something from which only forward diverts may leave
    forward: bool,
    in_block: bool,
    root: bool,
}

const WORDS: &[&str] = &["apple", "bone", "cat", "door", "elm", "fog", "gate", "hill", "ink", "jar", "kite", "lamp", "moon", "nut", "oak", "pen"];
/// Strings that look like something else outside quotes.
const ODD_STRINGS: &[&str] = &["a:b", "-> x", "- y", "* z", "= q", "== k ==", "~ t", "(p", "p)", "TODO: x", "else:", "INCLUDE f", "VAR v = 1", "x ? y", "not", "a,b", "<- t", "1.", "&x", "!y", "once: 1", "x and y", "a&&b", "true"];
/// Text that needs escapes, or that means something elsewhere.
const ODD_TEXTS: &[&str] = &["[x]", "a ] b", "{y}", "a|b", "# no", "->z", "-> z q", "<> g", "<- t", "50% (half)", "(a|b", "c)", "it's \"so\" ok", "x = y", "* s", "+ s", "- d", "~ v", "TODO: later", "else: p", "a: b", "== h ==", "VAR q = 1", "INCLUDE it", "a / b", "not x", "&c", "!d", "?", "1 + 1", "\u{e9}t\u{e9}", "\u{1F600}"];
const HOSTILE: &[&str] = &["say \\\"hi\\\"", "tab\there", "back\\\\slash", "caf\u{e9}", "\u{1F600} smile", "\u{4e2d}\u{6587}", "quote\"q", "a'b", "100%", "x=y", "\u{7f}del", "e\u{301}", "\u{2028}ls", "&amp;", "\u{1}ctl", "\\u0041"];

impl Gen {
    pub fn new(r: Rng, f: Feat) -> Gen {
        Gen {
            r, f, ints: vec![], bools: vec![], strs: vec![], list_vars: vec![], list_items: vec![], list_names: vec![], knots: vec![], funcs: vec![], temps: vec![],
            ids: 0, word: 0, labels: vec![], count_paths: vec![],
            cur: Ctx { knot: 0, kind: Kind::Plain, path: String::new(), in_func: None, pure_: false, loops: vec![], forward: true, in_block: false, root: true },
            exts: vec![], ch_labels: vec![], tvars: vec![], consts: vec![], allow_div: false,
        }
    }

    fn id(&mut self) -> usize {
        self.ids += 1;
        self.ids
    }

    fn w(&mut self) -> String {
        self.word += 1;
        let n = self.word;
        if self.f.hostile && self.r.pct(40) {
            return format!("w{}{} {}", self.f.prefix, n, self.r.pick(HOSTILE));
        }
        let pool = if self.f.odd_text && self.r.pct(5) { ODD_TEXTS } else { WORDS };
        if self.f.odd_text && self.r.pct(2) {
            let (a, b) = *self.r.pick(&[("\"", "\""), ("'", "'"), ("", ":"), ("", ";"), ("", "\u{2026}"), ("\u{ab}", "\u{bb}"), ("", "!"), ("", "?"), ("", "%"), ("\"", "\","), (".", "."), (",", ","), ("@", ""), ("", "="), ("", " -"), ("", " *"), ("", "'s"), ("_", "_"), ("^", "^"), ("1 ", " 2")]);
            return format!("{a}w{}{} {}{b}", self.f.prefix, n, self.r.pick(WORDS));
        }
        format!("w{}{} {}", self.f.prefix, n, self.r.pick(pool))
    }

    fn name(&mut self, p: &str, i: usize) -> String {
        format!("{}{}{}", self.f.prefix, p, i)
    }

    // ---- expressions --------------------------------------------------------

    pub fn int_ex(&mut self, d: usize) -> Ex {
        let k = self.r.below(if d == 0 { 4 } else { 12 });
        match k {
            0 | 1 => Ex::I(self.r.range(-3, 9) as i32),
            2 | 3 => {
                let mut v: Vec<String> = self.ints.clone();
                v.extend(self.temps.iter().cloned());
                v.extend(self.consts.iter().cloned());
                if v.is_empty() { Ex::I(2) } else { Ex::V(self.r.pick(&v).clone()) }
            }
            4 | 5 | 6 => {
                let op = *self.r.pick(&["+", "-", "*", "+"]);
                let a = self.int_ex(d - 1);
                let b = self.int_ex(d - 1);
                Ex::Bin(op, Box::new(a), Box::new(b))
            }
            7 => {
                let op = *self.r.pick(&["/", "%"]);
                let a = self.int_ex(d - 1);
                Ex::Bin(op, Box::new(a), Box::new(Ex::I(self.r.range(2, 5) as i32)))
            }
            8 => {
                if !self.count_paths.is_empty() && !self.cur.pure_ {
                    let p = self.r.pick(&self.count_paths).clone();
                    Ex::Count(p)
                } else {
                    Ex::I(1)
                }
            }
            9 => {
                if self.cur.pure_ {
                    return Ex::I(3);
                }
                if self.f.turns_since && self.r.pct(40) && !self.count_paths.is_empty() {
                    let p = self.r.pick(&self.count_paths).clone();
                    Ex::TurnsSince(p)
                } else if self.r.pct(50) {
                    if self.f.turns_since { Ex::Turns } else { Ex::ChoiceCount }
                } else {
                    Ex::ChoiceCount
                }
            }
            10 => self.call('i', d).unwrap_or(Ex::I(4)),
            _ => {
                if self.f.random && self.r.pct(50) && !self.cur.pure_ {
                    let lo = self.r.range(0, 3);
                    let hi = lo + self.r.range(0, 5);
                    Ex::Call("RANDOM".into(), vec![Ex::I(lo as i32), Ex::I(hi as i32)])
                } else if self.f.lists && !self.list_vars.is_empty() {
                    let v = self.r.pick(&self.list_vars).clone();
                    Ex::Raw(format!("LIST_COUNT({v})"))
                } else {
                    let a = self.int_ex(0);
                    let b = self.int_ex(0);
                    Ex::Call(self.r.pick(&["MIN", "MAX"]).to_string(), vec![a, b])
                }
            }
        }
    }

    fn call(&mut self, ret: char, d: usize) -> Option<Ex> {
        let lo = self.cur.in_func.map(|i| i + 1).unwrap_or(0);
        let pure_ = self.cur.pure_;
        if ret == 'i' && !self.exts.is_empty() && !pure_ && self.r.pct(50) {
            let e = self.r.pick(&self.exts).clone();
            let args = (0..e.1).map(|_| self.int_ex(0)).collect();
            return Some(Ex::Call(e.0, args));
        }
        let c: Vec<FSig> = self.funcs.iter().skip(lo).filter(|f| f.ret == ret && (!pure_ || f.pure_)).cloned().collect();
        if c.is_empty() {
            return None;
        }
        let f = self.r.pick(&c).clone();
        if f.params.iter().any(|r| *r) && self.ints.is_empty() {
            return None;
        }
        let args = f
            .params
            .iter()
            .map(|r| if *r { Ex::V(self.r.pick(&self.ints.clone()).clone()) } else { self.int_ex(d.min(1).saturating_sub(1)) })
            .collect();
        Some(Ex::Call(f.name, args))
    }

    pub fn bool_ex(&mut self, d: usize) -> Ex {
        match self.r.below(if d == 0 { 3 } else { 8 }) {
            0 => Ex::B(self.r.pct(50)),
            1 | 2 => {
                if self.bools.is_empty() { Ex::B(true) } else { Ex::V(self.r.pick(&self.bools.clone()).clone()) }
            }
            3 | 4 | 5 => {
                let op = *self.r.pick(&["==", "!=", "<", ">", "<=", ">="]);
                let a = self.int_ex(d - 1);
                let b = self.int_ex(d - 1);
                Ex::Bin(op, Box::new(a), Box::new(b))
            }
            6 => {
                let op = *self.r.pick(&["and", "or"]);
                let a = self.bool_ex(d - 1);
                let b = self.bool_ex(d - 1);
                Ex::Bin(op, Box::new(a), Box::new(b))
            }
            _ => {
                if self.r.pct(30) {
                    if let Some(c) = self.call('b', d) {
                        return c;
                    }
                }
                Ex::Not(Box::new(self.bool_ex(d - 1)))
            }
        }
    }

    fn str_ex(&mut self, d: usize) -> Ex {
        if d > 0 && self.r.pct(50) {
            let a = self.str_ex(d - 1);
            let b = if self.r.pct(50) { self.str_ex(d - 1) } else { self.int_ex(0) };
            return Ex::Bin("+", Box::new(a), Box::new(b));
        }
        if !self.strs.is_empty() && self.r.pct(60) {
            return Ex::V(self.r.pick(&self.strs.clone()).clone());
        }
        if self.r.pct(12) {
            return Ex::S(self.r.pick(&["", " ", "  "]).to_string());
        }
        self.str_lit()
    }

    fn str_lit(&mut self) -> Ex {
        let pool = if self.r.pct(15) { ODD_STRINGS } else { WORDS };
        Ex::S(self.r.pick(pool).to_string())
    }

    fn list_ex(&mut self) -> Ex {
        let v = self.r.pick(&self.list_vars.clone()).clone();
        let i = self.r.pick(&self.list_items.clone()).clone();
        let n = self.r.pick(&self.list_names.clone()).clone();
        let s = match self.r.below(13) {
            0 => v,
            1 => format!("LIST_ALL({v})"),
            2 => format!("LIST_INVERT({v})"),
            3 => format!("LIST_MIN({v})"),
            4 => format!("LIST_MAX({v})"),
            5 => format!("{v} + {i}"),
            6 => format!("{v} - {i}"),
            7 => format!("LIST_RANGE(LIST_ALL({v}), 1, 3)"),
            8 => format!("{n}({})", self.r.range(0, 5)),
            9 if self.f.random && !self.cur.pure_ => format!("LIST_RANDOM({v})"),
            10 => {
                let u = self.r.pick(&self.list_vars.clone()).clone();
                format!("{v} ^ {u}")
            }
            11 => {
                let u = self.r.pick(&self.list_vars.clone()).clone();
                format!("{v} + {u}")
            }
            _ => format!("LIST_VALUE({v})"),
        };
        Ex::Raw(s)
    }

    fn print_ex(&mut self) -> Ex {
        if self.f.faults > 0 && self.r.pct(self.f.faults) {
            return self.fault_ex();
        }
        match self.r.below(10) {
            0..=4 => self.int_ex(2),
            5 => self.bool_ex(1),
            6 if self.f.strings => self.str_ex(1),
            7 => self.call('t', 1).unwrap_or(Ex::I(5)),
            8 if self.f.lists && !self.list_vars.is_empty() => self.list_ex(),
            _ => self.int_ex(1),
        }
    }

    pub fn fault_ex(&mut self) -> Ex {
        let v = if self.ints.is_empty() { "1".to_string() } else { self.r.pick(&self.ints.clone()).clone() };
        let s = if self.strs.is_empty() { "\"q\"".to_string() } else { self.r.pick(&self.strs.clone()).clone() };
        let b = if self.bools.is_empty() { "true".to_string() } else { self.r.pick(&self.bools.clone()).clone() };
        let l = if self.list_vars.is_empty() { "3".to_string() } else { self.r.pick(&self.list_vars.clone()).clone() };
        let k = if self.knots.is_empty() { "1".into() } else { format!("-> {}", self.r.pick(&self.knots.clone()).name) };
        let x = match self.r.below(34) {
            0 => format!("{v} / 0"),
            1 => format!("{v} % 0"),
            2 => format!("{v} / ({v} - {v})"),
            3 => format!("{v} % ({v} - {v})"),
            4 => format!("2147483647 + {v}"),
            5 => format!("-2147483647 - {v} - 5"),
            6 => format!("{v} * 2147483647"),
            7 => format!("-(-2147483647 - 1 - {v} + {v})"),
            8 => format!("(-2147483647 - 1) / -1"),
            9 => format!("(-2147483647 - 1) % -1"),
            10 => format!("{s} * {v}"),
            11 => format!("{s} - {v}"),
            12 => format!("{s} > {v}"),
            13 => format!("-{s}"),
            14 => format!("{l} + {s}"),
            15 => format!("{l} * 2"),
            16 => format!("{l} + {v}"),
            17 => format!("LIST_VALUE({v})"),
            18 => format!("LIST_RANGE({l}, {s}, 2)"),
            19 => format!("RANDOM(5, {v})"),
            20 => "RANDOM(2147483647, -2147483647)".into(),
            21 => format!("POW({v}, 99)"),
            22 => format!("FLOOR({s})"),
            23 => format!("{k} + 1"),
            24 => format!("({k}) == 3"),
            25 => format!("not {s}"),
            26 => format!("{b} + {b}"),
            27 => format!("{l} ? {s}"),
            28 => format!("{s} ? {s}"),
            29 => format!("INT({s})"),
            30 => format!("SEED_RANDOM({v})"),
            31 => format!("{l} && {b}"),
            32 => format!("LIST_RANDOM({v})"),
            _ => format!("LIST_COUNT({s})"),
        };
        Ex::Raw(x)
    }

    // ---- text ---------------------------------------------------------------

    fn inline(&mut self, d: usize, seqs: bool) -> Inl {
        match self.r.below(if d == 0 { 3 } else { 8 }) {
            0 | 1 | 2 => Inl::E(self.print_ex()),
            3 | 4 => {
                let c = self.bool_ex(1);
                let a = self.branch(d - 1, seqs);
                let b = if self.r.pct(50) { self.branch(d - 1, seqs) } else { vec![] };
                Inl::Cond(c, a, b)
            }
            _ if seqs => {
                let k = match self.r.below(if self.f.shuffle { 8 } else { 6 }) {
                    0 | 1 => Sk::Stop,
                    2 | 3 => Sk::Cycle,
                    4 | 5 => Sk::Once,
                    _ => Sk::Shuffle,
                };
                let id = self.id();
                let n = 2 + self.r.below(2);
                let bs = (0..n).map(|_| self.branch(d - 1, seqs)).collect();
                Inl::Seq(k, id, bs)
            }
            _ => Inl::E(self.int_ex(1)),
        }
    }

    fn branch(&mut self, d: usize, seqs: bool) -> Txt {
        if self.allow_div && self.r.pct(12) {
            let d = self.exit();
            if self.r.pct(50) {
                return vec![Inl::Div(d)];
            }
            return vec![Inl::T(format!("{} ", self.w())), Inl::Div(d)];
        }
        let w = self.w();
        if d > 0 && self.r.pct(30) {
            let i = self.inline(d, seqs);
            return vec![Inl::T(format!("{w} ")), i, Inl::T("x".into())];
        }
        vec![Inl::T(w)]
    }

    fn text(&mut self, seqs: bool) -> Txt {
        if self.f.strings && self.r.pct(6) {
            // a line that may turn out to be blank
            let mut t = vec![Inl::E(self.str_ex(1))];
            if self.r.pct(40) {
                let i = self.inline(1, seqs);
                t.push(i);
            }
            return t;
        }
        let w = self.w();
        let mut t = vec![Inl::T(w)];
        if self.r.pct(55) {
            t.push(Inl::T(" ".into()));
            let i = self.inline(2, seqs);
            t.push(i);
            if self.r.pct(60) {
                let w = self.w();
                t.push(Inl::T(format!(" {w}")));
            }
        }
        t
    }

    fn tag_list(&mut self, pct: u32) -> Vec<Txt> {
        if !self.f.tags || !self.r.pct(pct) {
            return vec![];
        }
        let n = 1 + self.r.below(2);
        (0..n)
            .map(|_| {
                let w = self.w();
                if self.r.pct(25) && !self.ints.is_empty() {
                    let v = self.r.pick(&self.ints.clone()).clone();
                    vec![Inl::T(format!("{w} ")), Inl::E(Ex::V(v))]
                } else {
                    vec![Inl::T(w)]
                }
            })
            .collect()
    }

    // ---- statements ---------------------------------------------------------

    /// A knot or stitch that anything may divert to.
    fn a_target(&mut self) -> String {
        let c: Vec<Sig> = self.knots.iter().filter(|k| k.kind == Kind::Plain && k.params == 0).cloned().collect();
        let k = self.r.pick(&c).clone();
        if !k.stitches.is_empty() && self.r.pct(50) {
            return format!("{}.{}", k.name, self.r.pick(&k.stitches));
        }
        k.name
    }

    fn assign(&mut self) -> St {
        let mut temps = self.temps.clone();
        if self.cur.pure_ {
            if temps.is_empty() {
                return St::Line { txt: self.text(false), tags: vec![], div: None };
            }
            let v = self.r.pick(&temps).clone();
            return St::Set { var: v, op: "=", ex: self.int_ex(2) };
        }
        temps.extend(self.ints.clone());
        if self.f.wide && !self.tvars.is_empty() && self.r.pct(8) {
            let v = self.r.pick(&self.tvars.clone()).clone();
            let t = self.a_target();
            return St::Set { var: v, op: "=", ex: Ex::Raw(format!("-> {t}")) };
        }
        match self.r.below(10) {
            0..=3 if !temps.is_empty() => {
                let v = self.r.pick(&temps).clone();
                St::Set { var: v, op: "=", ex: self.int_ex(2) }
            }
            4 if !temps.is_empty() => {
                let v = self.r.pick(&temps).clone();
                let op = *self.r.pick(&["+=", "-="]);
                St::Set { var: v, op, ex: self.int_ex(1) }
            }
            5 if !temps.is_empty() => {
                let v = self.r.pick(&temps).clone();
                let op = *self.r.pick(&["++", "--"]);
                St::Set { var: v, op, ex: Ex::I(1) }
            }
            6 | 7 if !self.bools.is_empty() => {
                let v = self.r.pick(&self.bools.clone()).clone();
                St::Set { var: v, op: "=", ex: self.bool_ex(2) }
            }
            8 if !self.strs.is_empty() => {
                let v = self.r.pick(&self.strs.clone()).clone();
                // keep strings short: no self-concatenation
                St::Set { var: v, op: "=", ex: self.str_lit() }
            }
            9 if self.f.lists && !self.list_vars.is_empty() => {
                let v = self.r.pick(&self.list_vars.clone()).clone();
                let i = self.r.pick(&self.list_items.clone()).clone();
                match self.r.below(4) {
                    0 => St::Set { var: v, op: "+=", ex: Ex::Raw(i) },
                    1 => St::Set { var: v, op: "-=", ex: Ex::Raw(i) },
                    2 => St::Set { var: v, op: "=", ex: Ex::Raw(format!("({i})")) },
                    _ => {
                        let u = self.r.pick(&self.list_vars.clone()).clone();
                        St::Set { var: v, op: "=", ex: Ex::Raw(format!("LIST_ALL({u})")) }
                    }
                }
            }
            _ => St::Line { txt: self.text(true), tags: vec![], div: None },
        }
    }

    /// A tunnel that may be called from here.
    fn a_tunnel(&mut self) -> Option<(String, Vec<Ex>)> {
        let lo = if self.cur.kind == Kind::Tunnel { self.cur.knot + 1 } else { 0 };
        let c: Vec<Sig> = self.knots.iter().enumerate().filter(|(i, k)| k.kind == Kind::Tunnel && *i >= lo).map(|(_, k)| k.clone()).collect();
        if c.is_empty() || self.cur.in_func.is_some() {
            return None;
        }
        let k = self.r.pick(&c).clone();
        Some((k.name, (0..k.params).map(|_| self.int_ex(1)).collect()))
    }

    fn a_thread(&mut self) -> Option<(String, Vec<Ex>)> {
        let c: Vec<Sig> = self.knots.iter().filter(|k| k.kind == Kind::Thread).cloned().collect();
        if c.is_empty() || self.cur.in_func.is_some() || !self.f.threads {
            return None;
        }
        let k = self.r.pick(&c).clone();
        Some((k.name, (0..k.params).map(|_| self.int_ex(1)).collect()))
    }

    fn line(&mut self) -> St {
        self.allow_div = self.f.wide && self.cur.in_func.is_none();
        let mut t = self.text(true);
        let free = std::mem::take(&mut self.allow_div);
        let mut tags = self.tag_list(20);
        if matches!(t.first(), Some(Inl::E(_))) {
            // whether a tag after a line that turns out to be blank ends up
            // behind a pending glue is not something the reference settles
            tags.clear();
        }
        if free && self.r.pct(8) {
            let d = match self.a_tunnel() {
                Some((t, a)) => Some(Div::Tunnel(t, a)),
                None if self.cur.kind == Kind::Plain => self.a_thread().map(|(t, a)| Div::Thread(t, a)),
                None => None,
            };
            return St::Line { txt: t, tags, div: d };
        }
        if self.f.glue && self.r.pct(12) {
            t.push(Inl::Glue);
            tags.clear();
        } else if self.f.glue && self.r.pct(8) {
            t.insert(0, Inl::Glue);
            tags.clear();
        }
        St::Line { txt: t, tags, div: None }
    }

    fn simple(&mut self, depth: usize) -> St {
        match self.r.below(16) {
            0..=5 => self.line(),
            6..=8 => self.assign(),
            9 | 10 if self.f.blocks && depth < 3 => {
                let n = 1 + self.r.below(2);
                let mut arms = vec![];
                for _ in 0..n {
                    let c = self.bool_ex(2);
                    let b = self.block(depth);
                    arms.push((c, b));
                }
                let els = if self.r.pct(50) { Some(self.block(depth)) } else { None };
                St::If(arms, els)
            }
            11 if self.f.blocks && depth < 3 => {
                let e = self.int_ex(1);
                let n = 1 + self.r.below(2);
                let mut arms = vec![];
                for i in 0..n {
                    let b = self.block(depth);
                    arms.push((Ex::I(i as i32), b));
                }
                let els = if self.r.pct(60) { Some(self.block(depth)) } else { None };
                St::Switch(e, arms, els)
            }
            12 if self.f.blocks && depth < 3 => {
                let k = match self.r.below(if self.f.shuffle { 4 } else { 3 }) {
                    0 => Sk::Stop,
                    1 => Sk::Cycle,
                    2 => Sk::Once,
                    _ => Sk::Shuffle,
                };
                let id = self.id();
                let n = 2 + self.r.below(2);
                let bs = (0..n)
                    .map(|_| {
                        let mut v = vec![self.line()];
                        if self.r.pct(40) {
                            v.push(self.assign());
                        }
                        v
                    })
                    .collect();
                St::Seq(k, id, bs)
            }
            13 if self.f.wide && self.r.pct(25) => {
                let (Some(a), Some(b)) = (self.a_tunnel(), self.a_tunnel()) else { return self.line() };
                if self.r.pct(60) || self.cur.kind != Kind::Plain {
                    St::Chain(vec![a, b], None)
                } else {
                    let d = self.exit();
                    St::Chain(if self.r.pct(50) { vec![a] } else { vec![a, b] }, Some(d))
                }
            }
            13 if self.cur.in_func.is_none() => {
                let lo = if self.cur.kind == Kind::Tunnel { self.cur.knot + 1 } else { 0 };
                let c: Vec<Sig> = self.knots.iter().enumerate().filter(|(i, k)| k.kind == Kind::Tunnel && *i >= lo).map(|(_, k)| k.clone()).collect();
                if c.is_empty() {
                    return self.line();
                }
                let k = self.r.pick(&c).clone();
                let a = (0..k.params).map(|_| self.int_ex(1)).collect();
                St::Tunnel(k.name, a)
            }
            14 if !self.funcs.is_empty() => {
                let ret = *self.r.pick(&['i', 't', 'b']);
                match self.call(ret, 1) {
                    Some(c) => {
                        if ret == 'i' && !self.ints.is_empty() && !self.cur.pure_ && self.r.pct(60) {
                            St::Set { var: self.r.pick(&self.ints.clone()).clone(), op: "=", ex: c }
                        } else {
                            St::Do(c)
                        }
                    }
                    None => self.line(),
                }
            }
            _ => self.line(),
        }
    }

    fn block(&mut self, depth: usize) -> Vec<St> {
        let was = self.cur.in_block;
        self.cur.in_block = true;
        let n = 1 + self.r.below(2);
        let mut v = vec![];
        for _ in 0..n {
            v.push(if self.r.pct(60) { self.line() } else if self.r.pct(70) { self.assign() } else { self.simple(depth + 2) });
        }
        if self.f.wide && self.cur.in_func.is_none() && self.r.pct(15) {
            let d = self.exit();
            v.push(St::Divert(d));
        }
        self.cur.in_block = was;
        v
    }

    /// A divert out of the current flow.
    fn exit(&mut self) -> Div {
        if self.cur.kind == Kind::Tunnel && self.r.pct(90) {
            // only where the player had to act, so that play ends
            if self.f.wide && !self.cur.forward && self.r.pct(15) {
                return Div::RetTo(self.a_target());
            }
            return Div::TunnelRet;
        }
        if self.f.wide && !self.cur.forward && !self.tvars.is_empty() && self.r.pct(20) {
            return Div::To(self.r.pick(&self.tvars.clone()).clone(), vec![]);
        }
        if self.cur.kind == Kind::Thread && self.cur.forward {
            return Div::Done;
        }
        let lo = if self.cur.forward && !self.cur.root { self.cur.knot + 1 } else { 0 };
        let c: Vec<Sig> = self.knots.iter().enumerate().filter(|(i, k)| k.kind == Kind::Plain && *i >= lo).map(|(_, k)| k.clone()).collect();
        if c.is_empty() || self.r.pct(12) {
            return if self.r.pct(50) { Div::Done } else { Div::End };
        }
        let k = self.r.pick(&c).clone();
        let a: Vec<Ex> = (0..k.params).map(|_| self.int_ex(1)).collect();
        // a stitch of a later knot, sometimes
        if !k.stitches.is_empty() && k.params == 0 && self.r.pct(40) {
            let s = self.r.pick(&k.stitches).clone();
            return Div::To(format!("{}.{}", k.name, s), vec![]);
        }
        Div::To(k.name, a)
    }

    fn choice(&mut self, depth: usize, budget: usize, needs_exit: bool) -> Ch {
        let mut c = Ch { id: self.id(), sticky: self.r.pct(35), ..Default::default() };
        let mut full_label = None;
        if self.f.labels && self.r.pct(30) && !self.cur.in_block {
            let l = format!("l{}", self.id());
            self.labels.push(l.clone());
            let full = format!("{}{}{}", self.cur.path, if self.cur.path.is_empty() { "" } else { "." }, l);
            if !self.cur.path.is_empty() {
                self.count_paths.push(full.clone());
                c.label = Some(l);
                full_label = Some(full);
            }
        }
        for _ in 0..[0, 0, 0, 1, 1, 2][self.r.below(6)] {
            let e = self.bool_ex(2);
            c.conds.push(e);
        }
        let t = |g: &mut Gen| -> Txt {
            let w = g.w();
            let mut t = vec![Inl::T(w)];
            if g.r.pct(25) {
                t.push(Inl::T(" ".into()));
                let i = if g.f.seq_in_choice && g.r.pct(40) { g.inline(1, true) } else if g.r.pct(50) { Inl::E(g.print_ex()) } else { Inl::Cond(g.bool_ex(1), vec![Inl::T(g.w())], vec![Inl::T(g.w())]) };
                t.push(i);
            }
            t
        };
        match self.r.below(5) {
            0 | 1 => c.start = t(self),
            2 => {
                c.bracket = true;
                c.only = t(self);
            }
            3 => {
                c.bracket = true;
                c.start = t(self);
                c.only = vec![Inl::T(" ".into())];
                let x = t(self);
                c.only.extend(x);
            }
            _ => {
                c.bracket = true;
                c.start = t(self);
                if self.r.pct(60) {
                    c.only = vec![Inl::T(self.r.pick(&[".", "!", " now"]).to_string())];
                }
                c.end = vec![Inl::T(" ".into())];
                let x = t(self);
                c.end.extend(x);
            }
        }
        if !c.bracket {
            c.start_tags = self.tag_list(12);
        } else if self.f.wide {
            if !c.start.is_empty() {
                c.start_tags = self.tag_list(8);
            }
            if !c.only.is_empty() {
                c.only_tags = self.tag_list(10);
            }
            if !c.end.is_empty() {
                c.end_tags = self.tag_list(10);
            }
        }
        let was = self.cur.clone();
        self.cur.forward = false;
        let mut exit = needs_exit || self.r.pct(20);
        if exit && self.r.pct(40) && (c.start_tags.is_empty() || self.f.wide) {
            c.div = Some(self.leave());
            exit = false;
        } else {
            if self.f.wide && self.r.pct(6) {
                c.div = self.a_tunnel().map(|(t, a)| Div::Tunnel(t, a));
            }
            let n = self.r.below(3);
            for _ in 0..n {
                let s = self.simple(depth + 1);
                c.body.push(s);
            }
            if depth < 2 && budget > 2 && self.r.pct(25) {
                let mut inner = self.weave(depth + 1, budget / 2, exit);
                c.body.append(&mut inner);
                exit = false;
            }
        }
        if exit {
            let d = self.leave();
            c.body.push(St::Divert(d));
        }
        self.cur = was;
        // only diverts written later may go there, or play would go round without the player
        self.ch_labels.extend(full_label);
        c
    }

    /// leaving from a choice body: a loop label of this flow or another knot
    fn leave(&mut self) -> Div {
        if !self.cur.loops.is_empty() && self.r.pct(35) {
            let l = self.r.pick(&self.cur.loops.clone()).clone();
            return Div::To(l, vec![]);
        }
        if self.f.wide && !self.ch_labels.is_empty() && self.r.pct(15) {
            return Div::To(self.r.pick(&self.ch_labels.clone()).clone(), vec![]);
        }
        self.exit()
    }

    fn fallback(&mut self) -> Ch {
        let was = self.cur.clone();
        self.cur.forward = true;
        let mut c = Ch { id: self.id(), sticky: self.r.pct(50), fallback: true, ..Default::default() };
        if self.r.pct(60) {
            c.div = Some(self.exit());
        } else {
            let l = self.line();
            c.body.push(l);
            let d = self.exit();
            c.body.push(St::Divert(d));
        }
        self.cur = was;
        c
    }

    /// Statements of one weave level; ends with a divert when `exit`.
    fn weave(&mut self, depth: usize, budget: usize, exit: bool) -> Vec<St> {
        let mut v = vec![];
        let n = 1 + self.r.below(budget.clamp(1, 4));
        for _ in 0..n {
            let s = self.simple(depth);
            v.push(s);
        }
        if self.f.choices && self.cur.in_func.is_none() && !self.cur.in_block {
            let groups = if depth == 0 { 1 + self.r.below(2) } else { 1 };
            for g in 0..groups {
                if depth == 0 && g == 0 && self.r.pct(15) && self.cur.kind != Kind::Thread {
                    break;
                }
                if depth == 0 && g == 0 && self.f.labels && !self.cur.path.is_empty() && self.r.pct(25) && v.is_empty() {
                    // only as the first statement of a flow
                }
                if self.f.threads && depth == 0 && self.r.pct(30) && self.cur.kind == Kind::Plain {
                    let c: Vec<Sig> = self.knots.iter().filter(|k| k.kind == Kind::Thread).cloned().collect();
                    if !c.is_empty() {
                        let k = self.r.pick(&c).clone();
                        let a = (0..k.params).map(|_| self.int_ex(1)).collect();
                        v.push(St::Thread(k.name, a));
                    }
                }
                if self.f.wide && self.f.threads && self.r.pct(8) && self.cur.kind == Kind::Plain {
                    if let Some((t, a)) = self.a_thread() {
                        v.push(St::Thread(t, a));
                    }
                }
                if self.f.wide && self.f.blocks && self.r.pct(12) && self.cur.kind != Kind::Thread {
                    let c = self.bool_ex(1);
                    let was = std::mem::replace(&mut self.cur.in_block, true);
                    let list = (0..1 + self.r.below(2)).map(|_| self.choice(depth, 0, true)).collect();
                    self.cur.in_block = was;
                    v.push(St::If(vec![(c, vec![St::Choices { list, gather: None, stop: false }])], None));
                }
                let last = g + 1 == groups;
                let gather = if last && exit { self.r.pct(60) } else { last && self.r.pct(60) || !last };
                let m = 1 + self.r.below(3);
                let mut list: Vec<Ch> = vec![];
                for _ in 0..m {
                    // without a gather below, choices of an outermost weave must leave by themselves
                    let c = self.choice(depth, budget, !gather && exit);
                    list.push(c);
                }
                if depth == 0 && self.r.pct(25) && self.cur.kind != Kind::Thread {
                    let c = self.fallback();
                    list.push(c);
                }
                let lab = if gather && depth == 0 && self.f.labels && self.r.pct(30) && !self.cur.path.is_empty() {
                    let l = format!("g{}", self.id());
                    self.count_paths.push(format!("{}.{}", self.cur.path, l));
                    Some(l)
                } else {
                    None
                };
                v.push(St::Choices { list, gather: if gather { Some(lab) } else { None }, stop: true });
                if !gather {
                    return v;
                }
                let n = 1 + self.r.below(2);
                for i in 0..n {
                    let s = if i == 0 && self.r.pct(70) { self.line() } else { self.simple(depth) };
                    v.push(s);
                }
            }
        }
        if exit {
            let d = self.exit();
            if self.r.pct(25) && !matches!(d, Div::TunnelRet) {
                let t = self.text(true);
                v.push(St::Line { txt: t, tags: vec![], div: Some(d) });
            } else {
                v.push(St::Divert(d));
            }
        }
        v
    }

    fn function(&mut self, i: usize) -> Knot {
        let sig = self.funcs[i].clone();
        let params: Vec<(String, bool)> = sig.params.iter().enumerate().map(|(j, r)| (format!("p{j}"), *r)).collect();
        let was_temps = std::mem::take(&mut self.temps);
        let was_cur = self.cur.clone();
        self.cur.in_func = Some(i);
        self.cur.pure_ = sig.pure_;
        self.cur.path = sig.name.clone();
        self.temps = params.iter().filter(|p| !p.1 || !sig.pure_).map(|p| p.0.clone()).collect();
        let mut body = vec![];
        if self.r.pct(30) {
            let e = self.int_ex(1);
            let t = format!("z{}", self.id());
            body.push(St::Temp { var: t.clone(), ex: e });
            self.temps.push(t);
        }
        let was_tags = self.f.tags;
        self.f.tags = false;
        let n = self.r.below(3);
        for _ in 0..n {
            let s = match self.r.below(6) {
                0 | 1 => self.assign(),
                2 if self.f.blocks => {
                    let c = self.bool_ex(1);
                    let mut b = self.block(2);
                    if self.r.pct(40) && sig.ret != 't' {
                        let e = self.ret_ex(sig.ret);
                        b.push(St::Return(Some(e)));
                    }
                    St::If(vec![(c, b)], None)
                }
                _ if sig.ret == 't' || self.r.pct(30) => self.fline(),
                _ => self.assign(),
            };
            body.push(s);
        }
        if sig.ret == 't' {
            let l = self.fline();
            body.push(l);
            if self.r.pct(30) {
                body.push(St::Return(None));
            }
        } else {
            let e = self.ret_ex(sig.ret);
            body.push(St::Return(Some(e)));
        }
        self.f.tags = was_tags;
        self.temps = was_temps;
        self.cur = was_cur;
        Knot { name: sig.name, func: true, params, body, stitches: vec![], tags: vec![] }
    }

    fn fline(&mut self) -> St {
        let t = self.text(!self.cur.pure_);
        St::Line { txt: t, tags: vec![], div: None }
    }

    fn ret_ex(&mut self, k: char) -> Ex {
        match k {
            'b' => self.bool_ex(1),
            's' => self.str_ex(1),
            _ => self.int_ex(2),
        }
    }

    fn body(&mut self, ki: usize, kind: Kind, path: String, params: &[(String, bool)]) -> Vec<St> {
        self.temps = params.iter().map(|p| p.0.clone()).collect();
        self.ch_labels.clear();
        self.cur = Ctx { knot: ki, kind, path: path.clone(), in_func: None, pure_: false, loops: vec![], forward: true, in_block: false, root: path.is_empty() };
        let mut v = vec![];
        if self.r.pct(30) {
            let t = format!("y{}", self.id());
            let e = self.int_ex(1);
            v.push(St::Temp { var: t.clone(), ex: e });
            self.temps.push(t);
        }
        if self.f.labels && !path.is_empty() && self.r.pct(25) && kind == Kind::Plain {
            let l = format!("g{}", self.id());
            self.count_paths.push(format!("{path}.{l}"));
            self.cur.loops.push(format!("{path}.{l}"));
            v.push(St::Label(l));
        }
        let n = self.f.size;
        let mut w = self.weave(0, n, true);
        v.append(&mut w);
        v
    }

    pub fn program(&mut self) -> Program {
        let mut p = Program::default();
        let (ni, nb, ns) = (1 + self.r.below(3), self.r.below(3), if self.f.strings { self.r.below(2) } else { 0 });
        for i in 0..ni {
            let n = self.name("x", i);
            p.globals.push((n.clone(), Ex::I(self.r.range(-2, 6) as i32)));
            self.ints.push(n);
        }
        for i in 0..nb {
            let n = self.name("b", i);
            p.globals.push((n.clone(), Ex::B(self.r.pct(50))));
            self.bools.push(n);
        }
        for i in 0..ns {
            let n = self.name("str", i);
            let e = self.str_lit();
            p.globals.push((n.clone(), e));
            self.strs.push(n);
        }
        if self.f.lists {
            let nl = 1 + self.r.below(3);
            for i in 0..nl {
                let ln = self.name("L", i);
                let mut items = vec![];
                for j in 0..2 + self.r.below(4) {
                    let v = if self.r.pct(25) { Some(self.r.range(1, 6) as i32 + j as i32) } else { None };
                    let it = format!("{}it{}{}", self.f.prefix, i, (b'a' + j as u8) as char);
                    self.list_items.push(it.clone());
                    items.push((it, v, self.r.pct(40)));
                }
                // values within one list stay distinct and increasing
                let mut last = 0;
                for it in items.iter_mut() {
                    if let Some(v) = it.1 {
                        if v <= last {
                            it.1 = None;
                        }
                    }
                    last = it.1.unwrap_or(last + 1);
                }
                self.list_vars.push(ln.clone());
                self.list_names.push(ln.clone());
                p.lists.push((ln, items));
            }
            let n = self.name("lv", 0);
            p.globals.push((n.clone(), Ex::Raw(format!("({})", self.list_items[0]))));
            self.list_vars.push(n);
        }
        if self.f.externals {
            for i in 0..1 + self.r.below(2) {
                let n = self.name("ext", i);
                let a = self.r.below(3);
                p.externals.push((n.clone(), (0..a).map(|j| format!("a{j}")).collect()));
                self.exts.push((n, a));
            }
        }
        if self.f.functions {
            for i in 0..1 + self.r.below(3) {
                let n = self.name("f", i);
                let ret = *self.r.pick(&['i', 'i', 't', 'b']);
                let pure_ = self.r.pct(40);
                let np = self.r.below(3);
                let params = (0..np).map(|_| !pure_ && self.r.pct(25)).collect();
                self.funcs.push(FSig { name: n, params, ret, pure_ });
            }
        }
        let np = 2 + self.r.below(1 + self.f.size / 2);
        for i in 0..np {
            let name = self.name("k", i);
            let params = if self.r.pct(20) && i > 0 { 1 } else { 0 };
            let stitches = if self.r.pct(25) { (0..1 + self.r.below(2)).map(|j| format!("s{j}")).collect() } else { vec![] };
            self.knots.push(Sig { name, kind: Kind::Plain, params, stitches });
        }
        if self.f.tunnels {
            for i in 0..1 + self.r.below(2) {
                let name = self.name("t", i);
                let params = self.r.below(2);
                self.knots.push(Sig { name, kind: Kind::Tunnel, params, stitches: vec![] });
            }
        }
        if self.f.threads && self.f.choices {
            for i in 0..1 + self.r.below(2) {
                let name = self.name("h", i);
                let params = self.r.below(2);
                self.knots.push(Sig { name, kind: Kind::Thread, params, stitches: vec![] });
            }
        }
        for k in self.knots.clone() {
            self.count_paths.push(k.name.clone());
            for s in &k.stitches {
                self.count_paths.push(format!("{}.{}", k.name, s));
            }
        }
        if self.f.wide {
            if self.r.pct(40) {
                let n = self.name("to", 0);
                let t = self.a_target();
                p.globals.push((n.clone(), Ex::Raw(format!("-> {t}"))));
                self.tvars.push(n);
            }
            for i in 0..self.r.below(3) {
                let n = self.name("C", i);
                p.consts.push((n.clone(), Ex::I(self.r.range(-3, 9) as i32)));
                self.consts.push(n);
            }
        }
        // bodies
        let mut knots = vec![];
        for i in 0..self.funcs.len() {
            let k = self.function(i);
            knots.push(k);
        }
        for (i, s) in self.knots.clone().iter().enumerate() {
            let params: Vec<(String, bool)> = (0..s.params).map(|j| (format!("q{j}"), false)).collect();
            // sometimes a knot with nothing before its first stitch
            let none = self.f.wide && !s.stitches.is_empty() && s.params == 0 && self.r.pct(25);
            let body = if none { vec![] } else { self.body(i, s.kind, s.name.clone(), &params) };
            let mut st = vec![];
            for n in &s.stitches {
                let b = self.body(i, s.kind, format!("{}.{}", s.name, n), &[]);
                st.push(Stitch { name: n.clone(), params: vec![], body: b });
            }
            let tags = vec![];
            knots.push(Knot { name: s.name.clone(), func: false, params, body, stitches: st, tags });
        }
        // root
        self.cur = Ctx { knot: 0, kind: Kind::Plain, path: String::new(), in_func: None, pure_: false, loops: vec![], forward: true, in_block: false, root: true };
        self.temps.clear();
        let mut root = vec![];
        if self.r.pct(60) {
            let l = self.line();
            root.push(l);
        }
        if self.r.pct(30) {
            let s = self.simple(3);
            root.push(s);
        }
        if self.r.pct(20) {
            let mut w = self.weave(0, 3, true);
            root.append(&mut w);
        } else {
            let k = self.knots[0].clone();
            let a = (0..k.params).map(|_| Ex::I(1)).collect();
            root.push(St::Divert(Div::To(k.name, a)));
        }
        p.root = root;
        // fallbacks of externals, as Ink functions of the same name
        for (n, args) in &p.externals {
            knots.push(Knot { name: n.clone(), func: true, params: args.iter().map(|a| (a.clone(), false)).collect(), body: vec![St::Return(Some(Ex::I(7)))], stitches: vec![], tags: vec![] });
        }
        p.knots = knots;
        p
    }
}
