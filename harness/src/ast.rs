//! Source-level programs: what the generator makes, the printer writes and the reference interpreter plays.
pub type Txt = Vec<Inl>;

#[derive(Clone, Debug, PartialEq)]
pub enum Inl {
    T(String),
    E(Ex),
    Cond(Ex, Txt, Txt),
    Seq(Sk, usize, Vec<Txt>),
    Glue,
    /// a divert at the end of a branch
    Div(Div),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sk {
    Stop,
    Cycle,
    Once,
    Shuffle,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    I(i32),
    B(bool),
    F(String),
    S(String),
    V(String),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Not(Box<Ex>),
    Neg(Box<Ex>),
    Call(String, Vec<Ex>),
    /// read count of a path as written in the source
    Count(String),
    TurnsSince(String),
    Turns,
    ChoiceCount,
    /// anything else, written out as is (never used where the reference interpreter is the oracle)
    Raw(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Div {
    To(String, Vec<Ex>),
    Done,
    End,
    TunnelRet,
    /// `->-> t`
    RetTo(String),
    /// `-> t ->` or `<- t` after other content of a line
    Tunnel(String, Vec<Ex>),
    Thread(String, Vec<Ex>),
}

#[derive(Clone, Debug)]
pub enum St {
    Line { txt: Txt, tags: Vec<Txt>, div: Option<Div> },
    Set { var: String, op: &'static str, ex: Ex },
    Temp { var: String, ex: Ex },
    Do(Ex),
    Return(Option<Ex>),
    Divert(Div),
    Tunnel(String, Vec<Ex>),
    Thread(String, Vec<Ex>),
    /// `-> t1 -> t2 ->`, or `-> t1 -> t2 -> k`
    Chain(Vec<(String, Vec<Ex>)>, Option<Div>),
    If(Vec<(Ex, Vec<St>)>, Option<Vec<St>>),
    Switch(Ex, Vec<(Ex, Vec<St>)>, Option<Vec<St>>),
    Seq(Sk, usize, Vec<Vec<St>>),
    /// `stop` is false inside blocks: play goes on after the choices are generated
    Choices { list: Vec<Ch>, gather: Option<Option<String>>, stop: bool },
    /// `- (label)` that no choice leads to
    Label(String),
    Raw(String),
}

#[derive(Clone, Debug, Default)]
pub struct Ch {
    pub id: usize,
    pub sticky: bool,
    pub label: Option<String>,
    pub conds: Vec<Ex>,
    pub start: Txt,
    pub only: Txt,
    pub end: Txt,
    pub bracket: bool,
    pub start_tags: Vec<Txt>,
    pub only_tags: Vec<Txt>,
    pub end_tags: Vec<Txt>,
    pub div: Option<Div>,
    pub body: Vec<St>,
    pub fallback: bool,
}

#[derive(Clone, Debug)]
pub struct Stitch {
    pub name: String,
    pub params: Vec<(String, bool)>,
    pub body: Vec<St>,
}

#[derive(Clone, Debug)]
pub struct Knot {
    pub name: String,
    pub func: bool,
    pub params: Vec<(String, bool)>,
    pub body: Vec<St>,
    pub stitches: Vec<Stitch>,
    pub tags: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub globals: Vec<(String, Ex)>,
    /// (list name, items (name, explicit value, initially in))
    pub lists: Vec<(String, Vec<(String, Option<i32>, bool)>)>,
    pub externals: Vec<(String, Vec<String>)>,
    pub consts: Vec<(String, Ex)>,
    pub root: Vec<St>,
    pub knots: Vec<Knot>,
    /// how the source is laid out: 0 is the plain layout; low 20 bits name the kinds of variation, the others seed them
    pub style: u64,
}

// ---- layout ----------------------------------------------------------------

pub mod layout {
    use crate::rng::Rng;
    use std::cell::RefCell;

    /// indentation of any kind
    pub const INDENT: u64 = 1;
    /// `**` for `* *`, `*text`
    pub const BULLETS: u64 = 2;
    pub const BLANKS: u64 = 4;
    /// `// comment` on lines and after them
    pub const COMMENTS: u64 = 8;
    /// `/* comment */` on lines of its own, over several lines
    pub const BLOCK_COMMENTS: u64 = 16;
    pub const OPERATORS: u64 = 32;
    pub const BRACES: u64 = 64;
    pub const HEADERS: u64 = 128;
    pub const ARROWS: u64 = 256;
    pub const ASSIGN: u64 = 512;
    /// branches and gathers begin on the line of their marker
    pub const SAME_LINE: u64 = 1024;
    pub const TAGS: u64 = 2048;
    /// globals are declared after the root content or inside knots
    pub const GLOBALS: u64 = 4096;
    pub const CRLF: u64 = 8192;
    pub const NO_EOL: u64 = 16384;
    pub const TRAILING: u64 = 32768;
    pub const TODO: u64 = 65536;
    /// knots live in included files
    pub const INCLUDES: u64 = 131072;
    /// letters that need no escape are escaped
    pub const ESCAPES: u64 = 262144;
    /// the conditions and the text of a choice stand on lines of their own
    pub const CHOICE_LINES: u64 = 524288;
    pub const ALL: u64 = (1 << 20) - 1;
    pub const BITS: u32 = 20;

    thread_local! {
        static NOW: RefCell<(u64, Rng)> = RefCell::new((0, Rng::new(0)));
    }

    pub fn set(style: u64) {
        NOW.with(|n| *n.borrow_mut() = (style & ((1 << BITS) - 1), Rng::new(style >> BITS)));
    }

    pub fn has(flag: u64) -> bool {
        NOW.with(|n| n.borrow().0 & flag != 0)
    }

    /// Whether to vary here.
    pub fn vary(flag: u64) -> bool {
        NOW.with(|n| {
            let mut n = n.borrow_mut();
            n.0 & flag != 0 && n.1.pct(40)
        })
    }

    pub fn below(k: usize) -> usize {
        NOW.with(|n| n.borrow_mut().1.below(k))
    }

    pub fn pick<'a>(flag: u64, plain: &'a str, others: &[&'a str]) -> &'a str {
        if vary(flag) { others[below(others.len())] } else { plain }
    }
}

use layout::{pick, vary};

// ---- printing -------------------------------------------------------------

pub fn ex(e: &Ex) -> String {
    match e {
        Ex::I(i) => i.to_string(),
        Ex::B(b) => b.to_string(),
        Ex::F(s) => s.clone(),
        Ex::S(s) => format!("\"{s}\""),
        Ex::V(v) => v.clone(),
        Ex::Bin(op, a, b) => {
            let (a, b) = (sub(a), sub(b));
            let op = match *op {
                "&&" => pick(layout::OPERATORS, op, &["and"]),
                "||" => pick(layout::OPERATORS, op, &["or"]),
                "%" => pick(layout::OPERATORS, op, &["mod"]),
                o => o,
            };
            if !op.starts_with(|c: char| c.is_alphabetic()) && vary(layout::OPERATORS) {
                if layout::below(2) == 0 { format!("{a}{op}{b}") } else { format!("{a}  {op} {b}") }
            } else {
                format!("{a} {op} {b}")
            }
        }
        Ex::Not(a) => format!("not {}", sub(a)),
        Ex::Neg(a) => format!("-{}", sub(a)),
        Ex::Call(f, args) => format!("{}({})", f, comma(args)),
        Ex::Count(p) => p.clone(),
        Ex::TurnsSince(p) => format!("TURNS_SINCE({}{p})", pick(layout::ARROWS, "-> ", &["->", " ->  "])),
        Ex::Turns => "TURNS()".into(),
        Ex::ChoiceCount => "CHOICE_COUNT()".into(),
        Ex::Raw(s) => s.clone(),
    }
}

fn comma(args: &[Ex]) -> String {
    let v: Vec<String> = args.iter().map(ex).collect();
    v.join(pick(layout::OPERATORS, ", ", &[",", " , "]))
}

/// Operands are parenthesised, except atoms (a parenthesised name is a list literal in Ink).
fn sub(e: &Ex) -> String {
    match e {
        Ex::Not(a) if vary(layout::OPERATORS) => format!("(!{})", sub(a)),
        Ex::Bin(..) | Ex::Not(_) | Ex::Neg(_) => format!("({})", ex(e)),
        Ex::I(i) if *i < 0 => format!("({i})"),
        _ => ex(e),
    }
}

/// Text as it stands in the source (text with backslashes is escaped already).
pub fn text(x: &str) -> String {
    if x.contains('\\') {
        return x.to_string();
    }
    let mut s = String::new();
    let c: Vec<char> = x.chars().collect();
    for (i, ch) in c.iter().enumerate() {
        let next = c.get(i + 1);
        let must = match ch {
            '{' | '}' | '|' | '#' | '[' | ']' => true,
            '-' => next == Some(&'>'),
            '<' => matches!(next, Some('-' | '>')),
            _ => false,
        };
        if must || ch.is_ascii_alphanumeric() && *ch != 'n' && layout::has(layout::ESCAPES) && layout::below(12) == 0 {
            s.push('\\');
        }
        s.push(*ch);
    }
    s
}

pub fn txt(t: &Txt) -> String {
    let mut s = String::new();
    for i in t {
        match i {
            Inl::T(x) => s.push_str(&text(x)),
            Inl::E(e) => {
                let (l, r) = (pick(layout::BRACES, "", &[" ", "  "]), pick(layout::BRACES, "", &[" "]));
                s.push_str(&format!("{{{l}{}{r}}}", ex(e)))
            }
            Inl::Cond(c, a, b) => {
                let (l, r) = (pick(layout::BRACES, "", &[" ", "  "]), pick(layout::BRACES, "", &[" "]));
                if b.is_empty() {
                    s.push_str(&format!("{{{l}{}{r}:{}}}", ex(c), txt(a)))
                } else {
                    s.push_str(&format!("{{{l}{}{r}:{}|{}}}", ex(c), txt(a), txt(b)))
                }
            }
            Inl::Seq(k, _, bs) => {
                let m = match k {
                    Sk::Stop => "",
                    Sk::Cycle => "&",
                    Sk::Once => "!",
                    Sk::Shuffle => "~",
                };
                s.push_str(&format!("{{{}{}}}", m, bs.iter().map(txt).collect::<Vec<_>>().join("|")));
            }
            Inl::Glue => s.push_str("<>"),
            Inl::Div(d) => s.push_str(&div(d)),
        }
    }
    s
}

fn tags(t: &[Txt]) -> String {
    t.iter().map(|x| format!("{}{}", pick(layout::TAGS, " # ", &[" #", " #  "]), txt(x))).collect()
}

/// Tags without logic may as well stand on lines of their own above the line.
fn static_tags(t: &[Txt]) -> bool {
    t.iter().flatten().all(|i| matches!(i, Inl::T(_)))
}

/// Nothing of a line that came before can still be open.
fn closed(s: Option<&St>) -> bool {
    match s {
        Some(St::Line { txt, div: None, .. }) => matches!(txt.last(), Some(Inl::T(x)) if !x.ends_with(' ')),
        _ => false,
    }
}

fn arrow() -> &'static str {
    pick(layout::ARROWS, "-> ", &["->", "->  "])
}

pub fn div(d: &Div) -> String {
    match d {
        Div::To(t, a) => format!("{}{}", arrow(), call(t, a)),
        Div::Done => format!("{}DONE", arrow()),
        Div::End => format!("{}END", arrow()),
        Div::TunnelRet => "->->".into(),
        Div::RetTo(t) => format!("->{}{t}", arrow()),
        Div::Tunnel(t, a) => format!("{}{}{}->", arrow(), call(t, a), pick(layout::ARROWS, " ", &["", "  "])),
        Div::Thread(t, a) => format!("{}{}", pick(layout::ARROWS, "<- ", &["<-", "<-  "]), call(t, a)),
    }
}

fn call(t: &str, a: &[Ex]) -> String {
    if a.is_empty() { t.to_string() } else { format!("{}({})", t, comma(a)) }
}

fn open() -> &'static str {
    pick(layout::BRACES, "{ ", &["{", "{  "])
}

fn dash() -> &'static str {
    pick(layout::BULLETS, "- ", &["-", "-   "])
}

fn tilde() -> &'static str {
    pick(layout::ASSIGN, "~ ", &["~", "~  "])
}

fn assign(op: &str) -> String {
    match pick(layout::ASSIGN, " ", &["", "  "]) {
        "  " => format!("  {op} "),
        s => format!("{s}{op}{s}"),
    }
}

/// A line end that nothing may be put before or after.
const LINE: char = '\u{2}';

fn pad(n: usize) -> String {
    " ".repeat(n * 4)
}

/// `depth` is the weave depth (number of bullets of an enclosing choice).
fn stmts(out: &mut String, body: &[St], depth: usize, ind: usize) {
    for (i, s) in body.iter().enumerate() {
        let at = out.len();
        let join = out.ends_with('\u{1}');
        let mut one = String::new();
        if let St::Line { txt: t, tags: tg, div: d } = s {
            if !tg.is_empty() && static_tags(tg) && t.iter().all(|x| matches!(x, Inl::T(_))) && matches!(body.get(i + 1), Some(St::Line { txt, .. }) if matches!(txt.first(), Some(Inl::T(_)))) && i > 0 && closed(body.get(i - 1)) && vary(layout::TAGS) {
                for x in tg {
                    one.push_str(&format!("{}# {}\n", pad(ind), txt(x)));
                }
                stmt(&mut one, &St::Line { txt: t.clone(), tags: vec![], div: d.clone() }, depth, ind);
            }
        }
        if one.is_empty() {
            stmt(&mut one, s, depth, ind);
        }
        if join {
            out.truncate(at - 1);
            let plain = matches!(s, St::Line { .. } | St::Set { .. } | St::Do(_) | St::Divert(_) | St::Tunnel(..) | St::Thread(..) | St::If(..) | St::Switch(..) | St::Seq(..) | St::Temp { .. });
            let first = one.trim_start();
            if plain && !first.starts_with('(') && !first.starts_with('-') {
                out.push(' ');
                out.push_str(first);
                continue;
            }
            out.push('\n');
        }
        out.push_str(&one);
    }
    if out.ends_with('\u{1}') {
        out.pop();
        out.push('\n');
    }
}

/// The content of a branch, which may begin on the line of its header.
fn branch(out: &mut String, body: &[St], depth: usize, ind: usize) {
    let plain = matches!(body.first(), Some(St::Line { .. } | St::Set { .. } | St::Do(_) | St::Divert(_)));
    let mut b = String::new();
    stmts(&mut b, body, depth, ind);
    if plain && vary(layout::SAME_LINE) {
        let n = out.trim_end_matches('\n').len();
        out.truncate(n);
        out.push(' ');
        out.push_str(b.trim_start());
    } else {
        out.push_str(&b);
    }
}

fn gather_eol(out: &mut String) {
    out.push(if vary(layout::SAME_LINE) { '\u{1}' } else { '\n' });
}

fn bullets(out: &mut String, mark: &str, n: usize) {
    out.push_str(&vec![mark; n].join(pick(layout::BULLETS, " ", &["", "  ", "\t"])));
}

fn stmt(out: &mut String, s: &St, depth: usize, ind: usize) {
    let p = pad(ind);
    match s {
        St::Line { txt: t, tags: tg, div: d } => {
            out.push_str(&p);
            out.push_str(&txt(t));
            out.push_str(&tags(tg));
            if let Some(d) = d {
                out.push_str(&format!("{}{}", if matches!(t.last(), Some(Inl::T(_))) && tg.is_empty() { pick(layout::ARROWS, " ", &["", "  "]) } else { " " }, div(d)));
            }
            out.push('\n');
        }
        St::Set { var, op, ex: e } => match *op {
            "++" | "--" => out.push_str(&format!("{p}{}{var}{}{op}\n", tilde(), pick(layout::ASSIGN, "", &[" "]))),
            _ => out.push_str(&format!("{p}{}{var}{}{}\n", tilde(), assign(op), ex(e))),
        },
        St::Temp { var, ex: e } => out.push_str(&format!("{p}{}temp {var}{}{}\n", tilde(), assign("="), ex(e))),
        St::Do(e) => out.push_str(&format!("{p}{}{}\n", tilde(), ex(e))),
        St::Return(None) => out.push_str(&format!("{p}{}return\n", tilde())),
        St::Return(Some(e)) => out.push_str(&format!("{p}{}return {}\n", tilde(), ex(e))),
        St::Divert(d) => out.push_str(&format!("{p}{}\n", div(d))),
        St::Tunnel(t, a) => out.push_str(&format!("{p}{}\n", div(&Div::Tunnel(t.clone(), a.clone())))),
        St::Thread(t, a) => out.push_str(&format!("{p}{}\n", div(&Div::Thread(t.clone(), a.clone())))),
        St::Chain(v, last) => {
            out.push_str(&p);
            for (t, a) in v {
                out.push_str(&format!("{}{}{}", arrow(), call(t, a), pick(layout::ARROWS, " ", &["", "  "])));
            }
            out.push_str(&last.as_ref().map(div).unwrap_or("->".into()));
            out.push('\n');
        }
        St::If(arms, els) => {
            if arms.len() == 1 {
                out.push_str(&format!("{p}{}{}:\n", open(), ex(&arms[0].0)));
                stmts(out, &arms[0].1, depth, ind + 1);
            } else {
                out.push_str(&format!("{p}{{\n"));
                for (c, b) in arms {
                    out.push_str(&format!("{p}{}{}{}:\n", dash(), ex(c), pick(layout::BRACES, "", &[" "])));
                    branch(out, b, depth, ind + 1);
                }
            }
            if let Some(b) = els {
                out.push_str(&format!("{p}{}else{}:\n", dash(), pick(layout::BRACES, "", &[" "])));
                branch(out, b, depth, ind + 1);
            }
            out.push_str(&format!("{p}}}\n"));
        }
        St::Switch(e, arms, els) => {
            out.push_str(&format!("{p}{}{}:\n", open(), ex(e)));
            for (c, b) in arms {
                out.push_str(&format!("{p}{}{}:\n", dash(), ex(c)));
                branch(out, b, depth, ind + 1);
            }
            if let Some(b) = els {
                out.push_str(&format!("{p}{}else:\n", dash()));
                branch(out, b, depth, ind + 1);
            }
            out.push_str(&format!("{p}}}\n"));
        }
        St::Seq(k, _, bs) => {
            let m = match k {
                Sk::Stop => "stopping",
                Sk::Cycle => "cycle",
                Sk::Once => "once",
                Sk::Shuffle => "shuffle",
            };
            out.push_str(&format!("{p}{}{m}:\n", open()));
            for b in bs {
                // each element starts on its own line
                let mut first = String::new();
                stmts(&mut first, b, depth, ind + 1);
                out.push_str(&format!("{p}{}", dash()));
                out.push_str(first.trim_start());
                if first.is_empty() {
                    out.push('\n');
                }
            }
            out.push_str(&format!("{p}}}\n"));
        }
        St::Choices { list, gather, .. } => {
            for c in list {
                let mark = if c.sticky { "+" } else { "*" };
                out.push_str(&p);
                bullets(out, mark, depth + 1);
                out.push_str(pick(layout::BULLETS, " ", &["", "   "]));
                if let Some(l) = &c.label {
                    out.push_str(&format!("({l}){}", pick(layout::BULLETS, " ", &["", "  "])));
                }
                for (i, e) in c.conds.iter().enumerate() {
                    if i > 0 && vary(layout::CHOICE_LINES) {
                        out.push_str(&format!("{LINE}{p}  "));
                    }
                    out.push_str(&format!("{{{}{}{}}}{}", pick(layout::BRACES, " ", &[""]), ex(e), pick(layout::BRACES, " ", &[""]), pick(layout::BULLETS, " ", &["", "  "])));
                }
                if !c.conds.is_empty() && vary(layout::CHOICE_LINES) {
                    out.push_str(&format!("{LINE}{p}  "));
                }
                out.push_str(&txt(&c.start));
                out.push_str(&tags(&c.start_tags));
                if c.bracket {
                    out.push('[');
                    out.push_str(&txt(&c.only));
                    out.push_str(&tags(&c.only_tags));
                    out.push(']');
                    out.push_str(&txt(&c.end));
                    out.push_str(&tags(&c.end_tags));
                }
                match (&c.div, c.fallback) {
                    (Some(d), _) => out.push_str(&format!(" {}", div(d))),
                    (None, true) => out.push_str("->"),
                    (None, false) => {}
                }
                out.push('\n');
                stmts(out, &c.body, depth + 1, ind + 1);
            }
            if let Some(l) = gather {
                out.push_str(&p);
                bullets(out, "-", depth + 1);
                if let Some(l) = l {
                    out.push_str(&format!("{}({l})", pick(layout::BULLETS, " ", &["", "  "])));
                }
                gather_eol(out);
            }
        }
        St::Label(l) => {
            out.push_str(&p);
            bullets(out, "-", depth + 1);
            out.push_str(&format!("{}({l})", pick(layout::BULLETS, " ", &["", "  "])));
            gather_eol(out);
        }
        St::Raw(r) => {
            for l in r.lines() {
                out.push_str(&p);
                out.push_str(l);
                out.push('\n');
            }
        }
    }
}

fn params(ps: &[(String, bool)]) -> String {
    if ps.is_empty() {
        return String::new();
    }
    format!("({})", ps.iter().map(|(n, r)| if *r { format!("ref {n}") } else { n.clone() }).collect::<Vec<_>>().join(", "))
}

/// The whole program as one text, whatever its layout says about includes.
pub fn print(p: &Program) -> String {
    write(p, false).0
}

/// The main file and the files it includes.
pub fn print_files(p: &Program) -> (String, Vec<(String, String)>) {
    write(p, true)
}

fn write(p: &Program, split: bool) -> (String, Vec<(String, String)>) {
    layout::set(p.style);
    let mut decls: Vec<String> = vec![];
    for (n, args) in &p.externals {
        decls.push(format!("EXTERNAL {}({})\n", n, args.join(", ")));
    }
    for (n, items) in &p.lists {
        let it: Vec<String> = items
            .iter()
            .map(|(i, v, on)| {
                let b = match v {
                    Some(v) => format!("{i}{}{v}", assign("=")),
                    None => i.clone(),
                };
                if *on { format!("({b})") } else { b }
            })
            .collect();
        decls.push(format!("LIST {}{}{}\n", n, assign("="), it.join(pick(layout::OPERATORS, ", ", &[",", " , "]))));
    }
    for (n, e) in &p.consts {
        decls.push(format!("CONST {}{}{}\n", n, assign("="), ex(e)));
    }
    for (n, e) in &p.globals {
        decls.push(format!("VAR {}{}{}\n", n, assign("="), ex(e)));
    }
    let (mut top, mut late): (String, Vec<String>) = Default::default();
    for d in decls {
        if vary(layout::GLOBALS) { late.push(d) } else { top.push_str(&d) }
    }
    let mut o = top;
    stmts(&mut o, &p.root, 0, 0);
    let mut files: Vec<(String, String)> = vec![];
    let mut main = 0;
    for (n, k) in p.knots.iter().enumerate() {
        let mut o2 = String::new();
        if n == 0 && !late.is_empty() && vary(layout::GLOBALS) {
            o2.push_str(&late.pop().unwrap_or_default());
        }
        let (l, r) = (pick(layout::HEADERS, "=== ", &["== ", "==", "===", "====  "]), pick(layout::HEADERS, " ===", &["", " ==", "===", "  "]));
        if k.func {
            let ps = if k.params.is_empty() { "()".into() } else { params(&k.params) };
            o2.push_str(&format!("\n{l}function {}{}{r}\n", k.name, ps));
        } else {
            o2.push_str(&format!("\n{l}{}{}{r}\n", k.name, params(&k.params)));
        }
        for t in &k.tags {
            o2.push_str(&format!("# {}\n", text(t)));
        }
        stmts(&mut o2, &k.body, 0, 0);
        for s in &k.stitches {
            o2.push_str(&format!("{}{}{}\n", pick(layout::HEADERS, "= ", &["=", "=  "]), s.name, params(&s.params)));
            stmts(&mut o2, &s.body, 0, 0);
        }
        if vary(layout::GLOBALS) {
            o2.push_str(&late.pop().unwrap_or_default());
        }
        if split && n > 0 && vary(layout::INCLUDES) {
            if layout::below(2) == 0 || files.is_empty() {
                files.push((format!("part{}.ink", files.len() + 1), String::new()));
            }
            if let Some(f) = files.last_mut() {
                f.1.push_str(&o2);
            }
        } else {
            if main == 0 {
                main = o.len();
            }
            o.push_str(&o2);
        }
    }
    o.push_str(&late.concat());
    // included files are named before the first knot, or after everything
    for (f, _) in &files {
        if layout::below(2) == 0 && main > 0 {
            o.insert_str(0, &format!("INCLUDE {f}\n"));
        } else {
            if !o.ends_with('\n') {
                o.push('\n');
            }
            o.push_str(&format!("INCLUDE {f}\n"));
        }
    }
    let o = finish(&o);
    let files = files.into_iter().map(|(n, t)| (n, finish(&t))).collect();
    layout::set(0);
    (o, files)
}

/// What does not depend on what a line says.
fn finish(src: &str) -> String {
    use layout::*;
    if !has(INDENT | BLANKS | COMMENTS | BLOCK_COMMENTS | CRLF | NO_EOL | TRAILING | TODO) {
        return src.replace(LINE, "\n");
    }
    let mut o = String::new();
    let eol = if has(CRLF) { "\r\n" } else { "\n" };
    for l in src.lines() {
        if vary(BLANKS) {
            o.push_str(pick(TRAILING, "", &["  ", "\t"]));
            o.push_str(eol);
        }
        if vary(COMMENTS) && below(2) == 0 {
            o.push_str(pick(INDENT, "", &["  ", "\t"]));
            o.push_str(["// a comment", "//", "// -> nowhere {", "// \"quoted\" # tag", "//// * [choice] | else:"][below(5)]);
            o.push_str(eol);
        }
        if vary(BLOCK_COMMENTS) && below(3) == 0 {
            let c = ["/* a comment */", "/**/", "/* over EOL lines { */", "/*EOL=== not a knot ===EOL* [not a choice]EOL*/", "/* // */"][below(5)];
            o.push_str(&c.replace("EOL", eol));
            o.push_str(eol);
        }
        if vary(TODO) && below(4) == 0 && !l.trim_start().starts_with('-') && !l.trim().is_empty() {
            o.push_str(&format!("TODO: look at this again{eol}"));
        }
        let t = l.trim_start();
        if vary(INDENT) {
            o.push_str(["", " ", "  ", "\t", "\t\t ", "            "][below(6)]);
            o.push_str(t);
        } else {
            o.push_str(l);
        }
        let choice = t.starts_with('*') || t.starts_with('+');
        let open = choice && !t.ends_with(|c: char| c.is_alphanumeric()) || t.is_empty() || t.ends_with("<>");
        if !open && vary(TRAILING) {
            o.push_str(["  ", " ", "\t"][below(3)]);
        }
        if !open && vary(COMMENTS) {
            o.push_str([" // said", " //", " // } else: -> x"][below(3)]);
        }
        if !open && vary(BLOCK_COMMENTS) {
            o.push_str([" /* said */", " /**/"][below(2)]);
        }
        o.push_str(eol);
    }
    if has(NO_EOL) {
        let n = o.trim_end().len();
        o.truncate(n);
    }
    o.replace(LINE, eol)
}
