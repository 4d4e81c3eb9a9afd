//! Ink expressions with their own evaluator: values, coercions and list algebra as the language
//! defines them, written from the language's rules and not from the engine's code.
use crate::rng::Rng;
use std::collections::BTreeSet;

/// (value, list, item): the order in which a list is shown.
pub type It = (i32, String, String);

#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub items: BTreeSet<It>,
    /// the lists an empty list still belongs to
    pub from: BTreeSet<String>,
}
impl L {
    pub fn of(items: impl IntoIterator<Item = It>) -> L {
        L { items: items.into_iter().collect(), from: BTreeSet::new() }
    }
    pub fn origins(&self) -> BTreeSet<String> {
        if self.items.is_empty() { self.from.clone() } else { self.items.iter().map(|i| i.1.clone()).collect() }
    }
    fn lo(&self) -> i32 {
        self.items.iter().next().unwrap().0
    }
    fn hi(&self) -> i32 {
        self.items.iter().next_back().unwrap().0
    }
    pub fn text(&self) -> String {
        self.items.iter().map(|i| i.2.as_str()).collect::<Vec<_>>().join(", ")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i32),
    F(f32),
    B(bool),
    S(String),
    L(L),
}
impl V {
    /// as printed in text
    pub fn text(&self) -> String {
        match self {
            V::I(i) => i.to_string(),
            V::F(f) => f.to_string(),
            V::B(b) => b.to_string(),
            V::S(s) => s.clone(),
            V::L(l) => l.text(),
        }
    }
    /// as host::show renders a variable
    pub fn shown(&self) -> String {
        match self {
            V::I(i) => format!("i:{i}"),
            V::F(f) => format!("f:{f}"),
            V::B(b) => format!("b:{b}"),
            V::S(s) => format!("s:{s:?}"),
            V::L(l) => {
                let mut v: Vec<String> = l.items.iter().map(|i| format!("{}.{}={}", i.1, i.2, i.0)).collect();
                v.sort();
                format!("l:{{{}}}", v.join(","))
            }
        }
    }
    pub fn truthy(&self) -> Option<bool> {
        Some(match self {
            V::I(i) => *i != 0,
            V::F(f) => *f != 0.0,
            V::B(b) => *b,
            V::L(l) => !l.items.is_empty(),
            V::S(_) => return None,
        })
    }
}

/// The lists of a program: name and items in order.
#[derive(Clone, Debug, Default)]
pub struct Decls {
    pub lists: Vec<(String, Vec<(String, i32)>)>,
}
impl Decls {
    pub fn items(&self, list: &str) -> Vec<It> {
        self.lists.iter().filter(|l| l.0 == list).flat_map(|l| l.1.iter().map(|i| (i.1, l.0.clone(), i.0.clone()))).collect()
    }
    fn with_value(&self, list: &str, v: i32) -> Option<It> {
        self.items(list).into_iter().find(|i| i.0 == v)
    }
    pub fn all(&self) -> Vec<It> {
        self.lists.iter().flat_map(|l| self.items(&l.0)).collect()
    }
    /// does another list have an item of the same name?
    pub fn ambiguous(&self, name: &str) -> bool {
        self.lists.iter().filter(|l| l.1.iter().any(|i| i.0 == name)).count() > 1
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    Var(String),
    Item(It),
    List(Vec<It>),
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Call(&'static str, Vec<E>),
    FromInt(String, Box<E>),
    NoItems(String),
    /// user function: index into Env.funs
    Fun(usize, Vec<E>),
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub params: Vec<String>,
    pub body: E,
}

pub struct Env<'a> {
    pub decls: &'a Decls,
    pub funs: &'a [Fun],
    pub vars: Vec<(String, V)>,
}
impl Env<'_> {
    pub fn get(&self, n: &str) -> Option<V> {
        self.vars.iter().rev().find(|v| v.0 == n).map(|v| v.1.clone())
    }
    /// assignment: an empty list takes over the lists of the value it replaces
    pub fn set(&mut self, n: &str, v: V) {
        if let Some(x) = self.vars.iter_mut().rev().find(|x| x.0 == n) {
            let v = match (v, &x.1) {
                (V::L(l), V::L(old)) if l.items.is_empty() => V::L(L { items: l.items, from: old.origins() }),
                (v, _) => v,
            };
            x.1 = v;
        } else {
            self.vars.push((n.into(), v));
        }
    }
}

/// Why an expression has no verdict here.
#[derive(Debug, Clone, PartialEq)]
pub enum Skip {
    /// not well typed, or an error by the rules
    Type,
    /// outside the integers, inexact, or a negative zero
    Range,
    /// several items with the smallest or largest value
    Tie(L),
}

type R = Result<V, Skip>;

fn float(x: f64) -> R {
    let f = x as f32;
    if !x.is_finite() || f as f64 != x || x.abs() > 1048576.0 || (x == 0.0 && x.is_sign_negative()) {
        return Err(Skip::Range);
    }
    // few binary places, so that every implementation prints it alike
    if (x * 256.0).fract() != 0.0 {
        return Err(Skip::Range);
    }
    Ok(V::F(f))
}
fn int(x: i64) -> R {
    if x < i32::MIN as i64 + 1 || x > i32::MAX as i64 { Err(Skip::Range) } else { Ok(V::I(x as i32)) }
}

fn num(v: &V) -> Option<i64> {
    match v {
        V::I(i) => Some(*i as i64),
        V::B(b) => Some(*b as i64),
        _ => None,
    }
}
fn real(v: &V) -> Option<f64> {
    match v {
        V::F(f) => Some(*f as f64),
        _ => num(v).map(|x| x as f64),
    }
}

pub fn binary(decls: &Decls, op: &str, a: V, b: V) -> R {
    if let (V::L(x), V::L(y)) = (&a, &b) {
        let (ex, ey) = (x.items.is_empty(), y.items.is_empty());
        let keep = |items: BTreeSet<It>| V::L(L { from: x.origins(), items });
        return Ok(match op {
            "+" => keep(x.items.union(&y.items).cloned().collect()),
            "-" => keep(x.items.difference(&y.items).cloned().collect()),
            "^" => V::L(L::of(x.items.intersection(&y.items).cloned())),
            "?" => V::B(!ex && !ey && y.items.is_subset(&x.items)),
            "!?" => V::B(ex || ey || !y.items.is_subset(&x.items)),
            "==" => V::B(x.items == y.items),
            "!=" => V::B(x.items != y.items),
            ">" => V::B(!ex && (ey || x.lo() > y.hi())),
            "<" => V::B(!ey && (ex || x.hi() < y.lo())),
            ">=" => V::B(!ex && (ey || (x.lo() >= y.lo() && x.hi() >= y.hi()))),
            "<=" => V::B(!ey && (ex || (x.lo() <= y.lo() && x.hi() <= y.hi()))),
            "&&" => V::B(!ex && !ey),
            "||" => V::B(!ex || !ey),
            _ => return Err(Skip::Type),
        });
    }
    if op == "&&" || op == "||" {
        if matches!(a, V::S(_)) || matches!(b, V::S(_)) {
            return Err(Skip::Type);
        }
        let (x, y) = (a.truthy().unwrap(), b.truthy().unwrap());
        return Ok(V::B(if op == "&&" { x && y } else { x || y }));
    }
    if let (V::L(x), V::I(k)) = (&a, &b)
        && (op == "+" || op == "-")
    {
        let k = if op == "+" { *k as i64 } else { -(*k as i64) };
        let mut r = BTreeSet::new();
        for i in &x.items {
            let Ok(V::I(v)) = int(i.0 as i64 + k) else { return Err(Skip::Range) };
            if let Some(j) = decls.with_value(&i.1, v) {
                r.insert(j);
            }
        }
        return Ok(V::L(L::of(r)));
    }
    if matches!(a, V::L(_)) || matches!(b, V::L(_)) {
        return Err(Skip::Type);
    }
    if matches!(a, V::S(_)) || matches!(b, V::S(_)) {
        let (x, y) = (a.text(), b.text());
        return Ok(match op {
            "+" => V::S(x + &y),
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            "?" => V::B(x.contains(&y)),
            "!?" => V::B(!x.contains(&y)),
            _ => return Err(Skip::Type),
        });
    }
    let (x, y) = (real(&a).ok_or(Skip::Type)?, real(&b).ok_or(Skip::Type)?);
    if (num(&a).is_none() || num(&b).is_none()) && (x as f32 as f64 != x || y as f32 as f64 != y) {
        return Err(Skip::Range);
    }
    match op {
        "==" => return Ok(V::B(x == y)),
        "!=" => return Ok(V::B(x != y)),
        "<" => return Ok(V::B(x < y)),
        ">" => return Ok(V::B(x > y)),
        "<=" => return Ok(V::B(x <= y)),
        ">=" => return Ok(V::B(x >= y)),
        _ => {}
    }
    if let (Some(x), Some(y)) = (num(&a), num(&b)) {
        return match op {
            "+" => int(x + y),
            "-" => int(x - y),
            "*" => int(x * y),
            "/" if y != 0 => int(x / y),
            "%" if y != 0 => int(x % y),
            "/" | "%" => Err(Skip::Range),
            "MIN" => int(x.min(y)),
            "MAX" => int(x.max(y)),
            "POW" => float(if y < 0 && x == 0 { return Err(Skip::Range) } else { (x as f64).powi(y as i32) }),
            _ => Err(Skip::Type),
        };
    }
    match op {
        "+" => float(x + y),
        "-" => float(x - y),
        "*" => float(x * y),
        "/" if y != 0.0 => float(x / y),
        "%" if y != 0.0 => float(x % y),
        "/" | "%" => Err(Skip::Range),
        "MIN" => float(if y < x { y } else { x }),
        "MAX" => float(if y > x { y } else { x }),
        "POW" => {
            if y.fract() != 0.0 || y.abs() > 8.0 || (x == 0.0 && y < 0.0) {
                return Err(Skip::Range);
            }
            float(x.powi(y as i32))
        }
        _ => Err(Skip::Type),
    }
}

pub fn unary(op: &str, a: V) -> R {
    if let V::L(l) = &a {
        return Ok(match op {
            "!" => V::I(l.items.is_empty() as i32),
            _ => return Err(Skip::Type),
        });
    }
    if matches!(a, V::S(_)) {
        return Err(Skip::Type);
    }
    match (op, num(&a)) {
        ("-", Some(x)) => int(-x),
        ("!", Some(x)) => Ok(V::B(x == 0)),
        ("-", None) => float(-real(&a).unwrap()),
        ("!", None) => Ok(V::B(real(&a).unwrap() == 0.0)),
        _ => Err(Skip::Type),
    }
}

fn bound(v: &V, upper: bool) -> Result<i32, Skip> {
    match v {
        V::I(i) => Ok(*i),
        V::L(l) if l.items.is_empty() => Ok(if upper { i32::MAX } else { 0 }),
        V::L(l) => Ok(if upper { l.hi() } else { l.lo() }),
        _ => Err(Skip::Type),
    }
}

fn list_fn(decls: &Decls, f: &str, l: &L) -> R {
    let extreme = |v: i32| -> R {
        let t = L::of(l.items.iter().filter(|i| i.0 == v).cloned());
        if t.items.len() > 1 { Err(Skip::Tie(t)) } else { Ok(V::L(t)) }
    };
    let all = || l.origins().iter().flat_map(|o| decls.items(o)).collect::<BTreeSet<It>>();
    Ok(match f {
        "LIST_COUNT" => V::I(l.items.len() as i32),
        "LIST_VALUE" => V::I(if l.items.is_empty() { 0 } else { l.hi() }),
        "LIST_MIN" | "LIST_MAX" | "LIST_RANDOM" if l.items.is_empty() => V::L(L::of([])),
        "LIST_MIN" => return extreme(l.lo()),
        "LIST_MAX" => return extreme(l.hi()),
        "LIST_RANDOM" if l.items.len() > 1 => return Err(Skip::Tie(l.clone())),
        "LIST_RANDOM" => V::L(L::of(l.items.iter().cloned())),
        "LIST_ALL" => V::L(L::of(all())),
        "LIST_INVERT" => V::L(L::of(all().difference(&l.items).cloned())),
        _ => return Err(Skip::Type),
    })
}

pub fn eval(e: &E, env: &Env) -> R {
    Ok(match e {
        E::Lit(v) => v.clone(),
        E::Var(n) => env.get(n).ok_or(Skip::Type)?,
        E::Item(i) => V::L(L::of([i.clone()])),
        E::List(v) => V::L(L::of(v.iter().cloned())),
        E::NoItems(l) => V::L(L { items: BTreeSet::new(), from: [l.clone()].into() }),
        E::Un(op, a) => return unary(op, eval(a, env)?),
        E::Bin(op, a, b) => return binary(env.decls, op, eval(a, env)?, eval(b, env)?),
        E::FromInt(l, a) => match eval(a, env)? {
            V::I(k) => V::L(L::of(env.decls.with_value(l, k))),
            _ => return Err(Skip::Type),
        },
        E::Fun(i, args) => {
            let f = &env.funs[*i];
            let mut vars = vec![];
            for (p, a) in f.params.iter().zip(args) {
                vars.push((p.clone(), eval(a, env)?));
            }
            // a function sees its parameters and the global variables
            let mut inner = Env { decls: env.decls, funs: env.funs, vars: env.vars.iter().filter(|v| !v.0.starts_with("t") && !v.0.starts_with("p")).cloned().collect() };
            inner.vars.extend(vars);
            return eval(&f.body, &inner);
        }
        E::Call(f, args) => {
            let v: Vec<V> = args.iter().map(|a| eval(a, env)).collect::<Result<_, _>>()?;
            match (*f, v.as_slice()) {
                ("MIN" | "MAX" | "POW", [a, b]) => {
                    if [a, b].iter().any(|x| matches!(x, V::L(_) | V::S(_))) {
                        return Err(Skip::Type);
                    }
                    return binary(env.decls, f, a.clone(), b.clone());
                }
                ("LIST_RANGE", [V::L(l), lo, hi]) => {
                    let (lo, hi) = (bound(lo, false)?, bound(hi, true)?);
                    if l.items.is_empty() {
                        return Ok(V::L(L::of([])));
                    }
                    V::L(L { items: l.items.iter().filter(|i| i.0 >= lo && i.0 <= hi).cloned().collect(), from: l.origins() })
                }
                (_, [V::L(l)]) => return list_fn(env.decls, f, l),
                (_, [V::S(_)]) => return Err(Skip::Type),
                ("INT", [a]) => match real(a) {
                    Some(x) => return int(x.trunc() as i64),
                    None => return Err(Skip::Type),
                },
                ("FLOAT", [a]) => return float(real(a).ok_or(Skip::Type)?),
                ("FLOOR" | "CEILING", [V::F(x)]) => return float(if *f == "FLOOR" { x.floor() as f64 } else { x.ceil() as f64 }),
                ("FLOOR" | "CEILING", [a]) => return int(num(a).ok_or(Skip::Type)?),
                _ => return Err(Skip::Type),
            }
        }
    })
}

// ---- rendering

fn binding(op: &str) -> u8 {
    match op {
        "&&" | "||" => 1,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 2,
        "?" | "!?" | "^" => 3,
        "+" | "-" => 4,
        _ => 6,
    }
}

/// May `child` stand unparenthesised as an operand of `op`? Only where conventional precedence
/// and the reference compiler's table agree.
fn bare(op: &str, child: &E, left: bool) -> bool {
    let E::Bin(c, ..) = child else { return !matches!(child, E::Un(..)) || left };
    let (p, q) = (binding(op), binding(c));
    match p {
        1 => q > 1 || (left && *c == op),
        2 if op == "==" || op == "!=" => q > 2,
        2 => q > 3,
        3 => q > 3,
        4 => q > 4 || (left && (*c == op || (op == "+" && *c == "-"))),
        _ => left && q == 6 && (*c == op || op == "*" || (op == "/" && *c == "%")),
    }
}

fn word(op: &str, r: &mut Rng) -> String {
    let w = r.pct(40);
    match op {
        "&&" if w => "and",
        "||" => if w { "or" } else { "||" },
        "%" if w => "mod",
        "?" if w => "has",
        "!?" if w => "hasnt",
        o => o,
    }
    .into()
}

pub fn item_name(d: &Decls, i: &It, r: &mut Rng) -> String {
    if d.ambiguous(&i.2) || r.pct(15) { format!("{}.{}", i.1, i.2) } else { i.2.clone() }
}

/// Text of an expression; spacing, optional parentheses and operator spellings vary.
pub fn render(e: &E, d: &Decls, funs: &[Fun], r: &mut Rng) -> String {
    let args = |v: &[E], r: &mut Rng| {
        let sep = if r.pct(85) { ", " } else { "," };
        v.iter().map(|a| render(a, d, funs, r)).collect::<Vec<_>>().join(sep)
    };
    match e {
        E::Lit(V::S(s)) => format!("\"{s}\""),
        E::Lit(V::F(f)) => if f.fract() == 0.0 { format!("{f}.0") } else { format!("{f}") },
        E::Lit(v) => v.text(),
        E::Var(n) => n.clone(),
        E::Item(i) => item_name(d, i, r),
        E::List(v) => format!("({})", v.iter().map(|i| item_name(d, i, r)).collect::<Vec<_>>().join(", ")),
        E::NoItems(l) => format!("{l}()"),
        E::FromInt(l, a) => format!("{l}({})", render(a, d, funs, r)),
        E::Call(f, a) => format!("{f}({})", args(a, r)),
        E::Fun(i, a) => format!("{}({})", funs[*i].name, args(a, r)),
        E::Un(op, a) => {
            let s = render(a, d, funs, r);
            let s = if matches!(**a, E::Bin(..) | E::Un(..)) || s.starts_with('-') { format!("({s})") } else { s };
            match *op {
                "!" if r.pct(50) => format!("not {s}"),
                "!" => format!("!{s}"),
                _ => format!("-{s}"),
            }
        }
        E::Bin(op, a, b) => {
            let mut side = |x: &E, left: bool| {
                let s = render(x, d, funs, r);
                // (a name alone in parentheses is a list literal, so names stay bare)
                let always = !left && s.starts_with('-');
                if !bare(op, x, left) || always || (matches!(x, E::Bin(..)) && r.pct(20)) { format!("({s})") } else { s }
            };
            let (x, y) = (side(a, true), side(b, false));
            let w = word(op, r);
            if w.chars().all(|c| c.is_alphabetic()) || *op == "-" || *op == "<" || *op == ">" || r.pct(85) { format!("{x} {w} {y}") } else { format!("{x}{w}{y}") }
        }
    }
}

// ---- generation

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Num,
    Bool,
    Str,
    List,
}

pub struct Ctx<'a> {
    pub decls: &'a Decls,
    pub funs: &'a [Fun],
    /// variables in scope with the kind they hold
    pub vars: &'a [(String, T)],
    /// list functions whose result is not determined by ties
    pub random: bool,
}

pub fn kind(v: &V) -> T {
    match v {
        V::I(_) | V::F(_) => T::Num,
        V::B(_) => T::Bool,
        V::S(_) => T::Str,
        V::L(_) => T::List,
    }
}

pub const STRS: &[&str] = &["", "a", "ab", "abc", "bc", "true", "false", "1", "12", "2.5", "x y", "Ink", "é", "-1", "naïve", "ß", "a1"];

pub fn literal(r: &mut Rng, t: T, d: &Decls) -> E {
    match t {
        T::Num if r.pct(60) => {
            let v = match r.below(5) {
                0 => r.range(0, 3),
                1 => r.range(-4, 4),
                2 => r.range(-20, 20),
                3 => r.range(0, 100),
                _ => *r.pick(&[0, 1, -1, 2, 7, 10, 255, 1000, 32768, 65536, 1000000]),
            } as i32;
            E::Lit(V::I(v))
        }
        T::Num => {
            let v = match r.below(3) {
                0 => r.range(-16, 16) as f32 * 0.5,
                1 => r.range(-40, 40) as f32 * 0.25,
                _ => *r.pick(&[0.0, 1.0, 2.0, 0.5, 1.5, -0.5, -1.5, 2.5, -2.5, 0.125, 3.0, 10.0]),
            };
            E::Lit(V::F(if v == 0.0 { 0.0 } else { v }))
        }
        T::Bool => E::Lit(V::B(r.pct(50))),
        T::Str => E::Lit(V::S(r.pick(STRS).to_string())),
        T::List => {
            let all = d.all();
            match r.below(10) {
                0 => E::List(vec![]),
                1 => E::NoItems(r.pick(&d.lists).0.clone()),
                2 | 3 => E::Item(r.pick(&all).clone()),
                4 => E::FromInt(r.pick(&d.lists).0.clone(), Box::new(E::Lit(V::I(r.range(-1, 8) as i32)))),
                _ => {
                    let pool = if r.pct(60) { d.items(&r.pick(&d.lists).0.clone()) } else { all };
                    let mut v: Vec<It> = vec![];
                    for _ in 0..1 + r.below(4) {
                        let i = r.pick(&pool).clone();
                        if !v.contains(&i) {
                            v.push(i);
                        }
                    }
                    E::List(v)
                }
            }
        }
    }
}

fn mostly(r: &mut Rng, bools: u32) -> T {
    if r.pct(bools) { T::Bool } else { T::Num }
}

pub fn gen_expr(r: &mut Rng, t: T, depth: usize, c: &Ctx) -> E {
    let b = |e: E| Box::new(e);
    if depth == 0 || r.pct(12) {
        let vs: Vec<&(String, T)> = c.vars.iter().filter(|v| v.1 == t).collect();
        if !vs.is_empty() && r.pct(55) {
            return E::Var(r.pick(&vs).0.clone());
        }
        return literal(r, t, c.decls);
    }
    let d = depth - 1;
    let has_lists = !c.decls.lists.is_empty();
    if r.pct(6) && !c.funs.is_empty() {
        let i = r.below(c.funs.len());
        let args = c.funs[i].params.iter().map(|p| gen_expr(r, param_kind(p), d, c)).collect();
        return E::Fun(i, args);
    }
    match t {
        T::Num => match r.below(14) {
            0..=6 => {
                let op = *r.pick(&["+", "-", "*", "/", "%", "+", "-", "*"]);
                let mut side = |r: &mut Rng| {
                    let k = if r.pct(12) { T::Bool } else { T::Num };
                    gen_expr(r, k, d, c)
                };
                let x = side(r);
                let y = side(r);
                E::Bin(op, b(x), b(y))
            }
            7 => E::Un("-", b({ let k = mostly(r, 15); gen_expr(r, k, d, c) })),
            8 | 9 => {
                let f = *r.pick(&["MIN", "MAX", "MIN", "MAX", "POW"]);
                E::Call(f, vec![gen_expr(r, T::Num, d, c), if f == "POW" { literal(r, T::Num, c.decls) } else { { let k = mostly(r, 15); gen_expr(r, k, d, c) } }])
            }
            10 | 11 => E::Call(*r.pick(&["INT", "FLOAT", "FLOOR", "CEILING"]), vec![{ let k = mostly(r, 10); gen_expr(r, k, d, c) }]),
            12 if has_lists => E::Un("!", b(gen_expr(r, T::List, d, c))),
            _ if has_lists => E::Call(*r.pick(&["LIST_COUNT", "LIST_VALUE"]), vec![gen_expr(r, T::List, d, c)]),
            _ => literal(r, t, c.decls),
        },
        T::Bool => match r.below(12) {
            0..=3 => {
                let op = *r.pick(&["==", "!=", "<", ">", "<=", ">="]);
                let k = if r.pct(15) { T::Bool } else { T::Num };
                E::Bin(op, b(gen_expr(r, k, d, c)), b(gen_expr(r, T::Num, d, c)))
            }
            4 | 5 => {
                let mut side = |r: &mut Rng| {
                    let k = *r.pick(&[T::Bool, T::Bool, T::Num, T::List]);
                    let k = if k == T::List && !has_lists { T::Num } else { k };
                    gen_expr(r, k, d, c)
                };
                let x = side(r);
                let y = side(r);
                E::Bin(*r.pick(&["&&", "||"]), b(x), b(y))
            }
            6 => E::Un("!", b({ let k = mostly(r, 60); gen_expr(r, k, d, c) })),
            7 | 8 => {
                let op = *r.pick(&["==", "!=", "?", "!?", "?"]);
                let k = if r.pct(20) { *r.pick(&[T::Num, T::Bool]) } else { T::Str };
                E::Bin(op, b(gen_expr(r, T::Str, d, c)), b(gen_expr(r, k, d, c)))
            }
            _ if has_lists => {
                let op = *r.pick(&["==", "!=", "<", ">", "<=", ">=", "?", "!?", "&&", "||", "?", "!?"]);
                E::Bin(op, b(gen_expr(r, T::List, d, c)), b(gen_expr(r, T::List, d, c)))
            }
            _ => literal(r, t, c.decls),
        },
        T::Str => {
            let k = if r.pct(30) { *r.pick(&[T::Num, T::Bool]) } else { T::Str };
            let (x, y) = (gen_expr(r, T::Str, d, c), gen_expr(r, k, d, c));
            if r.pct(50) { E::Bin("+", b(x), b(y)) } else { E::Bin("+", b(y), b(x)) }
        }
        T::List => match r.below(16) {
            0..=5 => E::Bin(*r.pick(&["+", "-", "^", "+", "-"]), b(gen_expr(r, T::List, d, c)), b(gen_expr(r, T::List, d, c))),
            6 | 7 => E::Bin(*r.pick(&["+", "-"]), b(gen_expr(r, T::List, d, c)), b(E::Lit(V::I(r.range(-2, 3) as i32)))),
            8 | 9 => E::Call(*r.pick(&["LIST_MIN", "LIST_MAX"]), vec![gen_expr(r, T::List, d, c)]),
            10 | 11 => E::Call(*r.pick(&["LIST_ALL", "LIST_INVERT"]), vec![gen_expr(r, T::List, d, c)]),
            12 | 13 => {
                let mut bound = |r: &mut Rng| if r.pct(60) { E::Lit(V::I(r.range(-2, 9) as i32)) } else { gen_expr(r, T::List, d.min(1), c) };
                let (lo, hi) = (bound(r), bound(r));
                E::Call("LIST_RANGE", vec![gen_expr(r, T::List, d, c), lo, hi])
            }
            14 if c.random => E::Call("LIST_RANDOM", vec![gen_expr(r, T::List, d, c)]),
            _ => E::FromInt(r.pick(&c.decls.lists).0.clone(), b(gen_expr(r, T::Num, d.min(1), c))),
        },
    }
}

/// functions' parameters are named after the kind of their argument
pub fn param_kind(p: &str) -> T {
    match p.as_bytes()[1] {
        b'n' => T::Num,
        b'b' => T::Bool,
        b's' => T::Str,
        _ => T::List,
    }
}

/// Operators and functions used, for coverage counting.
pub fn ops(e: &E, out: &mut Vec<&'static str>) {
    match e {
        E::Un(op, a) => {
            out.push(if *op == "-" { "negate" } else { "not" });
            ops(a, out)
        }
        E::Bin(op, a, b) => {
            out.push(op);
            ops(a, out);
            ops(b, out)
        }
        E::Call(f, a) => {
            out.push(f);
            a.iter().for_each(|x| ops(x, out))
        }
        E::FromInt(_, a) => {
            out.push("list(n)");
            ops(a, out)
        }
        E::NoItems(_) => out.push("list()"),
        E::Fun(_, a) => {
            out.push("function");
            a.iter().for_each(|x| ops(x, out))
        }
        _ => {}
    }
}
