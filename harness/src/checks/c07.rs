//! C07: expressions evaluate as Ink specifies.
use crate::corpus;
use crate::expr::{self, Ctx, Decls, E, Env, Fun, It, Skip, T, V, eval, gen_expr, render};
use crate::host::show_opt;
use crate::rng::{Rng, hash64};
use crate::runner::{Cfg, Check, Def, Out};
use bladeink::story::Story;
use serde_json::json;
use std::collections::BTreeSet;

pub fn def() -> Def {
    Def {
        id: "C07",
        rule: "an expression compiled and played whose printed or stored value was compared with the independent evaluator's; distinct by source text and value, non-trivial when it has at least one operator",
        assumptions: &[
            "floats are those exactly representable with few binary places; expressions that leave them, overflow, divide by zero or are not well typed are not judged",
            "of several items with the smallest or largest value LIST_MIN and LIST_MAX may give any, as long as the order items were added in does not matter",
            "operators are left unparenthesised only where conventional precedence and the reference compiler's precedence table agree",
        ],
        make: |c| Box::new(C07 { cfg: c.clone() }),
        budget: (45, 900),
        hang_is_violation: false,
        stall: 40,
        crash_is_violation: false,
    }
}

struct C07 {
    cfg: Cfg,
}

impl Check for C07 {
    fn total(&self) -> u64 {
        u64::MAX
    }
    fn run_case(&mut self, n: u64, out: &mut Out) {
        let mut r = Rng::of("C07", self.cfg.seed, n);
        super::case(2_000_000, out, |o| run(&mut r, o));
    }
}

/// what a line or a variable must be
enum Want {
    Line { label: String, text: BTreeSet<String>, src: String },
    /// these lines carry the same text after their labels, and it is one of these
    Same { labels: Vec<String>, any: BTreeSet<String>, src: String },
}

struct B {
    body: Vec<String>,
    heads: Vec<String>,
    tails: Vec<String>,
    want: Vec<Want>,
    n: usize,
}

const LISTS: &[&str] = &["Color", "Size", "Mood", "Zone"];
const ITEMS: &[&str] = &["red", "green", "blue", "small", "large", "happy", "sad", "north", "south", "east", "mid", "one", "two"];

fn decls(r: &mut Rng) -> Decls {
    let mut d = Decls::default();
    let nl = if r.pct(12) { 0 } else { 1 + r.below(4) };
    let mut used: Vec<&str> = vec![];
    for name in LISTS.iter().take(nl) {
        let mut items: Vec<(String, i32)> = vec![];
        let mut v = 0;
        for _ in 0..1 + r.below(5) {
            let i = *r.pick(ITEMS);
            if items.iter().any(|x| x.0 == i) || (used.contains(&i) && r.pct(70)) {
                continue;
            }
            v += 1;
            if r.pct(25) {
                v += r.range(0, 3) as i32;
            }
            items.push((i.into(), v));
            used.push(i);
        }
        if items.is_empty() {
            items.push((format!("only{name}"), r.range(0, 4) as i32));
        }
        if r.pct(20) {
            // values in another order than the items
            let mut vals: Vec<i32> = items.iter().map(|i| i.1).collect();
            vals.reverse();
            for (i, v) in items.iter_mut().zip(vals) {
                i.1 = v;
            }
        }
        d.lists.push((name.to_string(), items));
    }
    d
}

fn declare(d: &Decls, r: &mut Rng, heads: &mut Vec<String>, vars: &mut Vec<(String, V)>) {
    for (name, items) in &d.lists {
        let mut last = 0;
        let mut text = vec![];
        let mut sel = vec![];
        for (i, v) in items {
            let explicit = *v != last + 1 || r.pct(10);
            last = *v;
            let s = if explicit { format!("{i} = {v}") } else { i.clone() };
            if r.pct(20) {
                sel.push((*v, name.clone(), i.clone()));
                text.push(if explicit && r.pct(30) { format!("({i}) = {v}") } else { format!("({s})") });
            } else {
                text.push(s);
            }
        }
        heads.push(format!("LIST {name} = {}", text.join(", ")));
        let mut l = expr::L::of(sel);
        l.from.insert(name.clone());
        vars.push((name.clone(), V::L(l)));
    }
}

fn try_gen(r: &mut Rng, t: T, depth: usize, c: &Ctx, env: &Env, out: &mut Out) -> Option<(E, V)> {
    for _ in 0..10 {
        let e = gen_expr(r, t, depth, c);
        match eval(&e, env) {
            Ok(v) => return Some((e, v)),
            Err(s) => out.count(match s {
                Skip::Type => "generated_ill_typed",
                Skip::Range => "generated_out_of_range",
                Skip::Tie(_) => "generated_tied",
            }),
        }
    }
    None
}

/// spaces around, and what an inline expression must not start with is put in parentheses
fn inline(s: &str) -> String {
    // `{!` and `|` have other meanings there
    if s.starts_with('!') || s.contains('|') { format!("0 + ({s})") } else { s.into() }
}

fn run(r: &mut Rng, out: &mut Out) {
    let d = decls(r);
    let mut b = B { body: vec![], heads: vec![], tails: vec![], want: vec![], n: 0 };
    let mut vars: Vec<(String, V)> = vec![];
    declare(&d, r, &mut b.heads, &mut vars);
    let kinds: Vec<T> = if d.lists.is_empty() { vec![T::Num, T::Bool, T::Str] } else { vec![T::Num, T::Bool, T::Str, T::List, T::List] };
    for (k, c) in [(T::Num, 'n'), (T::Bool, 'b'), (T::Str, 's'), (T::List, 'l')] {
        if !kinds.contains(&k) {
            continue;
        }
        for i in 0..2 {
            let e = match expr::literal(r, k, &d) {
                // (only constants may initialise a variable)
                E::FromInt(..) | E::NoItems(_) => E::List(vec![]),
                e => e,
            };
            let v = eval(&e, &Env { decls: &d, funs: &[], vars: vec![] }).unwrap();
            let name = format!("g{c}{i}");
            let con = k != T::List && r.pct(15);
            b.heads.push(format!("{} {name} = {}", if con { "CONST" } else { "VAR" }, render(&e, &d, &[], r)));
            if con {
                out.count("constants");
            }
            vars.push((if con { format!("g{c}{i}") } else { name.clone() }, v));
            if con {
                // constants are only read
                b.n += 0;
            }
        }
    }
    let constant = |heads: &[String], n: &str| heads.iter().any(|h| h.starts_with(&format!("CONST {n} ")));
    // functions of their parameters and of the global variables
    let mut funs: Vec<Fun> = vec![];
    for i in 0..r.below(3) {
        let mut params = vec![];
        for j in 0..r.below(3) {
            let k = *r.pick(if d.lists.is_empty() { &['n', 'b', 's'] } else { &['n', 'l', 's'] });
            params.push(format!("p{k}{j}"));
        }
        let pv: Vec<(String, T)> = params.iter().map(|p| (p.clone(), expr::param_kind(p))).collect();
        let body = gen_expr(r, *r.clone().pick(&kinds), 2, &Ctx { decls: &d, funs: &[], vars: &pv, random: false });
        r.next();
        let f = Fun { name: format!("fun{i}"), params, body };
        let text = render(&f.body, &d, &[], r);
        b.tails.push(format!("=== function {}({}) ===\n~ return {text}", f.name, f.params.join(", ")));
        funs.push(f);
    }
    let mut env = Env { decls: &d, funs: &funs, vars };
    let slots = 6 + r.below(14);
    let mut used_ops: Vec<&'static str> = vec![];
    let mut exprs: Vec<(String, String, bool)> = vec![];
    for _ in 0..slots {
        let i = b.n;
        b.n += 1;
        let t = *r.pick(&kinds);
        let scope: Vec<(String, T)> = env.vars.iter().map(|v| (v.0.clone(), expr::kind(&v.1))).collect();
        let ctx = Ctx { decls: &d, funs: &funs, vars: &scope, random: true };
        let depth = 1 + r.below(4);
        let Some((e, v)) = try_gen(r, t, depth, &ctx, &env, out) else { continue };
        let s = render(&e, &d, &funs, r);
        expr::ops(&e, &mut used_ops);
        let mut o = vec![];
        expr::ops(&e, &mut o);
        exprs.push((s.clone(), v.shown(), !o.is_empty()));
        let line = |label: &str, text: &str| Want::Line { label: label.into(), text: [format!("{label}: {text}").trim().to_string()].into(), src: s.clone() };
        match r.below(14) {
            0..=3 => {
                let p = inline(&s);
                // (`0 + (x)` is only the same for numbers)
                if p != s && !matches!(v, V::I(_) | V::F(_)) {
                    b.body.push(format!("~ temp tx{i} = {s}"));
                    b.body.push(format!("p{i}: {{tx{i}}}"));
                    env.set(&format!("tx{i}"), v.clone());
                } else {
                    b.body.push(format!("p{i}: {{{p}}}"));
                }
                b.want.push(line(&format!("p{i}"), &v.text()));
                out.count("in_text");
            }
            4 | 5 => {
                let c = match expr::kind(&v) {
                    T::Num => 'n',
                    T::Bool => 'b',
                    T::Str => 's',
                    T::List => 'l',
                };
                let g = format!("g{c}{}", r.below(2));
                if constant(&b.heads, &g) {
                    continue;
                }
                b.body.push(format!("~ {g} = {s}"));
                env.set(&g, v);
                if r.pct(40) {
                    b.body.push(format!("a{i}: {{{g}}}"));
                    b.want.push(Want::Line { label: format!("a{i}"), text: [format!("a{i}: {}", env.get(&g).unwrap().text()).trim().into()].into(), src: s.clone() });
                }
                out.count("stored");
            }
            6 => {
                let t = format!("t{}{i}", ["n", "b", "s", "l"][r.below(4)]);
                b.body.push(format!("~ temp {t} = {s}"));
                env.set(&t, v.clone());
                b.body.push(format!("t{i}: {{{t}}}"));
                b.want.push(line(&format!("t{i}"), &v.text()));
                out.count("in_temp");
            }
            7 => {
                let Some(y) = v.truthy() else { continue };
                let p = if s.starts_with('!') { format!("({s})") } else { s.clone() };
                b.body.push(format!("c{i}: {{{}:yes|no}}", p.trim()));
                b.want.push(line(&format!("c{i}"), if y { "yes" } else { "no" }));
                out.count("in_condition");
            }
            8 => {
                let Some(y) = v.truthy() else { continue };
                b.body.push(format!("{{ {s}:\n    m{i}: then\n- else:\n    m{i}: otherwise\n}}"));
                b.want.push(line(&format!("m{i}"), if y { "then" } else { "otherwise" }));
                out.count("in_block_condition");
            }
            9 if r.pct(60) => match r.below(6) {
                // switch over the value
                0 => {
                    let Some((e2, v2)) = try_gen(r, expr::kind(&v), depth.min(2), &ctx, &env, out) else { continue };
                    let Ok(V::B(same)) = expr::binary(&d, "==", v.clone(), v2) else { continue };
                    let s2 = render(&e2, &d, &funs, r);
                    if s2.starts_with('-') || s2.contains(':') || s2.contains("else") {
                        continue;
                    }
                    b.body.push(format!("{{ {s}:\n    - {s2}:\n        w{i}: same\n    - else:\n        w{i}: differs\n}}"));
                    b.want.push(Want::Line { label: format!("w{i}"), text: [format!("w{i}: {}", if same { "same" } else { "differs" })].into(), src: format!("{s} switched on {s2}") });
                    out.count("in_switch");
                }
                // several branches
                1 => {
                    let Some(y) = v.truthy() else { continue };
                    b.body.push(format!("{{\n    - {s}:\n        w{i}: first\n    - else:\n        w{i}: second\n}}"));
                    b.want.push(line(&format!("w{i}"), if y { "first" } else { "second" }));
                    out.count("in_branches");
                }
                // argument of a function, a tunnel, a thread; by reference
                2 => {
                    let mut seen = vec![];
                    vars_of(&e, &mut seen);
                    let k = *r.pick(&["function", "tunnel"]);
                    if k == "function" {
                        b.tails.push(format!("=== function arg{i}(x, y) ===\n~ return y"));
                        b.body.push(format!("w{i}: {{arg{i}(1, {s})}}"));
                    } else {
                        b.tails.push(format!("=== arg{i}(x, y) ===\nw{i}: {{y}}\n->->"));
                        b.body.push(format!("-> arg{i}({s}, {s}) ->"));
                    }
                    b.want.push(line(&format!("w{i}"), &v.text()));
                    out.count("as_argument");
                }
                3 => {
                    let t = format!("txr{i}");
                    b.tails.push(format!("=== function ref{i}(ref x, y) ===\n~ x = y"));
                    b.body.push(format!("~ temp {t} = {}", render(&expr::literal(r, expr::kind(&v), &d), &d, &funs, r)));
                    b.body.push(format!("~ ref{i}({t}, {s})"));
                    b.body.push(format!("w{i}: {{{t}}}"));
                    b.want.push(line(&format!("w{i}"), &v.text()));
                    out.count("by_reference");
                }
                // a tag, and a function printing its argument
                4 => {
                    b.tails.push(format!("=== function say{i}(x) ===\nsaid {{x}}"));
                    b.body.push(format!("w{i}: {{say{i}({s})}}"));
                    b.want.push(line(&format!("w{i}"), format!("said {}", v.text()).trim()));
                    out.count("printed_by_function");
                }
                _ => {
                    let Some(y) = v.truthy() else { continue };
                    b.body.push(format!("w{i}: {{{}: true {{{}:inner|outer}}}}", "1 == 1", if s.starts_with('!') { format!("({s})") } else { s.clone() }));
                    b.want.push(line(&format!("w{i}"), &format!("true {}", if y { "inner" } else { "outer" })));
                    out.count("nested_condition");
                }
            },
            9 => {
                // through a function's return value
                let name = format!("ret{i}");
                let mut seen = vec![];
                vars_of(&e, &mut seen);
                if seen.iter().any(|x| x.starts_with('t')) {
                    continue;
                }
                b.tails.push(format!("=== function {name}() ===\n~ return {s}"));
                b.body.push(format!("f{i}: {{{name}()}}"));
                b.want.push(line(&format!("f{i}"), &v.text()));
                out.count("returned");
            }
            10 => {
                if s.contains('"') || s.contains('|') || inline(&s) != s {
                    continue;
                }
                let st = format!("gs{}", r.below(2));
                if constant(&b.heads, &st) {
                    continue;
                }
                b.body.push(format!("~ {st} = \"q{{{s}}}q\""));
                env.set(&st, V::S(format!("q{}q", v.text())));
                out.count("in_string");
            }
            11 => {
                // += and -=
                let (c, ops): (char, &[&'static str]) = match expr::kind(&v) {
                    T::Num => ('n', &["+", "-"]),
                    T::Bool => ('n', &["+", "-"]),
                    T::Str => ('s', &["+"]),
                    T::List => ('l', &["+", "-"]),
                };
                let g = format!("g{c}{}", r.below(2));
                let op = *r.pick(ops);
                if constant(&b.heads, &g) {
                    continue;
                }
                let Ok(w) = expr::binary(&d, op, env.get(&g).unwrap(), v) else { continue };
                b.body.push(format!("~ {g} {op}= {s}"));
                env.set(&g, w);
                out.count("compound_assignments");
            }
            12 => {
                let g = format!("g{}{}", if r.pct(50) || d.lists.is_empty() { 'n' } else { 'l' }, r.below(2));
                let op = *r.pick(&["+", "-"]);
                if constant(&b.heads, &g) {
                    continue;
                }
                let Ok(w) = expr::binary(&d, op, env.get(&g).unwrap(), V::I(1)) else { continue };
                b.body.push(format!("~ {g}{op}{op}"));
                env.set(&g, w);
                out.count("increments");
            }
            _ if !d.lists.is_empty() => order(r, &d, &mut b, i, out),
            _ => {}
        }
    }
    // conditions and text of choices, with tags
    let mut offered: Vec<(String, Vec<String>)> = vec![];
    let mut choices = vec![];
    for k in 0..r.below(4) {
        let scope: Vec<(String, T)> = env.vars.iter().map(|v| (v.0.clone(), expr::kind(&v.1))).collect();
        let ctx = Ctx { decls: &d, funs: &funs, vars: &scope, random: false };
        let kc = if d.lists.is_empty() { T::Bool } else { *r.pick(&[T::Bool, T::Bool, T::List, T::Num]) };
        let (ke, kg) = (*r.pick(&kinds), *r.pick(&kinds));
        let Some((c, cv)) = try_gen(r, kc, 2, &ctx, &env, out) else { continue };
        let Some((e, v)) = try_gen(r, ke, 2, &ctx, &env, out) else { continue };
        let Some((g, gv)) = try_gen(r, kg, 1, &ctx, &env, out) else { continue };
        let Some(open) = cv.truthy() else { continue };
        let (c, e, g) = (render(&c, &d, &funs, r), render(&e, &d, &funs, r), render(&g, &d, &funs, r));
        let clean = |s: &str| inline(s) == s && !s.contains('"');
        if !clean(&e) || !clean(&g) {
            continue;
        }
        let c = if c.starts_with('!') { format!("({c})") } else { c };
        choices.push(format!("* {{{c}}} [c{k} is {{{e}}}{}]", if r.pct(50) { "" } else { "." }));
        let dot = if choices.last().unwrap().ends_with(".]") { "." } else { "" };
        let mut tags = vec![];
        if r.pct(40) {
            let l = choices.last_mut().unwrap();
            *l = format!("{} # t{{{g}}}t]", l.trim_end_matches(']'));
            tags.push(format!("t{}t", gv.text()));
        }
        if open {
            offered.push((format!("c{k} is {}{dot}", v.text()).trim().to_string(), tags));
        }
        out.count("choices");
    }
    if !choices.is_empty() {
        choices.push("+ [other]".into());
        offered.push(("other".into(), vec![]));
    }
    let mut src = b.heads.join("\n");
    src.push_str("\n-> start\n=== start ===\n");
    for l in &b.body {
        src.push_str(l);
        src.push('\n');
    }
    for l in &choices {
        src.push_str(l);
        src.push('\n');
    }
    src.push_str(if choices.is_empty() { "-> END\n" } else { "- -> END\n" });
    for t in &b.tails {
        src.push_str(t);
        src.push('\n');
    }
    judge(r, &src, &b, &env, &exprs, &offered, out);
    for o in used_ops {
        out.count(&format!("op {o}"));
    }
}

fn vars_of(e: &E, out: &mut Vec<String>) {
    match e {
        E::Var(n) => out.push(n.clone()),
        E::Un(_, a) | E::FromInt(_, a) => vars_of(a, out),
        E::Bin(_, a, b) => {
            vars_of(a, out);
            vars_of(b, out)
        }
        E::Call(_, v) | E::Fun(_, v) => v.iter().for_each(|x| vars_of(x, out)),
        _ => {}
    }
}

/// The same items added in different orders: everything computed from them is the same.
fn order(r: &mut Rng, d: &Decls, b: &mut B, i: usize, out: &mut Out) {
    let mut items: Vec<It> = vec![];
    let all = d.all();
    for _ in 0..2 + r.below(4) {
        let x = r.pick(&all).clone();
        if !items.contains(&x) {
            items.push(x);
        }
    }
    let l = expr::L::of(items.clone());
    let f = *r.pick(&["LIST_MIN", "LIST_MAX", "LIST_VALUE", "LIST_COUNT", "LIST_INVERT", "LIST_ALL", ""]);
    let env = Env { decls: d, funs: &[], vars: vec![] };
    let e = E::List(items.clone());
    let any: BTreeSet<String> = if f.is_empty() {
        [l.text()].into()
    } else {
        match eval(&E::Call(f, vec![e]), &env) {
            Ok(v) => [v.text()].into(),
            Err(Skip::Tie(t)) => {
                out.count("ties");
                t.items.iter().map(|i| i.2.clone()).collect()
            }
            Err(_) => return,
        }
    };
    let mut labels = vec![];
    for k in 0..3 {
        for j in (1..items.len()).rev() {
            let x = r.below(j + 1);
            items.swap(x, j);
        }
        let t = format!("to{i}x{k}");
        let names: Vec<String> = items.iter().map(|i| expr::item_name(d, i, r)).collect();
        if k == 0 {
            b.body.push(format!("~ temp {t} = ({})", names.join(", ")));
        } else {
            b.body.push(format!("~ temp {t} = ()"));
            for n in &names {
                b.body.push(if k == 1 { format!("~ {t} += {n}") } else { format!("~ {t} = {t} + {n}") });
            }
        }
        let label = format!("o{i}x{k}");
        b.body.push(if f.is_empty() { format!("{label}: {{{t}}}") } else { format!("{label}: {{{f}({t})}}") });
        labels.push(label);
    }
    out.count("orders_of_adding");
    b.want.push(Want::Same { labels, any, src: format!("{f}({})", l.text()) });
}

fn judge(r: &mut Rng, src: &str, b: &B, env: &Env, exprs: &[(String, String, bool)], offered: &[(String, Vec<String>)], out: &mut Out) {
    let fail = |out: &mut Out, what: &str, e: &str, msg: String| {
        out.violation(format!("{what}: {e}"), format!("{msg}, expression: {e}"), json!({"source": src, "expression": e, "what": msg}));
    };
    let js = match crate::guard::guarded(|| corpus::compile(src)) {
        Ok(Ok(j)) => j,
        Ok(Err(m)) => return fail(out, "refused", &m, format!("a program of well-typed expressions does not compile: {m}")),
        Err(m) => return fail(out, "compiler panic", &format!("{m:?}"), format!("the compiler panicked: {m:?}")),
    };
    let mut s = match Story::new(&js) {
        Ok(s) => s,
        Err(e) => return fail(out, "load", &e.to_string(), format!("the compiled program does not load: {e}")),
    };
    s.vp_set_story_seed(r.below(100) as i32);
    let mut lines: Vec<String> = vec![];
    while s.can_continue() {
        match s.cont() {
            Ok(l) => lines.push(l.trim().to_string()),
            Err(e) => return fail(out, "error", &e.to_string(), format!("play failed after {:?}: {e}", lines.last())),
        }
    }
    if !s.get_current_errors().is_empty() {
        let m = s.get_current_errors().join("; ");
        return fail(out, "error", &m, format!("play reported {m} after {:?}", lines.last()));
    }
    let got: Vec<(String, Vec<String>)> = s.get_current_choices().iter().map(|c| (c.text.clone(), c.tags.clone())).collect();
    out.eval();
    if got != offered {
        return fail(out, "choices", &format!("{got:?}"), format!("offered {got:?}, expected {offered:?}"));
    }
    let find = |label: &str| lines.iter().find(|l| *l == &format!("{label}:") || l.starts_with(&format!("{label}: ")));
    for w in &b.want {
        out.eval();
        match w {
            Want::Line { label, text, src: e } => {
                let got = find(label);
                if !got.is_some_and(|g| text.contains(g)) {
                    return fail(out, "value", e, format!("printed {got:?}, expected {text:?}"));
                }
            }
            Want::Same { labels, any, src: e } => {
                let got: Vec<Option<&str>> = labels.iter().map(|l| find(l).map(|x| x[l.len() + 1..].trim())).collect();
                if got.iter().any(|g| *g != got[0]) {
                    return fail(out, "order", e, format!("depends on the order items were added in: {got:?}"));
                }
                if !got[0].is_some_and(|g| any.contains(g)) {
                    return fail(out, "value", e, format!("printed {:?}, expected one of {any:?}", got[0]));
                }
            }
        }
    }
    for (n, v) in &env.vars {
        if n.starts_with('t') || b.heads.iter().any(|h| h.starts_with(&format!("CONST {n} "))) {
            continue;
        }
        out.eval();
        let got = show_opt(s.get_variable(n));
        let want = v.shown();
        if got != want {
            let stmts: Vec<&String> = b.body.iter().filter(|l| l.starts_with(&format!("~ {n}"))).collect();
            return fail(out, "variable", &format!("{n}: {}", stmts.last().map(|s| s.as_str()).unwrap_or("(initial)")), format!("{n} is {got}, expected {want}, after {stmts:?}"));
        }
        out.count("variables_compared");
    }
    for (e, v, op) in exprs {
        if *op {
            out.nontrivial(hash64(e) ^ hash64(v).rotate_left(7));
        }
    }
    out.sample(json!({"source": src, "lines": lines}));
}
