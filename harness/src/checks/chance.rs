//! C01, the parts that go by chance: shuffles, RANDOM and LIST_RANDOM have no
//! one right answer, so their outcomes over many visits are held to the rules.
use super::c02;
use crate::guard::{Caught, fueled, guarded};
use crate::host::{Host, Opts, Prog, show_opt};
use crate::rng::{Rng, hash64};
use crate::runner::Out;
use serde_json::json;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Cycle,
    Once,
    Stopping,
}

#[derive(Clone, Copy, Debug)]
enum Branch {
    Empty,
    Plain,
    /// a sequence of this many alternatives within it
    Nested(usize),
}

struct Block {
    kind: Kind,
    inline: bool,
    /// visited when n is a multiple of it
    every: usize,
    branches: Vec<Branch>,
    /// counts its visits in a variable of its own
    counted: bool,
    words: &'static str,
}

enum Draw {
    Range(i64, i64),
    Member(usize),
    Nothing,
    /// SEED_RANDOM with this and two draws
    Seeded(i64),
}

struct Plan {
    blocks: Vec<Block>,
    draws: Vec<Draw>,
    visits: usize,
    choices: bool,
    seed_at_top: Option<i64>,
    tunnel: bool,
}

fn plan(r: &mut Rng) -> Plan {
    let blocks = (0..1 + r.below(4))
        .map(|_| {
            let inline = r.pct(45);
            let kind = if inline { Kind::Cycle } else { *r.pick(&[Kind::Cycle, Kind::Once, Kind::Stopping]) };
            let words = match kind {
                Kind::Cycle => "shuffle",
                Kind::Once => *r.pick(&["shuffle once", "once shuffle"]),
                Kind::Stopping => *r.pick(&["stopping shuffle", "shuffle stopping"]),
            };
            let k = 2 + r.below(5);
            let branches = (0..k)
                .map(|_| match r.below(10) {
                    0 if inline => Branch::Empty,
                    1..=3 => Branch::Nested(2 + r.below(2)),
                    _ => Branch::Plain,
                })
                .collect();
            Block { kind, inline, every: *r.pick(&[1, 1, 1, 2, 3]), branches, counted: r.pct(40), words }
        })
        .collect();
    let seed_at_top = r.pct(20).then(|| r.range(0, 99));
    let draws = (0..r.below(4))
        .map(|_| match r.below(if seed_at_top.is_some() { 3 } else { 4 }) {
            0 => {
                let lo = r.range(-3, 5);
                Draw::Range(lo, lo + r.range(0, 3))
            }
            1 => Draw::Member(1 + r.below(4)),
            2 => Draw::Nothing,
            _ => Draw::Seeded(r.range(0, 999)),
        })
        .collect::<Vec<_>>();
    let mut p = Plan { blocks, draws, visits: 20 + r.below(50), choices: r.pct(40), seed_at_top, tunnel: r.pct(30) };
    if p.draws.iter().any(|d| matches!(d, Draw::Seeded(_))) {
        // a shuffle's order holds for one seed
        p.blocks.clear();
    }
    p
}

const ITEMS: [&str; 4] = ["ia", "ib", "ic", "id"];

fn source(p: &Plan) -> String {
    let mut s = String::from("LIST L = ia, ib, ic, id\nVAR n = 0\nVAR o = ()\n");
    for (b, k) in p.blocks.iter().enumerate() {
        for j in 0..k.branches.len() {
            if k.counted && !k.inline {
                s.push_str(&format!("VAR c{b}x{j} = 0\n"));
            }
        }
    }
    if let Some(v) = p.seed_at_top {
        s.push_str(&format!("~ SEED_RANDOM({v})\n"));
    }
    s.push_str("-> hub\n=== hub\nvisit {n}\n");
    if p.tunnel {
        s.push_str("-> body ->\n");
    } else {
        body(p, &mut s);
    }
    s.push_str("~ n = n + 1\n");
    if p.choices {
        s.push_str(&format!("{{n >= {}: -> END}}\n+ [on] -> hub\n", p.visits));
    } else {
        s.push_str(&format!("{{n < {}: -> hub}}\n-> END\n", p.visits));
    }
    if p.tunnel {
        s.push_str("=== body\n");
        body(p, &mut s);
        s.push_str("->->\n");
    }
    s
}

fn branch(b: usize, j: usize, x: Branch) -> String {
    match x {
        Branch::Empty => String::new(),
        Branch::Plain => format!("t{b}x{j}"),
        Branch::Nested(m) => format!("t{b}x{j}{{{}}}", (0..m).map(|i| format!("s{i}")).collect::<Vec<_>>().join("|")),
    }
}

fn body(p: &Plan, s: &mut String) {
    for (b, k) in p.blocks.iter().enumerate() {
        if k.inline {
            let v = format!("{{~{}}}", k.branches.iter().enumerate().map(|(j, x)| branch(b, j, *x)).collect::<Vec<_>>().join("|"));
            match k.every {
                1 => s.push_str(&format!("at {b} {v} so\n")),
                e => s.push_str(&format!("at {b} {{n % {e} == 0:{v}}} so\n")),
            }
            continue;
        }
        let mut t = format!("{{ {}:\n", k.words);
        for (j, x) in k.branches.iter().enumerate() {
            t.push_str(&format!("- at {b} {} so\n", branch(b, j, *x)));
            if k.counted {
                t.push_str(&format!("~ c{b}x{j} = c{b}x{j} + 1\n"));
            }
        }
        t.push_str("}\n");
        match k.every {
            1 => s.push_str(&t),
            e => s.push_str(&format!("{{\n- n % {e} == 0:\n{t}}}\n")),
        }
    }
    for (i, d) in p.draws.iter().enumerate() {
        match d {
            Draw::Range(a, b) => s.push_str(&format!("draw {i} {{RANDOM({a}, {b})}}.\n")),
            Draw::Member(m) => s.push_str(&format!("~ o = ({})\ndraw {i} {{LIST_RANDOM(o)}}.\n", ITEMS[..*m].join(", "))),
            Draw::Nothing => s.push_str(&format!("~ o = ()\ndraw {i} {{LIST_RANDOM(o)}}.\n")),
            Draw::Seeded(v) => s.push_str(&format!("~ SEED_RANDOM({v})\ndraw {i} {{RANDOM(1, 100000)}},{{RANDOM(1, 100000)}}.\n")),
        }
    }
}

pub fn run(r: &mut Rng, out: &mut Out) {
    let p = plan(r);
    let seed = r.range(0, i32::MAX as i64) as i32;
    let mut o = Out::default();
    match fueled(3_000_000, || {
        let mut o = Out::default();
        check(&p, seed, r, &mut o);
        o
    }) {
        Ok(x) => o = x,
        Err(Caught::Fuel) => o.count("no_verdict_fuel"),
        Err(Caught::Panic(m)) => o.violation(format!("panic: {m}"), format!("panic while playing: {m}"), json!({"source": source(&p)})),
    }
    c02::merge(out, o);
}

fn check(p: &Plan, seed: i32, r: &mut Rng, out: &mut Out) {
    let src = source(p);
    let js = match guarded(|| bladeink_compiler::Compiler::new().compile(&src).map_err(|e| e.to_string())) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) => return out.violation(format!("rejected: {e}"), format!("the compiler rejects a program of the supported core: {e}"), json!({"source": src})),
        Err(_) => return out.count("no_verdict_compiler_panic"),
    };
    let prog = Prog::from_json("chance", &src, &js);
    let opts = Opts { seed, ..Opts::default() };
    let bad = |what: String, out: &mut Out| out.violation(format!("chance: {}", what.split(':').next().unwrap_or("")), what, json!({"source": src, "seed": seed}));
    let mut h = match Host::new(&prog, &opts) {
        Ok(h) => h,
        Err(e) => return bad(format!("load: {e}"), out),
    };
    // what was shown, by visit
    let mut visits: Vec<Vec<String>> = vec![];
    loop {
        while h.story.can_continue() {
            match h.story.cont() {
                Ok(l) if l.starts_with("visit ") => {
                    let want = format!("visit {}\n", visits.len());
                    if l != want {
                        return bad(format!("line: expected {want:?}, got {l:?}"), out);
                    }
                    visits.push(vec![]);
                }
                Ok(l) => match visits.last_mut() {
                    Some(v) => v.push(l),
                    None => return bad(format!("line: {l:?} before the first visit"), out),
                },
                Err(e) => return bad(format!("error: {e}"), out),
            }
        }
        if h.story.get_current_choices().is_empty() {
            break;
        }
        if r.pct(10) {
            // another story goes on where this one stands
            let s = h.story.save_state();
            match (s, Host::new(&prog, &opts)) {
                (Ok(s), Ok(mut g)) => {
                    if let Err(e) = g.story.load_state(&s) {
                        return bad(format!("load of a save: {e}"), out);
                    }
                    h = g;
                    out.count("chance_saves");
                }
                _ => return bad("save: refused".into(), out),
            }
        }
        if let Err(e) = h.story.choose_choice_index(0) {
            return bad(format!("choose: {e}"), out);
        }
    }
    let msgs = h.take_msgs();
    if !msgs.is_empty() {
        return bad(format!("messages: {msgs}"), out);
    }
    if visits.len() != p.visits {
        return bad(format!("visits: expected {}, got {}", p.visits, visits.len()), out);
    }
    // which line belongs to what
    let mut at = vec![0usize; visits.len()];
    let next = |v: usize, at: &mut Vec<usize>| -> Option<String> {
        let l = visits[v].get(at[v]).cloned();
        at[v] += 1;
        l
    };
    for (b, k) in p.blocks.iter().enumerate() {
        let mut seen = 0;
        let n = k.branches.len();
        let mut times = vec![0usize; n];
        let mut round: BTreeSet<usize> = BTreeSet::new();
        let mut order: Vec<usize> = vec![];
        let mut orders: BTreeSet<Vec<usize>> = BTreeSet::new();
        let mut rounds = 0;
        for v in 0..visits.len() {
            let due = v % k.every == 0;
            if !k.inline && (!due || k.kind == Kind::Once && seen >= n) {
                if due {
                    seen += 1;
                }
                continue;
            }
            let Some(l) = next(v, &mut at) else { return bad(format!("missing line: block {b} on visit {v}"), out) };
            if !due {
                if l != format!("at {b} so\n") {
                    return bad(format!("line: block {b} on visit {v} shows {l:?}"), out);
                }
                continue;
            }
            // the branch it took
            let text = |j: usize| match k.branches[j] {
                Branch::Empty => format!("at {b} so\n"),
                Branch::Plain => format!("at {b} t{b}x{j} so\n"),
                Branch::Nested(m) => format!("at {b} t{b}x{j}s{} so\n", times[j].min(m - 1)),
            };
            // of several empty branches, one that is still to come
            let fit: Vec<usize> = (0..n).filter(|j| text(*j) == l).collect();
            let Some(&j) = fit.iter().find(|j| !round.contains(j)).or(fit.first()) else {
                return bad(format!("line: block {b} on visit {v} shows {l:?}, no branch of it"), out);
            };
            times[j] += 1;
            out.count("shuffled");
            if k.kind == Kind::Stopping && seen >= n - 1 {
                if j != n - 1 {
                    return bad(format!("stopping: block {b} on visit {v} shows {l:?}, not its last branch"), out);
                }
                seen += 1;
                continue;
            }
            if k.kind == Kind::Stopping && j == n - 1 {
                return bad(format!("stopping: block {b} on visit {v} shows its last branch early"), out);
            }
            if !round.insert(j) {
                return bad(format!("repeat: block {b} on visit {v} shows {l:?} again before the others"), out);
            }
            order.push(j);
            seen += 1;
            if order.len() == n {
                rounds += 1;
                orders.insert(std::mem::take(&mut order));
                round.clear();
            }
        }
        if n >= 3 && rounds >= 15 && orders.len() == 1 {
            return bad(format!("not shuffled: block {b} has the order {:?} in {rounds} rounds", orders.first()), out);
        }
        out.eval();
        out.add("shuffle_rounds", rounds);
        out.nontrivial(hash64(&format!("{src}{b}{seed}")));
        if k.counted && !k.inline {
            for (j, t) in times.iter().enumerate() {
                let got = show_opt(h.story.get_variable(&format!("c{b}x{j}")));
                let want = format!("i:{t}");
                if got != want {
                    return bad(format!("count: branch {j} of block {b} was shown {t} times and counted {got}"), out);
                }
            }
        }
    }
    for (i, d) in p.draws.iter().enumerate() {
        let mut got: BTreeSet<String> = BTreeSet::new();
        for v in 0..visits.len() {
            let Some(l) = next(v, &mut at) else { return bad(format!("missing line: draw {i} on visit {v}"), out) };
            let Some(t) = l.strip_prefix(&format!("draw {i}")).and_then(|t| t.strip_suffix(".\n")) else {
                return bad(format!("line: draw {i} on visit {v} shows {l:?}"), out);
            };
            let t = t.trim();
            let ok = match d {
                Draw::Range(a, b) => t.parse::<i64>().is_ok_and(|x| x >= *a && x <= *b),
                Draw::Member(m) => ITEMS[..*m].contains(&t),
                Draw::Nothing => t.is_empty(),
                Draw::Seeded(_) => got.is_empty() || got.contains(t),
            };
            if !ok {
                return bad(format!("draw: {i} on visit {v} is {t:?}, after {got:?}"), out);
            }
            got.insert(t.into());
            out.count("draws");
        }
        let all = match d {
            Draw::Range(a, b) => (b - a + 1) as usize,
            Draw::Member(m) => *m,
            _ => 1,
        };
        let seeded = p.draws.iter().any(|d| matches!(d, Draw::Seeded(_)));
        // every value comes up in the long run: (3/4)^60 is 3e-8
        if !seeded && p.visits >= 55 && got.len() < all && all <= 3 {
            return bad(format!("draw: {i} gives only {got:?} in {} draws", p.visits), out);
        }
        out.eval();
        out.nontrivial(hash64(&format!("{src}draw{i}{seed}")));
    }
    for (v, l) in visits.iter().enumerate() {
        if let Some(x) = l.get(at[v]) {
            return bad(format!("extra line: {x:?} on visit {v}"), out);
        }
    }
}
