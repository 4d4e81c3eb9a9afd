//! Host operations as data, so that one history can be played on several stories in lockstep.
use crate::guard::{self, Caught};
use crate::host::{Host, Prog, show, show_opt};
use crate::rng::Rng;
use bladeink::value_type::ValueType;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i32),
    F(f32),
    B(bool),
    S(String),
}
impl V {
    pub fn value(&self) -> ValueType {
        match self {
            V::I(i) => ValueType::Int(*i),
            V::F(f) => ValueType::Float(*f),
            V::B(b) => ValueType::Bool(*b),
            V::S(s) => ValueType::from(s.as_str()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Cont,
    Max,
    Choose(usize),
    Path(String, bool),
    Set(String, V),
    Flow(String),
    DefaultFlow,
    RemoveFlow(String),
    Reset,
    /// saves and loads the save into the same story
    Reload,
    Eval(String, Vec<V>),
}

pub fn render(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ")
}

/// Runs `f`, turning a panic into text. Running out of fuel still ends the case.
pub fn tame<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match guard::guarded(f) {
        Ok(v) => Ok(v),
        Err(Caught::Fuel) => std::panic::panic_any(bladeink::story::vp_hooks::FuelExhausted),
        Err(Caught::Panic(m)) => Err(m),
    }
}

/// Applies an operation; the text is everything the host learns from it.
pub fn apply(h: &mut Host, _p: &Prog, op: &Op) -> String {
    let r = tame(|| match op {
        Op::Cont => h.cont(),
        Op::Max => {
            let mut s = String::new();
            let mut n = 0;
            while h.story.can_continue() && n < 60 {
                n += 1;
                s.push_str(&h.cont());
                s.push_str(&format!(" tags {:?}; ", h.story.get_current_tags().map_err(|e| e.to_string())));
                if h.story.has_error() {
                    break;
                }
            }
            s
        }
        Op::Choose(i) => format!("{:?}", h.story.choose_choice_index(*i).map_err(|e| e.to_string())),
        Op::Path(s, reset) => format!("{:?}", h.story.choose_path_string(s, *reset, None).map_err(|e| e.to_string())),
        Op::Set(n, v) => format!("{:?}", h.story.set_variable(n, &v.value()).map_err(|e| e.to_string())),
        Op::Flow(n) => format!("{:?}", h.story.switch_flow(n).map_err(|e| e.to_string())),
        Op::DefaultFlow => {
            h.story.switch_to_default_flow();
            "ok".into()
        }
        Op::RemoveFlow(n) => format!("{:?}", h.story.remove_flow(n).map_err(|e| e.to_string())),
        Op::Reset => {
            // a new game draws a new seed: keep the old one, the seed is an input of every property
            let seed = h.story.vp_story_seed();
            let r = format!("{:?}", h.story.reset_state().map_err(|e| e.to_string()));
            h.story.vp_set_story_seed(seed);
            r
        }
        Op::Reload => match h.story.save_state() {
            Ok(s) => format!("{:?}", h.story.load_state(&s).map_err(|e| e.to_string())),
            Err(e) => format!("save error {e}"),
        },
        Op::Eval(n, a) => {
            let args: Vec<ValueType> = a.iter().map(|v| v.value()).collect();
            let mut t = String::new();
            let r = h.story.evaluate_function(n, if args.is_empty() { None } else { Some(&args) }, &mut t);
            match r {
                Ok(v) => format!("value {} text {t:?}", show_opt(v)),
                Err(e) => format!("error {e}"),
            }
        }
    });
    match r {
        Ok(s) => format!("{s}\n{}", h.take_msgs()),
        Err(m) => format!("PANIC {m}\n"),
    }
}

/// What an operation showed plus all state a host can read afterwards.
pub fn step(h: &mut Host, p: &Prog, op: &Op) -> String {
    let mut s = apply(h, p, op);
    match tame(|| h.view(p)) {
        Ok(v) => s.push_str(&v),
        Err(m) => s.push_str(&format!("PANIC in view {m}\n")),
    }
    s
}

#[derive(Clone)]
pub struct Mix {
    pub cont: u32,
    pub max: u32,
    pub choose: u32,
    pub path: u32,
    pub set: u32,
    pub flow: u32,
    pub reset: u32,
    pub reload: u32,
    pub eval: u32,
}
impl Mix {
    pub fn play() -> Mix {
        Mix { cont: 40, max: 25, choose: 60, path: 0, set: 0, flow: 0, reset: 0, reload: 0, eval: 0 }
    }
    pub fn rich() -> Mix {
        Mix { path: 3, set: 4, flow: 6, ..Mix::play() }
    }
}

pub const FLOWS: [&str; 3] = ["flowA", "flow \"B\"", "ф"];

pub fn rand_value(r: &mut Rng) -> V {
    match r.below(4) {
        0 => V::I(r.range(-3, 9) as i32),
        1 => V::B(r.pct(50)),
        2 => V::F(*r.pick(&[0.5f32, 2.0, -1.25, 8.0])),
        _ => V::S(r.pick(&["", "word", "two words", "q\"uote\\", "é\n!"]).to_string()),
    }
}

/// Knots a host could jump to: not functions.
pub fn targets(p: &Prog) -> Vec<String> {
    p.paths.iter().filter(|x| !p.functions.iter().any(|f| x.split('.').next() == Some(f.0.as_str()))).cloned().collect()
}

/// A valid operation for the state the story is in.
pub fn random_op(r: &mut Rng, h: &mut Host, p: &Prog, m: &Mix) -> Option<Op> {
    let mut w: Vec<(u32, Op)> = vec![];
    if h.story.can_continue() {
        w.push((m.cont, Op::Cont));
        w.push((m.max, Op::Max));
    }
    let n = h.n_choices();
    // choosing is allowed before the turn is finished, but hosts normally continue first
    if n > 0 && (!h.story.can_continue() || r.pct(3)) {
        w.push((m.choose, Op::Choose(r.below(n))));
    }
    let ts = targets(p);
    if m.path > 0 && !ts.is_empty() {
        let boost = if w.is_empty() { 10 } else { 1 };
        w.push((m.path * boost, Op::Path(r.pick(&ts).clone(), r.pct(70))));
    }
    if m.set > 0 && !p.globals.is_empty() {
        let g = r.pick(&p.globals).clone();
        // keep the type, so that the change is not itself a fault
        let v = match h.story.get_variable(&g) {
            Some(ValueType::Int(_)) => Some(V::I(r.range(-3, 9) as i32)),
            Some(ValueType::Bool(_)) => Some(V::B(r.pct(50))),
            Some(ValueType::Float(_)) => Some(V::F(*r.pick(&[0.5f32, 2.0, -1.25]))),
            Some(ValueType::String(_)) => Some(V::S(r.pick(&["", "word", "two words", "q\"u\\"]).to_string())),
            _ => None,
        };
        if let Some(v) = v {
            w.push((m.set, Op::Set(g, v)));
        }
    }
    if m.flow > 0 {
        w.push((m.flow, Op::Flow(r.pick(&FLOWS).to_string())));
        w.push((m.flow / 2, Op::DefaultFlow));
    }
    if m.reset > 0 {
        w.push((m.reset, Op::Reset));
    }
    if m.reload > 0 {
        w.push((m.reload, Op::Reload));
    }
    if m.eval > 0 {
        let fs: Vec<&(String, usize)> = p.functions.iter().filter(|f| f.1 == 0).collect();
        if !fs.is_empty() {
            w.push((m.eval, Op::Eval(r.pick(&fs).0.clone(), vec![])));
        }
    }
    w.retain(|x| x.0 > 0);
    let sum: u32 = w.iter().map(|x| x.0).sum();
    if sum == 0 {
        return None;
    }
    let mut k = r.below(sum as usize) as u32;
    for (wt, op) in w {
        if k < wt {
            return Some(op);
        }
        k -= wt;
    }
    None
}

/// Plays a random history; returns the operations and what each showed (index 0: before any).
pub fn history(r: &mut Rng, h: &mut Host, p: &Prog, m: &Mix, len: usize) -> (Vec<Op>, Vec<String>) {
    let mut ops = vec![];
    let mut seen = vec![h.view(p)];
    for _ in 0..len {
        let Some(op) = random_op(r, h, p, m) else { break };
        let t = step(h, p, &op);
        ops.push(op);
        let stop = t.contains("PANIC ");
        seen.push(t);
        if stop {
            break;
        }
    }
    (ops, seen)
}

pub fn text_of(v: &ValueType) -> String {
    show(v)
}
