//! Writes one JSON value in many equivalent ways.
use crate::rng::Rng;
use serde_json::Value;

#[derive(Clone, Debug)]
pub struct Style {
    pub space: u32,
    pub escape: u32,
    pub shuffle: u32,
    pub numbers: u32,
}
impl Style {
    pub fn random(r: &mut Rng) -> Style {
        let lvl = |r: &mut Rng| match r.below(4) {
            0 => 0,
            1 => 5,
            2 => 30,
            _ => 90,
        };
        Style { space: lvl(r), escape: lvl(r), shuffle: if r.pct(50) { 0 } else { 60 }, numbers: lvl(r) }
    }
}

pub fn text(v: &Value, s: &Style, r: &mut Rng) -> String {
    let mut o = String::new();
    space(s, r, &mut o);
    put(v, s, r, &mut o);
    space(s, r, &mut o);
    o
}

fn space(s: &Style, r: &mut Rng, o: &mut String) {
    while r.pct(s.space.min(70)) {
        o.push_str(*r.pick(&[" ", "\n", "\t", "\r", "  ", "\r\n", "\n    "]));
    }
}

fn put(v: &Value, s: &Style, r: &mut Rng, o: &mut String) {
    match v {
        Value::Null | Value::Bool(_) => o.push_str(&v.to_string()),
        Value::Number(n) => number(&n.to_string(), s, r, o),
        Value::String(t) => string(t, s, r, o),
        Value::Array(a) => {
            o.push('[');
            space(s, r, o);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    space(s, r, o);
                }
                put(x, s, r, o);
                space(s, r, o);
            }
            o.push(']');
        }
        Value::Object(m) => {
            let mut k: Vec<(&String, &Value)> = m.iter().collect();
            if r.pct(s.shuffle) {
                for i in (1..k.len()).rev() {
                    k.swap(i, r.below(i + 1));
                }
            }
            o.push('{');
            space(s, r, o);
            for (i, (k, x)) in k.into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    space(s, r, o);
                }
                string(k, s, r, o);
                space(s, r, o);
                o.push(':');
                space(s, r, o);
                put(x, s, r, o);
                space(s, r, o);
            }
            o.push('}');
        }
    }
}

fn number(t: &str, s: &Style, r: &mut Rng, o: &mut String) {
    if !t.contains(['.', 'e', 'E']) || !r.pct(s.numbers) {
        // an integer has one form
        o.push_str(t);
        return;
    }
    if t.contains(['e', 'E']) {
        let t = t.replace('E', "e");
        let (m, e) = t.split_once('e').unwrap();
        let e: i32 = e.parse().unwrap_or(0);
        let c = if r.pct(50) { 'e' } else { 'E' };
        let plus = if e >= 0 && r.pct(50) { "+" } else { "" };
        let zero = if m.contains('.') && r.pct(50) { "0" } else { "" };
        o.push_str(&format!("{m}{zero}{c}{plus}{e}"));
        return;
    }
    let (a, b) = t.split_once('.').unwrap();
    match r.below(5) {
        0 => o.push_str(&format!("{t}{}", "0".repeat(1 + r.below(20)))),
        1 => o.push_str(&format!("{t}{}", *r.pick(&["e0", "E0", "e+0", "e-0", "E00"]))),
        2 => {
            let digits = format!("{}{b}", a.trim_start_matches('-'));
            let digits = digits.trim_start_matches('0');
            let digits = if digits.is_empty() { "0" } else { digits };
            let sign = if a.starts_with('-') { "-" } else { "" };
            o.push_str(&format!("{sign}{digits}{}-{}", if r.pct(50) { 'e' } else { 'E' }, b.len()));
        }
        3 => o.push_str(&format!("{t}{}e+00", "0".repeat(r.below(3)))),
        _ => o.push_str(t),
    }
}

fn string(t: &str, s: &Style, r: &mut Rng, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\n' => Some("\\n"),
            '\t' => Some("\\t"),
            '\r' => Some("\\r"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '/' if r.pct(s.escape) => Some("\\/"),
            _ => None,
        };
        let must = c < ' ' || c == '"' || c == '\\';
        if r.pct(s.escape / 2) || (must && short.is_none()) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                let h = if r.pct(50) { format!("{u:04x}") } else { format!("{u:04X}") };
                o.push_str("\\u");
                o.push_str(&h);
            }
        } else if let Some(e) = short {
            o.push_str(e);
        } else {
            o.push(c);
        }
    }
    o.push('"');
}
