//! Makes a failing program smaller.
use crate::ast::*;

/// Walks every place something can be left out; at the `k`-th it does so.
struct Cut {
    k: usize,
    at: usize,
    done: bool,
}

impl Cut {
    fn hit(&mut self) -> bool {
        if self.done {
            return false;
        }
        self.at += 1;
        if self.at > self.k {
            self.done = true;
            return true;
        }
        false
    }

    fn list<T>(&mut self, v: &mut Vec<T>) {
        if v.len() > 2 {
            if self.hit() {
                v.clear();
                return;
            }
            let h = v.len() / 2;
            if self.hit() {
                v.truncate(h);
                return;
            }
            if self.hit() {
                v.drain(..h);
                return;
            }
        }
        for i in 0..v.len() {
            if self.hit() {
                v.remove(i);
                return;
            }
        }
    }

    fn expr(&mut self, e: &mut Ex) {
        match e {
            Ex::Bin(_, a, b) => {
                if self.hit() {
                    *e = (**a).clone();
                    return;
                }
                if self.hit() {
                    *e = (**b).clone();
                    return;
                }
                self.expr(a);
                if !self.done {
                    self.expr(b);
                }
            }
            Ex::Not(a) | Ex::Neg(a) => {
                if self.hit() {
                    *e = (**a).clone();
                    return;
                }
                self.expr(a)
            }
            Ex::Call(f, a) if (f == "MIN" || f == "MAX") && !a.is_empty() => {
                if self.hit() {
                    *e = a[0].clone();
                }
            }
            Ex::I(_) | Ex::B(_) | Ex::S(_) => {}
            _ => {
                if self.hit() {
                    *e = Ex::I(1);
                    return;
                }
                if self.hit() {
                    *e = Ex::B(true);
                }
            }
        }
    }

    fn text(&mut self, t: &mut Txt) {
        self.list(t);
        if self.done {
            return;
        }
        for i in 0..t.len() {
            let put = match &t[i] {
                Inl::Cond(_, a, b) => vec![a.clone(), b.clone()],
                Inl::Seq(_, _, bs) => bs.clone(),
                _ => vec![],
            };
            for p in put {
                if self.hit() {
                    t.splice(i..i + 1, p);
                    return;
                }
            }
            match &mut t[i] {
                Inl::E(e) => self.expr(e),
                Inl::Cond(c, a, b) => {
                    self.expr(c);
                    self.text(a);
                    if a.is_empty() {
                        a.push(Inl::T("a".into()));
                    }
                    self.text(b);
                }
                Inl::Seq(_, _, bs) => {
                    if bs.len() > 2 {
                        self.list(bs);
                    }
                    bs.iter_mut().for_each(|b| {
                        self.text(b);
                        if b.is_empty() {
                            b.push(Inl::T("a".into()));
                        }
                    });
                }
                _ => {}
            }
        }
    }

    fn opt<T>(&mut self, o: &mut Option<T>) {
        if o.is_some() && self.hit() {
            *o = None;
        }
    }

    fn body(&mut self, v: &mut Vec<St>) {
        self.list(v);
        for i in 0..v.len() {
            if self.done {
                return;
            }
            let inner: Vec<Vec<St>> = match &v[i] {
                St::If(a, e) | St::Switch(_, a, e) => a.iter().map(|x| x.1.clone()).chain(e.clone()).collect(),
                St::Seq(_, _, b) => b.clone(),
                _ => vec![],
            };
            for b in inner {
                if self.hit() {
                    v.splice(i..i + 1, b);
                    return;
                }
            }
            match &mut v[i] {
                St::Line { txt, tags, div } => {
                    self.list(tags);
                    self.opt(div);
                    if let Some(Div::To(_, a) | Div::Tunnel(_, a) | Div::Thread(_, a)) = div {
                        a.iter_mut().for_each(|e| self.expr(e));
                    }
                    self.text(txt);
                    if txt.is_empty() {
                        txt.push(Inl::T("a".into()));
                    }
                }
                St::Chain(list, last) => {
                    if list.len() > 1 {
                        self.list(list);
                    }
                    self.opt(last);
                }
                St::Set { ex, .. } | St::Temp { ex, .. } | St::Return(Some(ex)) => self.expr(ex),
                St::If(arms, els) => {
                    if arms.len() > 1 {
                        self.list(arms);
                    }
                    self.opt(els);
                    for (c, b) in arms {
                        self.expr(c);
                        self.body(b);
                    }
                    if let Some(b) = els {
                        self.body(b);
                    }
                }
                St::Switch(e, arms, els) => {
                    self.expr(e);
                    if arms.len() > 1 {
                        self.list(arms);
                    }
                    self.opt(els);
                    arms.iter_mut().for_each(|(_, b)| self.body(b));
                    if let Some(b) = els {
                        self.body(b);
                    }
                }
                St::Seq(_, _, bs) => {
                    if bs.len() > 1 {
                        self.list(bs);
                    }
                    bs.iter_mut().for_each(|b| self.body(b));
                }
                St::Choices { list, gather, .. } => {
                    self.list(list);
                    if let Some(g) = gather {
                        self.opt(g);
                    }
                    for c in list {
                        self.list(&mut c.conds);
                        self.opt(&mut c.label);
                        self.list(&mut c.start_tags);
                        self.list(&mut c.only_tags);
                        self.list(&mut c.end_tags);
                        if c.div.is_some() && !c.fallback {
                            self.opt(&mut c.div);
                        }
                        if c.bracket && !c.start.is_empty() && self.hit() {
                            c.bracket = false;
                            c.only.clear();
                            c.end.clear();
                        }
                        c.conds.iter_mut().for_each(|e| self.expr(e));
                        let was = c.start.len() + c.only.len();
                        self.text(&mut c.start);
                        self.text(&mut c.only);
                        if was > 0 && c.start.is_empty() && c.only.is_empty() {
                            c.start.push(Inl::T("a".into()));
                            c.bracket = false;
                            c.end.clear();
                        }
                        self.text(&mut c.end);
                        self.body(&mut c.body);
                    }
                }
                _ => {}
            }
        }
    }

    fn program(&mut self, p: &mut Program) {
        self.list(&mut p.knots);
        for k in &mut p.knots {
            self.list(&mut k.stitches);
        }
        self.body(&mut p.root);
        for k in &mut p.knots {
            self.body(&mut k.body);
            for s in &mut k.stitches {
                self.body(&mut s.body);
            }
        }
        self.list(&mut p.globals);
    }
}

/// The smallest program found by leaving things out for which `fails` still holds.
pub fn shrink(p: &Program, tries: usize, mut fails: impl FnMut(&Program) -> bool) -> Program {
    let mut best = p.clone();
    let mut left = tries;
    let mut plain = vec![0];
    plain.extend((0..layout::BITS).map(|b| best.style & !(1 << b)));
    for st in plain {
        let mut q = best.clone();
        q.style &= st;
        if q.style != best.style && fails(&q) {
            best = q;
        }
    }
    loop {
        let mut changed = false;
        let mut k = 0;
        while left > 0 {
            let mut q = best.clone();
            let mut c = Cut { k, at: 0, done: false };
            c.program(&mut q);
            if !c.done {
                break;
            }
            left -= 1;
            Names::of(&q).program(&mut q);
            if fails(&q) {
                best = q;
                changed = true;
            } else {
                k += 1;
            }
        }
        if !changed || left == 0 {
            return best;
        }
    }
}

// ---- what was left out may be named elsewhere ----------------------------

#[derive(Default)]
struct Names {
    /// knots, stitches (`k.s`) and functions
    flows: std::collections::HashSet<String>,
    labels: std::collections::HashSet<String>,
    vars: std::collections::HashSet<String>,
}

impl Names {
    fn body(&mut self, b: &[St]) {
        for s in b {
            match s {
                St::Temp { var, .. } => {
                    self.vars.insert(var.clone());
                }
                St::Label(l) => {
                    self.labels.insert(l.clone());
                }
                St::If(a, e) | St::Switch(_, a, e) => {
                    a.iter().for_each(|x| self.body(&x.1));
                    e.iter().for_each(|x| self.body(x));
                }
                St::Seq(_, _, b) => b.iter().for_each(|x| self.body(x)),
                St::Choices { list, gather, .. } => {
                    if let Some(Some(l)) = gather {
                        self.labels.insert(l.clone());
                    }
                    for c in list {
                        self.labels.extend(c.label.clone());
                        self.body(&c.body);
                    }
                }
                _ => {}
            }
        }
    }

    fn of(p: &Program) -> Names {
        let mut n = Names::default();
        n.vars.extend(p.globals.iter().chain(&p.consts).map(|g| g.0.clone()));
        for l in &p.lists {
            n.vars.insert(l.0.clone());
            n.vars.extend(l.1.iter().map(|i| i.0.clone()));
        }
        n.flows.extend(p.externals.iter().map(|e| e.0.clone()));
        n.body(&p.root);
        for k in &p.knots {
            n.flows.insert(k.name.clone());
            n.vars.extend(k.params.iter().map(|p| p.0.clone()));
            n.body(&k.body);
            for s in &k.stitches {
                n.flows.insert(format!("{}.{}", k.name, s.name));
                n.vars.extend(s.params.iter().map(|p| p.0.clone()));
                n.body(&s.body);
            }
        }
        n
    }

    fn path(&self, p: &str) -> bool {
        if self.flows.contains(p) || self.vars.contains(p) || self.labels.contains(p) {
            return true;
        }
        let Some((k, l)) = p.rsplit_once('.') else { return false };
        self.flows.contains(k) && self.labels.contains(l)
    }

    fn ex(&self, e: &mut Ex) {
        match e {
            Ex::Count(p) | Ex::TurnsSince(p) if !self.path(p) => *e = Ex::I(1),
            Ex::V(v) if !self.path(v) => *e = Ex::I(1),
            Ex::Call(f, _) if f.chars().any(|c| c.is_lowercase()) && !self.flows.contains(f) => *e = Ex::I(1),
            Ex::Bin(_, a, b) => {
                self.ex(a);
                self.ex(b);
            }
            Ex::Not(a) | Ex::Neg(a) => self.ex(a),
            Ex::Call(_, a) => a.iter_mut().for_each(|e| self.ex(e)),
            _ => {}
        }
    }

    fn div(&self, d: &mut Div) {
        match d {
            Div::To(t, _) | Div::Tunnel(t, _) | Div::Thread(t, _) if !self.path(t) => *d = Div::Done,
            Div::RetTo(t) if !self.path(t) => *d = Div::TunnelRet,
            Div::To(_, a) | Div::Tunnel(_, a) | Div::Thread(_, a) => a.iter_mut().for_each(|e| self.ex(e)),
            _ => {}
        }
    }

    fn txt(&self, t: &mut Txt) {
        for i in t {
            match i {
                Inl::E(e) => self.ex(e),
                Inl::Cond(c, a, b) => {
                    self.ex(c);
                    self.txt(a);
                    self.txt(b);
                }
                Inl::Seq(_, _, bs) => bs.iter_mut().for_each(|b| self.txt(b)),
                Inl::Div(d) => self.div(d),
                _ => {}
            }
        }
    }

    fn fix(&self, b: &mut Vec<St>) {
        for s in b {
            let a = St::Line { txt: vec![Inl::T("a".into())], tags: vec![], div: None };
            match s {
                St::Line { txt, tags, div } => {
                    self.txt(txt);
                    tags.iter_mut().for_each(|t| self.txt(t));
                    div.iter_mut().for_each(|d| self.div(d));
                }
                St::Set { ex, .. } | St::Temp { ex, .. } | St::Return(Some(ex)) => self.ex(ex),
                St::Do(Ex::Call(f, _)) if !self.flows.contains(f) => *s = a,
                St::Do(e) => self.ex(e),
                St::Divert(d) => self.div(d),
                St::Tunnel(t, _) | St::Thread(t, _) if !self.path(t) => *s = a,
                St::Tunnel(_, x) | St::Thread(_, x) => x.iter_mut().for_each(|e| self.ex(e)),
                St::Chain(l, d) => {
                    l.retain(|x| self.path(&x.0));
                    l.iter_mut().for_each(|x| x.1.iter_mut().for_each(|e| self.ex(e)));
                    d.iter_mut().for_each(|d| self.div(d));
                    if l.is_empty() {
                        *s = a;
                    }
                }
                St::If(arms, els) => {
                    for (c, b) in arms {
                        self.ex(c);
                        self.fix(b);
                    }
                    els.iter_mut().for_each(|b| self.fix(b));
                }
                St::Switch(e, arms, els) => {
                    self.ex(e);
                    arms.iter_mut().for_each(|(_, b)| self.fix(b));
                    els.iter_mut().for_each(|b| self.fix(b));
                }
                St::Seq(_, _, bs) => bs.iter_mut().for_each(|b| self.fix(b)),
                St::Choices { list, .. } => {
                    for c in list {
                        c.conds.iter_mut().for_each(|e| self.ex(e));
                        for t in [&mut c.start, &mut c.only, &mut c.end] {
                            self.txt(t);
                        }
                        for t in c.start_tags.iter_mut().chain(&mut c.only_tags).chain(&mut c.end_tags) {
                            self.txt(t);
                        }
                        c.div.iter_mut().for_each(|d| self.div(d));
                        self.fix(&mut c.body);
                    }
                }
                _ => {}
            }
        }
    }

    fn program(&self, p: &mut Program) {
        self.fix(&mut p.root);
        for k in &mut p.knots {
            self.fix(&mut k.body);
            for s in &mut k.stitches {
                self.fix(&mut s.body);
            }
        }
        for g in &mut p.globals {
            if let Ex::Raw(s) = &g.1 {
                if s.strip_prefix("-> ").is_some_and(|t| !self.path(t)) {
                    g.1 = Ex::I(1);
                }
            }
        }
    }
}
