//! The programs a check plays: corpus stories (both compilers), feature programs, generated programs.
use crate::ast;
use crate::corpus;
use crate::r#gen::{FSig, Feat, Gen};
use crate::host::Prog;
use crate::rng::Rng;
use crate::runner::Out;

pub struct Pool {
    pub fixed: Vec<Prog>,
}

fn features() -> Vec<Prog> {
    let d = concat!(env!("CARGO_MANIFEST_DIR"), "/programs");
    let mut v = vec![];
    let mut files: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        if f.extension().and_then(|e| e.to_str()) != Some("ink") {
            continue;
        }
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        match crate::guard::guarded(|| corpus::compile(&src)) {
            Ok(Ok(js)) => v.push(Prog::from_json(&format!("programs/{}", f.file_name().unwrap().to_string_lossy()), &src, &js)),
            e => eprintln!("feature program {}: {:?}", f.display(), e.map(|r| r.err())),
        }
    }
    v
}

impl Pool {
    /// `corpus`: include the conformance corpus.
    pub fn new(corpus: bool) -> Pool {
        let mut fixed = features();
        if corpus {
            fixed.extend(corpus::programs().into_iter().filter(|p| p.json.len() < 60_000));
        }
        Pool { fixed }
    }
    pub fn none() -> Pool {
        Pool { fixed: vec![] }
    }

    /// The program of case `n`: one in three comes from the fixed list, the others are generated.
    pub fn pick(&self, n: u64, r: &mut Rng, base: Feat, out: &mut Out) -> Option<(Prog, Vec<FSig>)> {
        if n % 3 == 0 && !self.fixed.is_empty() {
            out.count("programs_fixed");
            let i = (n / 3) as usize % self.fixed.len();
            return Some((self.fixed[i].clone(), vec![]));
        }
        generated(n, r, base, out)
    }
}

pub fn generated(n: u64, r: &mut Rng, base: Feat, out: &mut Out) -> Option<(Prog, Vec<FSig>)> {
    let f = Feat::random(r, base);
    let mut g = Gen::new(r.fork(), f);
    let p = g.program();
    let src = ast::print(&p);
    match crate::guard::guarded(|| corpus::compile(&src)) {
        Ok(Ok(js)) => {
            out.count("programs_generated");
            Some((Prog::from_json(&format!("generated {n}"), &src, &js), g.funcs.clone()))
        }
        _ => {
            out.count("no_verdict_compile");
            None
        }
    }
}
