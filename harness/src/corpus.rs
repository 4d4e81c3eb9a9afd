use crate::host::Prog;
use bladeink_compiler::Compiler;
use std::path::{Path, PathBuf};

pub struct Entry {
    pub name: String,
    pub path: PathBuf,
    pub src: String,
    pub reference: Option<String>,
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else {
            out.push(p);
        }
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VPH_CORPUS").unwrap_or_else(|_| "/repo/conformance-tests/inkfiles".into()))
}

pub fn entries() -> Vec<Entry> {
    let r = root();
    let mut files = vec![];
    walk(&r, &mut files);
    let mut out = vec![];
    for f in files {
        if f.extension().and_then(|e| e.to_str()) != Some("ink") {
            continue;
        }
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        let rf = PathBuf::from(format!("{}.json", f.display()));
        let reference = std::fs::read_to_string(&rf).ok().map(|s| s.trim_start_matches('\u{feff}').to_string());
        out.push(Entry { name: f.strip_prefix(&r).unwrap_or(&f).display().to_string(), path: f, src: src.trim_start_matches('\u{feff}').to_string(), reference });
    }
    out
}

pub fn compile_entry(e: &Entry) -> Result<String, String> {
    let dir = e.path.parent().map(|p| p.to_path_buf()).unwrap_or_default();
    Compiler::new()
        .compile_with_file_handler(&e.src, |f| {
            std::fs::read_to_string(dir.join(f)).map_err(|x| bladeink_compiler::CompilerError::invalid_source(x.to_string()))
        })
        .map_err(|e| e.to_string())
}

/// Programs of the corpus: each compiled by this compiler, and each reference document.
pub fn programs() -> Vec<Prog> {
    let mut v = vec![];
    for e in entries() {
        if let Ok(Ok(js)) = crate::guard::guarded(|| compile_entry(&e)) {
            v.push(Prog::from_json(&e.name, &e.src, &js));
        }
        if let Some(r) = &e.reference {
            v.push(Prog::from_json(&format!("{}.json", e.name), &e.src, r));
        }
    }
    v
}

pub fn compile(src: &str) -> Result<String, String> {
    Compiler::new().compile(src).map_err(|e| e.to_string())
}
