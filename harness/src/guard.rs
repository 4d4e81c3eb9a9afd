//! Panic capture around calls into the code under test.
use bladeink::story::vp_hooks::{self, FuelExhausted};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

thread_local! {
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}

#[derive(Debug, Clone, PartialEq)]
pub enum Caught {
    Fuel,
    Panic(String),
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<FuelExhausted>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<FuelExhausted>() {
                Err(Caught::Fuel)
            } else {
                Err(Caught::Panic(
                    LAST.with(|l| l.borrow_mut().take()).unwrap_or_else(|| "?".into()),
                ))
            }
        }
    }
}

/// Runs `f` with at most `steps` interpreter steps.
pub fn fueled<T>(steps: u64, f: impl FnOnce() -> T) -> Result<T, Caught> {
    vp_hooks::set_fuel(steps);
    let r = guarded(f);
    vp_hooks::set_fuel(u64::MAX);
    r
}
