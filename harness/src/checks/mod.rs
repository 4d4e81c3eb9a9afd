pub mod c02;
pub mod c03;
pub mod c05;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c04;
pub mod c13;
pub mod c16;
pub mod c18;
pub mod c20;
pub mod c14;
pub mod c15;
pub mod c07;
pub mod c01;
pub mod chance;
pub mod c06;
pub mod c17;
pub mod c19;

use crate::guard;
use crate::runner::Out;

/// Runs one monitored case with a step limit; what it saw is kept either way.
pub fn case(steps: u64, out: &mut Out, f: impl FnOnce(&mut Out)) {
    let mut o2 = Out::default();
    match guard::fueled(steps, || f(&mut o2)) {
        Ok(()) => {}
        Err(guard::Caught::Fuel) => out.count("no_verdict_fuel"),
        Err(guard::Caught::Panic(m)) => {
            eprintln!("escaped panic {m}");
            out.count("escaped_panic")
        }
    }
    c02::merge(out, o2);
}
