mod alloc;
mod ast;
mod checks;
mod corpus;
mod expr;
mod r#gen;
mod guard;
mod host;
mod jsontext;
mod lock;
mod paths;
mod pool;
mod refvm;
mod rng;
mod runner;
mod shrink;

use runner::{Cfg, Def};

fn defs() -> Vec<Def> {
    vec![checks::c02::def(), checks::c03::def(), checks::c05::def(), checks::c08::def(), checks::c09::def(), checks::c10::def(), checks::c11::def(), checks::c12::def(), checks::c04::def(), checks::c13::def(), checks::c16::def(), checks::c18::def(), checks::c20::def(), checks::c14::def(), checks::c15::def(), checks::c07::def(), checks::c01::def(), checks::c06::def(), checks::c17::def(), checks::c19::def()]
}

fn find(id: &str) -> Def {
    match defs().into_iter().find(|d| d.id == id) {
        Some(d) => d,
        None => {
            eprintln!("unknown check {id}");
            std::process::exit(2);
        }
    }
}

fn play(args: &[String]) {
    guard::install_hook();
    let src = std::fs::read_to_string(&args[0]).unwrap();
    let js = if args[0].ends_with(".json") {
        src.trim_start_matches('\u{feff}').to_string()
    } else {
        match guard::guarded(|| corpus::compile(&src)) {
            Ok(Ok(j)) => j,
            e => {
                println!("compile: {e:?}");
                return;
            }
        }
    };
    if std::env::var("JSON").is_ok() {
        println!("{js}");
    }
    let p = host::Prog::from_json(&args[0], &src, &js);
    let r = guard::fueled(100000, || {
        let mut h = match host::Host::new(&p, &host::Opts { observe: std::env::var("OBS").is_ok(), ..Default::default() }) {
            Ok(h) => h,
            Err(e) => {
                println!("load: {e}");
                return;
            }
        };
        print!("{}", h.run_turn(100));
        for a in &args[1..] {
            println!("> {a}");
            match a.parse::<usize>() {
                Ok(i) => println!("{:?}", h.story.choose_choice_index(i).map_err(|e| e.to_string())),
                Err(_) => println!("{:?}", h.story.choose_path_string(a, true, None).map_err(|e| e.to_string())),
            }
            print!("{}", h.run_turn(100));
        }
        println!("--\n{}calls {:?}\nobs {:?}", h.vars(&p), h.calls.borrow(), h.obs.borrow());
        if std::env::var("SAVE").is_ok() {
            println!("{}", h.story.save_state().unwrap());
        }
    });
    if let Err(e) = r {
        println!("CAUGHT {e:?}");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let def = find(&a[1]);
            std::process::exit(runner::check(&def, &Cfg { id: a[1].clone(), tier, seed }));
        }
        Some("worker") => {
            let cfg = Cfg { id: a[1].clone(), tier: a[2].clone(), seed: a[3].parse().unwrap() };
            let def = find(&a[1]);
            let only = a.get(8).and_then(|s| s.parse().ok());
            runner::worker(&def, &cfg, a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap(), only);
        }
        Some("case") => {
            // vph case ID TIER SEED N : run one case here and print its outcome
            let cfg = Cfg { id: a[1].clone(), tier: a[2].clone(), seed: a[3].parse().unwrap() };
            let def = find(&a[1]);
            guard::install_hook();
            let mut c = (def.make)(&cfg);
            let mut out = runner::Out::default();
            let r = guard::guarded(|| c.run_case(a[4].parse().unwrap(), &mut out));
            println!("{:?}", r.err());
            println!("{}", serde_json::to_string_pretty(&runner::case_out_json(&out)).unwrap().replace("\\n", "\n"));
        }
        Some("serve") => {
            let cfg = Cfg { id: a[1].clone(), tier: a[2].clone(), seed: a[3].parse().unwrap() };
            runner::serve(&find(&a[1]), &cfg);
        }
        Some("gen") => {
            // vph gen SEED [rich]
            let mut r = rng::Rng::of("gen", a[1].parse().unwrap(), 0);
            let base = if a.len() > 2 { r#gen::Feat::rich() } else { r#gen::Feat::core() };
            let f = r#gen::Feat::random(&mut r, base);
            let p = r#gen::Gen::new(r, f).program();
            print!("{}", ast::print(&p));
        }
        Some("genstats") => {
            // vph genstats N [rich] : how many generated programs the compiler accepts, and why it refuses
            guard::install_hook();
            let n: u64 = a[1].parse().unwrap();
            let mut m: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
            for i in 0..n {
                let mut r = rng::Rng::of("gen", i, 0);
                let base = if a.len() > 2 { r#gen::Feat::rich() } else { r#gen::Feat::core() };
                let f = r#gen::Feat::random(&mut r, base);
                let p = r#gen::Gen::new(r, f).program();
                let src = ast::print(&p);
                let k = match guard::guarded(|| corpus::compile(&src)) {
                    Ok(Ok(j)) => {
                        let v: serde_json::Value = serde_json::from_str(&j).unwrap();
                        let mut d = paths::Doc::new(&v).unwrap();
                        match d.check().first() {
                            None => "ok".to_string(),
                            Some(b) => format!("bad ref {} {}", b.kind, b.problem),
                        }
                    }
                    Ok(Err(e)) => e,
                    Err(e) => format!("{e:?}"),
                };
                let e = m.entry(k).or_insert((0, i));
                e.0 += 1;
            }
            let mut v: Vec<_> = m.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
            for (k, (c, i)) in v.iter().take(40) {
                println!("{c} (seed {i}): {k}");
            }
        }
        Some("play") => play(&a[1..]),
        _ => {
            eprintln!("usage: vph check|worker|case|serve|play ...");
            std::process::exit(2);
        }
    }
}
