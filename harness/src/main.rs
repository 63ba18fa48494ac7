mod big;
mod conv;
mod ctx;
mod el;
mod engine;
mod json;
mod props;
mod sys;
mod wasm;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: sys::Counting = sys::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cfg = engine::Cfg::from_env();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match a(0) {
        "run" => match props::get(a(1)) {
            Some(p) => engine::supervise(&cfg, &p),
            None => usage(),
        },
        "worker" => match props::get(a(1)) {
            Some(p) => {
                // AddressSanitizer reserves more address space than the limit
                if p.id == "C25" {
                    engine::install_hook();
                } else {
                    prepare();
                }
                engine::worker(&cfg, &p)
            }
            None => usage(),
        },
        "guided" => match props::get(a(1)) {
            Some(p) => {
                prepare();
                engine::guided_worker(&cfg, &p)
            }
            None => usage(),
        },
        "one" => match props::get(a(1)) {
            Some(p) => {
                prepare();
                let mut choices = None;
                let mut trace = None;
                let mut verbose = false;
                let mut i = 4;
                while i < args.len() {
                    match a(i) {
                        "--choices" => {
                            choices = Some(numbers(&std::fs::read_to_string(a(i + 1)).expect("choices")));
                            i += 1;
                        }
                        "--trace" => {
                            trace = Some(PathBuf::from(a(i + 1)));
                            i += 1;
                        }
                        _ => verbose = true,
                    }
                    i += 1;
                }
                engine::one(&cfg, &p, a(2).parse().expect("family"), a(3).parse().expect("index"), choices, trace, verbose)
            }
            None => usage(),
        },
        "replay" => {
            let text = std::fs::read_to_string(a(1)).expect("replay file");
            let f = |k: &str| json::field(&text, k).unwrap_or_else(|| panic!("no {} in the replay file", k));
            let p = props::get(&f("property")).expect("property");
            let fam = p.families.iter().position(|x| x.name == f("family")).expect("family");
            if p.id == "C25" {
                engine::install_hook();
            } else {
                prepare();
            }
            let mut cfg = cfg;
            cfg.seed = f("seed").parse::<i64>().expect("seed") as u64;
            cfg.thorough = f("tier") == "thorough";
            println!("replaying {} of {}", f("family"), p.id);
            engine::one(&cfg, &p, fam, f("index").parse().expect("index"), Some(numbers(&f("choices"))), None, true)
        }
        "answers" => {
            prepare();
            props::valid::answering_child()
        }
        "known" => {
            prepare();
            props::known_child(a(1))
        }
        "list" => {
            for id in props::IDS {
                let p = props::get(id).unwrap();
                for f in &p.families {
                    println!("{} {} {} {}", id, f.name, f.quick, f.thorough);
                }
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

fn numbers(s: &str) -> Vec<u64> {
    s.split_whitespace().map(|x| x.parse().expect("number")).collect()
}

fn prepare() {
    sys::limit_process(20 << 30);
    engine::install_hook();
}

fn usage() -> i32 {
    eprintln!("usage: harness run ID | replay FILE | list");
    64
}
