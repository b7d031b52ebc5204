mod alloc;
mod engine;
mod gen;
mod model;
mod props;
mod refre;
mod regen;
mod server;
mod spec;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("SDSV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let props = props::all();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let arg = |i: usize| {
        args.get(i).map(|s| s.as_str()).unwrap_or_else(|| {
            eprintln!("usage: sdsv run <ID> quick|thorough | replay <FILE> | list");
            std::process::exit(2)
        })
    };
    let code = match arg(1) {
        "list" => {
            for p in &props {
                println!("{} {:?}", p.id, p.parts.iter().map(|x| x.name).collect::<Vec<_>>());
            }
            0
        }
        "run" => engine::supervise(find(arg(2)), arg(3), seed, scale),
        "run-inner" => engine::run(find(arg(2)), arg(3), seed, scale),
        "case" => engine::run_single_case(find(arg(2)), arg(3), arg(4).parse().unwrap(), arg(5).parse().unwrap()),
        // a pattern and a text: what the code under test and PCRE2 make of them
        "probe" => {
            let r = model::RuleM::new(arg(2));
            match model::build(&[r.clone()], Default::default()) {
                Err(e) => println!("sds: {e:?}"),
                Ok(sc) => {
                    let g = model::scan_real(&sc, &model::Ev::Str(arg(3).into()), &[], model::EncM::Utf8);
                    println!("sds: {:?}", g.flat.iter().map(|m| (m.start, m.end)).collect::<Vec<_>>());
                }
            }
            match refre::RefRegex::new(arg(2)) {
                Err(e) => println!("pcre2: error {e}"),
                Ok(re) => println!("pcre2: {:?}", re.find_at(arg(3), 0)),
            }
            0
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(arg(2)).expect("replay file")).unwrap();
            let tape = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>();
            if tape.is_empty() {
                println!("run: {}", v["extra"].as_str().unwrap_or(""));
            }
            engine::replay(find(v["property"].as_str().unwrap()), v["part"].as_str().unwrap(), tape)
        }
        _ => 2,
    };
    std::process::exit(code);
}
