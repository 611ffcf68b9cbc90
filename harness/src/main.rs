mod bldg;
mod child;
mod drive;
mod job;
mod prog;
mod props;
mod rng;
mod rt;
mod scen;

fn main() {
    if std::env::var_os("VSIM_JOB").is_some() {
        child::main();
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let verif = std::path::PathBuf::from(std::env::var("VSIM_VERIF").unwrap_or("/verif".into()));
    let props = props::all();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let tier = if a.get(3).map_or(false, |t| t == "thorough") { drive::Tier::Thorough } else { drive::Tier::Quick };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            match props.iter().find(|p| p.id == id) {
                Some(p) => drive::check_property(p, tier, seed, &verif),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => drive::replay(&props, a.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("dump") => {
            // vsim dump <id> <index> <directory>: the input files of a generated case
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let p = props.iter().find(|p| p.id == a[2]).unwrap();
            let i: u64 = a[3].parse().unwrap();
            let case = (p.gen)(&mut drive::case_rng(seed, p.id, i), i, drive::Tier::Quick);
            let b = bldg::build(&case["b"]);
            let d = std::path::Path::new(&a[4]);
            std::fs::create_dir_all(d).unwrap();
            std::fs::write(d.join("model.json"), bldg::json_ordered(&b.model)).unwrap();
            std::fs::write(d.join("w.sw"), bldg::weather_doc(&case["w"]).to_string()).unwrap();
            println!("{case}");
            0
        }
        Some("one") => {
            // vsim one <id> <index>: run a single generated case, verbosely
            let id = a[2].clone();
            let i: u64 = a[3].parse().unwrap();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let p = props.iter().find(|p| p.id == id).unwrap();
            let g = drive::global();
            let ctx = drive::Ctx::new(&g);
            *ctx.trace.borrow_mut() = Some(vec![]);
            let case = (p.gen)(&mut drive::case_rng(seed, p.id, i), i, drive::Tier::Quick);
            println!("{}", serde_json::to_string_pretty(&case).unwrap());
            let t = std::time::Instant::now();
            let o = (p.check)(&ctx, &case);
            println!("{:#?} {:?}", o, t.elapsed());
            if std::env::var("VSIM_TRACE").is_ok() {
                println!("{}", serde_json::to_string_pretty(&*ctx.trace.borrow()).unwrap());
            }
            println!("{:x?} steps {}", ctx.hashes.borrow(), g.stats.lock().unwrap().steps);
            0
        }
        _ => {
            eprintln!("usage: vsim check <id> quick|thorough | replay <file> | one <id> <n>");
            2
        }
    };
    std::process::exit(code);
}
