mod case;
mod conc;
mod driver;
mod gap;
mod lin;
mod payload;
mod props;
mod rt;
mod seq;
mod store;

fn main() {
    unsafe { rt::rt_global_init() };
    // ordering of the read-modify-write instructions which are not instrumented, see build.sh
    if let Some(mo) = std::env::current_exe().ok().and_then(|p| std::fs::read_to_string(p.with_file_name("native_mo")).ok()).and_then(|s| s.trim().parse().ok()) {
        unsafe { rt::rt_set_native_mo(mo) };
    }
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let props = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = get("--prop").expect("--prop");
            let p = props.iter().find(|p| p.id == id).expect("known property");
            let o = driver::Opts {
                seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
                thorough: get("--tier").map(|t| t == "thorough").unwrap_or(false),
                cases: get("--cases").and_then(|x| x.parse().ok()),
                evidence: get("--evidence"),
                replay_dir: get("--replays").unwrap_or("replays".into()),
                workers: get("--workers").and_then(|x| x.parse().ok()).unwrap_or(8),
                stall_s: 150,
            };
            driver::check(p, &o)
        }
        Some("replay") => driver::replay(&props, &args[2]),
        Some("one") => {
            let p = props.iter().find(|p| p.id == args[2]).expect("known property");
            driver::one(p, args[3].parse().unwrap(), args[4].parse().unwrap(), args.get(5).is_some());
            0
        }
        Some("list") => {
            for p in &props {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check --prop ID [--seed N] [--tier quick|thorough] [--cases N] [--evidence FILE] [--replays DIR] | replay FILE | one ID SEED INDEX");
            3
        }
    };
    std::process::exit(code);
}
