mod alloc;
mod checks;
mod conv;
mod corpus;
mod digest;
mod gen;
mod kinds;
mod logcap;
mod mutate;
mod refparse;
mod reftext;
mod render;
mod rng;
mod run;
mod val;
mod words;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let has = |name: &str| args.iter().any(|a| a == name);
    let env = |n: &str| std::env::var(n).ok();
    let seed = opt("--seed")
        .or_else(|| env("VERIF_SEED"))
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let tier = opt("--tier")
        .or_else(|| env("VERIF_TIER"))
        .unwrap_or_else(|| "quick".into());
    let limit = opt("--limit").and_then(|x| x.parse().ok());
    if let Some(i) = args.iter().position(|a| a == "--cost-worker") {
        let n = |k: usize| args[i + k].parse::<u64>().expect("harness: number");
        checks::cost::cost_worker(n(1), n(2) as usize);
        return;
    }
    let (mode, id) = if let Some(i) = opt("--worker") {
        ("worker", i)
    } else if let Some(i) = opt("--one") {
        ("one", i)
    } else {
        ("run", args.first().cloned().unwrap_or_default())
    };
    if mode == "run" && checks::special(&id, &args, seed, &tier) {
        return;
    }
    let Some(d) = checks::all().into_iter().find(|d| d.id == id) else {
        eprintln!("no such check: {id}");
        std::process::exit(2);
    };
    let work = opt("--work").map_or_else(
        || {
            let p = run::root().join(format!("work/{}-{}", d.id, std::process::id()));
            std::fs::create_dir_all(&p).expect("harness: work folder");
            p
        },
        PathBuf::from,
    );
    let o = run::Opts {
        id: id.clone(),
        tier,
        seed,
        work: work.clone(),
        limit,
    };
    let code = match mode {
        "worker" => run::worker(&d, &o),
        "one" => {
            let i = args.iter().position(|a| a == "--one").unwrap();
            run::one(
                &d,
                &args[i + 2],
                opt("--cpu").and_then(|x| x.parse().ok()),
            )
        }
        _ => run::supervise(&d, &o),
    };
    if mode != "worker" && !has("--work") {
        let _ = std::fs::remove_dir_all(&work);
    }
    std::process::exit(code);
}
