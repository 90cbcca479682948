//! A small program that is built with every combination of the library's
//! features and says what the library makes of texts. Shares the monitors'
//! reading of the library's values.
//!
//! sdpprobe digest  FILE LEVEL ORDER            one line per text
//! sdpprobe threads FILE THREADS ROUNDS SEED    all texts in many threads
#![allow(dead_code)]
#[path = "../../harness/src/conv.rs"]
mod conv;
#[path = "../../harness/src/digest.rs"]
mod digest;
#[path = "../../harness/src/logcap.rs"]
mod logcap;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/val.rs"]
mod val;

use rng::Rng;
use std::io::Write;
use std::sync::{Arc, Barrier};

fn texts(file: &str) -> Vec<String> {
    let t = std::fs::read_to_string(file).expect("file of texts");
    serde_json::from_str(&t).expect("list of texts")
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| ()));
    let list = texts(&args[1]);
    let num = |i: usize| -> u64 { args[i].parse().expect("number") };
    match args[0].as_str() {
        "digest" => {
            logcap::install(args[2].parse().expect("level"));
            let mut order: Vec<usize> = (0..list.len()).collect();
            if num(3) > 0 {
                Rng::new(num(3)).shuffle(&mut order);
            }
            let mut out = vec![String::new(); list.len()];
            for i in order {
                out[i] = digest::line(&list[i]);
            }
            let o = std::io::stdout();
            let mut o = o.lock();
            for l in out {
                writeln!(o, "{l}").expect("output");
            }
        }
        "threads" => {
            logcap::install(log::LevelFilter::Trace);
            let n = num(2) as usize;
            let rounds = num(3) as usize;
            // values that all threads share
            let shared: Arc<digest::Carry<Vec<webrtc_sdp::SdpSession>>> =
                Arc::new(digest::Carry::new(list.iter().filter_map(|t| webrtc_sdp::parse_sdp(t, false).ok()).collect()));
            let used: Vec<String> = shared.get().iter().map(digest::used).collect();
            let start = Barrier::new(n);
            let bad: Vec<Vec<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        let (list, shared, used, start) = (&list, &shared, &used, &start);
                        let mut r = Rng::new(num(4) * 1000 + k as u64);
                        s.spawn(move || {
                            start.wait();
                            let shared = shared.get();
                            let mut seen: Vec<(usize, String)> = vec![];
                            let mut bad = vec![];
                            for _ in 0..rounds {
                                let i = r.n(list.len());
                                let l = digest::line(&list[i]);
                                seen.push((i, l));
                                if r.chance(1, 4) {
                                    std::thread::yield_now();
                                }
                                if !shared.is_empty() {
                                    let j = r.n(shared.len());
                                    if digest::used(&shared[j]) != used[j] {
                                        bad.push(format!("shared {j}"));
                                    }
                                }
                            }
                            (seen, bad)
                        })
                    })
                    .collect();
                let mut first: Vec<Option<String>> = vec![None; list.len()];
                let mut all = vec![];
                for h in hs {
                    let (seen, mut bad) = h.join().expect("thread");
                    for (i, l) in seen {
                        match &first[i] {
                            None => first[i] = Some(l),
                            Some(x) if *x == l => (),
                            Some(_) => bad.push(format!("text {i}")),
                        }
                    }
                    all.push(bad);
                }
                all
            });
            let bad: Vec<String> = bad.concat();
            for b in bad.iter().take(5) {
                println!("DIFFERS {b}");
            }
            println!("done {} parses, {} shared values", n * rounds, shared.get().len());
        }
        _ => panic!("unknown command"),
    }
}
