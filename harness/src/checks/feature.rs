//! C24: the probe, built with four sets of features in two profiles and run at
//! various log levels, must say the same about every text.
//!
//! "built": every variant of the probe can be built
//! "batch": several hundred texts, digested by every variant
use super::common::*;
use crate::digest;
use crate::gen;
use crate::kinds::KINDS;
use crate::mutate;
use crate::render::Style;
use crate::rng::Rng;
use crate::run::*;
use crate::val::new;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub const VARIANTS: [&str; 8] = [
    "release-none",
    "release-debug",
    "release-serialize",
    "release-both",
    "dev-none",
    "dev-debug",
    "dev-serialize",
    "dev-both",
];
const LEVELS: [&str; 6] = ["off", "error", "warn", "info", "debug", "trace"];

pub fn probe(name: &str) -> PathBuf {
    root().join("target/probe").join(name)
}
/// Runs the probe on texts; None if it cannot be started.
pub fn run_probe(name: &str, list: &[String], cmd: &str, args: &[&str], env: &[(&str, &str)]) -> (Option<i32>, String, String) {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = root().join("work");
    std::fs::create_dir_all(&dir).expect("harness: work folder");
    let f = dir.join(format!("texts-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&f, serde_json::to_string(list).expect("harness: texts")).expect("harness: texts");
    let mut c = Command::new(probe(name));
    unlimited_memory(&mut c);
    let out = c
        .arg(cmd)
        .arg(&f)
        .args(args)
        .envs(env.iter().copied())
        .stdin(Stdio::null())
        .output();
    let _ = std::fs::remove_file(&f);
    let out = out.unwrap_or_else(|e| panic!("harness: probe {name}: {e}"));
    (
        out.status.code(),
        String::from_utf8_lossy(&out.stdout).into_owned(),
        String::from_utf8_lossy(&out.stderr).into_owned(),
    )
}

/// Texts of every sort; many with things that are logged or counted.
pub fn texts(r: &mut Rng, n: usize) -> Vec<String> {
    (0..n)
        .map(|_| match r.n(10) {
            0..=4 => {
                let k = few(r);
                odd_text(r, k)
            }
            5..=7 => {
                let k = r.pick(KINDS);
                let a = gen::attr(r, k.tag);
                let l = line_of(r, Style::default(), &new("Attribute", a));
                let l = mutate::some(r, &l).replace(['\n', '\r'], " ");
                let (s, m) = if k.media { ("", l.as_str()) } else { (l.as_str(), "") };
                format!("v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n{s}\r\nm=video 9 UDP/TLS/RTP/SAVPF 96 97 98\r\n{m}\r\n")
            }
            8 if r.bool() => any_line(r),
            8 => {
                let l = any_line(r);
                within(&mutate::some(r, &l).replace(['\n', '\r'], " "))
            }
            _ => mutate::soup(r),
        })
        .collect()
}

fn built(cx: &mut Ctx) -> Verdict {
    let made: Vec<&str> = VARIANTS.iter().copied().filter(|v| probe(v).exists()).collect();
    if made.is_empty() {
        panic!("harness: no variant of the probe could be built");
    }
    for v in VARIANTS {
        if !made.contains(&v) {
            let log = std::fs::read_to_string(probe(&format!("{v}.failed"))).unwrap_or_default();
            let line = log.lines().find(|l| l.starts_with("error")).unwrap_or("?");
            return Err(format!("the library builds as {} but not as {v}: {line}", made[0]));
        }
    }
    cx.saw_n("variants built", made.len() as u64);
    Ok(())
}

/// Parts of the sweep.
const CHUNKS: u64 = 32;
const BIG: &[(&str, usize)] = &[
    ("\r\n", 70_000),
    ("a=sendrecv\r\n", 11_000),
    ("a=x-y\r\n", 11_000),
    ("a=ptime:x\r\n", 11_000),
    ("m=audio 9 RTP/AVP 96\r\n", 5_000),
    ("b=AS:1\r\n", 11_000),
    ("a=candidate:1 1 udp 1 10.0.0.1 9 typ host\r\n", 3_000),
    ("a=ssrc:1 cname:x\r\n", 5_000),
];
fn batch(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let list = if (CHUNKS..CHUNKS + BIG.len() as u64).contains(&seed) {
        cx.saw("very large texts");
        let (unit, n) = BIG[(seed - CHUNKS) as usize];
        let head = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
        vec![format!("{head}{}{}", if unit.starts_with("m=") { "" } else { "m=audio 9 RTP/AVP 96\r\n" }, unit.repeat(n))]
    } else if seed < CHUNKS {
        cx.saw("batches of odd characters at every place");
        let mut all = sweep(cx.tier_thorough);
        all.extend(little());
        all.extend(crowds(&[36, 300]));
        all.extend(numbered(if cx.tier_thorough { 6 } else { 1 }).iter().map(|l| within(l)));
        all.into_iter().skip(seed as usize).step_by(CHUNKS as usize).collect()
    } else {
        texts(&mut r, 250)
    };
    let mut first: Option<(String, Vec<String>)> = None;
    for v in VARIANTS {
        // at two levels each
        let l = r.n(LEVELS.len());
        for level in [LEVELS[l], LEVELS[(l + 1 + r.n(5)) % LEVELS.len()]] {
            let how = format!("{v} at log level {level}");
            let (code, out, err) = run_probe(v, &list, "digest", &[level, "0"], &[]);
            if code != Some(0) {
                return Err(format!("the probe as {how} ended with {code:?}: {}", clip(&err)));
            }
            let got: Vec<String> = out.lines().map(str::to_string).collect();
            if got.len() != list.len() {
                panic!("harness: {} digests", got.len());
            }
            cx.saw("runs of a variant");
            cx.saw_n("digests compared", got.len() as u64);
            match &first {
                None => first = Some((how, got)),
                Some((other, want)) => {
                    for (i, (a, b)) in want.iter().zip(&got).enumerate() {
                        if let Some(d) = digest::differ(a, b) {
                            return Err(format!("{d} between {other} and {how}, for {:?}", clip(&list[i])));
                        }
                    }
                }
            }
        }
    }
    let (_, d) = first.expect("harness: variants");
    cx.saw_n("texts accepted by all variants", d.iter().filter(|x| x.contains("verdict:accepted")).count() as u64);
    cx.saw_n("texts refused by all variants", d.iter().filter(|x| x.contains("verdict:refused")).count() as u64);
    cx.interesting();
    for x in d {
        cx.distinct(crate::rng::hash_str(&x));
    }
    Ok(())
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "built" => built(cx),
        _ => {
            if VARIANTS.iter().any(|v| !probe(v).exists()) {
                return built(&mut Ctx::default());
            }
            batch(cx, c.seed)
        }
    }
}
fn fixed() -> Vec<Case> {
    let mut v = vec![Case::seeded("built", 0)];
    v.extend((0..CHUNKS + BIG.len() as u64).map(|i| Case::seeded("batch", i)));
    v
}
fn gen_case(r: &mut Rng) -> Case {
    Case::seeded("batch", r.u64())
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C24",
        rule: "batches of 250 valid, damaged and senseless texts are digested (verdict, content, warnings, error, print, anonymized copy, strict result, single lines) by a probe built with none, either and both features, unoptimized with checks and optimized without, each at two log levels; every digest must agree; non-trivial: batches",
        assumptions: &["the probe's digests (64 bits) do not collide"],
        fixed,
        gen: gen_case,
        eval,
        quick: 500,
        floors: &[("variants built", 8), ("digests compared", 300_000), ("texts accepted by all variants", 2_000), ("texts refused by all variants", 2_000)],
        log: log::LevelFilter::Off,
        threads: THREADS,
    }]
}
