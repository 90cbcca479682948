//! Runs a check: a supervisor process that keeps the verdict, and a worker
//! process in which the code under test runs in several threads. Before a case
//! is evaluated it is written to the thread's slot, so that a case that takes
//! the whole process down (or never returns) is known.
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Case {
    pub mode: &'static str,
    pub seed: u64,
    pub text: Vec<String>,
}
impl Case {
    pub fn new(mode: &'static str, text: Vec<String>) -> Case {
        Case {
            mode,
            seed: 0,
            text,
        }
    }
    pub fn one(mode: &'static str, text: &str) -> Case {
        Case::new(mode, vec![text.to_string()])
    }
    pub fn seeded(mode: &'static str, seed: u64) -> Case {
        Case {
            mode,
            seed,
            text: vec![],
        }
    }
    fn json(&self) -> Value {
        json!({"mode": self.mode, "seed": self.seed, "text": self.text})
    }
    fn hash(&self) -> u64 {
        let mut h = hash_str(self.mode) ^ self.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for t in &self.text {
            h = h.rotate_left(7) ^ hash_str(t);
        }
        h
    }
}

#[derive(Default)]
pub struct Ctx {
    pub counts: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    /// the current case as a whole counts as non-trivial
    interesting: bool,
    pub tier_thorough: bool,
}
impl Ctx {
    /// An event the monitor saw.
    pub fn saw(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
    }
    pub fn saw_n(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    pub fn interesting(&mut self) {
        self.interesting = true;
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(h);
        }
    }
}

pub type Verdict = Result<(), String>;

pub struct Def {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub fixed: fn() -> Vec<Case>,
    pub gen: fn(&mut Rng) -> Case,
    pub eval: fn(&mut Ctx, &Case) -> Verdict,
    /// random cases in the quick tier
    pub quick: u64,
    /// events a run must have seen to count as an answer (quick tier)
    pub floors: &'static [(&'static str, u64)],
    pub log: log::LevelFilter,
    pub threads: usize,
}

pub fn no_fixed() -> Vec<Case> {
    vec![]
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|x| (*x).to_string()))
            .unwrap_or_else(|| "(no message)".to_string());
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}
/// Runs f; a panic comes back as (message, location).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            crate::logcap::reset();
            Err(PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into())))
        }
    }
}
pub enum Ended {
    Held,
    Violated(String),
    Broken(String),
}
pub fn evaluate(d: &Def, cx: &mut Ctx, c: &Case) -> Ended {
    let start = Instant::now();
    let out = catch(|| (d.eval)(cx, c));
    if start.elapsed() > Duration::from_millis(500) && std::env::var_os("SDPMON_SLOW").is_some() {
        eprintln!("slow: {:?} {} {} {:?}", start.elapsed(), c.mode, c.seed, c.text.first().map(|t| t.chars().take(300).collect::<String>()));
    }
    match out {
        Ok(Ok(())) => Ended::Held,
        Ok(Err(m)) => Ended::Violated(m),
        Err((m, l)) => {
            if m.starts_with("harness:") || l.starts_with("src/") {
                Ended::Broken(format!("{m} at {l}"))
            } else {
                Ended::Violated(format!("panicked: {m} at {l}"))
            }
        }
    }
}

// ------------------------------------------------------------------ limits

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
pub fn limit_cpu(s: u64) {
    unsafe {
        setrlimit(RLIMIT_CPU, &Rlimit { cur: s, max: s + 5 });
    }
}
pub fn limit_memory(b: u64) {
    unsafe {
        setrlimit(RLIMIT_AS, &Rlimit { cur: b, max: u64::MAX });
        setrlimit(RLIMIT_CORE, &Rlimit { cur: 0, max: 0 });
    }
}

/// For children that must not run forever.
pub fn child_cpu(c: &mut Command, s: u64) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            limit_cpu(s);
            Ok(())
        });
    }
}

/// For children that reserve more than they use, as sanitizers do.
pub fn unlimited_memory(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            setrlimit(
                RLIMIT_AS,
                &Rlimit {
                    cur: u64::MAX,
                    max: u64::MAX,
                },
            );
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ worker

pub struct Opts {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub work: PathBuf,
    pub limit: Option<u64>,
}
impl Opts {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

const SLOT_TEXT: usize = 64 << 20;
struct Slot(File, u64);
impl Slot {
    fn write(&mut self, c: &Case) {
        self.1 += 1;
        let mut b = Vec::with_capacity(256);
        b.extend_from_slice(&self.1.to_le_bytes());
        b.extend_from_slice(&[0; 8]);
        let mut put = |s: &str| {
            b.extend_from_slice(&(s.len() as u32).to_le_bytes());
            b.extend_from_slice(s.as_bytes());
        };
        put(c.mode);
        for t in &c.text {
            put(t);
        }
        let n = (b.len() as u64 - 16) as u32;
        b[8..12].copy_from_slice(&n.to_le_bytes());
        b.splice(16..16, c.seed.to_le_bytes());
        b.truncate(SLOT_TEXT);
        let _ = self.0.write_all_at(&b, 0);
    }
    fn idle(&mut self) {
        let _ = self.0.write_all_at(&[0xff; 8], 0);
    }
}
/// (counter, case) of a slot
fn read_slot(p: &Path) -> Option<(u64, Case)> {
    let b = fs::read(p).ok()?;
    if b.len() < 24 {
        return None;
    }
    let cnt = u64::from_le_bytes(b[0..8].try_into().ok()?);
    if cnt == u64::MAX {
        return None;
    }
    let n = u32::from_le_bytes(b[8..12].try_into().ok()?) as usize;
    let seed = u64::from_le_bytes(b[16..24].try_into().ok()?);
    let mut rest = b.get(24..24 + n)?;
    let mut parts = vec![];
    while rest.len() >= 4 {
        let l = u32::from_le_bytes(rest[0..4].try_into().ok()?) as usize;
        parts.push(String::from_utf8(rest.get(4..4 + l)?.to_vec()).ok()?);
        rest = &rest[4 + l..];
    }
    if parts.is_empty() {
        return None;
    }
    let mode = parts.remove(0);
    Some((
        cnt,
        Case {
            mode: Box::leak(mode.into_boxed_str()),
            seed,
            text: parts,
        },
    ))
}

struct Found {
    case: Case,
    message: String,
    broken: bool,
}

pub fn worker(d: &Def, o: &Opts) -> i32 {
    limit_memory(20 << 30);
    crate::logcap::install(d.log);
    install_panic_hook();
    let start = Instant::now();
    let fixed = (d.fixed)();
    let total = o.limit.unwrap_or(if o.thorough() {
        d.quick * 25
    } else {
        d.quick
    });
    let ceiling = Duration::from_secs(if o.thorough() { 3000 } else { 240 });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let all: Mutex<(Ctx, u64, Vec<Value>)> = Mutex::new((Ctx::default(), 0, vec![]));
    let base = Rng::new(o.seed ^ hash_str(d.id));
    let known = known_inputs(d.id);
    let knowns: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for t in 0..d.threads {
            let (fixed, next, stop, found, all, base, known, knowns) =
                (&fixed, &next, &stop, &found, &all, &base, &known, &knowns);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let mut slot = Slot(
                        File::create(o.work.join(format!("slot{t}"))).expect("harness: slot"),
                        0,
                    );
                    let mut cx = Ctx {
                        tier_thorough: o.thorough(),
                        ..Ctx::default()
                    };
                    let mut evals = 0u64;
                    let mut samples = vec![];
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let nf = fixed.len() as u64;
                        if i >= nf + total {
                            break;
                        }
                        if i >= nf && start.elapsed() > ceiling {
                            cx.saw("stopped at the time limit");
                            break;
                        }
                        let made = if i < nf {
                            Ok(fixed[i as usize].clone())
                        } else {
                            catch(|| (d.gen)(&mut base.fork(i - nf)))
                        };
                        let case = match made {
                            Ok(c) => c,
                            Err((m, l)) => {
                                found.lock().unwrap().push(Found {
                                    case: Case::seeded("generator", i),
                                    message: format!("{m} at {l}"),
                                    broken: true,
                                });
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        };
                        slot.write(&case);
                        evals += 1;
                        cx.interesting = false;
                        let e = evaluate(d, &mut cx, &case);
                        if cx.interesting {
                            let h = case.hash();
                            cx.distinct(h);
                            if samples.len() < 3 && evals % 37 == 1 {
                                samples.push(clip(&case));
                            }
                        }
                        let (message, broken) = match e {
                            Ended::Held => continue,
                            Ended::Violated(m) => (m, false),
                            Ended::Broken(m) => (m, true),
                        };
                        if !broken {
                            if let Some(k) = known.iter().find(|k| case.text.contains(&k.1)) {
                                knowns.lock().unwrap().insert(k.0.clone(), message);
                                continue;
                            }
                        }
                        stop.store(true, Ordering::Relaxed);
                        found.lock().unwrap().push(Found {
                            case,
                            message,
                            broken,
                        });
                        break;
                    }
                    slot.idle();
                    let mut a = all.lock().unwrap();
                    a.1 += evals;
                    for (k, v) in cx.counts {
                        *a.0.counts.entry(k).or_insert(0) += v;
                    }
                    a.0.distinct.extend(cx.distinct);
                    a.2.extend(samples);
                })
                .expect("harness: thread");
        }
    });
    let (cx, evals, mut samples) = all.into_inner().unwrap();
    samples.truncate(6);
    let found = found.into_inner().unwrap();
    let mut out = json!({
        "evaluations": evals,
        "fixed_cases": fixed.len(),
        "distinct_nontrivial": cx.distinct.len(),
        "events": cx.counts,
        "samples": samples,
        "wall_s": start.elapsed().as_secs_f64(),
        "known": knowns.into_inner().unwrap(),
    });
    if let Some(f) = found.iter().find(|f| !f.broken).or(found.first()) {
        if f.broken {
            out["broken"] = json!({"case": f.case.json(), "message": f.message});
        } else {
            let (case, message) = shrink(d, f, &o.work);
            out["violation"] = json!({"case": case.json(), "message": message});
        }
    }
    fs::write(o.work.join("result.json"), out.to_string()).expect("harness: result");
    0
}

fn clip(c: &Case) -> Value {
    let text: Vec<String> = c
        .text
        .iter()
        .take(3)
        .map(|t| t.chars().take(400).collect())
        .collect();
    json!({"mode": c.mode, "seed": c.seed, "text": text})
}

/// Smaller texts that are violated too.
fn shrink(d: &Def, f: &Found, work: &Path) -> (Case, String) {
    let mut best = f.case.clone();
    let mut message = f.message.clone();
    let end = Instant::now() + Duration::from_secs(8);
    let mut cx = Ctx::default();
    let mut slot = Slot(File::create(work.join("shrink")).expect("harness: slot"), 0);
    let mut try_one = |best: &mut Case, message: &mut String, c: Case| -> bool {
        slot.write(&c);
        if let Ended::Violated(m) = evaluate(d, &mut cx, &c) {
            *best = c;
            *message = m;
            true
        } else {
            false
        }
    };
    let panicked = message.starts_with("panicked");
    if panicked && d.id != "C01" {
        return (best, message);
    }
    // a smaller witness must not be one that is listed
    let known = known_inputs(d.id);
    for i in 0..best.text.len() {
        for by_line in [true, false] {
            let mut chunk = 0usize;
            loop {
                let parts: Vec<String> = if by_line {
                    best.text[i]
                        .split_inclusive('\n')
                        .map(str::to_string)
                        .collect()
                } else {
                    best.text[i].chars().map(|c| c.to_string()).collect()
                };
                if chunk == 0 {
                    chunk = parts.len() / 2;
                }
                if chunk == 0 {
                    break;
                }
                let mut at = 0;
                let mut hit = false;
                while at < parts.len() {
                    if Instant::now() > end {
                        return (best, message);
                    }
                    let mut p = parts.clone();
                    p.drain(at..(at + chunk).min(parts.len()));
                    let mut c = best.clone();
                    c.text[i] = p.concat();
                    if !known.iter().any(|k| c.text.contains(&k.1))
                        && try_one(&mut best, &mut message, c)
                    {
                        hit = true;
                        break;
                    }
                    at += chunk;
                }
                if !hit {
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
    }
    (best, message)
}

// -------------------------------------------------------------- known ones

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("SDPMON_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// (description, input) of the findings recorded for a property
fn known_inputs(id: &str) -> Vec<(String, String)> {
    let dir = root().join("known");
    let list = fs::read_to_string(dir.join("findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in list.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else {
            continue;
        };
        let mut w = rest.splitn(3, ' ');
        let (Some(p), Some(file), Some(what)) = (w.next(), w.next(), w.next()) else {
            continue;
        };
        if p != id {
            continue;
        }
        if let Some(f) = file.strip_prefix("input=") {
            if let Ok(t) = fs::read_to_string(dir.join(f)) {
                out.push((what.to_string(), t));
            }
        }
    }
    out
}
/// The inputs of recorded findings are evaluated in every run.
pub fn known_texts(id: &str) -> Vec<String> {
    known_inputs(id).into_iter().map(|x| x.1).collect()
}

// -------------------------------------------------------------- supervisor

pub fn write_replay(id: &str, case: &Value, message: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let h = hash_str(&case.to_string());
    let p = dir.join(format!("{id}-{h:016x}.json"));
    let j = json!({
        "property": id,
        "case": case,
        "message": message,
        "replay": format!("bash /verif/check.sh {id} --one {}", p.display()),
    });
    let _ = fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

/// Evaluates one recorded case in this process.
pub fn one(d: &Def, file: &str, cpu: Option<u64>) -> i32 {
    if let Some(c) = cpu {
        limit_cpu(c);
    }
    limit_memory(20 << 30);
    crate::logcap::install(d.log);
    install_panic_hook();
    let t = fs::read_to_string(file).expect("harness: replay file");
    let j: Value = serde_json::from_str(&t).expect("harness: replay file");
    let c = &j["case"];
    let case = Case {
        mode: Box::leak(c["mode"].as_str().unwrap().to_string().into_boxed_str()),
        seed: c["seed"].as_u64().unwrap_or(0),
        text: c["text"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_str().unwrap().to_string())
            .collect(),
    };
    let mut cx = Ctx::default();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, || evaluate(d, &mut cx, &case))
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ended::Held => {
            println!("held: {}", d.id);
            0
        }
        Ended::Violated(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={file}", d.id);
            1
        }
        Ended::Broken(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

pub fn write_evidence(d: &Def, o: &Opts, r: &Value, wall: f64, violations: u64) {
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut cov = json!({
        "evaluations": r["evaluations"],
        "distinct_nontrivial": r["distinct_nontrivial"],
        "rule": d.rule,
        "samples": r["samples"],
        "events": r["events"],
        "fixed_cases": r["fixed_cases"],
    });
    for k in ["extra"] {
        if !r[k].is_null() {
            cov[k] = r[k].clone();
        }
    }
    let j = json!({
        "property": d.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": d.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    fs::write(
        dir.join(format!("{}.json", d.id)),
        serde_json::to_string_pretty(&j).unwrap(),
    )
    .expect("harness: evidence");
}

/// Seconds after which a case is taken to hang: by the clock, of CPU time.
/// (Those that run under callgrind limit themselves.)
fn patience(c: &Case) -> (u64, u64) {
    if matches!(c.mode, "work" | "pair") {
        (500, 400)
    } else {
        (60, 20)
    }
}

fn confirm(d: &Def, work: &Path, case: &Case) -> Option<String> {
    let cpu = patience(case).1;
    let p = work.join("confirm.json");
    fs::write(&p, json!({"case": case.json()}).to_string()).ok()?;
    let out = Command::new(std::env::current_exe().ok()?)
        .args(["--one", d.id, p.to_str()?, "--cpu", &cpu.to_string()])
        .stdin(Stdio::null())
        .output()
        .ok()?;
    if let Some(s) = out.status.signal() {
        // 24: SIGXCPU, 9: the hard limit
        return Some(if s == 24 || s == 9 {
            format!("does not return within {cpu} s of CPU time")
        } else {
            format!("brings the process down (signal {s})")
        });
    }
    if out.status.code() == Some(1) {
        let t = String::from_utf8_lossy(&out.stdout);
        return Some(t.lines().next().unwrap_or("violated").to_string());
    }
    None
}

/// Returns the exit status.
pub fn supervise(d: &Def, o: &Opts) -> i32 {
    let start = Instant::now();
    let _ = fs::remove_file(o.work.join("result.json"));
    let mut child = Command::new(std::env::current_exe().expect("harness: exe"))
        .args([
            "--worker",
            d.id,
            "--tier",
            &o.tier,
            "--seed",
            &o.seed.to_string(),
            "--work",
            o.work.to_str().unwrap(),
        ])
        .args(
            o.limit
                .map(|l| vec!["--limit".to_string(), l.to_string()])
                .unwrap_or_default(),
        )
        .stdin(Stdio::null())
        .spawn()
        .expect("harness: worker");
    let mut beat: BTreeMap<usize, (u64, Instant)> = BTreeMap::new();
    let slots = || -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = (0..d.threads)
            .map(|t| o.work.join(format!("slot{t}")))
            .collect();
        v.push(o.work.join("shrink"));
        v
    };
    let mut polls = 0u64;
    let (status, stuck) = loop {
        if let Some(s) = child.try_wait().expect("harness: wait") {
            break (Some(s), None);
        }
        std::thread::sleep(Duration::from_millis(20));
        polls += 1;
        if polls % 50 != 0 {
            continue;
        }
        let mut stuck = None;
        for (i, p) in slots().iter().enumerate() {
            let Some((n, c)) = read_slot(p) else { continue };
            let e = beat.entry(i).or_insert((n, Instant::now()));
            if e.0 != n {
                *e = (n, Instant::now());
            } else if e.1.elapsed() > Duration::from_secs(patience(&c).0) {
                stuck = Some(c);
            }
        }
        if stuck.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break (None, stuck);
        }
    };
    let wall = || start.elapsed().as_secs_f64();
    let fail = |case: &Value, m: &str, r: &Value| {
        let p = write_replay(d.id, case, m);
        let shown: String = m.chars().take(3000).map(|c| if c.is_control() && c != '\n' { '?' } else { c }).collect();
        println!("{}: {shown}", d.id);
        write_evidence(d, o, r, wall(), 1);
        println!("VIOLATION property={} replay={}", d.id, p.display());
        1
    };
    let ok = status.is_some_and(|s| s.success());
    let result: Option<Value> = fs::read_to_string(o.work.join("result.json"))
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok());
    let Some(r) = result.filter(|_| ok) else {
        // the process came down or a case did not return
        let none = json!({"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "events": {}});
        let mut cases: Vec<Case> = stuck.into_iter().collect();
        if cases.is_empty() {
            cases = slots()
                .iter()
                .filter_map(|p| read_slot(p).map(|x| x.1))
                .collect();
        }
        for c in cases {
            if let Some(m) = confirm(d, &o.work, &c) {
                return fail(&c.json(), &m, &none);
            }
        }
        println!("harness error: worker ended with {status:?} and no case reproduces it");
        return 2;
    };
    if let Some(v) = r.get("violation") {
        return fail(&v["case"], v["message"].as_str().unwrap_or(""), &r);
    }
    if let Some(b) = r.get("broken") {
        println!("harness error: {b}");
        return 2;
    }
    let mut exit = 0;
    for (what, min) in d.floors {
        let got = r["events"][what].as_u64().unwrap_or(0);
        if got < *min {
            println!("inconclusive: saw {got} of at least {min}: {what}");
            exit = 2;
        }
    }
    if let Some(k) = r["known"].as_object() {
        for (what, _) in k {
            println!("KNOWN-FINDING: property={} {what}", d.id);
        }
    }
    write_evidence(d, o, &r, wall(), 0);
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        d.id, r["evaluations"], r["distinct_nontrivial"], wall()
    );
    exit
}
