//! C22: parsing is a pure function of the text.
//!
//! "pool":   texts of a fixed pool are met again and again, in all threads,
//!           between everything else; the outcome must be the first one
//! "again":  a text before and after a history of parsing, printing, editing,
//!           anonymizing other things; in another thread
//! "place":  a text at other places in memory, among other neighbours
//! "intact": a value before and after everything that only looks at it, and
//!           copies that are edited
//! "shared": one value used by several threads at once
//! "fresh":  the same texts in new processes, in other orders and surroundings
//! "races":  texts and shared values in many threads, under ThreadSanitizer
//! "types":  everything public can be moved to and shared between threads
use super::common::*;
use super::edit;
use super::feature::{run_probe, texts};
use crate::conv;
use crate::digest;
use crate::gen;
use crate::rng::{hash_str, Rng};
use crate::run::*;
use crate::val::V;
use std::collections::HashMap;
use std::sync::{Barrier, Mutex, OnceLock};
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

const POOL: u64 = 3000;

fn pool_text(i: u64) -> String {
    if i % 7 == 3 {
        static LIST: OnceLock<Vec<super::cost::Family>> = OnceLock::new();
        let l = LIST.get_or_init(super::cost::list);
        return l[i as usize % l.len()].text(20 + i as usize % 30);
    }
    let mut r = Rng::new(0xc22 + i);
    // near relatives of each other: texts in groups of four differ by little
    let mut g = Rng::new(0xabc + i / 4);
    let mut l: Vec<String> = texts(&mut g, 1)[0].lines().map(str::to_string).collect();
    if i % 4 > 0 {
        let n = r.range(1, 2);
        shake(&mut r, &mut l, n);
    }
    join(&l)
}

/// A bit of work on something else.
fn noise(r: &mut Rng, cx: &mut Ctx) {
    let n = few(r);
    let t = match r.n(3) {
        0 => pool_text(r.u64() % POOL),
        _ => odd_text(r, n),
    };
    match r.n(4) {
        0 => {
            let _ = parse_sdp_line(&t, r.n(100));
        }
        1 => {
            let _ = parse_sdp(&t, true).map(|x| x.to_string());
        }
        _ => {
            if let Ok(mut x) = parse_sdp(&t, r.chance(1, 5)) {
                let mut a = StatefulSdpAnonymizer::new();
                let y = x.masked_clone(&mut a);
                let _ = y.to_string();
                let mut v = conv::session(&x);
                for _ in 0..r.n(4) {
                    let _ = edit::edit_session(r, &mut x, &mut v, false, &mut Ctx::default());
                }
                let _ = x.to_string();
                cx.saw("sessions edited in between");
            }
        }
    }
}

/// All there is to see of a session.
fn look(x: &SdpSession) -> Vec<(&'static str, String)> {
    vec![
        ("content", format!("{:?}", conv::session(x))),
        ("warnings", x.warnings.iter().map(digest::error).collect::<Vec<_>>().join("\n")),
        ("print", x.to_string()),
        ("debug form", format!("{x:?}")),
        ("serialized form", serde_json::to_string(x).unwrap_or_default()),
    ]
}
fn unlike(what: &str, a: &[(&'static str, String)], b: &[(&'static str, String)]) -> Verdict {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            let i = x.1.bytes().zip(y.1.bytes()).position(|(p, q)| p != q).unwrap_or(0);
            let cut = |t: &str| {
                let k: String = t.bytes().skip(i.saturating_sub(30)).take(90).map(|b| b as char).collect();
                k
            };
            return Err(format!("{what}: the {} differs: …{:?}… and …{:?}…", x.0, cut(&x.1), cut(&y.1)));
        }
    }
    if a.len() != b.len() {
        return Err(format!("{what}: refused in one case, accepted in the other"));
    }
    Ok(())
}

fn pool(cx: &mut Ctx, i: u64) -> Verdict {
    type Table = Mutex<HashMap<u64, (String, std::thread::ThreadId)>>;
    static FIRST: OnceLock<Table> = OnceLock::new();
    let t = pool_text(i % POOL);
    let got = digest::line(&t);
    let me = std::thread::current().id();
    let mut f = FIRST.get_or_init(Default::default).lock().expect("harness: table");
    match f.get(&(i % POOL)) {
        None => {
            f.insert(i % POOL, (got, me));
            cx.saw("texts of the pool met for the first time");
            Ok(())
        }
        Some((want, who)) => {
            cx.interesting();
            cx.saw("texts of the pool met again");
            if *who != me {
                cx.saw("texts of the pool met again in another thread");
            }
            match digest::differ(want, &got) {
                None => Ok(()),
                Some(d) => Err(format!("the same text had another outcome earlier: {d}, for {:?}", clip(&t))),
            }
        }
    }
}

fn again(cx: &mut Ctx, t: &str, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let want = digest::pieces(t);
    for _ in 0..r.range(1, 6) {
        noise(&mut r, cx);
        if r.bool() {
            unlike("the same text, after other work", &want, &digest::pieces(t))?;
            cx.saw("texts met again after other work");
        }
    }
    if r.chance(1, 10) {
        let got = std::thread::scope(|s| s.spawn(|| digest::pieces(t)).join());
        unlike("the same text, in another thread", &want, &got.expect("harness: thread"))?;
        cx.saw("texts met again in a new thread");
    }
    // many times over: no counter runs up
    if r.chance(1, 50) {
        for _ in 0..300 {
            let _ = parse_sdp(t, false);
        }
        cx.saw("texts met three hundred times");
    }
    cx.interesting();
    unlike("the same text, once more", &want, &digest::pieces(t))
}

fn place(cx: &mut Ctx, t: &str, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let want = digest::pieces(t);
    cx.interesting();
    for _ in 0..3 {
        let before: String = (0..r.n(70)).map(|_| *r.pick(&['x', '\n', '0', ' ', 'a', ':', '\r'])).collect();
        let after = r.pick_s(&["", "\n", "\r\n", "0", "x", " ", ":", "a=sendrecv\r\n", "m=audio 9 RTP/AVP 0\r\n", "\0"]);
        let whole = format!("{before}{t}{after}");
        let part = &whole[before.len()..before.len() + t.len()];
        unlike("the same text, elsewhere in memory", &want, &digest::pieces(part))?;
        let b: Box<str> = t.into();
        unlike("the same text, at the end of its memory", &want, &digest::pieces(&b))?;
        cx.saw("texts elsewhere in memory");
        // untouched afterwards, as everybody but the compiler can see
        if part != t || *b != *t {
            return Err("the text was changed".into());
        }
    }
    Ok(())
}

fn intact(cx: &mut Ctx, t: &str, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let Ok(x) = parse_sdp(t, false) else {
        return Ok(());
    };
    cx.interesting();
    let want = look(&x);
    let tree = conv::session(&x);
    let mut copies = vec![];
    for _ in 0..r.range(2, 6) {
        match r.n(6) {
            0 => {
                let y = x.clone();
                unlike("a copy", &want, &look(&y))?;
                copies.push(y);
                cx.saw("copies compared");
            }
            1 => {
                let mut a = StatefulSdpAnonymizer::new();
                let y = x.masked_clone(&mut a);
                drop(y);
                cx.saw("values anonymized");
            }
            2 => {
                edit::query_session(&mut r, &x, &tree, &mut Ctx::default()).ok();
                for m in &x.media {
                    edit::query_media(&mut r, m, &conv::media(m), &mut Ctx::default()).ok();
                }
                cx.saw("values queried");
            }
            3 | 4 => {
                // a copy is edited, and its sections and attributes
                let mut y = x.clone();
                let mut v = tree.clone();
                for _ in 0..r.range(1, 5) {
                    let _ = edit::edit_session(&mut r, &mut y, &mut v, false, &mut Ctx::default());
                }
                for m in &mut y.media {
                    let mut v = conv::media(m);
                    let _ = edit::edit_media(&mut r, m, &mut v, false, &mut Ctx::default());
                }
                y.attribute.clear();
                y.bandwidth.push(SdpBandwidth::As(1));
                y.origin.username.push('x');
                y.warnings.clear();
                cx.saw("copies edited");
            }
            _ => {
                let _ = parse_sdp(&x.to_string(), false);
                cx.saw("values printed");
            }
        }
        unlike("a value that was only looked at", &want, &look(&x))?;
    }
    // the original goes, the copies stay
    drop(x);
    for y in &copies {
        unlike("a copy whose original is gone", &want, &look(y))?;
    }
    Ok(())
}

// ------------------------------------------------------- moving and sharing

struct Is<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    fn yes(&self) -> bool {
        false
    }
}
impl<T: ?Sized> No for &Is<T> {}
trait Yes {
    fn yes(&self) -> bool {
        true
    }
}
impl<T: ?Sized + Send + Sync> Yes for Is<T> {}

macro_rules! can_be_shared {
    ($t:ty) => {{
        #[allow(clippy::needless_borrow)]
        let yes = (&Is::<$t>(std::marker::PhantomData)).yes();
        yes
    }};
}

fn shared(cx: &mut Ctx, t: &str, seed: u64) -> Verdict {
    let Ok(x) = parse_sdp(t, false) else {
        return Ok(());
    };
    cx.interesting();
    let want = look(&x);
    let used = digest::used(&x);
    let pieces = digest::pieces(t);
    let n = 4;
    let start = Barrier::new(n);
    if !can_be_shared!(SdpSession) {
        return Err("SdpSession cannot be moved to or shared between threads".into());
    }
    let x = digest::Carry::new(x);
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (x, want, used, pieces, start) = (&x, &want, &used, &pieces, &start);
                let mut r = Rng::new(seed ^ (k as u64) << 40);
                s.spawn(move || {
                    start.wait();
                    let x = x.get();
                    for _ in 0..4 {
                        let v = match r.n(3) {
                            0 => unlike("a shared value", want, &look(x)),
                            1 => unlike("a text parsed in several threads", pieces, &digest::pieces(t)),
                            _ if digest::used(x) != *used => Err("a shared value is copied or anonymized differently".into()),
                            _ => Ok(()),
                        };
                        if let Err(m) = v {
                            return Some(m);
                        }
                        if r.bool() {
                            std::thread::yield_now();
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().expect("harness: thread")).collect()
    });
    cx.saw("values shared by four threads");
    match bad.into_iter().next() {
        None => Ok(()),
        Some(m) => Err(m),
    }
}

fn fresh(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let list = texts(&mut r, 150);
    let want: Vec<String> = list.iter().map(|t| digest::line(t)).collect();
    let env: &[(&str, &str)] = r.pick(&[
        &[] as &[(&str, &str)],
        &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo")],
        &[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("HOME", "/nonexistent")],
        &[("TMPDIR", "/nonexistent"), ("USER", "x"), ("SDP_STRICT", "1")],
    ]);
    let order = r.n(1_000_000).to_string();
    let (code, out, err) = run_probe("release-both", &list, "digest", &["off", &order], env);
    if code != Some(0) {
        return Err(format!("in a process of its own the probe ended with {code:?}: {}", clip(&err)));
    }
    for (i, (a, b)) in want.iter().zip(out.lines()).enumerate() {
        if let Some(d) = digest::differ(a, b) {
            return Err(format!("{d} in another process, for {:?}", clip(&list[i])));
        }
        cx.saw("texts met again in a new process");
    }
    cx.interesting();
    Ok(())
}

fn races(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let list = texts(&mut r, 60);
    let rounds = if cx.tier_thorough { "400" } else { "80" };
    let (code, out, err) = run_probe("tsan", &list, "threads", &["8", rounds, &r.n(1 << 30).to_string()], &[("TSAN_OPTIONS", "halt_on_error=0 exitcode=66")]);
    if err.contains("WARNING: ThreadSanitizer") {
        let k: Vec<&str> = err.lines().filter(|l| l.contains("ThreadSanitizer") || l.contains("    #0") || l.contains("    #1")).take(6).collect();
        return Err(format!("ThreadSanitizer: {}", k.join(" | ")));
    }
    if let Some(l) = out.lines().find(|l| l.starts_with("DIFFERS")) {
        return Err(format!("in many threads at once: {l}"));
    }
    if code != Some(0) {
        if out.contains("done") || err.contains("panicked") {
            return Err(format!("in many threads at once the probe ended with {code:?}: {}", clip(&err)));
        }
        // the sanitizer cannot start in this environment
        cx.saw("ThreadSanitizer could not run");
        return Ok(());
    }
    cx.saw("runs of eight threads under ThreadSanitizer");
    cx.interesting();
    Ok(())
}

/// Thorough tier: the same on Rust's undefined-behaviour interpreter, which
/// also looks for data races. Slow, so only some short texts.
fn miri(cx: &mut Ctx, seed: u64) -> Verdict {
    if !cx.tier_thorough {
        return Ok(());
    }
    let mut r = Rng::new(seed);
    let mut list = texts(&mut r, 200);
    list.retain(|t| t.len() < 500);
    list.truncate(8);
    let f = root().join(format!("work/miri-{}-{seed}", std::process::id()));
    std::fs::write(&f, serde_json::to_string(&list).expect("harness: texts")).expect("harness: texts");
    let mut c = std::process::Command::new("cargo");
    unlimited_memory(&mut c);
    let out = c
        .current_dir(root().join("probe"))
        .args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--features", "enhanced_debug,serialize", "--target-dir"])
        .arg(root().join(format!("target/probe/build-miri-{seed}")))
        .args(["--", "threads"])
        .arg(&f)
        .args(["3", "6", &seed.to_string()])
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .stdin(std::process::Stdio::null())
        .output()
        .expect("harness: miri");
    let _ = std::fs::remove_file(&f);
    let (o, e) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if e.contains("Undefined Behavior") || o.contains("DIFFERS") {
        let k: Vec<&str> = e.lines().chain(o.lines()).filter(|l| l.contains("Undefined") || l.contains("-->") || l.contains("DIFFERS")).take(5).collect();
        return Err(format!("under Miri: {}", k.join(" | ")));
    }
    if out.status.success() && o.contains("done") {
        cx.saw("runs of three threads under Miri");
        cx.interesting();
    } else {
        cx.saw("Miri could not run");
    }
    Ok(())
}

// -------------------------------------------------- types moved and shared

fn types(cx: &mut Ctx) -> Verdict {
    macro_rules! each {
        ($($t:ty),* $(,)?) => {
            $(
                cx.saw("types that can be moved and shared");
                if !can_be_shared!($t) {
                    return Err(format!("{} cannot be moved to or shared between threads", stringify!($t)));
                }
            )*
        };
    }
    each!(
        SdpSession, SdpMedia, SdpMediaLine, SdpAttribute, SdpAttributeType, SdpLine, SdpType, SdpOrigin,
        SdpConnection, SdpTiming, SdpBandwidth, SdpParserError, SdpParserInternalError, Address, AddressType,
        ExplicitlyTypedAddress, StatefulSdpAnonymizer, SdpMediaValue, SdpProtocolValue, SdpFormatList,
        SdpAttributeCandidate, SdpAttributeRemoteCandidate, SdpAttributeSimulcast, SdpAttributeRtcp,
        SdpAttributeRtcpFb, SdpAttributeExtmap, SdpAttributeFmtp, SdpAttributeFmtpParameters,
        SdpAttributeFingerprint, SdpAttributeImageAttr, SdpAttributeSctpmap, SdpAttributeGroup,
        SdpAttributeMsid, SdpAttributeMsidSemantic, SdpAttributeRid, SdpAttributeRtpmap, SdpAttributeSetup,
        SdpAttributeSsrc, SdpAttributeDtlsMessage, SdpAttributeDirection,
    );
    let _: Option<V> = None;
    // (the trick can tell)
    if can_be_shared!(std::rc::Rc<u8>) {
        panic!("harness: Rc is said to be shareable");
    }
    cx.interesting();
    Ok(())
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "pool" => pool(cx, c.seed),
        "again" => again(cx, &c.text[0], c.seed),
        "place" => place(cx, &c.text[0], c.seed),
        "intact" => intact(cx, &c.text[0], c.seed),
        "shared" => shared(cx, &c.text[0], c.seed),
        "fresh" => fresh(cx, c.seed),
        "races" => races(cx, c.seed),
        "miri" => miri(cx, c.seed),
        _ => types(cx),
    }
}
fn fixed() -> Vec<Case> {
    let mut v = vec![Case::seeded("types", 0)];
    v.extend((0..3).map(|i| Case::seeded("miri", i)));
    v.extend((0..16).map(|i| Case::seeded("races", i)));
    v.extend((0..40).map(|i| Case::seeded("fresh", i)));
    v.extend(sweep(false).iter().step_by(4).map(|t| Case::one("again", t)));
    v.extend(little().iter().map(|t| Case::one("again", t)));
    v.extend(crowds(&[36]).iter().flat_map(|t| [Case::one("again", t), Case::one("intact", t)]));
    v
}
fn gen_case(r: &mut Rng) -> Case {
    let seed = r.u64();
    let text = |r: &mut Rng| {
        if r.chance(1, 3) {
            gen::any_attr(r);
        }
        let n = few(r);
        odd_text(r, n)
    };
    match r.n(1000) {
        0 => Case::seeded("fresh", seed),
        1 if seed % 4 == 0 => Case::seeded("races", seed),
        1 => Case::seeded("pool", seed % POOL),
        2..=399 => Case::seeded("pool", seed % POOL),
        400..=549 => Case { seed, ..Case::one("again", &text(r)) },
        550..=699 => Case { seed, ..Case::one("place", &text(r)) },
        700..=919 => Case { seed, ..Case::one("intact", &text(r)) },
        _ => Case { seed, ..Case::one("shared", &text(r)) },
    }
}

pub fn defs() -> Vec<Def> {
    let _ = hash_str;
    vec![Def {
        id: "C22",
        rule: "texts of a pool met again in all threads; texts before and after other work, elsewhere in memory, in new threads and processes; sessions looked at, copied, edited as copies, shared by threads; probe runs of eight threads under ThreadSanitizer; what is observable must stay the same; non-trivial: met again or looked at",
        assumptions: &["interleavings are those the scheduler happens to produce on 8 cores"],
        fixed,
        gen: gen_case,
        eval,
        quick: 500_000,
        floors: &[
            ("texts of the pool met again", 5_000),
            ("texts of the pool met again in another thread", 2_000),
            ("texts met again after other work", 2_000),
            ("texts elsewhere in memory", 2_000),
            ("texts met again in a new process", 2_000),
            ("values shared by four threads", 1_000),
            ("copies compared", 1_000),
            ("copies edited", 1_000),
        ],
        log: log::LevelFilter::Trace,
        threads: THREADS,
    }]
}
