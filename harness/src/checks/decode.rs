//! C04 to C08: lines and attributes decode to exactly what they say.
//!
//! "truth":   a random value is written down by our own writer, in one of its
//!            spellings, and must be decoded to exactly that value
//! "session": the same inside a session
//! "line":    any line, mostly a damaged one, must be judged and decoded as our
//!            own reader does
use super::common::*;
use crate::gen;
use crate::kinds::KINDS;
use crate::mutate;
use crate::refparse::{self, E};
use crate::render::{Style, Writer};
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, V};

const STYLE: Style = Style {
    spelling: true,
    order: true,
};

fn tags(p: u8) -> Vec<&'static str> {
    let id = format!("C{p:02}");
    KINDS
        .iter()
        .filter(|k| k.prop == id)
        .map(|k| k.tag)
        .collect()
}

/// A random line value that the property is about.
fn value(p: u8, r: &mut Rng) -> V {
    match p {
        4 => match r.n(12) {
            0 => new("Version", V::U(0)),
            1 | 2 => {
                let n = gen::session_name(r);
                new(
                    "Session",
                    if n.is_null() {
                        V::S(String::new())
                    } else {
                        n
                    },
                )
            }
            3 | 4 => new("Timing", gen::timing(r)),
            5 | 6 => new("Bandwidth", gen::bandwidth(r)),
            7..=9 => new("Connection", gen::connection(r)),
            _ => new("Origin", gen::origin(r)),
        },
        5 => new("Media", gen::media_line(r)),
        _ => {
            let t = tags(p);
            // flags have little to say
            let t: Vec<_> = if r.chance(9, 10) {
                t.into_iter()
                    .filter(|t| !crate::kinds::kind(t).flag)
                    .collect()
            } else {
                t
            };
            let tag = *r.pick(&t);
            new("Attribute", gen::attr(r, tag))
        }
    }
}
fn write(r: &mut Rng, style: Style, v: &V) -> String {
    let mut w = Writer { r, style };
    let i = v.inner();
    match v.tag() {
        "Version" => w.emit(&[
            crate::render::P::E,
            crate::render::P::K("v".into()),
            crate::render::P::T("=".into()),
            crate::render::P::E,
            crate::render::P::T("0".into()),
            crate::render::P::E,
        ]),
        "Session" => w.name_line(i),
        "Timing" => w.timing_line(i),
        "Bandwidth" => w.bandwidth_line(i),
        "Connection" => w.connection_line(i),
        "Origin" => w.origin_line(i),
        "Media" => w.media_line(i),
        _ => w.attr_line(i),
    }
}

fn truth(p: u8, seed: u64) -> (V, String) {
    let mut r = Rng::new(seed);
    let v = value(p, &mut r);
    let style = if r.chance(1, 3) {
        Style::default()
    } else {
        STYLE
    };
    let t = write(&mut r, style, &v);
    (v, t)
}

fn session(p: u8, seed: u64) -> (V, String) {
    let mut r = Rng::new(seed);
    let mut x = gen::session(&mut r, gen::SMALL);
    let t = tags(p);
    let only = |r: &mut Rng, session: bool| -> V {
        let can: Vec<&str> = t
            .iter()
            .filter(|t| {
                let k = crate::kinds::kind(t);
                if session {
                    k.session
                } else {
                    k.media
                }
            })
            .copied()
            .collect();
        if can.is_empty() {
            return V::L(vec![]);
        }
        let n = r.n(6);
        V::L((0..n)
            .map(|_| {
                let t = *r.pick(&can);
                gen::attr(r, t)
            })
            .collect())
    };
    let mut a = only(&mut r, true);
    let media_ext = r.bool();
    if media_ext {
        a.list_mut().retain(|a| a.tag() != "Extmap");
    }
    let ext = !crate::reftext::has(&a, "Extmap");
    x.set("attribute", a);
    for m in x.get_mut("media").list_mut() {
        let mut a = only(&mut r, false);
        let mut l = m.get("media").clone();
        gen::settle(&mut r, &mut l, a.list_mut(), ext);
        m.set("attribute", a);
    }
    let mut w = Writer {
        r: &mut r,
        style: STYLE,
    };
    let lines = w.session_lines(&x);
    let text = w.join(&lines);
    (x, text)
}

/// Only what the property is about.
fn project(p: u8, x: &V) -> V {
    let mut x = x.clone();
    let t = tags(p);
    let keep = |l: &mut V| l.list_mut().retain(|a| t.contains(&a.tag()));
    keep(x.get_mut("attribute"));
    for m in x.get_mut("media").list_mut() {
        keep(m.get_mut("attribute"));
    }
    if p != 4 {
        for f in ["version", "origin", "session", "connection", "bandwidth", "timing"] {
            x.set(f, V::Null);
        }
    }
    for m in x.get_mut("media").list_mut() {
        if p != 4 {
            m.set("connection", V::Null);
            m.set("bandwidth", V::Null);
        }
        if p != 5 {
            m.set("media", V::Null);
        }
    }
    x
}

/// The parts of several lines of one type, any of them, any number of times.
fn remixed(p: u8, r: &mut Rng) -> String {
    let (v, _) = truth(p, r.u64());
    let t = write(r, Style::default(), &v);
    let head = |t: &str| match p {
        4 | 5 => 2,
        _ => t.find(':').map_or(t.len(), |i| i + 1),
    };
    let h = t[..head(&t)].to_string();
    let mut lines = vec![t];
    for _ in 0..40 {
        let x = if p <= 5 || lines.len() > 3 { truth(p, r.u64()).0 } else { new("Attribute", gen::attr(r, v.inner().tag())) };
        let t = write(r, Style::default(), &x);
        if t.starts_with(&h) {
            lines.push(t);
        }
        if lines.len() > 4 {
            break;
        }
    }
    // the first word may have to stay
    let sep = *r.pick(&[';', ';', ',', ' ', ' ', '/', ':', '=']);
    let (keep, rest) = {
        let v = &lines[0][h.len()..];
        match v.find(' ') {
            Some(i) if r.chance(3, 4) => (v[..=i].to_string(), v[i + 1..].to_string()),
            _ => (String::new(), v.to_string()),
        }
    };
    let mut pool: Vec<String> = rest.split(sep).map(str::to_string).collect();
    for l in &lines[1..] {
        let v = &l[head(l)..];
        let v = if keep.is_empty() { v } else { v.split_once(' ').map_or(v, |x| x.1) };
        pool.extend(v.split(sep).map(str::to_string));
    }
    pool.truncate(40);
    let n = r.range(1, 7);
    let parts: Vec<String> = (0..n).map(|_| r.pick(&pool).clone()).collect();
    format!("{h}{keep}{}", parts.join(&sep.to_string()))
}

fn case<const P: u8>(r: &mut Rng) -> Case {
    match r.n(18) {
        16 | 17 => Case::new("line", vec![remixed(P, r)]),
        0..=5 => Case::seeded("truth", r.u64()),
        6 => Case::seeded("session", r.u64()),
        7 => {
            // words thrown together behind the right name
            let (v, _) = truth(P, r.u64());
            let t = write(r, Style::default(), &v);
            let head = match P {
                4 | 5 => t[..2].to_string(),
                _ => match t.find(':') {
                    Some(i) => t[..=i].to_string(),
                    None => t,
                },
            };
            Case::new("line", vec![format!("{head}{}", mutate::soup(r))])
        }
        _ => {
            let (v, _) = truth(P, r.u64());
            let style = if r.bool() { Style::default() } else { STYLE };
            let t = write(r, style, &v);
            let at = match P {
                4 | 5 => t.find('=').map_or(0, |i| i + 1),
                _ => t.find(':').map_or(2, |i| i + 1),
            };
            // mostly the value, sometimes the whole line
            let t = if r.chance(1, 12) {
                mutate::some(r, &t)
            } else {
                format!("{}{}", &t[..at], mutate::some(r, &t[at..]))
            };
            Case::new("line", vec![t])
        }
    }
}

/// Is the line one that the property is about?
fn mine(p: u8, line: &str) -> bool {
    let Some(eq) = line.find('=') else {
        return false;
    };
    let ty = line[..eq].trim().to_ascii_lowercase();
    match p {
        4 => ["v", "o", "s", "t", "c", "b"].contains(&ty.as_str()),
        5 => ty == "m",
        _ => {
            if ty != "a" {
                return false;
            }
            let v = line[eq + 1..].trim();
            let name = v.split(':').next().unwrap_or("").to_lowercase();
            crate::kinds::by_wire(&name).is_some_and(|k| k.prop == format!("C{p:02}"))
        }
    }
}

fn norm_session(v: &mut V) {
    // the untrimmed name is only visible on the single line
    if v.tag() == "Session" {
        let t = v.inner().str().trim().to_string();
        *v.inner_mut() = V::S(t);
    }
}

fn eval<const P: u8>(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "truth" => {
            let (want, text) = truth(P, c.seed);
            let mut reference = refparse::line(&text);
            if let Ok(v) = &mut reference {
                norm_session(v);
            }
            if reference.as_ref() != Ok(&want) {
                panic!("harness: reader and writer disagree on {text:?}: {want:?} {reference:?}");
            }
            let mut got = impl_line(&text);
            if let Ok(v) = &mut got {
                norm_session(v);
            }
            cx.saw("lines written from a value");
            cx.interesting();
            match got {
                Ok(v) => same(&format!("{text:?} decodes wrongly (decoded versus written)"), &v, &want),
                e => Err(format!("{text:?} must be accepted, but is {}", say(&e))),
            }
        }
        "session" => {
            let (want, text) = session(P, c.seed);
            cx.saw("sessions written from a value");
            cx.interesting();
            match parse(&text) {
                Err(e) => Err(format!("valid session refused: {e} in {text:?}")),
                Ok(x) => same(
                    &format!("session decodes wrongly (decoded versus written): {:?}", clip(&text)),
                    &project(P, &crate::conv::session(&x)),
                    &project(P, &want),
                ),
            }
        }
        _ => {
            let text = &c.text[0];
            if text.contains(['\n', '\r']) || !plain(text) || !mine(P, text) {
                cx.saw("lines of another type, skipped");
                return Ok(());
            }
            let mut want = refparse::line(text);
            let mut got = impl_line(text);
            if let Ok(v) = &mut want {
                norm_session(v);
            }
            if let Ok(v) = &mut got {
                norm_session(v);
            }
            cx.saw(match &want {
                Ok(_) => "damaged lines that are still valid",
                Err(E::Bad) => "malformed lines",
                Err(_) => "unsupported lines",
            });
            cx.interesting();
            match (&got, &want) {
                (Ok(g), Ok(w)) => same(&format!("{text:?} decodes wrongly (decoded versus written)"), g, w),
                (Err(_), Err(E::Either)) => Ok(()),
                // the kind of refusal matters for m= lines only
                (Err(g), Err(w)) if P != 5 || g == w => Ok(()),
                _ => Err(format!("{text:?} is {}, but must be {}", say(&got), say(&want))),
            }
        }
    }
}

fn fixed<const P: u8>() -> Vec<Case> {
    let mut v = vec![];
    // every line of the corpus, as it is
    for t in crate::corpus::all() {
        for l in t.lines() {
            if mine(P, l) {
                v.push(Case::one("line", l));
            }
        }
    }
    // every number of the pool at every numeric place of every kind, every
    // word missing, every word twice, every prefix
    let mut r = Rng::new(P.into());
    let mut shapes: Vec<V> = vec![];
    if P <= 5 {
        for _ in 0..40 {
            shapes.push(value(P, &mut r));
        }
    } else {
        for t in tags(P) {
            let n = if crate::kinds::kind(t).flag { 1 } else { 8 };
            for _ in 0..n {
                shapes.push(new("Attribute", gen::attr(&mut r, t)));
            }
        }
    }
    // odd characters at every place
    let odd: Vec<char> = (1..128u8).map(char::from).filter(|c| !c.is_ascii_alphanumeric() || "09aZ".contains(*c)).collect();
    let mut seen: Vec<&str> = vec![];
    for x in &shapes {
        let tag = if P <= 5 { x.tag() } else { x.inner().tag() };
        if seen.iter().filter(|t| **t == tag).count() >= if P <= 5 { 4 } else { 1 } {
            continue;
        }
        seen.push(tag);
        let t = write(&mut r, Style::default(), x);
        for (i, c) in t.char_indices().take(150) {
            for o in &odd {
                v.push(Case::one("line", &format!("{}{o}{}", &t[..i], &t[i..])));
                v.push(Case::one("line", &format!("{}{o}{}", &t[..i], &t[i + c.len_utf8()..])));
            }
        }
        for o in &odd {
            v.push(Case::one("line", &format!("{t}{o}")));
        }
    }
    for x in shapes {
        let t = write(&mut r, Style::default(), &x);
        let words: Vec<&str> = t.split(' ').collect();
        for i in 0..words.len() {
            let mut w = words.clone();
            w.remove(i);
            v.push(Case::one("line", &w.join(" ")));
            let mut w = words.clone();
            w.insert(i, words[i]);
            v.push(Case::one("line", &w.join(" ")));
            v.push(Case::one("line", &words[..i].join(" ")));
            if words[i].parse::<u64>().is_ok() {
                for n in mutate::NUMS {
                    let mut w = words.clone();
                    w[i] = n;
                    v.push(Case::one("line", &w.join(" ")));
                }
            }
        }
        for (i, _) in t.char_indices().take(400) {
            v.push(Case::one("line", &t[..i]));
        }
    }
    v.extend(numbered(6).iter().filter(|l| mine(P, l)).map(|l| Case::one("line", l)));
    // lines with very many parts
    let mut seen = std::collections::BTreeSet::new();
    for f in super::cost::list() {
        for n in [300, 1_100, 5_000, 70_000] {
            if n > 5_000 && f.unit.len() > 8 {
                continue;
            }
            for l in f.text(n).lines() {
                if l.len() > 1_000 && mine(P, l) && seen.insert(l.to_string()) {
                    v.push(Case::one("line", l));
                }
            }
        }
    }
    // the complete set of media payload types
    if P == 5 {
        for n in 0..300 {
            v.push(Case::one("line", &format!("m=audio 9 RTP/AVP {n}")));
            v.push(Case::one("line", &format!("m=video 9 RTP/AVP 0 {n} 3")));
            v.push(Case::one("line", &format!("m=application 9 UDP/DTLS/SCTP {n}")));
        }
    }
    v
}

macro_rules! def {
    ($p:literal, $id:literal, $quick:expr) => {
        Def {
            id: $id,
            rule: "cases are lines: values written in random spellings by our own writer (truth), the same inside sessions (session), and valid lines damaged by one or more edits, truncations, range edges and word soups (line); non-trivial: a line of a type this property is about that reached the comparison of verdict and decoded value with the independent reader",
            assumptions: &["the independent reader and writer in refparse.rs and render.rs state the supported grammar", "url::Host::parse and std's IpAddr parser read addresses"],
            fixed: fixed::<$p>,
            gen: case::<$p>,
            eval: eval::<$p>,
            quick: $quick,
            floors: &[("lines written from a value", 50_000), ("malformed lines", 20_000), ("sessions written from a value", 5_000)],
            log: log::LevelFilter::Off,
            threads: THREADS,
        }
    };
}
pub fn defs() -> Vec<Def> {
    vec![
        def!(4, "C04", 4_000_000),
        def!(5, "C05", 4_000_000),
        def!(6, "C06", 3_000_000),
        def!(7, "C07", 2_500_000),
        def!(8, "C08", 3_000_000),
    ]
}
