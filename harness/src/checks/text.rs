//! Properties of whole texts: C03 (printing and parsing), C10 (placement),
//! C11 (levels), C12 (rules that concern several lines), C13 (warnings and
//! strictness), C14 (diagnostics), C15 (spelling), C25 (entry points).
use super::common::*;
use crate::conv;
use crate::gen;
use crate::kinds::{kind, KINDS};
use crate::logcap;
use crate::mutate;
use crate::refparse::{self, E};
use crate::reftext::{self, Expect, Look};
use crate::render::{Style, Writer};
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, V};
use std::collections::BTreeSet;
use std::error::Error;
use std::str::FromStr;
use webrtc_sdp::attribute_type::{parse_attribute, SdpAttribute};
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::{parse_media, parse_media_vector, SdpMedia};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpLine, SdpSession, SdpType};

const SPELLED: Style = Style {
    spelling: true,
    order: true,
};
const ORDERED: Style = Style {
    spelling: false,
    order: true,
};

fn corpus_cases(mode: &'static str) -> Vec<Case> {
    crate::corpus::all()
        .iter()
        .map(|t| Case::one(mode, t))
        .collect()
}
fn sweep_cases(mode: &'static str) -> Vec<Case> {
    sweep(false).iter().chain(&little()).chain(&crowds(&[36, 140, 300])).chain(&huge()).chain(&numbered(2).iter().map(|l| within(l)).collect::<Vec<_>>()).map(|t| Case::one(mode, t)).collect()
}

// ------------------------------------------------------------------ C03

/// What printing may normalize.
pub fn normal(x: &V) -> V {
    fn list(l: &mut V) {
        let d = refparse::fmtp_defaults();
        let l = l.list_mut();
        l.retain(|a| a.tag() != "Fmtp" || *a.inner().get("parameters") != d);
        for a in l {
            if a.tag() == "MsidSemantic" && a.inner().get("msids").list().is_empty() {
                a.inner_mut()
                    .set("msids", V::L(vec![crate::val::s("*")]));
            }
        }
    }
    let mut x = x.clone();
    list(x.get_mut("attribute"));
    for m in x.get_mut("media").list_mut() {
        list(m.get_mut("attribute"));
    }
    x
}

fn attr_roundtrip(a: &SdpAttribute, cx: &mut Ctx) -> Verdict {
    let v = conv::attr(a);
    if v.tag() == "Fmtp" && *v.inner().get("parameters") == refparse::fmtp_defaults() {
        cx.saw("default-only fmtp, left out");
        return Ok(());
    }
    let t = a.to_string();
    let mut want = v.clone();
    if v.tag() == "MsidSemantic" && v.inner().get("msids").list().is_empty() {
        want.inner_mut()
            .set("msids", V::L(vec![crate::val::s("*")]));
    }
    cx.saw("attributes printed and parsed");
    match SdpAttribute::from_str(&t) {
        Err(e) => Err(format!(
            "attribute {v:?} prints as {t:?}, which is refused: {e}"
        )),
        Ok(b) => {
            same(
                &format!("attribute printed as {t:?} parses differently (after versus before)"),
                &conv::attr(&b),
                &want,
            )?;
            let t2 = b.to_string();
            if t2 != t {
                return Err(format!("attribute prints as {t:?} and then as {t2:?}"));
            }
            Ok(())
        }
    }
}

fn c03_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let text = &c.text[0];
    if c.mode == "attr" {
        if let Ok(a) = SdpAttribute::from_str(text) {
            cx.interesting();
            return attr_roundtrip(&a, cx);
        }
        cx.saw("attributes refused");
        return Ok(());
    }
    let Ok(x) = parse(text) else {
        cx.saw("texts refused");
        return Ok(());
    };
    cx.interesting();
    cx.saw("texts accepted");
    let before = conv::session(&x);
    let printed = x.to_string();
    let y = match parse_sdp(&printed, true) {
        Ok(y) => y,
        Err(e) => {
            return Err(format!(
                "accepted text prints as {:?}, which is refused: {e}; the text was {:?}",
                clip(&printed),
                clip(text)
            ))
        }
    };
    same(
        &format!(
            "printing and parsing changes the content (after versus before) of {:?} printed as {:?}",
            clip(text),
            clip(&printed)
        ),
        &normal(&conv::session(&y)),
        &normal(&before),
    )?;
    let again = y.to_string();
    if again != printed {
        return Err(format!(
            "printed form is not stable: {:?} and then {:?}",
            clip(&printed),
            clip(&again)
        ));
    }
    let mut sections = String::new();
    for m in &x.media {
        sections.push_str(&m.to_string());
    }
    if !printed.ends_with(&sections) {
        return Err(format!("the printed session does not end with its printed sections: {:?}", clip(&printed)));
    }
    for a in x
        .attribute
        .iter()
        .chain(x.media.iter().flat_map(|m| m.get_attributes()))
    {
        attr_roundtrip(a, cx)?;
    }
    Ok(())
}
fn c03_gen(r: &mut Rng) -> Case {
    match r.n(8) {
        0..=3 => {
            let t = if r.bool() {
                let a = gen::any_attr(r);
                let mut w = Writer { r, style: SPELLED };
                w.attr_text(&a)
            } else {
                let a = gen::any_attr(r);
                let t = Writer { r, style: ORDERED }.attr_text(&a);
                let at = t.find(':').map_or(0, |x| x + 1);
                if r.chance(1, 6) {
                    format!("{}{}", &t[..at], mutate::soup(r))
                } else {
                    format!("{}{}", &t[..at], mutate::some(r, &t[at..]))
                }
            };
            Case::new("attr", vec![t])
        }
        _ => {
            let ops = if r.bool() { 0 } else { few(r) };
            Case::new("text", vec![odd_text(r, ops)])
        }
    }
}
fn c03_fixed() -> Vec<Case> {
    let mut v = corpus_cases("text");
    v.extend(sweep_cases("text"));
    let mut r = Rng::new(3);
    for k in KINDS {
        for _ in 0..20 {
            let a = gen::attr(&mut r, k.tag);
            v.push(Case::new("attr", vec![crate::render::attr_text(&a)]));
        }
    }
    for t in [
        "msid-semantic:WMS",
        "msid-semantic:WMS *",
        "rtcp-fb:96 nack",
        "rtcp-fb:* nack  ",
        "fmtp:96 apt=97;rtx-time=0",
        "fmtp:96 a;b;c",
        "fmtp:96 profile-level-id=0",
        "candidate:0 1 UDP 1 a 1 typ host foo bar generation 0 x y",
        "rid:a send pt=1;x=",
        "simulcast:send a,~b;c recv ~d",
        "group:BUNDLE",
        "extmap:1/sendonly u a b",
        "imageattr:* send * recv [x=1,y=2]",
    ] {
        v.push(Case::one("attr", t));
    }
    v
}

// ------------------------------------------------------------------ C10

#[derive(Default)]
struct Marked {
    lines: Vec<String>,
    warnings: usize,
}

/// Truth with all the lines that leave no value mixed in.
fn c10_truth(seed: u64) -> (V, Marked, Vec<usize>, Vec<String>) {
    let mut r = Rng::new(seed);
    let (x, lines) = truth_lines(
        &mut r,
        gen::Size {
            sections: 5,
            attrs: 6,
        },
        ORDERED,
    );
    let mut m = Marked::default();
    let mut below = false;
    let mut starts = vec![];
    let total = lines.len();
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with("m=") {
            // nothing of a section follows an unsupported m= line directly
            // above the next one
            if r.chance(1, 12) {
                m.lines.push(skippable_media(&mut r));
                m.warnings += 1;
            }
            below = true;
            starts.push(m.lines.len());
        }
        while r.chance(1, 8) {
            // may not come between an unsupported m= line and the next m=
            if l.starts_with("m=") && r.bool() {
                break;
            }
            match r.n(3) {
                0 => m.lines.push(r.pick_s(&["", " ", "\t"])),
                1 if below && !l.starts_with("m=") => {
                    m.lines.push("a=dtls-message:client abc".into());
                }
                2 => {
                    m.lines.push(skippable(&mut r));
                    m.warnings += 1;
                }
                _ => (),
            }
        }
        if let (true, Some(s)) = (l.starts_with("m="), starts.last_mut()) {
            *s = m.lines.len();
        }
        m.lines.push(l.clone());
        if i + 1 == total && r.chance(1, 10) {
            m.lines.push(skippable_media(&mut r));
            m.warnings += 1;
        }
    }
    (x, m, starts, lines)
}

/// values a parsed session holds
fn values(x: &V) -> usize {
    let mut n = 3;
    n += usize::from(!x.get("timing").is_null());
    n += usize::from(!x.get("connection").is_null());
    n += x.get("bandwidth").list().len() + x.get("attribute").list().len();
    for m in x.get("media").list() {
        n += 1 + usize::from(!m.get("connection").is_null());
        n += m.get("bandwidth").list().len() + m.get("attribute").list().len();
    }
    n
}

fn c10_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "truth" => {
            let (want, m, starts, _) = c10_truth(c.seed);
            let text = join(&m.lines);
            let x = parse(&text)
                .map_err(|e| format!("valid session refused: {e}, for {:?}", clip(&text)))?;
            cx.saw("sessions with known placement");
            cx.interesting();
            let got = conv::session(&x);
            same(
                &format!("lines land in the wrong place (parsed versus written), for {:?}", clip(&text)),
                &got,
                &want,
            )?;
            if x.warnings.len() != m.warnings {
                return Err(format!(
                    "{} warnings instead of {}, for {:?}",
                    x.warnings.len(),
                    m.warnings,
                    clip(&text)
                ));
            }
            // every section on its own
            let head = starts.first().copied().unwrap_or(m.lines.len());
            for (i, s) in starts.iter().enumerate() {
                let e = starts.get(i + 1).copied().unwrap_or(m.lines.len());
                let mut l: Vec<String> = m.lines[..head].to_vec();
                l.extend_from_slice(&m.lines[*s..e]);
                let t = join(&l);
                let y = parse(&t).map_err(|e| {
                    format!("section {i} is refused without the others: {e}, for {:?}", clip(&t))
                })?;
                cx.saw("sections parsed without the others");
                let y = conv::session(&y);
                if y.get("media").list().len() != 1 {
                    return Err(format!("one m= line makes several sections, for {:?}", clip(&t)));
                }
                same(
                    &format!("section {i} decodes differently without the others (alone versus among them), for {:?}", clip(&text)),
                    &y.get("media").list()[0],
                    &got.get("media").list()[i],
                )?;
            }
            Ok(())
        }
        _ => {
            let text = &c.text[0];
            let Ok(x) = parse(text) else {
                cx.saw("texts refused");
                return Ok(());
            };
            cx.saw("texts accepted");
            cx.interesting();
            // the parser's own reading of each line, placed by us
            let warned: BTreeSet<usize> = x.warnings.iter().map(number_of).collect();
            let mut items: Vec<(usize, V)> = vec![];
            let mut left = 0usize;
            let mut below = false;
            let mut times = 0usize;
            let mut conns = 0usize;
            // m= lines the parser skips still open a section in the text
            let mut skipped_media = false;
            let mut misplaced = None;
            for l in reftext::lines(text) {
                let ty = l.text.trim_start().chars().next().unwrap_or(' ');
                if warned.contains(&l.no) {
                    if ty.eq_ignore_ascii_case(&'m') {
                        skipped_media = true;
                    }
                    continue;
                }
                let Ok(v) = impl_line(&l.text) else {
                    return Err(format!("line {} is refused on its own but vanishes without a warning, in {:?}", l.no, clip(text)));
                };
                if v.tag() == "Media" {
                    below = true;
                    skipped_media = false;
                } else if skipped_media {
                    misplaced.get_or_insert((l.no, l.text.clone()));
                }
                if below && v.tag() == "Attribute" && v.inner().tag() == "DtlsMessage" {
                    left += 1;
                }
                if !below && v.tag() == "Timing" {
                    times += 1;
                }
                if !below && v.tag() == "Connection" {
                    conns += 1;
                }
                items.push((l.no, v));
            }
            left += times.saturating_sub(1) + conns.saturating_sub(1);
            let got = conv::session(&x);
            if c.mode == "known" {
                if let Some((no, t)) = misplaced {
                    return Err(format!("line {no} {t:?} stands below an unsupported m= line but is attributed to the section above it"));
                }
            }
            if values(&got) + left != items.len() {
                return Err(format!(
                    "{} values from {} accepted lines of which {left} leave none, for {:?}",
                    values(&got),
                    items.len(),
                    clip(text)
                ));
            }
            same(
                &format!("lines land in the wrong place (parsed versus expected), for {:?}", clip(text)),
                &got,
                &reftext::assemble(&items).session,
            )
        }
    }
}
fn c10_gen(r: &mut Rng) -> Case {
    if r.chance(3, 5) {
        Case::seeded("truth", r.u64())
    } else {
        let ops = few(r);
        Case::new("text", vec![odd_text(r, ops)])
    }
}
fn c10_fixed() -> Vec<Case> {
    let mut v = corpus_cases("text");
    v.extend(sweep_cases("text"));
    for t in known_texts("C10") {
        v.push(Case::one("known", &t));
    }
    v
}

// ------------------------------------------------------------------ C11

const HEAD: &[&str] = &["v=0", "o=- 0 0 IN IP4 a", "s=-", "t=0 0", "c=IN IP4 a"];

/// A section that obeys every rule once it holds the attribute too.
fn c11_section(r: &mut Rng, a: &V) -> (V, Vec<V>) {
    let mut line = gen::media_line(r);
    let mut attrs: Vec<V> = vec![];
    let n = r.n(3);
    for _ in 0..n {
        let x = gen::media_attr(r);
        if !["Extmap", "Rid", "Simulcast", "RtcpMuxOnly"].contains(&x.tag()) {
            attrs.push(x);
        }
    }
    let at = r.n(attrs.len() + 1);
    attrs.insert(at, a.clone());
    gen::settle(r, &mut line, &mut attrs, true);
    (line, attrs)
}

fn c11_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let tag = KINDS[c.text[0].parse::<usize>().unwrap_or(0)].tag;
    let k = kind(tag);
    let a = gen::attr(&mut r, tag);
    let text = crate::render::attr_text(&a);
    cx.saw("attributes put everywhere");
    cx.interesting();
    let imp = SdpAttribute::from_str(&text).map_err(|e| format!("valid attribute {text:?} refused: {e}"))?;
    let built = conv::to_attr(&a);
    for (what, x) in [("parsed", &imp), ("built", &built)] {
        if x.allowed_at_session_level() != k.session {
            return Err(format!("{what} {text:?}: said to be {}allowed for sessions", if k.session { "not " } else { "" }));
        }
        if x.allowed_at_media_level() != k.media {
            return Err(format!("{what} {text:?}: said to be {}allowed for media", if k.media { "not " } else { "" }));
        }
    }
    // parsing, at session level
    let size = gen::Size { sections: 2, attrs: 3 };
    let mut base = gen::session(&mut r, size);
    for l in base.get_mut("media").list_mut() {
        l.get_mut("attribute").list_mut().retain(|a| a.tag() != "Extmap");
    }
    let n = base.get("attribute").list().len();
    let at = r.n(n + 1);
    let mut with = base.clone();
    with.get_mut("attribute").list_mut().insert(at, a.clone());
    let t = crate::render::text(&with);
    let got = parse(&t);
    match (&got, k.session) {
        (Ok(x), true) => same(
            &format!("session-level {text:?} lands wrongly (parsed versus written)"),
            &conv::session(x),
            &with,
        )?,
        (Ok(_), false) => return Err(format!("{text:?} is accepted at session level, in {:?}", clip(&t))),
        (Err(e), true) => return Err(format!("{text:?} is refused at session level: {e}, in {:?}", clip(&t))),
        (Err(SdpParserError::Sequence { .. }), false) => (),
        (Err(e), false) => return Err(format!("{text:?} at session level is no sequence error but {e}")),
    }
    // parsing, at media level
    let mut lines: Vec<String> = HEAD.iter().map(|x| (*x).to_string()).collect();
    let mut want = vec![];
    let sections = r.range(1, 3);
    let which = r.n(sections);
    for i in 0..sections {
        let line;
        let attrs;
        if i == which {
            (line, attrs) = c11_section(&mut r, &a);
        } else {
            line = gen::media_line(&mut r);
            attrs = vec![];
        }
        lines.push(line_of(&mut r, Style::default(), &new("Media", line)));
        for x in &attrs {
            lines.push(format!("a={}", crate::render::attr_text(x)));
        }
        want.push(V::L(
            attrs.into_iter().filter(|a| a.tag() != "DtlsMessage").collect(),
        ));
    }
    let t = join(&lines);
    let allowed = k.media || tag == "DtlsMessage";
    match (parse(&t), allowed) {
        (Ok(x), true) => {
            let g = conv::session(&x);
            let g: Vec<V> = g.get("media").list().iter().map(|m| m.get("attribute").clone()).collect();
            same(
                &format!("media-level {text:?} lands wrongly (parsed versus written)"),
                &V::L(g),
                &V::L(want),
            )?;
        }
        (Ok(_), false) => return Err(format!("{text:?} is accepted at media level, in {:?}", clip(&t))),
        (Err(e), true) => return Err(format!("{text:?} is refused at media level: {e}, in {:?}", clip(&t))),
        (Err(SdpParserError::Sequence { .. }), false) => (),
        (Err(e), false) => return Err(format!("{text:?} at media level is no sequence error but {e}")),
    }
    // editing
    for x in [imp, built] {
        let mut s = parse(&crate::render::text(&base)).map_err(|e| format!("valid session refused: {e}"))?;
        let before = conv::session(&s);
        let res = s.add_attribute(x.clone());
        let mut want = before.clone();
        if k.session {
            want.get_mut("attribute").list_mut().push(a.clone());
        }
        if res.is_ok() != k.session {
            return Err(format!("adding {text:?} to a session {}", if k.session { "fails" } else { "succeeds" }));
        }
        same(&format!("adding {text:?} to a session leaves (got versus expected)"), &conv::session(&s), &want)?;
        let section = gen::section(&mut r, gen::SMALL, false, true);
        let Ok(m) = conv::to_media(&section) else {
            return Err("a valid section cannot be built".into());
        };
        for set in [false, true] {
            let mut m: SdpMedia = m.clone();
            let res = if set { m.set_attribute(x.clone()) } else { m.add_attribute(x.clone()) };
            let mut want = section.clone();
            if k.media {
                let l = want.get_mut("attribute").list_mut();
                if set {
                    l.retain(|y| y.tag() != tag);
                }
                l.push(a.clone());
            }
            if res.is_ok() != k.media {
                return Err(format!("{} {text:?} in a section {}", if set { "setting" } else { "adding" }, if k.media { "fails" } else { "succeeds" }));
            }
            same(&format!("{} {text:?} in a section leaves (got versus expected)", if set { "setting" } else { "adding" }), &conv::media(&m), &want)?;
        }
        // as the direction of a new section
        let before = conv::session(&s);
        let res = s.add_media(
            webrtc_sdp::media_type::SdpMediaValue::Audio,
            x.clone(),
            9,
            webrtc_sdp::media_type::SdpProtocolValue::RtpAvp,
            conv::to_typed(&gen::typed(&mut r)),
        );
        if res.is_ok() != k.media {
            return Err(format!("a new section with {text:?} {}", if k.media { "fails" } else { "succeeds" }));
        }
        if !k.media {
            same(&format!("a refused section with {text:?} leaves (got versus expected)"), &conv::session(&s), &before)?;
        }
    }
    Ok(())
}
fn c11_gen(r: &mut Rng) -> Case {
    let mut c = Case::seeded("kind", r.u64());
    c.text = vec![r.n(KINDS.len()).to_string()];
    c
}
fn c11_fixed() -> Vec<Case> {
    let mut v = vec![];
    for i in 0..KINDS.len() {
        for s in 0..60 {
            let mut c = Case::seeded("kind", s);
            c.text = vec![i.to_string()];
            v.push(c);
        }
    }
    v
}

// ------------------------------------------------------------------ C12

/// A session whose lines are all valid, with rules broken (or not) on purpose.
fn c12_lines(r: &mut Rng) -> Vec<String> {
    let mut x = gen::session(
        r,
        gen::Size {
            sections: 5,
            attrs: 3,
        },
    );
    // more of what the rules are about
    let ext = reftext::has(x.get("attribute"), "Extmap");
    for m in x.get_mut("media").list_mut() {
        let mut line = m.get("media").clone();
        let mut l = m.get("attribute").list().clone();
        let many = r.n(4);
        for _ in 0..many {
            let t = *r.pick(&["Rid", "Rid", "Simulcast", "RtcpMux", "RtcpMuxOnly", "Extmap"]);
            let at = r.n(l.len() + 1);
            l.insert(at, gen::attr(r, t));
        }
        gen::settle(r, &mut line, &mut l, !ext);
        m.set("attribute", V::L(l));
    }
    let edits = r.n(3);
    for _ in 0..edits {
        let n = x.get("media").list().len();
        if n == 0 || r.chance(1, 6) {
            match r.n(4) {
                0 => x.set("timing", V::Null),
                1 => x.set("connection", V::Null),
                2 => x.set("connection", gen::connection(r)),
                _ => {
                    let a = gen::attr(r, "Extmap");
                    x.get_mut("attribute").list_mut().push(a);
                }
            }
            continue;
        }
        let i = r.n(n);
        let m = &mut x.get_mut("media").list_mut()[i];
        match r.n(12) {
            0 => m.set("connection", V::Null),
            1 => {
                let a = gen::attr(r, "Extmap");
                let l = m.get_mut("attribute").list_mut();
                let at = r.n(l.len() + 1);
                l.insert(at, a);
            }
            2 => m.get_mut("attribute").list_mut().retain(|a| a.tag() != "RtcpMux"),
            3 => {
                let l = m.get_mut("attribute").list_mut();
                let at = r.n(l.len() + 1);
                l.insert(at, V::Unit("RtcpMuxOnly"));
            }
            4 | 5 => {
                // one more or another payload type of a rid
                let mut rids: Vec<&mut V> = m.get_mut("attribute").list_mut().iter_mut().filter(|a| a.tag() == "Rid").collect();
                if !rids.is_empty() {
                    let k = r.n(rids.len());
                    let f = rids[k].inner_mut().get_mut("formats").list_mut();
                    let x = V::U(*r.pick(&[0, 3, 96, 97, 100, 127, 128, 5000, 65535]));
                    let at = r.n(f.len() + 1);
                    f.insert(at, x);
                }
            }
            6 => {
                // a format the m= line no longer lists
                if let V::New(_, l) = m.get_mut("media").get_mut("formats") {
                    let l = l.list_mut();
                    if l.len() > 1 {
                        let k = r.n(l.len());
                        l.remove(k);
                    }
                }
            }
            7 => {
                let mut rids: Vec<&mut V> = m.get_mut("attribute").list_mut().iter_mut().filter(|a| a.tag() == "Rid").collect();
                if !rids.is_empty() {
                    let k = r.n(rids.len());
                    let i = rids[k].inner_mut();
                    let d = if i.get("direction").tag() == "Send" { "Recv" } else { "Send" };
                    i.set("direction", V::Unit(d));
                }
            }
            8 => {
                let l = m.get_mut("attribute").list_mut();
                let at: Vec<usize> = (0..l.len()).filter(|i| l[*i].tag() == "Rid").collect();
                if !at.is_empty() {
                    l.remove(*r.pick(&at));
                }
            }
            9 => {
                let a = gen::attr(r, "Simulcast");
                let l = m.get_mut("attribute").list_mut();
                let at = r.n(l.len() + 1);
                l.insert(at, a);
            }
            10 => {
                // an id of a simulcast that differs in case or by a letter
                let mut sc: Vec<&mut V> = m.get_mut("attribute").list_mut().iter_mut().filter(|a| a.tag() == "Simulcast").collect();
                if let Some(sc) = sc.first_mut() {
                    let f = if r.bool() { "send" } else { "receive" };
                    let l = sc.inner_mut().get_mut(f).list_mut();
                    if !l.is_empty() {
                        let k = r.n(l.len());
                        let ids = l[k].get_mut("ids").list_mut();
                        let j = r.n(ids.len());
                        let old = ids[j].get("id").str().to_string();
                        let new = match r.n(3) {
                            0 => old.to_uppercase(),
                            1 => format!("{old}x"),
                            _ => gen::id(r),
                        };
                        ids[j].set("id", V::S(new));
                    }
                }
            }
            _ => {
                // a simulcast with an id of another section
                let l = m.get_mut("attribute").list_mut();
                let rids: Vec<V> = l.iter().filter(|a| a.tag() == "Rid").cloned().collect();
                if !rids.is_empty() && n > 1 {
                    let rid = r.pick(&rids).clone();
                    l.retain(|a| a != &rid);
                    let k = r.n(n);
                    x.get_mut("media").list_mut()[k]
                        .get_mut("attribute")
                        .list_mut()
                        .push(rid);
                }
            }
        }
    }
    let order = r.bool();
    let mut w = Writer {
        r,
        style: Style {
            spelling: false,
            order,
        },
    };
    let mut l = w.session_lines(&x);
    // lines in the wrong place
    let moves = *r.pick(&[0, 0, 0, 0, 1, 1, 2]);
    for _ in 0..moves {
        if l.is_empty() {
            break;
        }
        let i = r.n(l.len());
        match r.n(8) {
            0 => {
                let j = r.n(l.len().min(5));
                l.remove(j);
            }
            1 => {
                let j = r.n(l.len().min(4));
                let k = r.n(l.len().min(4));
                l.swap(j, k);
            }
            2 => {
                let j = r.n(l.len().min(5));
                let x = l.remove(j);
                let k = r.n(l.len() + 1);
                l.insert(k, x);
            }
            3 => {
                let v = match r.n(5) {
                    0 => new("Timing", gen::timing(r)),
                    1 => new("Origin", gen::origin(r)),
                    2 => new("Session", V::S("x".into())),
                    3 => new("Version", V::U(0)),
                    _ => new("Connection", gen::connection(r)),
                };
                let t = line_of(r, Style::default(), &v);
                l.insert(i, t);
            }
            4 => {
                let x = l[i].clone();
                l.push(x);
            }
            5 => {
                let n = r.n(l.len() + 1);
                l.truncate(n);
            }
            6 => l.insert(i, r.pick_s(&["", "  "])),
            _ => {
                let v = new("Media", gen::media_line(r));
                let t = line_of(r, Style::default(), &v);
                l.insert(i, t);
            }
        }
    }
    l
}

fn c12_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let text = &c.text[0];
    let ls = reftext::lines(text);
    if ls.iter().any(|l| l.what.is_err()) {
        cx.saw("texts with invalid lines, skipped");
        return Ok(());
    }
    let o = reftext::outcome_of(text, &ls);
    cx.interesting();
    cx.saw(match &o.lenient {
        Expect::Ok(_) => "texts without a violation",
        Expect::Sequence(_) => "texts with a violation",
        _ => "texts too short",
    });
    for strict in [false, true] {
        let got = parse_sdp(text, strict);
        judge(cx, text, &got, &o.lenient, &o.warnings, Look::default())?;
        if let (Err(e), Expect::Sequence(_)) = (&got, &o.lenient) {
            if !matches!(e, SdpParserError::Sequence { .. }) {
                return Err(format!("a violated rule is reported as {}, for {:?}", reftext::describe_err(e), clip(text)));
            }
        }
    }
    Ok(())
}
fn c12_gen(r: &mut Rng) -> Case {
    let l = c12_lines(r);
    Case::new("text", vec![join(&l)])
}
fn c12_fixed() -> Vec<Case> {
    let mut v = corpus_cases("text");
    v.extend(little().iter().map(|t| Case::one("text", t)));
    let base = ["v=0", "o=- 0 0 IN IP4 a", "s=-", "t=0 0", "c=IN IP4 a"];
    let sec = ["m=audio 9 RTP/AVP 96 97", "m=video 9 RTP/AVP 97", "m=application 9 DTLS/SCTP 96 x"];
    let add = |l: &[&str]| Case::one("text", &join(&l.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    // every order of the first lines, and every part of them
    for a in 0..5 {
        for b in 0..5 {
            for c in 0..5 {
                for d in 0..5 {
                    v.push(add(&[base[a], base[b], base[c], base[d]]));
                    v.push(add(&[base[a], base[b], base[c], base[d], sec[0]]));
                    v.push(add(&[base[0], base[1], base[2], base[a], base[b], sec[0], base[c], sec[1], base[d]]));
                }
            }
        }
    }
    for n in 0..5 {
        v.push(add(&base[..n]));
    }
    // which sections have a connection
    for n in 1..5usize {
        for mask in 0..(1 << n) {
            for top in [false, true] {
                let mut l = base[..if top { 5 } else { 4 }].to_vec();
                for i in 0..n {
                    l.push(sec[i % 3]);
                    if mask >> i & 1 == 1 {
                        l.push("c=IN IP6 ::1");
                    }
                }
                v.push(add(&l));
            }
        }
    }
    // a rule broken in exactly one section, everything else in order
    let good: &[&[&str]] = &[
        &["a=extmap:1 u"],
        &["a=rtcp-mux", "a=rtcp-mux-only"],
        &["a=rid:1 send pt=96", "a=simulcast:send 1"],
        &["a=rid:1 recv", "a=rid:2 send", "a=simulcast:recv ~1 send 2"],
        &[],
    ];
    let bad: &[&[&str]] = &[
        &["a=rtcp-mux-only"],
        &["a=rid:1 send pt=98"],
        &["a=rid:1 send pt=96,98"],
        &["a=rid:1 send", "a=rid:2 send pt=98"],
        &["a=simulcast:send 1"],
        &["a=rid:1 send", "a=simulcast:recv 1"],
        &["a=rid:1 recv", "a=simulcast:send 1"],
        &["a=rid:1 send", "a=rid:2 recv", "a=simulcast:send 1 recv 1"],
        &["a=rid:1 send", "a=simulcast:send 1;2"],
        &["a=rid:1 send", "a=simulcast:send 1,2"],
        &["a=rid:1 send", "a=simulcast:send 2", "a=simulcast:send 1"],
    ];
    for n in 1..5usize {
        for at in 0..n {
            for b in bad {
                for g in good {
                    let mut l = base.to_vec();
                    for i in 0..n {
                        l.push(sec[0]);
                        l.extend_from_slice(if i == at { b } else { g });
                    }
                    v.push(add(&l));
                }
            }
            let mut l = base.to_vec();
            l.push("a=extmap:1 u");
            for i in 0..n {
                l.push(sec[0]);
                if i == at {
                    l.push("a=extmap:2 v");
                }
            }
            v.push(add(&l));
            l.remove(5);
            v.push(add(&l));
        }
    }
    v
}

// ------------------------------------------------------------------ C13

fn c13_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let text = &c.text[0];
    let o = reftext::outcome(text);
    let (lenient, log) = logcap::capture(|| parse_sdp(text, false));
    let strict = parse_sdp(text, true);
    cx.interesting();
    cx.saw(match (&o.lenient, o.warnings.is_empty()) {
        (Expect::Ok(_), true) => "texts accepted without a warning",
        (Expect::Ok(_), false) => "texts accepted with warnings",
        (Expect::Line(..), _) => "texts with malformed lines",
        _ => "texts refused for another reason",
    });
    judge(cx, text, &lenient, &o.lenient, &o.warnings, Look { content: true, warnings: true, position: false })?;
    match (&lenient, &strict) {
        (Err(_), Ok(_)) => return Err(format!("strict parsing accepts what lenient parsing refuses: {:?}", clip(text))),
        (Ok(x), Err(e)) => {
            let Some(w) = x.warnings.first() else {
                return Err(format!("strict parsing fails without a warning: {e}, for {:?}", clip(text)));
            };
            if e.to_string() != w.to_string() || !matches!(e, SdpParserError::Unsupported { .. }) {
                return Err(format!("strict parsing reports {e} instead of the first warning {w}, for {:?}", clip(text)));
            }
        }
        (Ok(x), Ok(y)) => {
            if !x.warnings.is_empty() {
                return Err(format!("strict parsing accepts a text with warnings: {:?}", clip(text)));
            }
            same(&format!("strict and lenient parsing differ, for {:?}", clip(text)), &conv::session(y), &conv::session(x))?;
            if !y.warnings.is_empty() {
                return Err("strict parsing leaves warnings".into());
            }
        }
        (Err(a), Err(b)) => {
            if let (Some((no, t)), false) = (o.warnings.first(), matches!(o.lenient, Expect::Open | Expect::Short)) {
                if number_of(b) != *no || !matches!(b, SdpParserError::Unsupported { line, .. } if line == t) {
                    return Err(format!("strict parsing reports {} instead of the first warning at {no}, for {:?}", reftext::describe_err(b), clip(text)));
                }
            } else if o.warnings.is_empty() && !matches!(o.lenient, Expect::Open) && a.to_string() != b.to_string() {
                return Err(format!("strict parsing reports {b}, lenient parsing {a}, for {:?}", clip(text)));
            }
        }
    }
    if let Ok(x) = &lenient {
        // the log
        let records: Vec<&String> = log
            .iter()
            .filter(|r| r.0 <= log::Level::Warn)
            .map(|r| &r.1)
            .collect();
        let mut from = 0;
        let many = x.warnings.len() > 100;
        for (i, w) in x.warnings.iter().enumerate() {
            let t = w.to_string();
            if many {
                // one record for one warning, as is counted below
                if !records.get(i).is_some_and(|r| r.contains(&t)) {
                    return Err(format!("warning {i}, {t:?}, is not logged or out of order"));
                }
                cx.saw("warnings found in the log");
                continue;
            }
            let hits: Vec<usize> = (0..records.len()).filter(|i| records[*i].contains(&t)).collect();
            if hits.len() != 1 || hits[0] < from {
                return Err(format!("warning {t:?} is logged {} times, or out of order: {records:?}", hits.len()));
            }
            from = hits[0];
            cx.saw("warnings found in the log");
        }
        if records.len() != x.warnings.len() {
            return Err(format!("{} warnings, {} log records, for {:?}", x.warnings.len(), records.len(), clip(text)));
        }
        // without the lines that were warned about
        if !x.warnings.is_empty() {
            let gone: BTreeSet<usize> = x.warnings.iter().map(number_of).collect();
            let rest: Vec<&str> = text
                .split('\n')
                .enumerate()
                .filter(|(i, _)| !gone.contains(i))
                .map(|(_, l)| l)
                .collect();
            let t = rest.join("\n");
            match parse_sdp(&t, true) {
                Ok(y) => same(&format!("without the warned lines the result differs (without versus with), for {:?}", clip(text)), &conv::session(&y), &conv::session(x))?,
                Err(e) => return Err(format!("without the warned lines the text is refused: {e}, for {:?}", clip(text))),
            }
            cx.saw("texts parsed without the warned lines");
        }
    }
    Ok(())
}
fn c13_gen(r: &mut Rng) -> Case {
    if r.chance(1, 3) {
        // a valid session with unsupported lines everywhere
        let (_, mut l) = truth_lines(r, gen::SMALL, ORDERED);
        let n = r.range(1, 6);
        for _ in 0..n {
            let at = r.n(l.len() + 1);
            let x = if r.chance(1, 4) {
                skippable_media(r)
            } else {
                skippable(r)
            };
            l.insert(at, x);
        }
        if r.chance(1, 4) {
            let at = r.n(l.len() + 1);
            l.insert(at, r.pick_s(MALFORMED));
        }
        return Case::new("text", vec![ends(r, &l)]);
    }
    let ops = few(r);
    loop {
        let t = odd_text(r, ops);
        if plain(&t) {
            return Case::new("text", vec![t]);
        }
    }
}
fn c13_fixed() -> Vec<Case> {
    let mut v = corpus_cases("text");
    v.extend(sweep_cases("text"));
    let base: Vec<String> = crate::corpus::CHROME.lines().map(str::to_string).collect();
    for x in SKIPPABLE.iter().chain(SKIPPABLE_MEDIA).chain(MALFORMED) {
        for at in [0, 1, 3, 4, 16, base.len()] {
            let mut l = base.clone();
            l.insert(at, (*x).to_string());
            v.push(Case::new("text", vec![join(&l)]));
        }
    }
    for c in b'a'..=b'z' {
        for val in ["x", "0 0", "", "1:2"] {
            let mut l = base.clone();
            l.push(format!("{}={val}", c as char));
            v.push(Case::new("text", vec![join(&l)]));
        }
    }
    v
}

// ------------------------------------------------------------------ C14

fn check_display(e: &SdpParserError) -> Verdict {
    let shown = e.to_string();
    let no = number_of(e).to_string();
    let (reason, line) = match e {
        SdpParserError::Line { error, line, .. } | SdpParserError::Unsupported { error, line, .. } => {
            let reason = error.to_string();
            match Error::source(e) {
                Some(s) if s.to_string() == reason && s.downcast_ref::<SdpParserInternalError>().is_some() => (),
                Some(s) => return Err(format!("the cause of {shown:?} is {s:?}")),
                None => return Err(format!("{shown:?} has no cause")),
            }
            check_internal(error)?;
            (reason, Some(line.clone()))
        }
        SdpParserError::Sequence { message, .. } => (message.clone(), None),
    };
    // each part must be there, outside of the others
    let mut parts = vec![reason, line.unwrap_or_default(), no];
    parts.sort_by_key(|p| std::cmp::Reverse(p.len()));
    if !holds(&shown, &parts) {
        return Err(format!("{shown:?} does not show all of {parts:?}"));
    }
    let copy = e.clone();
    if copy.to_string() != shown || format!("{copy:?}") != format!("{e:?}") {
        return Err(format!("the copy of {shown:?} says {copy}"));
    }
    Ok(())
}
/// Whether the parts can be cut out of the text one after the other.
fn holds(text: &str, parts: &[String]) -> bool {
    let Some((p, more)) = parts.split_first() else {
        return true;
    };
    if p.is_empty() {
        return holds(text, more);
    }
    let hits: Vec<usize> = text.match_indices(p.as_str()).map(|x| x.0).collect();
    // the first and the last few will do
    let n = hits.len();
    hits.iter()
        .enumerate()
        .filter(|(i, _)| *i < 2 || *i + 4 > n)
        .any(|(_, at)| holds(&format!("{}\n{}", &text[..*at], &text[at + p.len()..]), more))
}
fn check_internal(e: &SdpParserInternalError) -> Verdict {
    let shown = e.to_string();
    let part = match e {
        SdpParserInternalError::UnknownAddressType(t) => t.clone(),
        SdpParserInternalError::AddressTypeMismatch { found, expected } => {
            if found == expected {
                return Err(format!("mismatch of equal types: {shown}"));
            }
            let (a, b) = (found.to_string(), expected.to_string());
            match (shown.find(&a), shown.find(&b)) {
                (Some(x), Some(y)) if x < y => String::new(),
                _ => return Err(format!("found {a}, expected {b}, but shown as {shown:?}")),
            }
        }
        SdpParserInternalError::Generic(m) | SdpParserInternalError::Unsupported(m) => m.clone(),
        SdpParserInternalError::Integer(x) => x.to_string(),
        SdpParserInternalError::Float(x) => x.to_string(),
        SdpParserInternalError::Domain(x) => x.to_string(),
        SdpParserInternalError::IpAddress(x) => x.to_string(),
    };
    if !shown.contains(&part) {
        return Err(format!("{shown:?} does not contain {part:?}"));
    }
    let needs = matches!(
        e,
        SdpParserInternalError::Integer(_)
            | SdpParserInternalError::Float(_)
            | SdpParserInternalError::Domain(_)
            | SdpParserInternalError::IpAddress(_)
    );
    match Error::source(e) {
        Some(s) if needs && s.to_string() == part => Ok(()),
        None if !needs => Ok(()),
        s => Err(format!("the cause of {shown:?} is {s:?}")),
    }
}
/// the reason must be the one the line has on its own
fn reason_of(e: &SdpParserError) -> Option<(String, String)> {
    match e {
        SdpParserError::Line { error, line, .. } | SdpParserError::Unsupported { error, line, .. } => {
            Some((error.to_string(), line.clone()))
        }
        _ => None,
    }
}
fn c14_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    if c.mode == "vector" {
        // lines may carry any numbers
        cx.saw("lists of numbered lines");
        return match c25_vector(cx, c.seed) {
            Err(e) if e.contains("is refused as") => Err(e),
            _ => Ok(()),
        };
    }
    let text = &c.text[0];
    if c.mode == "line" {
        // any line with any number
        for n in [0, 1, c.seed as usize, usize::MAX] {
            match parse_sdp_line(text, n) {
                Ok(l) => {
                    cx.saw("lines accepted");
                    if l.line_number != n || l.text != *text {
                        return Err(format!("line {n} {text:?} comes back as {} {:?}", l.line_number, l.text));
                    }
                }
                Err(e) => {
                    cx.saw("lines refused");
                    cx.interesting();
                    let r = reason_of(&e);
                    if number_of(&e) != n || r.as_ref().map(|x| &x.1) != Some(text) {
                        return Err(format!("line {n} {text:?} is reported as {}", reftext::describe_err(&e)));
                    }
                    check_display(&e)?;
                    // the unsupported are reported as such
                    let want = refparse::line(text);
                    let unsup = matches!(e, SdpParserError::Unsupported { .. });
                    if plain(text) && !text.contains(['\n', '\r']) && ((want == Err(E::Bad) && unsup) || (want == Err(E::Unsup) && !unsup)) {
                        return Err(format!("line {text:?} is reported as {}", reftext::describe_err(&e)));
                    }
                    if let SdpParserError::Line { error: SdpParserInternalError::AddressTypeMismatch { found, expected }, .. } = &e {
                        let up = text.to_uppercase();
                        let declared: Vec<&str> = up.split_whitespace().filter(|w| *w == "IP4" || *w == "IP6").collect();
                        if declared.len() == 1 && (expected.to_string() != declared[0] || found.to_string() == declared[0]) {
                            return Err(format!("line {text:?} declares {declared:?} but is reported as found {found}, expected {expected}"));
                        }
                        cx.saw("address type mismatches");
                    }
                }
            }
        }
        return Ok(());
    }
    let o = reftext::outcome(text);
    for strict in [false, true] {
        let got = parse_sdp(text, strict);
        let want = if strict { &o.strict } else { &o.lenient };
        judge(cx, text, &got, want, &o.warnings, Look { content: false, warnings: true, position: true })?;
        let all: Vec<&SdpParserError> = match &got {
            Ok(x) => x.warnings.iter().collect(),
            Err(e) => vec![e],
        };
        for e in all {
            cx.interesting();
            cx.saw(match e {
                SdpParserError::Line { .. } => "line errors",
                SdpParserError::Unsupported { .. } => "warnings",
                SdpParserError::Sequence { .. } => "sequence errors",
            });
            check_display(e)?;
            if let Some((reason, line)) = reason_of(e) {
                if text.len() >= reftext::SHORTEST {
                    match parse_sdp_line(&line, 0) {
                        Err(alone) if reason_of(&alone).map(|x| x.0) == Some(reason.clone()) => (),
                        _ => return Err(format!("reason {reason:?} is not that of line {line:?}, for {:?}", clip(text))),
                    }
                }
            }
        }
    }
    Ok(())
}
fn c14_gen(r: &mut Rng) -> Case {
    if r.chance(1, 8) {
        return Case::seeded("vector", r.u64());
    }
    if r.chance(1, 3) {
        let t = any_line(r);
        let mut c = Case::seeded("line", r.u64());
        c.text = vec![mutate::some(r, &t)];
        return c;
    }
    let ops = r.range(1, 5);
    loop {
        let t = odd_text(r, ops);
        if plain(&t) {
            return Case::new("text", vec![t]);
        }
    }
}
fn c14_fixed() -> Vec<Case> {
    let mut v = corpus_cases("text");
    v.extend(sweep_cases("text"));
    // one wrong line of every kind at every place
    let t = crate::corpus::CHROME;
    let base: Vec<String> = t.lines().map(str::to_string).collect();
    let wrong = [
        "v=0", "o=- 0 0 IN IP4 a", "s=x", "t=0 0", "a=mid:1", "a=group:BUNDLE", "m=audio 9 RTP/AVP 0",
        "c=IN IP4 b", "a=candidate:1", "q=1", "a=foo", "", "c=IN IP6 1.2.3.4", "a=ice-lite",
    ];
    for w in wrong {
        for at in 0..=base.len() {
            let mut l = base.clone();
            l.insert(at, w.to_string());
            v.push(Case::new("text", vec![join(&l)]));
        }
    }
    for l in ["c=IN IP6 1.2.3.4", "c=IN IP4 ::1", "o=- 0 0 IN IP4 ::1", "o=- 0 0 IN IP6 127.0.0.1", "a=rtcp:9 IN IP6 1.2.3.4", "a=rtcp:9 IN IP4 ::"] {
        v.push(Case::one("line", l));
    }
    v
}

// ------------------------------------------------------------------ C15

/// Rewrites a text in ways that do not change what it means.
fn respell(r: &mut Rng, text: &str) -> String {
    let mut out = String::new();
    let ls = reftext::lines(text);
    let n = ls.len();
    let style = r.n(3);
    for (i, l) in ls.iter().enumerate() {
        while r.chance(1, 8) {
            out.push_str(r.pick(&["\n", "\r\n", " \n", "\t\r\n"]));
        }
        out.push_str(&respell_line(r, &l.text));
        if i + 1 == n && r.bool() {
            break;
        }
        out.push_str(match style {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if r.bool() {
                    "\n"
                } else {
                    "\r\n"
                }
            }
        });
    }
    out
}
fn case(r: &mut Rng, t: &str) -> String {
    match r.n(4) {
        0 => t.to_ascii_uppercase(),
        1 => t.to_ascii_lowercase(),
        2 => t
            .chars()
            .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
        _ => t.to_string(),
    }
}
fn blank(r: &mut Rng) -> &'static str {
    r.pick(&["", "", " ", "  ", "\t", " \t "])
}
fn runs(r: &mut Rng, t: &str) -> String {
    let mut out = String::new();
    let mut in_blank = false;
    for c in t.chars() {
        if c == ' ' || c == '\t' {
            if !in_blank {
                out.push_str(r.pick(&[" ", " ", "  ", "\t", " \t", "   "]));
            }
            in_blank = true;
        } else {
            in_blank = false;
            out.push(c);
        }
    }
    out
}
fn respell_line(r: &mut Rng, l: &str) -> String {
    let Some(eq) = l.find('=') else {
        return format!("{}{}{}", blank(r), l, blank(r));
    };
    let ty = l[..eq].trim();
    let v = l[eq + 1..].trim();
    let ty2 = if ty.len() == 1 { case(r, ty) } else { ty.to_string() };
    let v2 = match ty.to_ascii_lowercase().as_str() {
        "a" => match v.find(':') {
            Some(p) => {
                let (name, val) = (&v[..p], v[p + 1..].trim());
                let runs_ok = crate::kinds::by_wire(&name.to_ascii_lowercase()).is_some_and(|k| k.blanks);
                let val = if runs_ok { runs(r, val) } else { val.to_string() };
                format!("{}:{}{}", case(r, name), blank(r), val)
            }
            None => case(r, v),
        },
        "t" | "o" | "c" | "m" => runs(r, v),
        _ => v.to_string(),
    };
    format!("{}{}{}={}{}{}", blank(r), ty2, blank(r), blank(r), v2, blank(r))
}
fn c15_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    if c.mode == "truth" {
        let mut r = Rng::new(c.seed);
        let size = if r.bool() { gen::SMALL } else { gen::MEDIUM };
        let x = gen::session(&mut r, size);
        let a = crate::render::text(&x);
        let mut w = Writer { r: &mut r, style: SPELLED };
        let l = w.session_lines(&x);
        let b = w.join(&l);
        cx.interesting();
        cx.saw("sessions written in two ways");
        for t in [&a, &b] {
            match parse(t) {
                Err(e) => return Err(format!("a spelling of a valid session is refused: {e}, for {:?}", clip(t))),
                Ok(y) => same(&format!("a spelling is decoded differently (decoded versus written), for {:?}", clip(t)), &conv::session(&y), &x)?,
            }
        }
        return Ok(());
    }
    let text = &c.text[0];
    // \r inside lines and blanks that are not ASCII are not spelling
    if !plain(text) || reftext::lines(text).iter().any(|l| l.text.contains('\r')) {
        cx.saw("texts with odd characters, skipped");
        return Ok(());
    }
    let mut r = Rng::new(c.seed);
    let other = respell(&mut r, text);
    // the shortest texts are refused by their length
    if text.len() < 40 || other.len() < 40 {
        cx.saw("short texts, skipped");
        return Ok(());
    }
    cx.interesting();
    for strict in [false, true] {
        match (parse_sdp(text, strict), parse_sdp(&other, strict)) {
            (Ok(x), Ok(y)) => {
                cx.saw("pairs of accepted spellings");
                same(&format!("two spellings decode differently: {:?} and {:?}", clip(text), clip(&other)), &conv::session(&y), &conv::session(&x))?;
                if x.warnings.len() != y.warnings.len() {
                    return Err(format!("{} and {} warnings for two spellings: {:?} and {:?}", x.warnings.len(), y.warnings.len(), clip(text), clip(&other)));
                }
            }
            (Err(a), Err(b)) => {
                cx.saw("pairs of refused spellings");
                let k = |e: &SdpParserError| match e {
                    SdpParserError::Line { .. } => 0,
                    SdpParserError::Unsupported { .. } => 1,
                    SdpParserError::Sequence { .. } => 2,
                };
                if k(&a) != k(&b) {
                    return Err(format!("two spellings are refused for different reasons, {a} and {b}: {:?} and {:?}", clip(text), clip(&other)));
                }
            }
            (a, b) => {
                return Err(format!(
                    "one spelling is accepted, the other refused: {:?} ({}) and {:?} ({})",
                    clip(text),
                    a.err().map_or("accepted".into(), |e| e.to_string()),
                    clip(&other),
                    b.err().map_or("accepted".into(), |e| e.to_string())
                ))
            }
        }
    }
    Ok(())
}
fn c15_gen(r: &mut Rng) -> Case {
    if r.chance(1, 3) {
        return Case::seeded("truth", r.u64());
    }
    let ops = few(r);
    let mut c = Case::new("text", vec![odd_text(r, ops)]);
    c.seed = r.u64();
    c
}
fn c15_fixed() -> Vec<Case> {
    let mut v = vec![];
    for s in 0..40 {
        for mut c in corpus_cases("text") {
            c.seed = s;
            v.push(c);
        }
    }
    v
}

// ------------------------------------------------------------------ C25

fn show_line(l: &SdpLine) -> V {
    conv::sdp_type(&l.sdp_type)
}
fn is_blank(l: &str) -> bool {
    l.trim().is_empty()
}
/// The whole through its parts.
fn by_parts(text: &str) -> Result<(SdpSession, Vec<SdpParserError>), SdpParserError> {
    let mut lines = vec![];
    let mut warnings = vec![];
    let mut last = None;
    for (no, l) in text.lines().enumerate() {
        if is_blank(l) {
            continue;
        }
        match parse_sdp_line(l, no) {
            Ok(x) => lines.push(x),
            Err(e @ SdpParserError::Unsupported { .. }) => warnings.push(e),
            Err(e) => last = Some(e),
        }
    }
    if let Some(e) = last {
        return Err(e);
    }
    let seq = |n: usize| SdpParserError::Sequence {
        message: String::new(),
        line_number: n,
    };
    if lines.len() < 4 {
        return Err(seq(0));
    }
    let media = lines
        .iter()
        .position(|l| matches!(l.sdp_type, SdpType::Media(_)))
        .unwrap_or(lines.len());
    let mut below: Vec<SdpLine> = lines.drain(media..).collect();
    let mut head = lines.into_iter();
    let mut origin = None;
    let mut name = None;
    for i in 0..3 {
        let Some(l) = head.next() else {
            return Err(seq(below.first().map_or(0, |l| l.line_number)));
        };
        match (i, l.sdp_type) {
            (0, SdpType::Version(_)) => (),
            (1, SdpType::Origin(o)) => origin = Some(o),
            (2, SdpType::Session(s)) => name = Some(s),
            _ => return Err(seq(l.line_number)),
        }
    }
    let mut x = SdpSession::new(0, origin.expect("harness: o="), name.expect("harness: s="));
    let mut rest: Vec<SdpLine> = head.collect();
    x.parse_session_vector(&mut rest)?;
    if !below.is_empty() {
        x.extend_media(parse_media_vector(&mut below)?);
    }
    Ok((x, warnings))
}
fn c25_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    if c.mode == "vector" {
        return c25_vector(cx, c.seed);
    }
    let text = &c.text[0];
    if text.len() < reftext::SHORTEST {
        return Ok(());
    }
    cx.interesting();
    // lines on their own
    for (no, l) in text.lines().enumerate() {
        if is_blank(l) {
            continue;
        }
        let got = parse_sdp_line(l, no);
        if let Ok(x) = &got {
            if x.line_number != no || x.text != l {
                return Err(format!("line {no} {l:?} comes back as {} {:?}", x.line_number, x.text));
            }
        }
        let eq = l.find('=');
        let Some(eq) = eq else { continue };
        let value = l[eq + 1..].trim();
        match l[..eq].trim().to_ascii_lowercase().as_str() {
            "a" if !value.is_empty() => {
                cx.saw("attributes parsed in four ways");
                let a = parse_attribute(value);
                let b = SdpAttribute::from_str(value);
                let show = |r: Result<V, SdpParserInternalError>| -> Result<V, String> { r.map_err(|e| e.to_string()) };
                let a = show(a.map(|t| conv::sdp_type(&t)));
                let b = show(b.map(|x| new("Attribute", conv::attr(&x))));
                let whole = match &got {
                    Ok(x) => Ok(show_line(x)),
                    Err(SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. }) => Err(error.to_string()),
                    Err(e) => Err(e.to_string()),
                };
                if a != b || a != whole {
                    return Err(format!("attribute {value:?}: line says {whole:?}, parse_attribute {a:?}, from_str {b:?}"));
                }
                // blanks around the value say nothing, here as in a line
                let padded = [" ", "  ", "\t", ""][no % 4].to_string() + value + ["", " ", "\t ", " "][no / 4 % 4];
                let c = show(parse_attribute(&padded).map(|t| conv::sdp_type(&t)));
                if a.as_ref().ok() != c.as_ref().ok() {
                    return Err(format!("attribute {padded:?}: parse_attribute says {c:?}, without the blanks {a:?}"));
                }
            }
            "m" if !value.is_empty() => {
                cx.saw("media lines parsed in two ways");
                let a = parse_media(value).map(|t| conv::sdp_type(&t)).map_err(|e| e.to_string());
                let whole = match &got {
                    Ok(x) => Ok(show_line(x)),
                    Err(SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. }) => Err(error.to_string()),
                    Err(e) => Err(e.to_string()),
                };
                if a != whole {
                    return Err(format!("media line {value:?}: line says {whole:?}, parse_media {a:?}"));
                }
                let padded = format!("{}{value} ", [" ", "\t"][no % 2]);
                let c = parse_media(&padded).map(|t| conv::sdp_type(&t)).map_err(|e| e.to_string());
                if a.as_ref().ok() != c.as_ref().ok() {
                    return Err(format!("media line {padded:?}: parse_media says {c:?}, without the blanks {a:?}"));
                }
            }
            _ => (),
        }
    }
    let whole = parse(text);
    let parts = by_parts(text);
    match (&whole, &parts) {
        (Ok(x), Ok((y, w))) => {
            cx.saw("texts assembled from their lines");
            same(&format!("assembled from its lines the session differs (assembled versus whole), for {:?}", clip(text)), &conv::session(y), &conv::session(x))?;
            let a: Vec<String> = x.warnings.iter().map(ToString::to_string).collect();
            let b: Vec<String> = w.iter().map(ToString::to_string).collect();
            if a != b {
                return Err(format!("warnings {a:?} as a whole, {b:?} line by line"));
            }
            if x.to_string() != y.to_string() {
                return Err(format!("assembled session prints differently: {:?} and {:?}", clip(&x.to_string()), clip(&y.to_string())));
            }
            Ok(())
        }
        (Err(a), Err(b)) => {
            cx.saw("texts refused by both");
            let k = |e: &SdpParserError| match e {
                SdpParserError::Line { .. } => 0,
                SdpParserError::Unsupported { .. } => 1,
                SdpParserError::Sequence { .. } => 2,
            };
            if k(a) != k(b) || number_of(a) != number_of(b) {
                return Err(format!("the whole is refused with {a}, its parts with {}, for {:?}", reftext::describe_err(b), clip(text)));
            }
            Ok(())
        }
        (Err(a), Ok((y, _))) => {
            // only the rules that concern several lines can tell
            if matches!(a, SdpParserError::Sequence { .. }) && reftext::cross_rules(&conv::session(y)) {
                cx.saw("texts refused by a rule over several lines");
                return Ok(());
            }
            Err(format!("the whole is refused with {a}, its parts are accepted, for {:?}", clip(text)))
        }
        (Ok(_), Err(b)) => Err(format!("the whole is accepted, its parts are refused with {}, for {:?}", reftext::describe_err(b), clip(text))),
    }
}
/// Lists of lines in any order, given to the section entry points.
fn c25_vector(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let n = r.n(9);
    let mut values = vec![];
    for i in 0..n {
        let media = i == 0 && r.bool() || r.chance(1, 10);
        let v = if media {
            new("Media", gen::media_line(&mut r))
        } else {
            match r.n(12) {
                0 => new("Connection", gen::connection(&mut r)),
                1 | 2 => new("Bandwidth", gen::bandwidth(&mut r)),
                3 => new("Timing", gen::timing(&mut r)),
                4 if r.chance(1, 3) => match r.n(3) {
                    0 => new("Version", V::U(0)),
                    1 => new("Session", V::S("x".into())),
                    _ => new("Origin", gen::origin(&mut r)),
                },
                5..=8 => new("Attribute", gen::media_attr(&mut r)),
                _ => new("Attribute", gen::session_attr(&mut r)),
            }
        };
        values.push(v);
    }
    // the lines may come from anywhere, so that their numbers are in no order
    let mut numbers: Vec<usize> = (0..values.len()).map(|i| 3 * i).collect();
    match r.n(6) {
        0 => r.shuffle(&mut numbers),
        1 => numbers.reverse(),
        2 => numbers.fill(0),
        _ => (),
    }
    let make = |base: usize| -> Result<Vec<SdpLine>, String> {
        let mut out = vec![];
        let mut q = Rng::new(seed ^ 5);
        for (i, v) in values.iter().enumerate() {
            let t = line_of(&mut q, Style::default(), v);
            out.push(parse_sdp_line(&t, base + numbers[i]).map_err(|e| format!("valid line {t:?} refused: {e}"))?);
        }
        Ok(out)
    };
    cx.interesting();
    let base = *r.pick(&[0, 0, 1, 7, 300, 70_000]);
    // as a media list
    let got = parse_media_vector(&mut make(base)?);
    let mut bad: Option<usize> = None;
    let mut sections: Vec<V> = vec![];
    for (i, v) in values.iter().enumerate() {
        let x = v.inner().clone();
        let ok = match (v.tag(), sections.last_mut()) {
            ("Media", _) => {
                sections.push(V::M(vec![
                    ("media", x),
                    ("connection", V::Null),
                    ("bandwidth", V::L(vec![])),
                    ("attribute", V::L(vec![])),
                ]));
                true
            }
            (_, None) => false,
            ("Attribute", Some(m)) => {
                if kind(x.tag()).media {
                    m.get_mut("attribute").list_mut().push(x);
                    true
                } else {
                    x.tag() == "DtlsMessage"
                }
            }
            ("Bandwidth", Some(m)) => {
                m.get_mut("bandwidth").list_mut().push(x);
                true
            }
            ("Connection", Some(m)) if m.get("connection").is_null() => {
                m.set("connection", x);
                true
            }
            _ => false,
        };
        if !ok {
            bad = Some(i);
            break;
        }
    }
    match (got, bad, values.is_empty()) {
        (Err(_), _, true) => cx.saw("empty media lists"),
        (Ok(_), _, true) => return Err("an empty list of media lines is accepted".into()),
        (Ok(_), Some(i), _) => return Err(format!("media list accepted in spite of line {i}: {values:?}")),
        (Err(e), None, _) => return Err(format!("media list refused: {e}: {values:?}")),
        (Err(e), Some(i), _) => {
            cx.saw("media lists refused");
            if number_of(&e) != base + numbers[i] || !matches!(e, SdpParserError::Sequence { .. }) {
                return Err(format!("line {} of a media list is refused as {}: {values:?}", base + numbers[i], reftext::describe_err(&e)));
            }
        }
        (Ok(m), None, _) => {
            cx.saw("media lists accepted");
            same("media list decodes wrongly (got versus expected)", &V::L(m.iter().map(conv::media).collect()), &V::L(sections))?;
        }
    }
    // as a session list
    let start = gen::session(&mut r, gen::SMALL);
    let mut want = start.clone();
    let mut x = parse(&crate::render::text(&start)).map_err(|e| format!("valid session refused: {e}"))?;
    let got = x.parse_session_vector(&mut make(base)?);
    let mut bad = None;
    for (i, v) in values.iter().enumerate() {
        let y = v.inner().clone();
        let ok = match v.tag() {
            "Attribute" if kind(y.tag()).session => {
                want.get_mut("attribute").list_mut().push(y);
                true
            }
            "Bandwidth" => {
                want.get_mut("bandwidth").list_mut().push(y);
                true
            }
            "Connection" => {
                want.set("connection", y);
                true
            }
            "Timing" => {
                want.set("timing", y);
                true
            }
            _ => false,
        };
        if !ok {
            bad = Some(i);
            break;
        }
    }
    match (got, bad) {
        (Ok(()), None) => {
            cx.saw("session lists accepted");
            same("session list decodes wrongly (got versus expected)", &conv::session(&x), &want)
        }
        (Ok(()), Some(i)) => Err(format!("session list accepted in spite of line {i}: {values:?}")),
        (Err(e), None) => Err(format!("session list refused: {e}: {values:?}")),
        (Err(e), Some(i)) => {
            cx.saw("session lists refused");
            if number_of(&e) != base + numbers[i] || !matches!(e, SdpParserError::Sequence { .. }) {
                return Err(format!("line {} of a session list is refused as {}: {values:?}", base + numbers[i], reftext::describe_err(&e)));
            }
            Ok(())
        }
    }
}
fn c25_gen(r: &mut Rng) -> Case {
    if r.chance(1, 3) {
        return Case::seeded("vector", r.u64());
    }
    let ops = few(r);
    Case::new("text", vec![odd_text(r, ops)])
}
fn c25_fixed() -> Vec<Case> {
    let mut v = corpus_cases("text");
    v.extend(sweep_cases("text"));
    v.extend(c12_fixed());
    v
}

const READER: &[&str] = &["the independent reader and writer in refparse.rs, reftext.rs and render.rs state the supported grammar", "url::Host::parse and std's number and IpAddr parsers read numbers and addresses"];

pub fn defs() -> Vec<Def> {
    let base = |id, rule, assumptions, fixed, gen, eval, quick, floors| Def {
        id,
        rule,
        assumptions,
        fixed,
        gen,
        eval,
        quick,
        floors,
        log: log::LevelFilter::Off,
        threads: THREADS,
    };
    let mut v = vec![
        base(
            "C03",
            "cases are texts (generated sessions in random spellings, corpus texts, both with lines damaged, moved, repeated, put in) and single attributes (valid, damaged, word soups); whatever is accepted is printed, parsed and printed again; non-trivial: the text or attribute was accepted, so that the round trip was observed",
            &["conv.rs reads every public field of the parsed values"],
            c03_fixed as fn() -> Vec<Case>,
            c03_gen as fn(&mut Rng) -> Case,
            c03_eval as fn(&mut Ctx, &Case) -> Verdict,
            500_000,
            &[("texts accepted", 20_000), ("attributes printed and parsed", 100_000)][..],
        ),
        base(
            "C10",
            "cases are sessions with known placement of every line (with blank lines, warnings, dtls-message, overridden lines mixed in), whose sections are also parsed without the others, and damaged texts whose accepted lines are counted and placed by our own assembler; non-trivial: the text was accepted and its content compared",
            READER,
            c10_fixed,
            c10_gen,
            c10_eval,
            250_000,
            &[("sessions with known placement", 20_000), ("texts accepted", 5_000), ("sections parsed without the others", 20_000)],
        ),
        base(
            "C11",
            "a case is one of the 43 kinds with a random value, put at random places at both levels by parsing, adding, setting and as direction of a new section; every case is non-trivial",
            READER,
            c11_fixed,
            c11_gen,
            c11_eval,
            150_000,
            &[("attributes put everywhere", 20_000)],
        ),
        base(
            "C12",
            "cases are texts of valid lines: generated sessions with up to five sections to which edits that break (or keep) a rule are applied, and enumerated combinations of line orders, connections and one broken section among good ones; non-trivial: all lines are valid, so that the verdict depends on the rules alone",
            READER,
            c12_fixed,
            c12_gen,
            c12_eval,
            300_000,
            &[("texts without a violation", 20_000), ("texts with a violation", 20_000)],
        ),
        base(
            "C13",
            "cases are sessions and damaged texts with unsupported and malformed lines put in, parsed in both modes with the log captured, and once more without the warned lines; non-trivial: verdict and warnings were compared with the reference",
            READER,
            c13_fixed,
            c13_gen,
            c13_eval,
            250_000,
            &[("texts accepted with warnings", 20_000), ("texts with malformed lines", 10_000), ("warnings found in the log", 20_000)],
        ),
        base(
            "C14",
            "cases are damaged texts, parsed in both modes, and damaged lines parsed with arbitrary numbers; non-trivial: at least one diagnostic was inspected",
            READER,
            c14_fixed,
            c14_gen,
            c14_eval,
            300_000,
            &[("line errors", 20_000), ("warnings", 20_000), ("sequence errors", 10_000), ("lines refused", 20_000)],
        ),
        base(
            "C15",
            "cases are sessions written in two spellings by our own writer, and valid or damaged texts respelled (line ends, blank lines, outer blanks, letter case, blank runs); non-trivial: both spellings were parsed and compared",
            READER,
            c15_fixed,
            c15_gen,
            c15_eval,
            250_000,
            &[("sessions written in two ways", 20_000), ("pairs of accepted spellings", 10_000), ("pairs of refused spellings", 10_000)],
        ),
        base(
            "C25",
            "cases are valid and damaged texts, parsed as a whole and through their lines and the section entry points, and random lists of parsed lines given to the section entry points; non-trivial: both ways were taken and compared",
            READER,
            c25_fixed,
            c25_gen,
            c25_eval,
            250_000,
            &[("texts assembled from their lines", 10_000), ("media lists accepted", 2_000), ("media lists refused", 2_000), ("session lists accepted", 2_000), ("session lists refused", 2_000)],
        ),
    ];
    for d in &mut v {
        if d.id == "C13" {
            d.log = log::LevelFilter::Trace;
        }
    }
    v
}
