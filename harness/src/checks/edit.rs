//! C19: editing calls against a plain record. C20: what is built prints as
//! standard SDP.
//!
//! C19 "media", "session": a history of calls, after each of which the object is
//!                         compared with the record and queried
//! C20 "attr", "session", "history": built objects are printed and read back
use super::common::*;
use super::text::normal;
use crate::conv;
use crate::gen;
use crate::kinds::{kind, KINDS};
use crate::refparse;
use crate::render::{Style, Writer};
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, s, u, V};
use std::str::FromStr;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::SdpMedia;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession, SdpType};

fn kind_of(r: &mut Rng, model: &V) -> &'static str {
    let l = model.get("attribute").list();
    if !l.is_empty() && r.chance(2, 3) {
        r.pick(l).tag()
    } else {
        r.pick(KINDS).tag
    }
}

fn remove(model: &mut V, tags: &[&str]) {
    model.get_mut("attribute").list_mut().retain(|a| !tags.contains(&a.tag()));
}
fn set(model: &mut V, a: V) {
    remove(model, &[a.tag()]);
    model.get_mut("attribute").list_mut().push(a);
}

/// An attribute, often of a kind that is there already.
fn some_attr(r: &mut Rng, model: &V, valid: bool) -> V {
    if r.chance(1, 3) {
        let t = kind_of(r, model);
        return gen::attr(r, t);
    }
    if valid && r.chance(5, 6) {
        return gen::media_attr(r);
    }
    gen::any_attr(r)
}

/// One editing call on a section and on its record.
pub(super) fn edit_media(r: &mut Rng, m: &mut SdpMedia, v: &mut V, valid: bool, cx: &mut Ctx) -> Verdict {
    let before = v.clone();
    let told = |what: String, ok: bool, want: bool| {
        if ok == want {
            Ok(())
        } else {
            Err(format!("{what} {} on {}", if ok { "succeeded" } else { "failed" }, crate::val::short(&before)))
        }
    };
    match r.n(12) {
        0..=2 => {
            let a = some_attr(r, v, valid);
            let ok = m.add_attribute(conv::to_attr(&a)).is_ok();
            cx.saw(if ok { "attributes added" } else { "attributes refused" });
            told(format!("add_attribute({a:?})"), ok, kind(a.tag()).media)?;
            if ok {
                v.get_mut("attribute").list_mut().push(a);
            }
        }
        3 | 4 => {
            let a = some_attr(r, v, valid);
            let ok = m.set_attribute(conv::to_attr(&a)).is_ok();
            cx.saw(if ok { "attributes set" } else { "attributes refused" });
            told(format!("set_attribute({a:?})"), ok, kind(a.tag()).media)?;
            if ok {
                set(v, a);
            }
        }
        5 => {
            let t = kind_of(r, v);
            m.remove_attribute(conv::attr_type(t));
            cx.saw("kinds removed");
            remove(v, &[t]);
        }
        6 => {
            let b = gen::bandwidth(r);
            m.add_bandwidth(conv::to_bandwidth(&b));
            v.get_mut("bandwidth").list_mut().push(b);
        }
        7 => {
            let c = gen::connection(r);
            m.set_connection(conv::to_connection(&c));
            v.set("connection", c);
        }
        8 => {
            let p = if valid { gen::num(r, 65535) } else { gen::num(r, 0xffff_ffff) };
            m.set_port(p as u32);
            v.get_mut("media").set("port", V::U(p));
        }
        9 => {
            let mut a = gen::attr(r, "Rtpmap");
            let pt = if valid { gen::fmt_pt(r) } else { gen::num(r, 255) };
            a.inner_mut().set("payload_type", V::U(pt));
            let ok = m.add_codec(conv::to_rtpmap(a.inner())).is_ok();
            cx.saw("codecs added");
            told(format!("add_codec({a:?})"), ok, true)?;
            match v.get_mut("media").get_mut("formats") {
                V::New("Integers", l) => l.list_mut().push(V::U(pt)),
                V::New(_, l) => l.list_mut().push(s(&pt.to_string())),
                _ => (),
            }
            v.get_mut("attribute").list_mut().push(a);
        }
        10 => {
            m.remove_codecs();
            cx.saw("codecs removed");
            if let V::New(_, l) = v.get_mut("media").get_mut("formats") {
                l.list_mut().clear();
            }
            remove(v, &["Rtpmap", "Fmtp", "Rtcpfb", "Sctpmap", "SctpPort"]);
        }
        _ => {
            let name = if r.bool() { "webrtc-datachannel".to_string() } else { gen::token(r) };
            let (port, streams) = (gen::num(r, 65535), gen::num(r, 65535));
            let size = if r.chance(1, 3) { 0 } else { gen::num(r, 0xffff_ffff) };
            let ok = m.add_datachannel(name.clone(), port as u16, streams as u16, size as u32).is_ok();
            cx.saw("data channels added");
            told("add_datachannel".into(), ok, true)?;
            let new_form = ["UdpDtlsSctp", "TcpDtlsSctp"].contains(&v.get("media").get("proto").tag());
            if new_form {
                v.get_mut("media").set("formats", new("Strings", V::L(vec![s(&name)])));
                set(v, new("SctpPort", V::U(port)));
            } else {
                v.get_mut("media").set("formats", new("Integers", V::L(vec![V::U(port)])));
                set(v, new("Sctpmap", V::M(vec![("port", V::U(port)), ("channels", V::U(streams))])));
            }
            if size > 0 {
                set(v, new("MaxMessageSize", V::U(size)));
            }
            v.get_mut("media").set("media", V::Unit("Application"));
        }
    }
    Ok(())
}

/// Look-ups against the record.
pub(super) fn query_media(r: &mut Rng, m: &SdpMedia, v: &V, cx: &mut Ctx) -> Verdict {
    for _ in 0..3 {
        let t = kind_of(r, v);
        let want: Vec<&V> = v.get("attribute").list().iter().filter(|a| a.tag() == t).collect();
        let all: Vec<V> = m.get_attributes_of_type(conv::attr_type(t)).into_iter().map(conv::attr).collect();
        same(&format!("get_attributes_of_type({t})"), &V::L(all), &V::L(want.iter().map(|x| (*x).clone()).collect()))?;
        let first = m.get_attribute(conv::attr_type(t)).map_or(V::Null, conv::attr);
        same(&format!("get_attribute({t})"), &first, want.first().map_or(&V::Null, |x| *x))?;
        cx.saw("look-ups in sections");
        if want.len() > 1 {
            cx.saw("look-ups of kinds that occur several times");
        }
    }
    Ok(())
}
pub(super) fn query_session(r: &mut Rng, x: &SdpSession, v: &V, cx: &mut Ctx) -> Verdict {
    for _ in 0..3 {
        let t = kind_of(r, v);
        let want = v.get("attribute").list().iter().find(|a| a.tag() == t);
        let first = x.get_attribute(conv::attr_type(t)).map_or(V::Null, conv::attr);
        same(&format!("get_attribute({t}) of the session"), &first, want.unwrap_or(&V::Null))?;
        cx.saw("look-ups in sessions");
    }
    same("get_version", &u(x.get_version()), v.get("version"))?;
    same("get_origin", &conv::origin(x.get_origin()), v.get("origin"))?;
    same("get_session", &x.get_session().as_ref().map_or(V::Null, |t| s(t)), v.get("session"))?;
    same("get_connection", &x.get_connection().as_ref().map_or(V::Null, conv::connection), v.get("connection"))?;
    let t = x.get_session_text();
    let want = if v.get("session").is_null() { " " } else { v.get("session").str() };
    if t != want {
        return Err(format!("get_session_text is {t:?} instead of {want:?}"));
    }
    Ok(())
}

fn start_media(r: &mut Rng) -> (SdpMedia, V) {
    if r.chance(1, 4) {
        let t = pick_text(r);
        if let Ok(x) = parse(&t) {
            if !x.media.is_empty() {
                let m = r.pick(&x.media).clone();
                let v = conv::media(&m);
                return (m, v);
            }
        }
    }
    let line = gen::media_line(r);
    let m = SdpMedia::new(conv::to_media_line(&line));
    let v = V::M(vec![
        ("media", line),
        ("connection", V::Null),
        ("bandwidth", V::L(vec![])),
        ("attribute", V::L(vec![])),
    ]);
    (m, v)
}
fn trimmed(n: &str) -> V {
    match n.trim() {
        "" => V::Null,
        t => s(t),
    }
}
fn start_session(r: &mut Rng) -> (SdpSession, V) {
    if r.chance(1, 4) {
        let t = pick_text(r);
        if let Ok(x) = parse(&t) {
            let v = conv::session(&x);
            return (x, v);
        }
    }
    let o = gen::origin(r);
    let name = match r.n(4) {
        0 => r.pick_s(&["", " ", "-", " -", "\t"]),
        _ => format!("{}{}{}", r.pick(&["", " "]), gen::text(r), r.pick(&["", " "])),
    };
    let x = SdpSession::new(0, conv::to_origin(&o), name.clone());
    let v = V::M(vec![
        ("version", V::U(0)),
        ("origin", o),
        ("session", trimmed(&name)),
        ("connection", V::Null),
        ("bandwidth", V::L(vec![])),
        ("timing", V::Null),
        ("attribute", V::L(vec![])),
        ("media", V::L(vec![])),
    ]);
    (x, v)
}
const NEW_SECTION_DIRS: &[&str] = &["Sendrecv", "Sendonly", "Recvonly", "Inactive", "Group", "Mid", "IceLite"];

pub(super) fn edit_session(r: &mut Rng, x: &mut SdpSession, v: &mut V, valid: bool, cx: &mut Ctx) -> Verdict {
    match r.n(14) {
        0 | 1 => {
            let a = if r.chance(2, 3) { gen::session_attr(r) } else { some_attr(r, v, false) };
            let ok = x.add_attribute(conv::to_attr(&a)).is_ok();
            cx.saw(if ok { "session attributes added" } else { "session attributes refused" });
            if ok != kind(a.tag()).session {
                return Err(format!("adding {a:?} to the session {}", if ok { "succeeded" } else { "failed" }));
            }
            if ok {
                v.get_mut("attribute").list_mut().push(a);
            }
        }
        2 => {
            let b = gen::bandwidth(r);
            x.add_bandwidth(conv::to_bandwidth(&b));
            v.get_mut("bandwidth").list_mut().push(b);
        }
        3 => {
            let c = gen::connection(r);
            x.set_connection(conv::to_connection(&c));
            v.set("connection", c);
        }
        4 => {
            let t = gen::timing(r);
            x.set_timing(conv::to_timing(&t));
            v.set("timing", t);
        }
        5 => {
            let n = r.n(3);
            let mut more = vec![];
            for _ in 0..n {
                let (m, w) = start_media(r);
                more.push(m);
                v.get_mut("media").list_mut().push(w);
            }
            x.extend_media(more);
            cx.saw("sections appended");
        }
        6 | 7 => {
            let line = gen::media_line(r);
            let a = if r.chance(3, 4) {
                let t = r.pick_s(NEW_SECTION_DIRS);
                gen::attr(r, &t)
            } else {
                gen::any_attr(r)
            };
            let addr = gen::typed(r);
            let port = if valid { gen::num(r, 65535) } else { gen::num(r, 0xffff_ffff) };
            let ok = x
                .add_media(
                    conv::to_media_value(line.get("media")),
                    conv::to_attr(&a),
                    port as u32,
                    conv::to_proto(line.get("proto")),
                    conv::to_typed(&addr),
                )
                .is_ok();
            cx.saw(if ok { "sections added" } else { "sections refused" });
            if ok != kind(a.tag()).media {
                return Err(format!("add_media with {a:?} {}", if ok { "succeeded" } else { "failed" }));
            }
            if ok {
                let w = V::M(vec![
                    (
                        "media",
                        V::M(vec![
                            ("media", line.get("media").clone()),
                            ("port", V::U(port)),
                            ("port_count", V::U(1)),
                            ("proto", line.get("proto").clone()),
                            ("formats", new("Integers", V::L(vec![]))),
                        ]),
                    ),
                    (
                        "connection",
                        V::M(vec![("address", addr), ("ttl", V::Null), ("amount", V::Null)]),
                    ),
                    ("bandwidth", V::L(vec![])),
                    ("attribute", V::L(vec![a])),
                ]);
                v.get_mut("media").list_mut().push(w);
            }
        }
        _ => {
            let n = x.media.len();
            if n > 0 && v.get("media").list().len() == n {
                let i = r.n(n);
                let w = &mut v.get_mut("media").list_mut()[i];
                edit_media(r, &mut x.media[i], w, valid, cx)?;
                query_media(r, &x.media[i], w, cx)?;
            }
        }
    }
    Ok(())
}

fn c19_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let n = r.range(1, 40);
    let mut log = vec![];
    let mut kept: Vec<(V, Box<dyn Fn() -> V>)> = vec![];
    let fail = |log: &[usize], m: String| Err(format!("after {} calls: {m}", log.len()));
    if c.mode == "media" {
        let (mut m, mut v) = start_media(&mut r);
        for i in 0..n {
            log.push(i);
            if r.chance(1, 10) {
                // go on with a copy; the other one must stay as it is
                let old = m;
                m = old.clone();
                kept.push((v.clone(), Box::new(move || conv::media(&old))));
                cx.saw("copies made in between");
            }
            if let Err(e) = edit_media(&mut r, &mut m, &mut v, false, cx) {
                return fail(&log, e);
            }
            cx.saw("editing calls");
            if let Err(e) = same("the section differs from the record (section versus record)", &conv::media(&m), &v)
                .and_then(|()| query_media(&mut r, &m, &v, cx))
            {
                return fail(&log, e);
            }
        }
    } else {
        let (mut x, mut v) = start_session(&mut r);
        for i in 0..n {
            log.push(i);
            if r.chance(1, 10) {
                let old = x;
                x = old.clone();
                kept.push((v.clone(), Box::new(move || conv::session(&old))));
                cx.saw("copies made in between");
            }
            if let Err(e) = edit_session(&mut r, &mut x, &mut v, false, cx) {
                return fail(&log, e);
            }
            cx.saw("editing calls");
            if let Err(e) = same("the session differs from the record (session versus record)", &conv::session(&x), &v)
                .and_then(|()| query_session(&mut r, &x, &v, cx))
            {
                return fail(&log, e);
            }
        }
    }
    for (v, now) in kept {
        same("a copy changed with its original", &now(), &v)?;
    }
    cx.interesting();
    Ok(())
}
fn c19_gen(r: &mut Rng) -> Case {
    Case::seeded(r.pick(&["media", "session", "media", "session", "media", "session", "new"]), r.u64())
}
/// Every pair of kinds: one is added twice, the other removed, set, looked up.
fn c19_fixed() -> Vec<Case> {
    vec![Case::seeded("kinds", 0)]
}
fn c19_kinds(cx: &mut Ctx) -> Verdict {
    let mut r = Rng::new(19);
    let line = gen::media_line(&mut r);
    for a in KINDS {
        // the kind of an attribute and of its name
        let x = gen::attr(&mut r, a.tag);
        let i = conv::to_attr(&x);
        if SdpAttributeType::from(&i) != conv::attr_type(a.tag) {
            return Err(format!("{x:?} is not of kind {}", a.tag));
        }
        if i.allowed_at_media_level() != a.media || i.allowed_at_session_level() != a.session {
            return Err(format!("{} is allowed at the wrong level", a.tag));
        }
        if !a.media {
            continue;
        }
        for b in KINDS {
            let mut m = SdpMedia::new(conv::to_media_line(&line));
            let mut v = vec![];
            for t in [a, b, a, b, a] {
                let y = gen::attr(&mut r, t.tag);
                if m.add_attribute(conv::to_attr(&y)).is_ok() {
                    v.push(y);
                }
            }
            let want = |f: &dyn Fn(&V) -> bool| V::L(v.iter().filter(|x| f(x)).cloned().collect());
            let got = |l: Vec<&SdpAttribute>| V::L(l.into_iter().map(conv::attr).collect());
            same(
                &format!("attributes of kind {} among {}", b.tag, a.tag),
                &got(m.get_attributes_of_type(conv::attr_type(b.tag))),
                &want(&|x| x.tag() == b.tag),
            )?;
            let mut k = m.clone();
            k.remove_attribute(conv::attr_type(b.tag));
            same(
                &format!("removing {} from {}", b.tag, a.tag),
                &got(k.get_attributes().iter().collect()),
                &want(&|x| x.tag() != b.tag),
            )?;
            let y = gen::attr(&mut r, b.tag);
            let mut k = m.clone();
            let ok = k.set_attribute(conv::to_attr(&y)).is_ok();
            if ok != b.media {
                return Err(format!("setting {} in a section", b.tag));
            }
            let mut w = want(&|x| x.tag() != b.tag);
            if ok {
                w.list_mut().push(y);
            }
            same(&format!("setting {} among {}", b.tag, a.tag), &got(k.get_attributes().iter().collect()), &w)?;
            let mut k = m.clone();
            k.remove_codecs();
            let codec = ["Rtpmap", "Fmtp", "Rtcpfb", "Sctpmap", "SctpPort"];
            same(
                &format!("removing codecs from {} and {}", a.tag, b.tag),
                &got(k.get_attributes().iter().collect()),
                &want(&|x| !codec.contains(&x.tag())),
            )?;
            cx.saw("pairs of kinds");
        }
    }
    cx.interesting();
    Ok(())
}
/// What the constructors of attribute values make of their arguments.
fn c19_new(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let r = &mut r;
    let x = gen::candidate(r);
    let w = conv::to_candidate(&x);
    let y = SdpAttributeCandidate::new(w.foundation, w.component, w.transport, w.priority, w.address, w.port, w.c_type);
    let mut want = x.clone();
    for f in ["raddr", "rport", "tcp_type", "generation", "ufrag", "networkcost"] {
        want.set(f, V::Null);
    }
    want.set("unknown_extensions", V::L(vec![]));
    same("SdpAttributeCandidate::new", &conv::candidate(&y), &want)?;
    let x = gen::attr(r, "Rtpmap");
    let w = conv::to_rtpmap(x.inner());
    let mut want = x.inner().clone();
    want.set("channels", V::Null);
    same("SdpAttributeRtpmap::new", &conv::rtpmap(&SdpAttributeRtpmap::new(w.payload_type, w.codec_name, w.frequency)), &want)?;
    let id = gen::num(r, 0xffff_ffff) as u32;
    let y = conv::ssrc(&SdpAttributeSsrc::new(id));
    same("SdpAttributeSsrc::new", &y, &V::M(vec![("id", u(id)), ("attribute", V::Null), ("value", V::Null)]))?;
    let port = gen::num(r, 65535) as u16;
    let y = SdpAttributeRtcp::new(port);
    if y.port != port || y.unicast_addr.is_some() {
        return Err(format!("SdpAttributeRtcp::new({port}) has port {} and an address: {}", y.port, y.unicast_addr.is_some()));
    }
    let n = r.range(1, 5);
    let ids: Vec<(String, bool)> = (0..n).map(|_| (gen::id(r), r.bool())).collect();
    let text: Vec<String> = ids.iter().map(|(i, p)| format!("{}{i}", if *p { "~" } else { "" })).collect();
    let y = SdpAttributeSimulcastVersion::new(&text.join(","));
    let got: Vec<(String, bool)> = y.ids.iter().map(|i| (i.id.clone(), i.paused)).collect();
    if got != ids {
        return Err(format!("SdpAttributeSimulcastVersion::new({:?}) is {got:?}", text.join(",")));
    }
    for (t, i) in text.iter().zip(&ids) {
        let y = SdpAttributeSimulcastId::new(t);
        if (y.id.clone(), y.paused) != *i || y.to_string() != *t {
            return Err(format!("SdpAttributeSimulcastId::new({t:?}) is {:?}, paused: {}", y.id, y.paused));
        }
    }
    cx.saw("constructors called");
    cx.interesting();
    Ok(())
}
fn c19_any(cx: &mut Ctx, c: &Case) -> Verdict {
    if c.mode == "new" {
        c19_new(cx, c)
    } else if c.mode == "kinds" {
        c19_kinds(cx)
    } else {
        c19_eval(cx, c)
    }
}

// ------------------------------------------------------------------ C20

fn left_out(a: &V) -> bool {
    a.tag() == "Fmtp" && *a.inner().get("parameters") == refparse::fmtp_defaults()
}
fn expected_attr(a: &V) -> V {
    let mut a = a.clone();
    if a.tag() == "MsidSemantic" && a.inner().get("msids").list().is_empty() {
        a.inner_mut().set("msids", V::L(vec![s("*")]));
    }
    a
}
fn named(t: &str, tag: &str) -> Verdict {
    let k = kind(tag);
    let ok = match t.split_once(':') {
        None => t == k.wire,
        Some((n, _)) => n == k.wire && !k.flag,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("an attribute of kind {tag} prints as {t:?}, its name is {}", k.wire))
    }
}
/// Keywords in their registered spelling, single blanks, nothing else: the
/// same characters as in the canonical text, parameters in any order.
fn spelled(cx: &mut Ctx, t: &str, v: &V) -> Verdict {
    let mut r = Rng::new(0);
    let mut w = Writer { r: &mut r, style: Style::default() };
    let canon = match v {
        V::New("Attribute", a) => w.attr_text(a),
        V::New("Media", m) => w.media_line(m)[2..].to_string(),
        V::New("Connection", c) => w.connection_line(c)[2..].to_string(),
        V::New("Origin", o) => w.origin_line(o)[2..].to_string(),
        V::New("Bandwidth", b) => w.bandwidth_line(b)[2..].to_string(),
        V::New("Timing", b) => w.timing_line(b)[2..].to_string(),
        V::New("Version", b) => b.u64().to_string(),
        _ => return Ok(()),
    };
    let chars = |x: &str| {
        let mut c: Vec<char> = x.chars().collect();
        c.sort_unstable();
        c
    };
    cx.saw("spellings compared");
    if t != canon && chars(t) != chars(&canon) {
        return Err(format!("printed as {t:?}, the registered spelling is {canon:?}"));
    }
    Ok(())
}
fn line_ends(t: &str) -> Verdict {
    if t.contains(['\r', '\n']) {
        return Err(format!("one value prints as several lines: {t:?}"));
    }
    Ok(())
}
fn check_attr(cx: &mut Ctx, v: &V) -> Verdict {
    if left_out(v) {
        return Ok(());
    }
    let a = conv::to_attr(v);
    if conv::attr(&a) != *v {
        cx.saw("not built");
        return Ok(());
    }
    let t = a.to_string();
    line_ends(&t)?;
    named(&t, v.tag())?;
    let want = expected_attr(v);
    spelled(cx, &t, &new("Attribute", want.clone()))?;
    match refparse::attribute(&t) {
        Ok(w) => same(&format!("an attribute printed as {t:?} says something else (printed versus built)"), &w, &want)?,
        Err(e) => return Err(format!("{v:?} prints as {t:?}, which is no valid attribute ({e:?})")),
    }
    match parse_attribute(&t) {
        Ok(SdpType::Attribute(b)) => same(&format!("an attribute printed as {t:?} is parsed differently (parsed versus built)"), &conv::attr(&b), &want)?,
        Ok(_) => return Err(format!("{t:?} is not parsed as an attribute")),
        Err(e) => return Err(format!("{v:?} prints as {t:?}, which is refused: {e}")),
    }
    if SdpAttribute::from_str(&t).is_err() {
        return Err(format!("{t:?} is refused as an attribute"));
    }
    cx.saw("attributes built, printed and read");
    cx.interesting();
    Ok(())
}

/// The lines a tree must print as, as (letter, value).
fn wanted(v: &V) -> Vec<(char, V)> {
    fn tail(v: &V, out: &mut Vec<(char, V)>) {
        for b in v.get("bandwidth").list() {
            out.push(('b', new("Bandwidth", b.clone())));
        }
        if !v.get("connection").is_null() {
            out.push(('c', new("Connection", v.get("connection").clone())));
        }
        for a in v.get("attribute").list() {
            if !left_out(a) {
                out.push(('a', new("Attribute", expected_attr(a))));
            }
        }
    }
    let mut out = vec![];
    let name = match v.get("session") {
        V::Null => s(""),
        x => x.clone(),
    };
    out.push(('v', new("Version", v.get("version").clone())));
    out.push(('o', new("Origin", v.get("origin").clone())));
    out.push(('s', new("Session", name)));
    if !v.get("timing").is_null() {
        out.push(('t', new("Timing", v.get("timing").clone())));
    }
    tail(v, &mut out);
    for m in v.get("media").list() {
        out.extend(section_lines(m));
    }
    fn section_lines(m: &V) -> Vec<(char, V)> {
        let mut line = m.get("media").clone();
        // numbers and strings look the same in an m=application line
        if line.get("media").tag() == "Application" {
            if let V::New("Integers", l) = line.get("formats").clone() {
                line.set(
                    "formats",
                    new("Strings", V::L(l.list().iter().map(|n| s(&n.u64().to_string())).collect())),
                );
            }
        }
        let mut out = vec![('m', new("Media", line))];
        tail(m, &mut out);
        out
    }
    out
}
fn same_line(what: &str, got: &V, want: &V) -> Verdict {
    let trim = |v: &V| match v {
        V::New("Session", x) => new("Session", s(x.str().trim())),
        x => x.clone(),
    };
    same(what, &trim(got), &trim(want))
}
fn check_lines(cx: &mut Ctx, t: &str, want: &[(char, V)]) -> Verdict {
    let Some(body) = t.strip_suffix("\r\n") else {
        return Err(format!("printed text does not end a line: {:?}", clip(t)));
    };
    let lines: Vec<&str> = body.split("\r\n").collect();
    for l in &lines {
        line_ends(l)?;
        if l.trim().is_empty() {
            return Err(format!("printed text has an empty line: {:?}", clip(t)));
        }
    }
    let letters: String = lines.iter().filter_map(|l| l.chars().next()).collect();
    let expect: String = want.iter().map(|x| x.0).collect();
    if letters != expect {
        return Err(format!("printed lines are {letters}, must be {expect}: {:?}", clip(t)));
    }
    for (l, (_, w)) in lines.iter().zip(want) {
        if l.as_bytes().get(1) != Some(&b'=') {
            return Err(format!("a line is printed as {l:?}"));
        }
        if let V::New("Attribute", a) = w {
            named(&l[2..], a.tag())?;
        }
        spelled(cx, &l[2..], w)?;
        match refparse::line(l) {
            Ok(g) => same_line(&format!("a line printed as {l:?} says something else (printed versus built)"), &g, w)?,
            Err(e) => return Err(format!("{} is printed as {l:?}, which is no valid line ({e:?})", crate::val::short(w))),
        }
        match parse_sdp_line(l, 0) {
            Ok(g) => same_line(&format!("a line printed as {l:?} is parsed differently (parsed versus built)"), &conv::sdp_type(&g.sdp_type), w)?,
            Err(e) => return Err(format!("{} is printed as {l:?}, which is refused: {e}", crate::val::short(w))),
        }
        cx.saw("lines printed and read");
    }
    Ok(())
}
fn c20_session(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let size = if r.bool() { gen::SMALL } else { gen::MEDIUM };
    let v = gen::session(&mut r, size);
    let Ok(x) = conv::to_session(&v) else {
        cx.saw("not built");
        return Ok(());
    };
    if conv::session(&x) != v {
        cx.saw("not built");
        return Ok(());
    }
    cx.interesting();
    let t = x.to_string();
    check_lines(cx, &t, &wanted(&v))?;
    match parse_sdp(&t, true) {
        Ok(y) => same(&format!("a session printed as {:?} is parsed differently (parsed versus built)", clip(&t)), &normal(&conv::session(&y)), &normal(&v))?,
        Err(e) => return Err(format!("a session printed as {:?} is refused: {e}", clip(&t))),
    }
    cx.saw("sessions built, printed and parsed");
    for (m, w) in x.media.iter().zip(v.get("media").list()) {
        let t = m.to_string();
        let mut one = v.clone();
        one.set("media", V::L(vec![w.clone()]));
        let l = wanted(&one);
        let at = l.iter().position(|x| x.0 == 'm').unwrap_or(0);
        check_lines(cx, &t, &l[at..])?;
        cx.saw("sections built, printed and read");
    }
    Ok(())
}
fn c20_history(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let (mut x, mut v) = start_session(&mut r);
    for _ in 0..r.range(1, 25) {
        if edit_session(&mut r, &mut x, &mut v, true, cx).is_err() {
            cx.saw("not built");
            return Ok(());
        }
    }
    // every section needs a format
    for i in 0..x.media.len() {
        let empty = match v.get("media").list()[i].get("media").get("formats") {
            V::New(_, l) => l.list().is_empty(),
            _ => false,
        };
        if empty {
            let mut a = gen::attr(&mut r, "Rtpmap");
            let pt = gen::fmt_pt(&mut r);
            a.inner_mut().set("payload_type", V::U(pt));
            let _ = x.media[i].add_codec(conv::to_rtpmap(a.inner()));
            let w = &mut v.get_mut("media").list_mut()[i];
            match w.get_mut("media").get_mut("formats") {
                V::New("Integers", l) => l.list_mut().push(V::U(pt)),
                V::New(_, l) => l.list_mut().push(s(&pt.to_string())),
                _ => (),
            }
            w.get_mut("attribute").list_mut().push(a);
        }
    }
    if conv::session(&x) != v {
        cx.saw("not built");
        return Ok(());
    }
    cx.interesting();
    cx.saw("edited sessions printed and read");
    check_lines(cx, &x.to_string(), &wanted(&v))
}
fn c20_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "attr" => {
            let mut r = Rng::new(c.seed);
            let v = gen::any_attr(&mut r);
            check_attr(cx, &v)
        }
        "kind" => {
            let mut r = Rng::new(c.seed);
            for _ in 0..2000 {
                let v = gen::attr(&mut r, &c.text[0]);
                check_attr(cx, &v)?;
            }
            cx.saw("kinds built on their own");
            Ok(())
        }
        "history" => c20_history(cx, c),
        _ => c20_session(cx, c),
    }
}
fn c20_gen(r: &mut Rng) -> Case {
    let m = match r.n(8) {
        0..=3 => "attr",
        4 | 5 => "session",
        _ => "history",
    };
    Case::seeded(m, r.u64())
}
fn c20_fixed() -> Vec<Case> {
    KINDS
        .iter()
        .map(|k| Case {
            mode: "kind",
            seed: 1,
            text: vec![k.tag.to_string()],
        })
        .collect()
}

pub fn defs() -> Vec<Def> {
    vec![
        Def {
            id: "C19",
            rule: "a case is a history of 1 to 40 editing calls on a section or session, started from a constructor or a parsed text; after each call the whole object and three look-ups are compared with a plain record edited alongside; all pairs of kinds are tried by add, set, remove, look-up and remove_codecs; non-trivial: the history ran to its end",
            assumptions: &["the editing rules of the record are those of the property and of the doc comments"],
            fixed: c19_fixed,
            gen: c19_gen,
            eval: c19_any,
            quick: 120_000,
            floors: &[("editing calls", 1_000_000), ("look-ups in sections", 1_000_000), ("look-ups of kinds that occur several times", 20_000), ("pairs of kinds", 1_500), ("data channels added", 50_000), ("sections refused", 5_000), ("constructors called", 5_000)],
            log: log::LevelFilter::Off,
            threads: THREADS,
        },
        Def {
            id: "C20",
            rule: "a case is an attribute or session built from random values of all public fields in their ranges, or a session after a history of editing calls; it is printed, its line structure checked, every line decoded by the independent reader and by the parser, and its characters compared with those of the independent writer's canonical line; non-trivial: it was built as intended and printed",
            assumptions: &["the ranges of the generator are those the grammar can carry (no blanks inside tokens, no separators inside names)", "an fmtp with only default parameters may be left out, msid-semantic without ids may print as *"],
            fixed: c20_fixed,
            gen: c20_gen,
            eval: c20_eval,
            quick: 300_000,
            floors: &[("attributes built, printed and read", 100_000), ("sessions built, printed and parsed", 40_000), ("edited sessions printed and read", 40_000), ("spellings compared", 500_000), ("kinds built on their own", 43)],
            log: log::LevelFilter::Off,
            threads: THREADS,
        },
    ]
}
