//! C01: nothing panics, aborts, overflows or hangs, whatever the text.
//!
//! Every text goes through every entry point at the most talkative log level,
//! and whatever comes out is used in every way there is. Panics, integer
//! overflows and failed debug assertions surface as panics, stack overflows
//! and aborts take the worker down, hangs are seen by the supervisor.
use super::common::*;
use super::cost;
use super::edit;
use crate::conv;
use crate::gen;
use crate::kinds::{kind, KINDS};
use crate::mutate;
use crate::render::{Style, Writer};
use crate::rng::{hash_str, Rng};
use crate::run::*;
use crate::val::{new, V};
use std::error::Error;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::*;
use webrtc_sdp::network;
use webrtc_sdp::*;

/// Formats into nothing, but counts.
struct Count(usize);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
fn shown<T: std::fmt::Display>(x: &T) -> usize {
    use std::fmt::Write;
    let mut c = Count(0);
    let _ = write!(c, "{x}");
    c.0
}
fn debugged<T: std::fmt::Debug>(x: &T) -> usize {
    use std::fmt::Write;
    let mut c = Count(0);
    let _ = write!(c, "{x:?}");
    let _ = write!(c, "{x:#?}");
    c.0
}
fn serialized<T: serde::Serialize>(x: &T) -> usize {
    let mut n = serde_json::to_vec(x).map_or(0, |v| v.len());
    n += serde_json::to_value(x).map_or(0, |_| 1);
    n
}

fn use_internal(e: &SdpParserInternalError) {
    shown(e);
    debugged(e);
    let c = e.clone();
    shown(&c);
    let mut s = e.source();
    while let Some(x) = s {
        shown(&x);
        debugged(&x);
        s = x.source();
    }
}
fn use_error(e: &SdpParserError) {
    shown(e);
    debugged(e);
    serialized(e);
    let c = e.clone();
    shown(&c);
    let mut s = e.source();
    while let Some(x) = s {
        shown(&x);
        debugged(&x);
        s = x.source();
    }
    match e {
        SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => {
            use_internal(error)
        }
        SdpParserError::Sequence { .. } => (),
    }
}
fn internal<T>(r: Result<T, SdpParserInternalError>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            use_internal(&e);
            None
        }
    }
}
fn outer<T>(r: Result<T, SdpParserError>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            use_error(&e);
            None
        }
    }
}

fn use_attr(a: &SdpAttribute) {
    let t = a.to_string();
    debugged(a);
    serialized(a);
    let b = a.clone();
    shown(&b);
    conv::attr(a);
    let k = SdpAttributeType::from(a);
    shown(&k);
    a.allowed_at_session_level();
    a.allowed_at_media_level();
    let mut an = StatefulSdpAnonymizer::new();
    let m = a.masked_clone(&mut an);
    shown(&m);
    shown(&a.masked_clone(&mut an));
    internal(SdpAttribute::from_str(&t));
    if let SdpAttribute::Fmtp(f) = a {
        shown(&f.parameters);
    }
}
fn use_address(a: &Address) {
    shown(a);
    debugged(a);
    serialized(a);
    let b = a.clone();
    let _ = *a == b;
    let mut an = StatefulSdpAnonymizer::new();
    shown(&an.mask_address(a));
    shown(&an.mask_address(&b));
}
fn use_typed(a: &ExplicitlyTypedAddress) {
    shown(a);
    debugged(a);
    serialized(a);
    shown(&a.address_type());
    let b = a.clone();
    let _ = *a == b;
    let mut an = StatefulSdpAnonymizer::new();
    shown(&an.mask_typed_address(a));
    use_address(&Address::from(b));
    if let ExplicitlyTypedAddress::Ip(i) = a {
        network::ip_address_to_string(*i);
    }
}
fn use_media(m: &SdpMedia) {
    shown(m);
    debugged(m);
    serialized(m);
    let c = m.clone();
    m.get_type();
    m.get_port();
    m.get_port_count();
    m.get_proto();
    shown(m.get_formats());
    m.get_bandwidth();
    m.get_connection();
    for a in m.get_attributes() {
        let t = SdpAttributeType::from(a);
        m.get_attribute(t);
        m.get_attributes_of_type(SdpAttributeType::from(a));
    }
    let mut an = StatefulSdpAnonymizer::new();
    shown(&c.masked_clone(&mut an));
}
fn use_session(x: &SdpSession, seed: u64) {
    let t = x.to_string();
    debugged(x);
    serialized(x);
    x.get_version();
    use_typed(&x.get_origin().unicast_addr);
    x.get_session();
    x.get_session_text();
    if let Some(c) = x.get_connection() {
        shown(c);
        use_typed(&c.address);
    }
    for w in &x.warnings {
        use_error(w);
    }
    for a in &x.attribute {
        x.get_attribute(SdpAttributeType::from(a));
    }
    let big = x.media.len() + x.attribute.len() > 300 || t.len() > 40_000;
    for m in &x.media {
        if !big {
            use_media(m);
        }
    }
    let mut an = StatefulSdpAnonymizer::new();
    let c = x.masked_clone(&mut an);
    shown(&c);
    let d = c.masked_clone(&mut an);
    serialized(&d);
    outer(parse_sdp(&t, true));
    outer(parse_sdp(&c.to_string(), false));
    if big {
        return;
    }
    for a in x.attribute.iter().chain(x.media.iter().flat_map(|m| m.get_attributes())) {
        use_attr(a);
    }
    // editing it, with no regard for what is proper
    let mut r = Rng::new(seed);
    let mut v = conv::session(x);
    let mut y = x.clone();
    let mut cx = Ctx::default();
    for _ in 0..4 {
        if edit::edit_session(&mut r, &mut y, &mut v, false, &mut cx).is_err() {
            v = conv::session(&y);
        }
    }
    for m in &mut y.media {
        let mut v = conv::media(m);
        for _ in 0..3 {
            if edit::edit_media(&mut r, m, &mut v, false, &mut cx).is_err() {
                v = conv::media(m);
            }
        }
        use_media(m);
    }
    shown(&y);
    debugged(&y);
    serialized(&y);
    shown(&y.masked_clone(&mut an));
}
fn use_type(t: &SdpType) {
    debugged(t);
    serialized(t);
    conv::sdp_type(t);
    match t {
        SdpType::Attribute(a) => use_attr(a),
        SdpType::Bandwidth(b) => {
            shown(b);
        }
        SdpType::Connection(c) => {
            shown(c);
            use_typed(&c.address);
            shown(&c.masked_clone(&mut StatefulSdpAnonymizer::new()));
        }
        SdpType::Media(m) => {
            shown(m);
            let m = SdpMedia::new(m.clone());
            use_media(&m);
        }
        SdpType::Origin(o) => {
            shown(o);
            use_typed(&o.unicast_addr);
            shown(&o.masked_clone(&mut StatefulSdpAnonymizer::new()));
        }
        SdpType::Timing(t) => {
            shown(t);
        }
        _ => (),
    }
}

fn line_entries(text: &str) {
    for n in [0, 7, usize::MAX] {
        if let Some(l) = outer(parse_sdp_line(text, n)) {
            debugged(&l);
            serialized(&l);
            use_type(&l.sdp_type);
        }
    }
}
fn small_entries(text: &str) {
    if let Some(t) = internal(parse_attribute(text)) {
        use_type(&t);
    }
    if let Some(a) = internal(SdpAttribute::from_str(text)) {
        use_attr(&a);
    }
    if let Some(t) = internal(parse_media(text)) {
        use_type(&t);
    }
    if let Some(a) = internal(Address::from_str(text)) {
        use_address(&a);
    }
    if let Some(a) = internal(network::parse_unicast_address(text)) {
        use_address(&a);
    }
    internal(network::parse_network_type(text));
    if let Some(t) = internal(network::parse_address_type(text)) {
        shown(&t);
    }
    if let Some(t) = internal(AddressType::from_str(text)) {
        debugged(&t);
    }
    for ty in [AddressType::IpV4, AddressType::IpV6] {
        if let Some(a) = internal(ExplicitlyTypedAddress::try_from((ty, text))) {
            use_typed(&a);
        }
    }
    internal(SdpAttributeFingerprintHashType::try_from_name(text));
    for h in [
        SdpAttributeFingerprintHashType::Sha1,
        SdpAttributeFingerprintHashType::Sha512,
    ] {
        shown(&h);
        h.octet_count();
        if let Some(o) = internal(h.parse_octets(text)) {
            if let Some(f) = internal(SdpAttributeFingerprint::try_from((h, o))) {
                use_attr(&SdpAttribute::Fingerprint(f));
            }
        }
        internal(SdpAttributeFingerprint::try_from((
            SdpAttributeFingerprintHashType::Sha1,
            text.as_bytes().to_vec(),
        )));
    }
    let v = SdpAttributeSimulcastVersion::new(text);
    shown(&v);
    shown(&SdpAttributeSimulcastId::new(text));
    let mut an = StatefulSdpAnonymizer::new();
    an.mask_host(text);
    an.mask_origin_user(text);
    an.mask_ice_password(text);
    an.mask_ice_user(text);
    an.mask_cert_finger_print(text.as_bytes());
    an.mask_cname(text);
}
fn vectors(text: &str, seed: u64) {
    let mut r = Rng::new(seed);
    let mut base = vec![];
    for (i, l) in text.lines().enumerate().take(200) {
        if let Ok(l) = parse_sdp_line(l, i) {
            base.push((l.text, i));
        }
    }
    let make = |r: &mut Rng| -> Vec<SdpLine> {
        let mut b = base.clone();
        match r.n(4) {
            0 => r.shuffle(&mut b),
            1 => {
                let i = r.n(b.len() + 1);
                b.drain(..i);
            }
            2 => {
                if let Some(i) = b.iter().position(|l| l.0.starts_with("m=")) {
                    b.drain(..i);
                }
            }
            _ => {
                let i = r.n(b.len() + 1);
                b.truncate(i);
            }
        }
        b.iter()
            .filter_map(|(t, i)| parse_sdp_line(t, *i).ok())
            .collect()
    };
    for _ in 0..2 {
        if let Some(ms) = outer(parse_media_vector(&mut make(&mut r))) {
            for m in &ms {
                use_media(m);
            }
        }
        let o = SdpOrigin {
            username: text.chars().take(9).collect(),
            session_id: u64::MAX,
            session_version: 0,
            unicast_addr: ExplicitlyTypedAddress::from(std::net::Ipv4Addr::new(0, 0, 0, 0)),
        };
        let mut x = SdpSession::new(0, o, text.chars().take(50).collect());
        outer(x.parse_session_vector(&mut make(&mut r)));
        shown(&x);
        debugged(&x);
    }
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let made;
    let text: &str = if c.mode == "long" {
        made = long_text(c.seed);
        &made
    } else if c.mode == "family" {
        cx.saw("elements repeated some hundred times");
        made = family_text(c.seed);
        &made
    } else {
        &c.text[0]
    };
    let seed = hash_str(text);
    cx.interesting();
    let heavy = text.len() > 20_000;
    match parse_sdp(text, false) {
        Ok(x) => {
            cx.saw("accepted sessions used in every way");
            if !x.warnings.is_empty() {
                cx.saw("accepted with warnings");
            }
            use_session(&x, seed);
        }
        Err(e) => {
            cx.saw(match e {
                SdpParserError::Line { .. } => "line errors",
                SdpParserError::Unsupported { .. } => "unsupported errors",
                SdpParserError::Sequence { .. } => "sequence errors",
            });
            use_error(&e);
        }
    }
    outer(parse_sdp(text, true));
    if !heavy {
        vectors(text, seed);
    }
    let mut n = 0;
    for l in text.lines().take(60) {
        line_entries(l);
        if let Some(v) = l.get(2..) {
            n += usize::from(SdpAttribute::from_str(v).is_ok());
        }
    }
    cx.saw_n("attributes accepted on their own", n as u64);
    line_entries(text);
    small_entries(text);
    Ok(())
}

// ------------------------------------------------------------------ texts

const NASTY: &[&str] = &[
    "\0", "é", "\u{a0}", "\u{85}", "\u{2028}", "\u{3000}", "\u{feff}", "İ", "ı", "ſ", "\u{212a}", "ß", "ẞ",
    "ŉ", "ﬃ", "\u{345}", "\u{301}", "🙂", "\u{10ffff}", "\u{200d}", "\u{ad}", "\u{1f}", "\x7f", "\u{b}", "\u{c}",
    "٣", "Ⅷ", "％", "。", "xn--", "xn--a", "xn--a-ecp.ru", "%00", "%zz", "%", "\r", "\n", "\r\n", "\t", " ", "=", ":", "[", "]", ";", ",", "/",
    "~", "-", "*", ".", "+", "[[[[", "]]]]", "::", "..", ";;", ",,", "//", "--", "~~", "[]", "[x=", "[::", "0x", "1e999",
    "-inf", "NaN",
];

fn nasty(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        return char::from_u32((r.u64() % 0x11_0000) as u32).unwrap_or('\u{fffd}').to_string();
    }
    r.pick_s(NASTY)
}
fn spoil(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..r.range(1, 4) {
        let i = r.n(c.len() + 1);
        match r.n(5) {
            0 if i < c.len() => c[i] = nasty(r),
            1 if i < c.len() => {
                c.remove(i);
            }
            2 => {
                let x = nasty(r);
                // at a word boundary
                let b: Vec<usize> = (0..c.len()).filter(|i| " :;,=/[]-~.".contains(&c[*i])).collect();
                let j = if b.is_empty() { i } else { *r.pick(&b) + r.n(2) };
                c.insert(j.min(c.len()), x);
            }
            3 => c.truncate(i),
            _ => {
                let x = nasty(r);
                c.insert(i, x);
            }
        }
    }
    c.concat()
}
/// (start, end) of the words of a line: between any separators, or blanks only.
fn words_of(t: &str, all: bool) -> Vec<(usize, usize)> {
    let sep = |c: char| c == ' ' || c == ':' || all && "/;,=[]-~.".contains(c);
    let mut v = vec![];
    let mut from = 0;
    for (i, c) in t.char_indices().chain([(t.len(), ' ')]) {
        if sep(c) {
            if i > from {
                v.push((from, i));
            }
            from = i + c.len_utf8();
        }
    }
    v
}
const WIDE: [&str; 4] = ["é", "€", "🙂", "İ"];
/// A word with a wide character in it: of the same length in bytes, of the same
/// length in characters, or of any small length.
fn widened(r: &mut Rng, t: &str) -> String {
    let b = r.bool();
    let w = words_of(t, b);
    if w.is_empty() {
        return r.pick_s(&WIDE);
    }
    let (from, to) = *r.pick(&w);
    let old: Vec<char> = t[from..to].chars().collect();
    let x = r.pick_s(&WIDE);
    let new: String = match r.n(3) {
        0 if to - from >= x.len() && t[from..to].is_ascii() => {
            let i = from + r.n(to - from - x.len() + 1);
            format!("{}{x}{}", &t[from..i], &t[i + x.len()..to])
        }
        1 => {
            let i = r.n(old.len());
            old.iter().enumerate().map(|(j, c)| if i == j { x.clone() } else { c.to_string() }).collect()
        }
        _ => {
            let n = r.n(13);
            let i = r.n(n + 1);
            let a = r.pick_s(&["a", "1", "A", "0"]);
            (0..=n).map(|j| if i == j || r.chance(1, 6) { x.clone() } else { a.clone() }).collect()
        }
    };
    format!("{}{new}{}", &t[..from], &t[to..])
}
fn wild(r: &mut Rng) -> String {
    let n = r.range(0, 40);
    (0..n)
        .map(|_| match r.n(4) {
            0 => nasty(r),
            1 => r.pick_s(mutate::WORDS),
            2 => r.pick_s(mutate::NUMS),
            _ => r.pick_s(&["a=", "m=", "c=", "\r\n", " ", ":", "v=0\r\n", "="]),
        })
        .collect()
}
/// Texts with something very long in them.
fn long_text(seed: u64) -> String {
    let mut r = Rng::new(seed);
    let unit = if r.bool() {
        nasty(&mut r)
    } else {
        r.pick_s(&[
            "a", "1", " ", "1 ", "1,", "1;", "1/", "a=b;", "[", "]", "[x=1,y=2] ", "~a,", "a:", "AA:", "1-2,", "é", "a.", ":", "96 ",
            "a=sendrecv\r\n", "\r\n", "\n", "m=audio 9 RTP/AVP 0\r\n", "c=IN IP4 1.2.3.4\r\n", "a=x-y\r\n", "b=AS:1\r\n", "t=0 0\r\n", "rid=", "x=[",
        ])
    };
    let n = [100, 1000, 5000, 20_000, 60_000][r.n(5)] / unit.len().max(1) + 1;
    let long = unit.repeat(n);
    let mut l: Vec<String> = vec![
        "v=0".into(),
        "o=- 0 0 IN IP4 127.0.0.1".into(),
        "s=-".into(),
        "t=0 0".into(),
        "c=IN IP4 0.0.0.0".into(),
        "m=video 9 UDP/TLS/RTP/SAVPF 96".into(),
    ];
    match r.n(5) {
        0 => {
            let i = r.n(l.len() + 1);
            l.insert(i, long);
        }
        1 => {
            let i = r.n(l.len());
            let j = r.n(l[i].len() + 1);
            l[i].insert_str(j, &long);
        }
        _ => {
            let k = r.pick(KINDS);
            let a = gen::attr(&mut r, k.tag);
            let mut t = line_of(&mut r, Style::default(), &new("Attribute", a));
            let c: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            let j = *r.pick(&c);
            t.insert_str(j, &long);
            let i = if k.media { l.len() } else { 4 };
            l.insert(i, t);
        }
    }
    join(&l)
}

/// Something repeated often: around the limits of the small integer types.
fn family_text(seed: u64) -> String {
    static LIST: std::sync::OnceLock<Vec<cost::Family>> = std::sync::OnceLock::new();
    let mut r = Rng::new(seed);
    let n = *r.pick(&[2, 16, 17, 33, 65, 127, 128, 129, 130, 255, 256, 257, 260, 300]);
    if r.bool() {
        r.pick(LIST.get_or_init(cost::list)).text(n)
    } else {
        cost::random(r.u64()).text(n)
    }
}

fn full(line: &str, media: bool) -> String {
    let (s, m) = if media { ("", line) } else { (line, "") };
    format!("v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n{s}\r\nm=video 9 UDP/TLS/RTP/SAVPF 96\r\n{m}\r\n")
}
fn gen_case(r: &mut Rng) -> Case {
    let text = match r.n(18) {
        16 | 17 => {
            let k = r.pick(KINDS);
            let l = if r.chance(1, 8) {
                any_line(r)
            } else {
                let a = gen::attr(r, k.tag);
                let style = Style {
                    spelling: r.chance(1, 4),
                    order: r.chance(1, 4),
                };
                line_of(r, style, &new("Attribute", a))
            };
            let mut l = widened(r, &l);
            if r.chance(1, 4) {
                l = widened(r, &l);
            }
            if r.chance(1, 3) {
                return Case::one("text", &l);
            }
            full(&l, k.media)
        }
        0 => wild(r),
        1 => {
            let n = r.range(1, 3);
            let t = odd_text(r, n);
            spoil(r, &t)
        }
        2 => near_text(r, 1),
        3 => return Case::seeded("long", r.u64()),
        9 if r.chance(1, 4) => return Case::seeded("family", r.u64()),
        4 => {
            let v = gen::typed(r);
            let t = V::list(&V::L(vec![v]))
                .iter()
                .map(|v| {
                    let mut w = Writer {
                        r,
                        style: Style::default(),
                    };
                    let p = w.typed(v);
                    w.emit(&p)
                })
                .collect::<String>();
            let a = t.split(' ').next_back().unwrap_or("").to_string();
            spoil(r, &a)
        }
        5 => {
            // the same text in one of the crowded spellings
            let (_, l) = truth_lines(r, gen::SMALL, Style { spelling: true, order: true });
            let t = ends(r, &l);
            spoil(r, &t)
        }
        6..=8 => {
            let l = any_line(r);
            let l = spoil(r, &l);
            full(&l, r.bool())
        }
        _ => {
            let k = r.pick(KINDS);
            let a = gen::attr(r, k.tag);
            let style = Style {
                spelling: r.bool(),
                order: r.bool(),
            };
            let l = line_of(r, style, &new("Attribute", a));
            let l = match r.n(4) {
                0 => format!("a={}:{}", k.wire, wild(r)),
                1 => mutate::some(r, &l),
                _ => spoil(r, &l),
            };
            if r.chance(1, 3) {
                return Case::one("text", &l);
            }
            full(&l, k.media)
        }
    };
    Case::one("text", &text)
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    let mut r = Rng::new(99);
    for t in crate::corpus::all() {
        v.push(Case::one("text", t));
        for i in 0..6 {
            let c: Vec<usize> = t.char_indices().map(|x| x.0).collect();
            v.push(Case::one("text", &t[..c[c.len() * i / 6]]));
        }
    }
    // short values of everything
    let small = [" ", ":", ";", ",", "=", "/", "[", "]", "~", "-", "*", ".", "+", "0", "1", "9", "a", "é", "İ", "\0", "\t"];
    let tiny = [" ", ":", ";", ",", "=", "/", "[", "]", "~", "-", "1", "a", "é"];
    let mut heads: Vec<String> = KINDS.iter().map(|k| format!("a={}:", k.wire)).collect();
    heads.extend(["", "a=", "b=", "c=", "m=", "o=", "s=", "t=", "v=", "e=", "i=", "k=", "p=", "r=", "u=", "z="].map(String::from));
    heads.extend(
        [
            "a=fmtp:96 ", "a=fmtp:96 a", "a=imageattr:* send ", "a=imageattr:* send [x=", "a=imageattr:* send [x=1,y=", "a=imageattr:* send [x=1,y=1,sar=",
            "a=imageattr:* send [x=1,y=1,par=", "a=simulcast:send ", "a=simulcast:send rid=", "a=rid:a send ", "a=rid:a send pt=", "a=extmap:1", "a=ssrc:1 ",
            "a=rtcp-fb:* ", "a=rtcp-fb:* nack ", "a=fingerprint:sha-1 ", "c=IN IP4 ", "c=IN IP6 ", "m=audio 9 RTP/AVP ", "m=audio ", "a=candidate:1 1 udp 1 1.1.1.1 1 typ host ",
            "a=rtcp:9 ", "a=rtcp:9 IN IP4 ", "b=AS", "a=ssrc-group:FID ", "a=group:BUNDLE", "a=msid:a", "a=rtpmap:96 ", "a=sctpmap:1 ", "a=remote-candidates:1 ",
        ]
        .map(String::from),
    );
    for h in &heads {
        v.push(Case::one("text", h));
        for a in small {
            v.push(Case::one("text", &format!("{h}{a}")));
            for b in small {
                v.push(Case::one("text", &format!("{h}{a}{b}")));
            }
        }
        for a in tiny {
            for b in tiny {
                for c in tiny {
                    v.push(Case::one("text", &format!("{h}{a}{b}{c}")));
                }
            }
        }
    }
    // a nasty character at every place of every kind of line
    for k in KINDS {
        for _ in 0..if k.flag { 1 } else { 3 } {
            let a = gen::attr(&mut r, k.tag);
            let l = line_of(&mut r, Style::default(), &new("Attribute", a));
            for (i, _) in l.char_indices().take(120) {
                for x in ["\0", "é", "İ", "\u{2003}", "🙂", " ", ":", "[", "]", ";"] {
                    let mut t = l.clone();
                    t.insert_str(i, x);
                    v.push(Case::one("text", &full(&t, kind(k.tag).media)));
                }
                v.push(Case::one("text", &l[..i]));
            }
        }
    }
    // a wide character in every word, its length in bytes kept
    for k in KINDS {
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..8 {
            let a = gen::attr(&mut r, k.tag);
            let l = line_of(&mut r, Style::default(), &new("Attribute", a));
            if !l.is_ascii() {
                continue;
            }
            for all in [false, true] {
                for (n, (from, to)) in words_of(&l, all).into_iter().take(24).enumerate() {
                    if !seen.insert((all, n, to - from)) {
                        continue;
                    }
                    for x in WIDE {
                        for i in (from..to).filter(|i| i + x.len() <= to).take(20) {
                            let t = format!("{}{x}{}", &l[..i], &l[i + x.len()..]);
                            v.push(Case::one("text", &full(&t, k.media)));
                        }
                    }
                }
            }
        }
    }
    // every element many times
    for f in cost::list() {
        for n in [130, 300] {
            v.push(Case::one("text", &f.text(n)));
        }
        if f.unit.len() < 8 && !f.unit.contains('\n') {
            for n in [33_000, 66_000] {
                v.push(Case::one("text", &f.text(n)));
            }
        }
    }
    // megabytes
    for (h, u, n) in [
        ("", "a", 3_000_000),
        ("", "\n", 1_000_000),
        ("a=", "[", 2_000_000),
        ("a=imageattr:* send ", "[", 1_000_000),
        ("a=imageattr:* send ", "[x=1,y=1] ", 60_000),
        ("a=simulcast:send ", "a;", 500_000),
        ("a=fmtp:96 ", "a=b;", 300_000),
        ("a=fmtp:96 ", "1-2,", 300_000),
        ("a=group:BUNDLE", " a", 500_000),
        ("s=", "é", 1_000_000),
    ] {
        v.push(Case::one("text", &format!("{h}{}", u.repeat(n / 4))));
    }
    v
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C01",
        rule: "cases are texts: valid and damaged sessions and lines with control, multi-byte, case-changing and separator characters at any place, wide characters in every word, words thrown together, one element repeated up to megabytes, all values of up to three characters from a list for every kind of line, and every prefix; each goes through every entry point, both warning modes, at trace level, and every outcome is printed, debug-formatted, cloned, compared, queried, edited, anonymized, serialized and parsed again; all are non-trivial",
        assumptions: &["the code under test is built with overflow checks and debug assertions", "4 MB of stack"],
        fixed,
        gen: gen_case,
        eval,
        quick: 400_000,
        floors: &[("accepted sessions used in every way", 20_000), ("line errors", 20_000), ("unsupported errors", 0), ("sequence errors", 500)],
        log: log::LevelFilter::Trace,
        threads: THREADS,
    }]
}
