//! C09: numbers in range get in with their exact value, others never do.
//!
//! "slots": lines of every kind that holds numbers, put together at random,
//!          every number drawn around the edges of its range; alone and in a
//!          session
//! "fix":   the same with one number taken from a list
//! "list":  payload types of m= lines, telephone-event lists, floats,
//!          fingerprints and typed addresses
//! "text":  damaged texts; whatever is accepted must respect all the ranges
use super::common::*;
use crate::gen;
use crate::refparse::{self, E};
use crate::rng::Rng;
use crate::run::*;
use crate::val::V;

#[derive(Clone, Debug)]
enum Tok {
    T(String),
    N { max: u64, hex: bool, path: String },
}
type Line = Vec<Tok>;

const M8: u64 = 0xff;
const M16: u64 = 0xffff;
const M32: u64 = 0xffff_ffff;
const M64: u64 = u64::MAX;

fn t(x: &str) -> Tok {
    Tok::T(x.to_string())
}
fn n(max: u64, path: &str) -> Tok {
    Tok::N {
        max,
        hex: false,
        path: path.to_string(),
    }
}

/// Node of the tree under a path like "Attribute/Rid/formats/0".
fn at<'a>(v: &'a V, path: &str) -> Option<&'a V> {
    let mut v = v;
    for p in path.split('/').filter(|p| !p.is_empty()) {
        v = match v {
            V::M(f) => f.iter().find(|(n, _)| *n == p).map(|(_, v)| v)?,
            V::St(_, f) => f.iter().find(|(n, _)| *n == p).map(|(_, v)| v)?,
            V::New(n, i) if *n == p => i,
            V::Tup(_, l) | V::L(l) => l.get(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}

// ---------------------------------------------------------------- builders

fn b_media(r: &mut Rng) -> Line {
    let mut l = vec![
        Tok::T(format!("m={} ", r.pick_s(&["audio", "video", "application"]))),
        n(M16, "Media/port"),
    ];
    if r.bool() {
        l.push(t("/"));
        l.push(n(M32, "Media/port_count"));
    }
    l.push(t(" UDP/TLS/RTP/SAVPF 0 96"));
    l
}
fn b_bandwidth(r: &mut Rng) -> Line {
    let (w, p) = *r.pick(&[
        ("AS", "Bandwidth/As"),
        ("CT", "Bandwidth/Ct"),
        ("TIAS", "Bandwidth/Tias"),
        ("RR", "Bandwidth/1"),
        ("X-foo", "Bandwidth/1"),
    ]);
    vec![Tok::T(format!("b={w}:")), n(M32, p)]
}
fn b_connection(r: &mut Rng) -> Line {
    let mut l = vec![t(r.pick(&[
        "c=IN IP4 224.2.1.1/",
        "c=IN IP6 ff00::1/",
        "c=IN IP4 host.example/",
    ]))];
    l.push(n(M8, "Connection/ttl"));
    if r.bool() {
        l.push(t("/"));
        l.push(n(M32, "Connection/amount"));
    }
    l
}
fn b_origin(r: &mut Rng) -> Line {
    vec![
        t("o=- "),
        n(M64, "Origin/session_id"),
        t(" "),
        n(M64, "Origin/session_version"),
        t(r.pick(&[" IN IP4 127.0.0.1", " IN IP6 ::1", " IN IP4 a"])),
    ]
}
fn b_timing(_: &mut Rng) -> Line {
    vec![t("t="), n(M64, "Timing/start"), t(" "), n(M64, "Timing/stop")]
}
fn b_version(_: &mut Rng) -> Line {
    vec![t("v="), n(0, "Version")]
}
fn b_candidate(r: &mut Rng) -> Line {
    let c = |f: &str| format!("Attribute/Candidate/{f}");
    let mut l = vec![
        t("a=candidate:0 "),
        n(M32, &c("component")),
        t(r.pick(&[" UDP ", " tcp "])),
        n(M64, &c("priority")),
        t(r.pick(&[" 10.0.0.1 ", " ::1 ", " x.local "])),
        n(M16, &c("port")),
        t(" typ "),
        t(r.pick(&["host", "srflx", "prflx", "relay"])),
    ];
    for _ in 0..r.n(5) {
        let (w, m, p) = *r.pick(&[
            (" rport ", M16, "rport"),
            (" generation ", M32, "generation"),
            (" network-cost ", M32, "networkcost"),
            (" raddr 1.2.3.4", 0, ""),
            (" tcptype active", 0, ""),
            (" ufrag 65536", 0, ""),
            (" foo 99999999999", 0, ""),
        ]);
        l.push(t(w));
        if m > 0 {
            l.push(n(m, &c(p)));
        }
    }
    l
}
fn b_remote(r: &mut Rng) -> Line {
    vec![
        t("a=remote-candidates:"),
        n(M32, "Attribute/RemoteCandidate/component"),
        t(r.pick(&[" 10.0.0.1 ", " ::1 ", " x.local "])),
        n(M16, "Attribute/RemoteCandidate/port"),
    ]
}
fn b_extmap(r: &mut Rng) -> Line {
    vec![
        t("a=extmap:"),
        n(M16, "Attribute/Extmap/id"),
        t(r.pick(&["", "/sendonly", "/recvonly", "/sendrecv"])),
        t(r.pick(&[" urn:x", " urn:x some 70000"])),
    ]
}
fn b_single(r: &mut Rng) -> Line {
    let (w, m, p) = *r.pick(&[
        ("ice-pacing", 9_999_999_999, "IcePacing"),
        ("max-message-size", M64, "MaxMessageSize"),
        ("maxptime", M64, "MaxPtime"),
        ("ptime", M64, "Ptime"),
        ("sctp-port", M16, "SctpPort"),
        ("rtcp", M16, "Rtcp/port"),
    ]);
    let mut l = vec![Tok::T(format!("a={w}:")), n(m, &format!("Attribute/{p}"))];
    if w == "rtcp" && r.bool() {
        l.push(t(" IN IP4 10.1.1.1"));
    }
    l
}
fn b_sctpmap(_: &mut Rng) -> Line {
    vec![
        t("a=sctpmap:"),
        n(M16, "Attribute/Sctpmap/port"),
        t(" webrtc-datachannel "),
        n(M32, "Attribute/Sctpmap/channels"),
    ]
}
fn b_rtpmap(r: &mut Rng) -> Line {
    let mut l = vec![
        t("a=rtpmap:"),
        n(127, "Attribute/Rtpmap/payload_type"),
        t(r.pick(&[" opus/", " VP8/", " telephone-event/"])),
        n(M32, "Attribute/Rtpmap/frequency"),
    ];
    if r.bool() {
        l.push(t("/"));
        l.push(n(M32, "Attribute/Rtpmap/channels"));
    }
    l
}
fn b_fmtp(r: &mut Rng) -> Line {
    let f = |x: &str| format!("Attribute/Fmtp/parameters/{x}");
    let mut l = vec![t("a=fmtp:"), n(M8, "Attribute/Fmtp/payload_type"), t(" ")];
    let mut apt = false;
    for i in 0..r.range(1, 5) {
        if i > 0 {
            l.push(t(r.pick(&[";", "; "])));
        }
        match r.n(12) {
            0..=5 => {
                let (w, p, m) = r.pick(refparse::FMTP_NUM);
                l.push(Tok::T(format!("{w}=")));
                l.push(n(*m, &f(p)));
            }
            6 | 7 => {
                let (w, p) = r.pick(refparse::FMTP_BOOL);
                l.push(Tok::T(format!("{w}=")));
                l.push(n(1, &f(p)));
            }
            8 => {
                l.push(t("profile-level-id="));
                l.push(Tok::N {
                    max: 0xff_ffff,
                    hex: true,
                    path: f("profile_level_id"),
                });
            }
            9 | 10 => {
                if !apt {
                    l.push(t("apt="));
                    l.push(n(M8, &f("rtx/apt")));
                    apt = true;
                } else {
                    l.push(t("rtx-time="));
                    l.push(n(M32, &f("rtx/rtx_time")));
                }
            }
            _ => l.push(t("foo=99999999999")),
        }
    }
    l
}
fn b_red(r: &mut Rng) -> Line {
    let mut l = vec![t("a=fmtp:"), n(M8, "Attribute/Fmtp/payload_type"), t(" ")];
    for i in 0..r.range(2, 6) {
        if i > 0 {
            l.push(t("/"));
        }
        l.push(n(
            128,
            &format!("Attribute/Fmtp/parameters/encodings/{i}"),
        ));
    }
    l
}
fn b_ssrc(r: &mut Rng) -> Line {
    vec![
        t("a=ssrc:"),
        n(M32, "Attribute/Ssrc/id"),
        t(r.pick(&["", " cname:x", " foo"])),
    ]
}
fn b_ssrc_group(r: &mut Rng) -> Line {
    let mut l = vec![t("a=ssrc-group:FID")];
    for i in 0..r.range(1, 4) {
        l.push(t(" "));
        l.push(n(M32, &format!("Attribute/SsrcGroup/1/{i}/id").replace("SsrcGroup/", "")));
    }
    l
}
fn b_rid(r: &mut Rng) -> Line {
    let mut l = vec![t(r.pick(&["a=rid:a send ", "a=rid:a recv "]))];
    let mut first = true;
    if r.chance(1, 2) {
        l.push(t("pt="));
        for i in 0..r.range(1, 4) {
            if i > 0 {
                l.push(t(","));
            }
            l.push(n(M16, &format!("Attribute/Rid/formats/{i}")));
        }
        first = false;
    }
    for _ in 0..r.range(usize::from(first), 4) {
        if !first {
            l.push(t(";"));
        }
        first = false;
        if r.chance(1, 6) {
            l.push(t("foo=99999999999"));
            continue;
        }
        let (w, p) = r.pick(refparse::RID_NUM);
        l.push(Tok::T(format!("{w}=")));
        l.push(n(M32, &format!("Attribute/Rid/params/{p}")));
    }
    l
}
fn b_rtcpfb(r: &mut Rng) -> Line {
    let mut l = vec![
        t("a=rtcp-fb:"),
        n(M8, "Attribute/Rtcpfb/payload_type/PayloadType"),
    ];
    if r.bool() {
        l.push(t(" trr-int "));
        l.push(n(M32, "Attribute/Rtcpfb/parameter"));
    } else {
        l.push(t(r.pick(&[" nack", " nack pli", " ccm fir", " goog-remb"])));
    }
    l
}
fn b_image(r: &mut Rng) -> Line {
    let mut l = vec![];
    if r.bool() {
        l.push(t("a=imageattr:"));
        l.push(n(M8, "Attribute/ImageAttr/pt/PayloadType"));
    } else {
        l.push(t("a=imageattr:*"));
    }
    for (i, d) in ["send", "recv"].iter().enumerate() {
        if i == 1 && r.bool() {
            break;
        }
        l.push(Tok::T(format!(" {d}")));
        for set in 0..r.range(1, 3) {
            for (j, x) in ["x", "y"].iter().enumerate() {
                l.push(Tok::T(format!("{}{x}=", if j == 0 { " [" } else { "," })));
                let p = format!("Attribute/ImageAttr/{d}/Sets/{set}/{x}");
                match r.n(4) {
                    0 => l.push(n(M32, &format!("{p}/DiscreteValues/0"))),
                    1 => {
                        l.push(t("["));
                        for k in 0..r.range(2, 4) {
                            if k > 0 {
                                l.push(t(","));
                            }
                            l.push(n(M32, &format!("{p}/DiscreteValues/{k}")));
                        }
                        l.push(t("]"));
                    }
                    2 => {
                        l.push(t("["));
                        l.push(n(M32, &format!("{p}/0")));
                        l.push(t(":"));
                        l.push(n(M32, &format!("{p}/1")));
                        l.push(t("]"));
                    }
                    _ => {
                        l.push(t("["));
                        l.push(n(M32, &format!("{p}/0")));
                        l.push(t(":"));
                        l.push(n(M32, &format!("{p}/2")));
                        l.push(t(":"));
                        l.push(n(M32, &format!("{p}/1")));
                        l.push(t("]"));
                    }
                }
            }
            l.push(t(r.pick(&["]", ",q=0.5]", ",sar=1.5]", ",par=[1.1-1.3]]"])));
        }
    }
    l
}

const BUILDERS: &[fn(&mut Rng) -> Line] = &[
    b_media,
    b_bandwidth,
    b_connection,
    b_origin,
    b_timing,
    b_version,
    b_candidate,
    b_candidate,
    b_remote,
    b_extmap,
    b_single,
    b_single,
    b_sctpmap,
    b_rtpmap,
    b_fmtp,
    b_fmtp,
    b_fmtp,
    b_red,
    b_ssrc,
    b_ssrc_group,
    b_rid,
    b_rtcpfb,
    b_image,
];

// ---------------------------------------------------------------- literals

fn spell(x: u128, hex: bool) -> String {
    if hex {
        format!("{x:x}")
    } else {
        x.to_string()
    }
}
fn inside(r: &mut Rng, max: u64) -> u64 {
    let pool = [
        0,
        1,
        max,
        max.saturating_sub(1),
        max / 2,
        max / 2 + 1,
        9,
        10,
        99,
        100,
        127,
        128,
        255,
        256,
        32767,
        32768,
        65535,
        65536,
        1 << 24,
        (1 << 31) - 1,
        1 << 31,
        M32,
        M32 + 1,
        1 << 53,
        (1 << 63) - 1,
        1 << 63,
    ];
    if r.chance(1, 4) {
        let b = r.range(0, 63);
        let x = r.u64() >> b;
        return if max == M64 { x } else { x % (max + 1) };
    }
    let x = *r.pick(&pool);
    if x <= max {
        x
    } else {
        max
    }
}
fn outside(r: &mut Rng, max: u64) -> u128 {
    let m = u128::from(max);
    match r.n(12) {
        0..=3 => m + 1,
        4 => m + 2,
        5 => (m + 1) * 2,
        6 => m * 10 + 9,
        // the same value in the low bits
        7 => m + 1 + (1 << 8) * u128::from(r.u64() % 300),
        8 => m + (1 << 16),
        9 => m + (1u128 << *r.pick(&[16, 32, 64])) + u128::from(r.u64() % 100),
        10 => m + 1 + u128::from(r.u64()),
        _ => (1u128 << *r.pick(&[64, 65, 80, 100])) + u128::from(r.u64() % 1000) + m,
    }
}
fn odd(r: &mut Rng, max: u64, hex: bool) -> String {
    match r.n(14) {
        0 => "-1".into(),
        1 => "-0".into(),
        2 => format!("{}.0", inside(r, max)),
        3 => "1e1".into(),
        4 => "0x1".into(),
        5 => "NaN".into(),
        6 => format!("-{}", inside(r, max)),
        7 => format!("0000000000000000000000{}", spell(u128::from(inside(r, max)), hex)),
        8 => format!("+{}", spell(u128::from(inside(r, max)), hex)),
        9 => "inf".into(),
        10 => "\u{664}".into(),
        11 => format!("00{}", spell(outside(r, max), hex)),
        12 => format!("{}_", inside(r, max)),
        _ => "9".repeat(r.range(25, 200)),
    }
}

enum Lit {
    In(u64),
    Out,
    /// a spelling that need not be accepted; the value if it is
    Maybe(u64),
}
fn judge_lit(x: &str, max: u64, hex: bool) -> Lit {
    let ok = |c: char| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
    let digits = x.strip_prefix('+').unwrap_or(x);
    if digits.is_empty() || !digits.chars().all(ok) {
        return Lit::Out;
    }
    let trimmed = digits.trim_start_matches('0');
    let val = if trimmed.is_empty() {
        Some(0u128)
    } else if trimmed.len() > 30 {
        None
    } else {
        u128::from_str_radix(trimmed, if hex { 16 } else { 10 }).ok()
    };
    match val {
        Some(v) if v <= u128::from(max) => {
            if spell(v, hex) == x.to_ascii_lowercase() {
                Lit::In(v as u64)
            } else {
                Lit::Maybe(v as u64)
            }
        }
        _ => Lit::Out,
    }
}

fn wrap(line: &str) -> Option<String> {
    let (mut s, mut m) = (String::new(), String::new());
    let (mut v, mut o, mut ti, mut c, mut ml) =
        ("v=0", "o=- 0 0 IN IP4 127.0.0.1", "t=0 0", "c=IN IP4 0.0.0.0", "m=video 9 UDP/TLS/RTP/SAVPF 0 96");
    match &line[..2] {
        "v=" => v = line,
        "o=" => o = line,
        "t=" => ti = line,
        "c=" => c = line,
        "m=" => ml = line,
        "b=" => s = format!("{line}\r\n"),
        _ => {
            let name = line[2..].split(':').next().unwrap();
            let k = crate::kinds::by_wire(name).expect("harness: kind");
            if k.tag == "Rid" && line.contains("pt=") {
                return None;
            }
            if k.media {
                m = format!("{line}\r\n");
            } else {
                s = format!("{line}\r\n");
            }
        }
    }
    Some(format!(
        "{v}\r\n{o}\r\ns=-\r\n{ti}\r\n{c}\r\n{s}{ml}\r\n{m}"
    ))
}

fn judge_line(cx: &mut Ctx, line: &Line, lits: &[String]) -> Verdict {
    let mut text = String::new();
    let mut must = true;
    let mut out = false;
    let mut want: Vec<(&str, u64)> = vec![];
    let mut i = 0;
    for tok in line {
        match tok {
            Tok::T(x) => text.push_str(x),
            Tok::N { max, hex, path } => {
                text.push_str(&lits[i]);
                want.retain(|w| w.0 != path);
                match judge_lit(&lits[i], *max, *hex) {
                    Lit::In(v) => want.push((path, v)),
                    Lit::Maybe(v) => {
                        want.push((path, v));
                        must = false;
                    }
                    Lit::Out => out = true,
                }
                i += 1;
            }
        }
    }
    cx.interesting();
    let got = impl_line(&text);
    if out {
        cx.saw("lines with a number outside its range");
        if got != Err(E::Bad) {
            return Err(format!(
                "{text:?} holds a number outside its range and must be an error, but is {}",
                say(&got)
            ));
        }
    } else {
        cx.saw("lines with numbers inside their ranges");
        match &got {
            Ok(v) => {
                for (p, x) in &want {
                    let n = at(v, p);
                    let have = match n {
                        Some(V::U(y)) => Some(*y),
                        Some(V::B(b)) => Some(u64::from(*b)),
                        Some(V::S(s)) => s.parse().ok(),
                        _ => None,
                    };
                    if have != Some(*x) {
                        return Err(format!("{text:?}: {p} must be {x}, but is {n:?}"));
                    }
                }
            }
            Err(_) if !must => (),
            Err(_) => {
                return Err(format!(
                    "{text:?} has all its numbers in range, but is {}",
                    say(&got)
                ))
            }
        }
    }
    let Some(full) = wrap(&text) else {
        return Ok(());
    };
    cx.saw("the same in a session");
    match (parse(&full), &got) {
        (Ok(x), Ok(_)) => ranges(&crate::conv::session(&x)).map_err(|e| format!("{e} in {full:?}")),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(_)) => Err(format!("{text:?} is refused, but not in a session: {full:?}")),
        (Err(e), Ok(_)) => Err(format!("{text:?} is accepted, but not in a session: {full:?}: {e}")),
    }
}

fn slots(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let line = r.pick(BUILDERS)(&mut r);
    let count = line.iter().filter(|x| matches!(x, Tok::N { .. })).count();
    let bad = if r.chance(2, 5) { r.n(count) } else { count };
    let mut lits = vec![];
    for tok in &line {
        if let Tok::N { max, hex, .. } = tok {
            lits.push(if lits.len() == bad {
                if r.chance(1, 6) {
                    odd(&mut r, *max, *hex)
                } else {
                    spell(outside(&mut r, *max), *hex)
                }
            } else {
                spell(u128::from(inside(&mut r, *max)), *hex)
            });
        }
    }
    judge_line(cx, &line, &lits)
}
fn fix(cx: &mut Ctx, c: &Case) -> Verdict {
    let b: usize = c.text[0].parse().unwrap();
    let i: usize = c.text[1].parse().unwrap();
    let mut r = Rng::new(c.seed);
    let line = BUILDERS[b](&mut r);
    let mut lits = vec![];
    for tok in &line {
        if let Tok::N { max, hex, .. } = tok {
            lits.push(if lits.len() == i {
                c.text[2].clone()
            } else {
                spell(u128::from(inside(&mut r, *max)), *hex)
            });
        }
    }
    judge_line(cx, &line, &lits)
}

// ------------------------------------------------------------------- lists

fn expect(cx: &mut Ctx, text: &str, ok: bool, path: &str, val: Option<V>) -> Verdict {
    cx.interesting();
    cx.saw(if ok {
        "lists and values inside their ranges"
    } else {
        "lists and values outside their ranges"
    });
    let got = impl_line(text);
    match (&got, ok) {
        (Ok(v), true) => match val {
            Some(x) if at(v, path) != Some(&x) => Err(format!(
                "{text:?}: {path} must be {x:?}, but is {:?}",
                at(v, path)
            )),
            _ => Ok(()),
        },
        (Err(E::Bad), false) => Ok(()),
        _ => Err(format!(
            "{text:?} must be {}, but is {}",
            if ok { "accepted" } else { "an error" },
            say(&got)
        )),
    }
}

fn floats(r: &mut Rng) -> String {
    match r.n(10) {
        0 => r.pick_s(&["0", "0.0", "0.00", "1", "1.0", "2.5", "0.1", "0.10", "16777216", "16777217"]),
        1 => r.pick_s(&["NaN", "nan", "inf", "-inf", "infinity", "1e39", "1e400", "3.5e38", "1e309"]),
        2 => r.pick_s(&["1e-50", "1e-400", "1.4e-45", "3.4028235e38", "1e38", "1e308", "2.2e-308"]),
        3 => r.pick_s(&["", "x", "1.2.3", "1,2", "0x1", "1e", "--1", "1 "]),
        4..=6 => format!("{}.{}", r.n(4), r.n(20)),
        _ => format!("{}", f64::from(r.n(3000) as u32) / 100.0),
    }
}

fn list(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    match r.n(8) {
        0 | 1 => {
            // payload types of m= lines
            let bad = r.bool();
            let n = r.range(1, 12);
            let b = r.n(n);
            let f: Vec<u64> = (0..n)
                .map(|i| {
                    if bad && i == b {
                        *r.pick(&[1, 2, 19, 64, 65, 72, 80, 94, 95, 128, 129, 255, 256, 257, 300, 65536, 65632, M32, M32 + 1, M32 + 97])
                    } else {
                        gen::fmt_pt(&mut r)
                    }
                })
                .collect();
            let ok = f.iter().all(|x| !refparse::reserved(*x));
            let w: Vec<String> = f.iter().map(u64::to_string).collect();
            let m = r.pick_s(&["audio", "video"]);
            let text = format!("m={m} 9 RTP/SAVPF {}", w.join(" "));
            expect(cx, &text, ok, "Media/formats/Integers", Some(V::L(f.into_iter().map(V::U).collect())))
        }
        2 | 3 => {
            // telephone events
            let n = r.range(1, 6);
            let mut ok = true;
            let mut parts = vec![];
            let bad = if r.bool() { r.n(n) } else { n };
            for i in 0..n {
                let out = i == bad;
                let one = |r: &mut Rng| r.n(101);
                let p = if r.bool() {
                    let x = if out {
                        ok = false;
                        *r.pick(&[101, 102, 128, 255, 256, 257, 1000, 65536])
                    } else {
                        *r.pick(&[0, 1, 15, 16, 99, 100])
                    };
                    x.to_string()
                } else {
                    let (mut a, mut b) = (one(&mut r), one(&mut r));
                    if a == b {
                        b = (a + 1) % 101;
                    }
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                    if out {
                        ok = false;
                        match r.n(5) {
                            0 => std::mem::swap(&mut a, &mut b),
                            1 => b = a,
                            2 => b = *r.pick(&[101, 255, 256, 300]),
                            3 => {
                                a = 101;
                                b = 102;
                            }
                            _ => b = 256 + b,
                        }
                    }
                    format!("{a}-{b}")
                };
                parts.push(p);
            }
            let list = parts.join(",");
            let text = format!("a=fmtp:101 {list}");
            let want = if ok { list } else { "0-15".to_string() };
            expect(cx, &text, true, "Attribute/Fmtp/parameters/dtmf_tones", Some(V::S(want)))
        }
        4 => {
            let x = floats(&mut r);
            let v: Option<f64> = x.parse().ok();
            let v = v.filter(|v| v.is_finite() && *v != 0.0);
            expect(cx, &format!("a=framerate:{x}").replace("1 ", "1"), v.is_some() || x == "1 ", "Attribute/FrameRate", v.map(crate::val::f64v))
        }
        5 => {
            // image attributes
            let fin = |x: &str| x.parse::<f32>().ok().filter(|f| f.is_finite());
            let (a, b) = (floats(&mut r), floats(&mut r));
            let (a, b) = (a.replace([',', ' '], ""), b.replace([',', ' '], ""));
            if a.contains('-') || b.contains('-') {
                return Ok(());
            }
            let up = match (fin(&a), fin(&b)) {
                (Some(x), Some(y)) => x < y,
                _ => false,
            };
            let p = "Attribute/ImageAttr/send/Sets/0";
            let set = |x: &str| format!("a=imageattr:97 send [x=800,y=640,{x}]");
            match r.n(5) {
                0 => expect(
                    cx,
                    &set(&format!("sar=[{a}-{b}]")),
                    up,
                    &format!("{p}/sar"),
                    up.then(|| V::Tup("Range", vec![crate::val::f32v(fin(&a).unwrap()), crate::val::f32v(fin(&b).unwrap())])),
                ),
                1 => expect(
                    cx,
                    &set(&format!("par=[{a}-{b}]")),
                    up,
                    &format!("{p}/par"),
                    up.then(|| V::M(vec![("min", crate::val::f32v(fin(&a).unwrap())), ("max", crate::val::f32v(fin(&b).unwrap()))])),
                ),
                2 => expect(cx, &set(&format!("q={a}")), fin(&a).is_some(), &format!("{p}/q"), fin(&a).map(crate::val::f32v)),
                3 => {
                    if a.starts_with('[') || a.is_empty() {
                        return Ok(());
                    }
                    expect(cx, &set(&format!("sar={a}")), fin(&a).is_some(), &format!("{p}/sar/DiscreteValues/0"), fin(&a).map(crate::val::f32v))
                }
                _ => {
                    // ascending lists, one place spoilt
                    let n = r.range(2, 6);
                    let mut f: Vec<String> = vec![];
                    let mut x = 1 + r.n(50);
                    for _ in 0..n {
                        f.push(format!("{}.{:02}", x / 100, x % 100));
                        x += r.range(1, 90);
                    }
                    if r.bool() {
                        let i = r.n(n);
                        f[i] = match r.n(4) {
                            0 => "0".into(),
                            1 => f[r.n(n)].clone(),
                            2 => "inf".into(),
                            _ => "NaN".into(),
                        };
                    }
                    let v: Vec<f32> = f.iter().map(|x| x.parse().unwrap()).collect();
                    let ok = v.iter().all(|x| x.is_finite() && *x > 0.0) && v.windows(2).all(|w| w[0] < w[1]);
                    expect(
                        cx,
                        &set(&format!("sar=[{}]", f.join(","))),
                        ok,
                        &format!("{p}/sar/DiscreteValues"),
                        ok.then(|| V::L(v.into_iter().map(crate::val::f32v).collect())),
                    )
                }
            }
        }
        6 => {
            // fingerprints of every length
            let (h, n) = *r.pick(&[("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)]);
            let len = match r.n(4) {
                0 => n,
                1 => n - 1,
                2 => n + 1,
                _ => r.range(1, 70),
            };
            let mut o: Vec<String> = if len > 2 {
                gen::octets(&mut r, len).iter().map(|b| format!("{b:02X}")).collect()
            } else {
                (0..len).map(|_| format!("{:02X}", r.n(256))).collect()
            };
            let mut ok = len == n;
            if r.chance(1, 4) {
                ok = false;
                let i = r.n(len);
                o[i] = r.pick_s(&["0", "100", "1FF", "GG", "+1", "-1", "", " ", "0x", "000", "é"]).trim().to_string();
            }
            let vals = V::L(o.iter().map(|x| V::U(u64::from_str_radix(x, 16).unwrap_or(0))).collect());
            expect(
                cx,
                &format!("a=fingerprint:{h} {}", o.join(":")),
                ok,
                "Attribute/Fingerprint/fingerprint",
                ok.then_some(vals),
            )
        }
        _ => {
            // a literal of the declared type
            let v4 = r.bool();
            let a = if r.bool() {
                gen::ipv4(&mut r).to_string()
            } else {
                gen::ipv6(&mut r).to_string()
            };
            let ty = if v4 { "IP4" } else { "IP6" };
            let ok = v4 != a.contains(':');
            let text = match r.n(3) {
                0 => format!("c=IN {ty} {a}"),
                1 => format!("o=- 0 0 IN {ty} {a}"),
                _ => format!("a=rtcp:9 IN {ty} {a}"),
            };
            expect(cx, &text, ok, "", None)
        }
    }
}

// -------------------------------------------------------------- invariants

/// Every number of an accepted session lies in its range.
pub fn ranges(x: &V) -> Verdict {
    for a in x.get("attribute").list() {
        attr_ranges(a)?;
    }
    for m in x.get("media").list() {
        let l = m.get("media");
        le("port", l.get("port"), M16)?;
        if let V::New("Integers", f) = l.get("formats") {
            for f in f.list() {
                if refparse::reserved(f.u64()) {
                    return Err(format!("reserved media format {} accepted", f.u64()));
                }
            }
        }
        for a in m.get("attribute").list() {
            attr_ranges(a)?;
        }
    }
    Ok(())
}
fn le(what: &str, v: &V, max: u64) -> Verdict {
    match v {
        V::U(x) if *x > max => Err(format!("{what} is {x}, above {max}")),
        _ => Ok(()),
    }
}
fn attr_ranges(a: &V) -> Verdict {
    let t = a.tag();
    match t {
        "Candidate" => {
            le("candidate port", a.inner().get("port"), M16)?;
            le("candidate rport", a.inner().get("rport"), M16)
        }
        "RemoteCandidate" => le("remote candidate port", a.inner().get("port"), M16),
        "Rtcp" => le("rtcp port", a.inner().get("port"), M16),
        "SctpPort" => le(t, a.inner(), M16),
        "Sctpmap" => le("sctpmap port", a.inner().get("port"), M16),
        "Rtpmap" => le("rtpmap payload type", a.inner().get("payload_type"), 127),
        "IcePacing" => le(t, a.inner(), 9_999_999_999),
        "FrameRate" => match a.inner() {
            V::F64(b) if f64::from_bits(*b).is_finite() && f64::from_bits(*b) != 0.0 => Ok(()),
            x => Err(format!("framerate is {x:?}")),
        },
        "Fingerprint" => {
            let f = a.inner();
            let n = match f.get("hash_algorithm").tag() {
                "Sha1" => 20,
                "Sha224" => 28,
                "Sha256" => 32,
                "Sha384" => 48,
                _ => 64,
            };
            let have = f.get("fingerprint").list().len();
            if have == n {
                Ok(())
            } else {
                Err(format!("fingerprint has {have} octets"))
            }
        }
        "Fmtp" => {
            let p = a.inner().get("parameters");
            for (_, f, max) in refparse::FMTP_NUM {
                le(f, p.get(f), *max)?;
            }
            le("profile_level_id", p.get("profile_level_id"), 0xff_ffff)?;
            for e in p.get("encodings").list() {
                le("RED payload type", e, 128)?;
            }
            let d = p.get("dtmf_tones").str();
            let tone = |x: &str| x.parse::<u32>().is_ok_and(|x| x <= 100);
            let ok = d.is_empty()
                || d.split(',').all(|x| match x.split_once('-') {
                    None => tone(x),
                    Some((a, b)) => tone(a) && tone(b) && a.parse::<u32>().ok() < b.parse().ok(),
                });
            if ok {
                Ok(())
            } else {
                Err(format!("telephone events {d:?}"))
            }
        }
        "ImageAttr" => {
            for d in ["send", "recv"] {
                let V::New("Sets", sets) = a.inner().get(d) else {
                    continue;
                };
                for s in sets.list() {
                    let f = |x: u32| f32::from_bits(x);
                    let fine = |v: &V| matches!(v, V::F32(x) if f(*x).is_finite());
                    let up = |a: &V, b: &V| fine(a) && fine(b) && a.f32() < b.f32();
                    let q = s.get("q");
                    let par = s.get("par");
                    let ok = (q.is_null() || fine(q))
                        && (par.is_null() || up(par.get("min"), par.get("max")))
                        && match s.get("sar") {
                            V::Null => true,
                            V::Tup(_, v) => up(&v[0], &v[1]),
                            V::New(_, l) => {
                                l.list().iter().all(fine)
                                    && l.list().windows(2).all(|w| up(&w[0], &w[1]))
                            }
                            _ => false,
                        };
                    if !ok {
                        return Err(format!("image attribute numbers {s:?}"));
                    }
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn text(cx: &mut Ctx, t: &str) -> Verdict {
    match parse(t) {
        Ok(x) => {
            cx.saw("accepted damaged texts whose numbers were all inspected");
            cx.interesting();
            ranges(&crate::conv::session(&x)).map_err(|e| format!("{e}, accepted in {:?}", clip(t)))
        }
        Err(_) => {
            cx.saw("refused damaged texts");
            Ok(())
        }
    }
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "slots" => slots(cx, c.seed),
        "fix" => fix(cx, c),
        "list" => list(cx, c.seed),
        _ => text(cx, &c.text[0]),
    }
}
fn gen_case(r: &mut Rng) -> Case {
    match r.n(20) {
        0..=10 => Case::seeded("slots", r.u64()),
        11..=17 => Case::seeded("list", r.u64()),
        _ => {
            let ops = few(r);
            // only numbers are moved
            let t = near_text(r, ops);
            let mut l: Vec<String> = t.split('\n').map(str::to_string).collect();
            for _ in 0..r.range(1, 3) {
                let i = r.n(l.len());
                let w: Vec<(usize, usize)> = digit_runs(&l[i]);
                if let Some(&(a, b)) = w.get(r.n(w.len().max(1))) {
                    let x = r.pick_s(crate::mutate::NUMS);
                    l[i].replace_range(a..b, &x);
                }
            }
            Case::new("text", vec![l.join("\n")])
        }
    }
}
fn digit_runs(t: &str) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = vec![];
    for (i, c) in t.bytes().enumerate() {
        if c.is_ascii_digit() {
            match out.last_mut() {
                Some(x) if x.1 == i => x.1 = i + 1,
                _ => out.push((i, i + 1)),
            }
        }
    }
    out
}
fn fixed() -> Vec<Case> {
    let mut v = vec![];
    for (b, f) in BUILDERS.iter().enumerate() {
        for seed in 0..30u64 {
            let line = f(&mut Rng::new(seed));
            let mut i = 0;
            for tok in &line {
                if let Tok::N { max, hex, .. } = tok {
                    let m = u128::from(*max);
                    let mut lits: Vec<String> = [0, 1, m / 2, m.saturating_sub(1), m, m + 1, m + 2, 2 * m + 1, 2 * m + 2, m * 10]
                        .iter()
                        .map(|x| spell(*x, *hex))
                        .collect();
                    for s in [7, 8, 15, 16, 24, 31, 32, 63, 64, 96] {
                        for d in [-1i8, 0, 1] {
                            lits.push(spell((1u128 << s).wrapping_add_signed(d.into()), *hex));
                        }
                        // equal to a valid value modulo the width
                        lits.push(spell((1u128 << s) + 5, *hex));
                    }
                    for x in ["-1", "-0", "1.5", "1e3", "", "x", "0x5", "NaN", "007", "+1", "99999999999999999999999999999999999999999999"] {
                        lits.push(x.to_string());
                    }
                    for l in lits {
                        // an empty number may be another construct
                        if l.is_empty() {
                            continue;
                        }
                        let mut c = Case::new("fix", vec![b.to_string(), i.to_string(), l]);
                        c.seed = seed;
                        v.push(c);
                    }
                    i += 1;
                }
            }
        }
    }
    v
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C09",
        rule: "every numeric place of every line kind is filled with numbers around the edges of its range, of machine widths and of values that wrap into the range, in lines put together at random (optional parts, repeated parameters, lists), alone and inside a session; lists of payload types, telephone events, floats, fingerprints and typed addresses alike; damaged texts whose accepted sessions are inspected number by number; non-trivial: reached the comparison",
        assumptions: &["the table of ranges in numbers.rs and refparse.rs", "std's f32/f64 parsers"],
        fixed,
        gen: gen_case,
        eval,
        quick: 6_000_000,
        floors: &[
            ("lines with a number outside its range", 100_000),
            ("lines with numbers inside their ranges", 100_000),
            ("lists and values outside their ranges", 50_000),
            ("accepted damaged texts whose numbers were all inspected", 5_000),
        ],
        log: log::LevelFilter::Off,
        threads: THREADS,
    }]
}
