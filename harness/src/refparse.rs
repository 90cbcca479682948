//! The independent reader of the grammar: text to plain tree, written from the
//! grammars quoted in the library and its documented deviations from them.
//! Only `std` number and IP parsing and the `url` crate's host parser are
//! trusted. Messages are not modelled, only verdicts, values and positions.
use crate::kinds::by_wire;
use crate::val::{f32v, f64v, new, s, u, V};
use std::net::IpAddr;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    /// malformed
    Bad,
    /// unsupported but skippable
    Unsup,
    /// malformed and unsupported at once: either may be reported
    Either,
}
pub type R = Result<V, E>;
use E::{Bad, Either, Unsup};

/// Unsigned decimal number up to max.
pub fn num(t: &str, max: u64) -> Result<u64, E> {
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(Bad);
    }
    let mut x: u128 = 0;
    for b in d.bytes() {
        x = x * 10 + u128::from(b - b'0');
        if x > u128::from(max) {
            return Err(Bad);
        }
    }
    Ok(x as u64)
}
const M8: u64 = 0xff;
const M16: u64 = 0xffff;
const M32: u64 = 0xffff_ffff;
const M64: u64 = u64::MAX;

fn hex24(t: &str) -> Result<u64, E> {
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_hexdigit()) {
        return Err(Bad);
    }
    let d = d.trim_start_matches('0');
    if d.len() > 6 {
        return Err(Bad);
    }
    Ok(if d.is_empty() {
        0
    } else {
        u64::from_str_radix(d, 16).map_err(|_| Bad)?
    })
}

pub fn words(t: &str) -> Vec<&str> {
    t.split_whitespace().collect()
}
fn low(t: &str) -> String {
    t.to_lowercase()
}
fn up(t: &str) -> String {
    t.to_uppercase()
}

pub enum Host {
    Name(String),
    Ip(IpAddr),
}
pub fn host(t: &str) -> Result<Host, E> {
    if t.contains(':') {
        if let Ok(ip) = t.parse::<IpAddr>() {
            return Ok(Host::Ip(ip));
        }
    }
    match url::Host::parse(t) {
        Ok(url::Host::Domain(d)) => Ok(Host::Name(d)),
        Ok(url::Host::Ipv4(i)) => Ok(Host::Ip(IpAddr::V4(i))),
        Ok(url::Host::Ipv6(i)) => Ok(Host::Ip(IpAddr::V6(i))),
        Err(_) => Err(Bad),
    }
}
pub fn address(t: &str) -> R {
    Ok(match host(t)? {
        Host::Name(d) => new("Fqdn", s(&d)),
        Host::Ip(i) => new("Ip", s(&i.to_string())),
    })
}
pub fn addrtype(t: &str) -> Result<&'static str, E> {
    match up(t).as_str() {
        "IP4" => Ok("IpV4"),
        "IP6" => Ok("IpV6"),
        _ => Err(Bad),
    }
}
pub fn typed(ty: &'static str, a: &str) -> R {
    match host(a)? {
        Host::Name(d) => Ok(V::St(
            "Fqdn",
            vec![("address_type", V::Unit(ty)), ("domain", s(&d))],
        )),
        Host::Ip(i) => {
            if i.is_ipv4() == (ty == "IpV4") {
                Ok(new("Ip", s(&i.to_string())))
            } else {
                Err(Bad)
            }
        }
    }
}
/// nettype addrtype address
fn net_address(w: &[&str]) -> R {
    if w.len() < 3 || up(w[0]) != "IN" {
        return Err(Bad);
    }
    typed(addrtype(w[1])?, w[2])
}

// ------------------------------------------------------------- attributes

/// value of an a= line
pub fn attribute(value: &str) -> R {
    let value = value.trim();
    let (name, val) = match value.find(':') {
        Some(p) => (low(&value[..p]), Some(value[p + 1..].trim())),
        None => (low(value), None),
    };
    let k = by_wire(&name).ok_or(Unsup)?;
    if k.flag {
        return if val.is_some() {
            Err(Bad)
        } else {
            Ok(V::Unit(k.tag))
        };
    }
    attr_value(k.wire, val.unwrap_or(""))
}

fn text(tag: &'static str, v: &str) -> R {
    if v.is_empty() {
        Err(Bad)
    } else {
        Ok(new(tag, s(v)))
    }
}

fn attr_value(wire: &str, v: &str) -> R {
    match wire {
        "candidate" => candidate(v),
        "remote-candidates" => {
            let w = words(v);
            if w.len() < 3 {
                return Err(Bad);
            }
            Ok(new(
                "RemoteCandidate",
                V::M(vec![
                    ("component", u(num(w[0], M32)?)),
                    ("address", address(w[1])?),
                    ("port", u(num(w[2], M16)?)),
                ]),
            ))
        }
        "dtls-message" => {
            let w: Vec<&str> = v.split(' ').collect();
            if w.len() != 2 {
                return Err(Bad);
            }
            let role = match w[0] {
                "client" => "Client",
                "server" => "Server",
                _ => return Err(Bad),
            };
            Ok(new("DtlsMessage", new(role, s(w[1]))))
        }
        "ice-pwd" => text("IcePwd", v),
        "ice-ufrag" => text("IceUfrag", v),
        "identity" => text("Identity", v),
        "label" => text("Label", v),
        "mid" => text("Mid", v),
        "ice-options" => {
            if v.is_empty() {
                return Err(Bad);
            }
            Ok(new(
                "IceOptions",
                V::L(words(v).into_iter().map(s).collect()),
            ))
        }
        "ice-pacing" => Ok(new("IcePacing", u(num(v, 9_999_999_999)?))),
        "max-message-size" => Ok(new("MaxMessageSize", u(num(v, M64)?))),
        "maxptime" => Ok(new("MaxPtime", u(num(v, M64)?))),
        "ptime" => Ok(new("Ptime", u(num(v, M64)?))),
        "sctp-port" => Ok(new("SctpPort", u(num(v, M16)?))),
        "fingerprint" => fingerprint(v),
        "setup" => Ok(new(
            "Setup",
            V::Unit(match low(v).as_str() {
                "active" => "Active",
                "actpass" => "Actpass",
                "holdconn" => "Holdconn",
                "passive" => "Passive",
                _ => return Err(Bad),
            }),
        )),
        "sctpmap" => {
            let w = words(v);
            if w.len() != 3 || low(w[1]) != "webrtc-datachannel" {
                return Err(Bad);
            }
            Ok(new(
                "Sctpmap",
                V::M(vec![
                    ("port", u(num(w[0], M16)?)),
                    ("channels", u(num(w[2], M32)?)),
                ]),
            ))
        }
        "rtcp" => {
            let w = words(v);
            if w.is_empty() {
                return Err(Bad);
            }
            Ok(new(
                "Rtcp",
                V::M(vec![
                    ("port", u(num(w[0], M16)?)),
                    (
                        "unicast_addr",
                        if w.len() > 1 {
                            net_address(&w[1..])?
                        } else {
                            V::Null
                        },
                    ),
                ]),
            ))
        }
        "rtpmap" => {
            let w = words(v);
            if w.len() < 2 {
                return Err(Bad);
            }
            let p: Vec<&str> = w[1].split('/').collect();
            if p.len() < 2 {
                return Err(Bad);
            }
            Ok(new(
                "Rtpmap",
                V::M(vec![
                    ("payload_type", u(num(w[0], 127)?)),
                    ("codec_name", s(p[0])),
                    ("frequency", u(num(p[1], M32)?)),
                    (
                        "channels",
                        if p.len() > 2 {
                            u(num(p[2], M32)?)
                        } else {
                            V::Null
                        },
                    ),
                ]),
            ))
        }
        "fmtp" => fmtp(v),
        "rtcp-fb" => rtcp_fb(v),
        "imageattr" => imageattr(v),
        "framerate" => {
            let f: f64 = v.parse().map_err(|_| Bad)?;
            if !f.is_finite() || f == 0.0 {
                return Err(Bad);
            }
            Ok(new("FrameRate", f64v(f)))
        }
        "msid" => {
            let w = words(v);
            if w.is_empty() {
                return Err(Bad);
            }
            Ok(new(
                "Msid",
                V::M(vec![
                    ("id", s(w[0])),
                    ("appdata", w.get(1).map_or(V::Null, |x| s(x))),
                ]),
            ))
        }
        "msid-semantic" => {
            let w = words(v);
            if w.is_empty() {
                return Err(Bad);
            }
            Ok(new(
                "MsidSemantic",
                V::M(vec![
                    ("semantic", s(w[0])),
                    ("msids", V::L(w[1..].iter().map(|x| s(x)).collect())),
                ]),
            ))
        }
        "group" => {
            let w = words(v);
            if w.is_empty() {
                return Err(Bad);
            }
            let sem = match up(w[0]).as_str() {
                "LS" => "LipSynchronization",
                "FID" => "FlowIdentification",
                "SRF" => "SingleReservationFlow",
                "ANAT" => "AlternateNetworkAddressType",
                "FEC" => "ForwardErrorCorrection",
                "DDP" => "DecodingDependency",
                "BUNDLE" => "Bundle",
                _ => return Err(Unsup),
            };
            Ok(new(
                "Group",
                V::M(vec![
                    ("semantics", V::Unit(sem)),
                    ("tags", V::L(w[1..].iter().map(|x| s(x)).collect())),
                ]),
            ))
        }
        "ssrc" => Ok(new("Ssrc", ssrc(v)?)),
        "ssrc-group" => {
            let w = words(v);
            if w.is_empty() {
                return Err(Bad);
            }
            let sem = match up(w[0]).as_str() {
                "DUP" => Some("Duplication"),
                "FID" => Some("FlowIdentification"),
                "FEC" => Some("ForwardErrorCorrection"),
                "FEC-FR" => Some("ForwardErrorCorrectionFr"),
                "SIM" => Some("Sim"),
                _ => None,
            };
            let ids: Result<Vec<V>, E> = w[1..].iter().map(|x| ssrc(x)).collect();
            let ok = w.len() > 1 && ids.is_ok();
            match (sem, ok) {
                (Some(sem), true) => Ok(V::Tup("SsrcGroup", vec![V::Unit(sem), V::L(ids?)])),
                (Some(_), false) => Err(Bad),
                (None, true) => Err(Unsup),
                (None, false) => Err(Either),
            }
        }
        "extmap" => extmap(v),
        "rid" => rid(v),
        "simulcast" => simulcast(v),
        x => panic!("harness: no reference for {x}"),
    }
}

fn ssrc(v: &str) -> R {
    let (id, rest) = match v.find(' ') {
        Some(p) => (&v[..p], Some(&v[p + 1..])),
        None => (v, None),
    };
    let id = u(num(id, M32)?);
    let (a, val) = match rest {
        None => (V::Null, V::Null),
        Some(r) => match r.find(':') {
            None => (s(r), V::Null),
            Some(p) => (s(&r[..p]), s(&r[p + 1..])),
        },
    };
    Ok(V::M(vec![("id", id), ("attribute", a), ("value", val)]))
}

fn candidate(v: &str) -> R {
    let w = words(v);
    if w.len() < 8 {
        return Err(Bad);
    }
    let transport = match low(w[2]).as_str() {
        "udp" => "Udp",
        "tcp" => "Tcp",
        _ => return Err(Bad),
    };
    if low(w[6]) != "typ" {
        return Err(Bad);
    }
    let c_type = match low(w[7]).as_str() {
        "host" => "Host",
        "srflx" => "Srflx",
        "prflx" => "Prflx",
        "relay" => "Relay",
        _ => return Err(Bad),
    };
    let mut c = V::M(vec![
        ("foundation", s(w[0])),
        ("component", u(num(w[1], M32)?)),
        ("transport", V::Unit(transport)),
        ("priority", u(num(w[3], M64)?)),
        ("address", address(w[4])?),
        ("port", u(num(w[5], M16)?)),
        ("c_type", V::Unit(c_type)),
        ("raddr", V::Null),
        ("rport", V::Null),
        ("tcp_type", V::Null),
        ("generation", V::Null),
        ("ufrag", V::Null),
        ("networkcost", V::Null),
        ("unknown_extensions", V::L(vec![])),
    ]);
    let ext = &w[8..];
    for p in ext.chunks_exact(2) {
        let (name, val) = (low(p[0]), p[1]);
        match name.as_str() {
            "raddr" => c.set("raddr", address(val)?),
            "rport" => c.set("rport", u(num(val, M16)?)),
            "tcptype" => c.set(
                "tcp_type",
                V::Unit(match low(val).as_str() {
                    "active" => "Active",
                    "passive" => "Passive",
                    "so" => "Simultaneous",
                    _ => return Err(Bad),
                }),
            ),
            "generation" => c.set("generation", u(num(val, M32)?)),
            "network-cost" => c.set("networkcost", u(num(val, M32)?)),
            "ufrag" => c.set("ufrag", s(val)),
            _ => c
                .get_mut("unknown_extensions")
                .list_mut()
                .push(V::L(vec![s(p[0]), s(val)])),
        }
    }
    if ext.len() % 2 == 1 {
        return Err(Unsup);
    }
    Ok(new("Candidate", c))
}

pub fn octet(t: &str) -> Result<u64, E> {
    if t.len() == 2 && t.bytes().all(|b| b.is_ascii_hexdigit()) {
        u64::from_str_radix(t, 16).map_err(|_| Bad)
    } else {
        Err(Bad)
    }
}
pub fn hash(name: &str) -> Option<(&'static str, usize)> {
    Some(match name {
        "sha-1" => ("Sha1", 20),
        "sha-224" => ("Sha224", 28),
        "sha-256" => ("Sha256", 32),
        "sha-384" => ("Sha384", 48),
        "sha-512" => ("Sha512", 64),
        _ => return None,
    })
}
fn fingerprint(v: &str) -> R {
    let w = words(v);
    if w.len() != 2 {
        return Err(Bad);
    }
    let octets: Result<Vec<u64>, E> = w[1].split(':').map(octet).collect();
    match (hash(w[0]), octets) {
        (None, Ok(_)) => Err(Unsup),
        (None, Err(_)) => Err(Either),
        (Some(_), Err(_)) => Err(Bad),
        (Some((h, n)), Ok(o)) => {
            if o.len() != n {
                return Err(Bad);
            }
            Ok(new(
                "Fingerprint",
                V::M(vec![
                    ("hash_algorithm", V::Unit(h)),
                    ("fingerprint", V::L(o.into_iter().map(u).collect())),
                ]),
            ))
        }
    }
}

pub fn fmtp_defaults() -> V {
    V::M(vec![
        ("packetization_mode", V::U(0)),
        ("level_asymmetry_allowed", V::B(false)),
        ("profile_level_id", V::U(0x42_000a)),
        ("max_fs", V::U(0)),
        ("max_cpb", V::U(0)),
        ("max_dpb", V::U(0)),
        ("max_br", V::U(0)),
        ("max_mbps", V::U(0)),
        ("max_fr", V::U(0)),
        ("profile", V::Null),
        ("level_idx", V::Null),
        ("tier", V::Null),
        ("maxplaybackrate", V::U(48000)),
        ("maxaveragebitrate", V::U(0)),
        ("usedtx", V::B(false)),
        ("stereo", V::B(false)),
        ("useinbandfec", V::B(false)),
        ("cbr", V::B(false)),
        ("ptime", V::U(0)),
        ("minptime", V::U(0)),
        ("maxptime", V::U(0)),
        ("encodings", V::L(vec![])),
        ("dtmf_tones", s("")),
        ("rtx", V::Null),
        ("unknown_tokens", V::L(vec![])),
    ])
}

/// numeric parameters: wire name, field, limit, optional
pub const FMTP_NUM: &[(&str, &str, u64)] = &[
    ("packetization-mode", "packetization_mode", 2),
    ("max-fs", "max_fs", M32),
    ("max-cpb", "max_cpb", M32),
    ("max-dpb", "max_dpb", M32),
    ("max-br", "max_br", M32),
    ("max-mbps", "max_mbps", M32),
    ("max-fr", "max_fr", M32),
    ("profile", "profile", 2),
    ("level-idx", "level_idx", 31),
    ("tier", "tier", 1),
    ("maxplaybackrate", "maxplaybackrate", M32),
    ("maxaveragebitrate", "maxaveragebitrate", M32),
    ("ptime", "ptime", M32),
    ("minptime", "minptime", M32),
    ("maxptime", "maxptime", M32),
];
pub const FMTP_BOOL: &[(&str, &str)] = &[
    ("level-asymmetry-allowed", "level_asymmetry_allowed"),
    ("usedtx", "usedtx"),
    ("stereo", "stereo"),
    ("useinbandfec", "useinbandfec"),
    ("cbr", "cbr"),
];

fn fmtp(v: &str) -> R {
    let Some(p) = v.find(' ') else {
        return Err(if num(v, M8).is_ok() { Unsup } else { Either });
    };
    let pt = num(&v[..p], M8);
    let block = &v[p + 1..];
    let mut q = fmtp_defaults();
    if block.contains('=') {
        for param in block.split(';').map(str::trim).filter(|x| !x.is_empty()) {
            let Some(eq) = param.find('=') else {
                return Err(Bad);
            };
            let name = low(&param[..eq]);
            let val = &param[eq + 1..];
            if let Some((_, field, max)) = FMTP_NUM.iter().find(|x| x.0 == name) {
                q.set(field, u(num(val, *max)?));
            } else if let Some((_, field)) = FMTP_BOOL.iter().find(|x| x.0 == name) {
                q.set(field, V::B(num(val, 1)? == 1));
            } else if name == "profile-level-id" {
                q.set("profile_level_id", u(hex24(val)?));
            } else if name == "apt" {
                q.set(
                    "rtx",
                    V::M(vec![("apt", u(num(val, M8)?)), ("rtx_time", V::Null)]),
                );
            } else if name == "rtx-time" {
                let t = u(num(val, M32)?);
                let rtx = q.get_mut("rtx");
                if rtx.is_null() {
                    return Err(Bad);
                }
                rtx.set("rtx_time", t);
            } else {
                q.get_mut("unknown_tokens").list_mut().push(s(param));
            }
        }
    } else if block.contains('/') {
        let e: Result<Vec<V>, E> = block.split('/').map(|x| num(x, 128).map(u)).collect();
        q.set("encodings", V::L(e?));
    } else {
        let tone = |t: &str| num(t, 100);
        let ok = block.split(',').all(|t| match t.find('-') {
            None => tone(t).is_ok(),
            Some(i) => match (tone(&t[..i]), tone(&t[i + 1..])) {
                (Ok(a), Ok(b)) => a < b,
                _ => false,
            },
        });
        q.set("dtmf_tones", s(if ok { block } else { "0-15" }));
    }
    Ok(new(
        "Fmtp",
        V::M(vec![("payload_type", u(pt?)), ("parameters", q)]),
    ))
}

fn payload(t: &str) -> R {
    if t == "*" {
        Ok(V::Unit("Wildcard"))
    } else {
        Ok(new("PayloadType", u(num(t, M8)?)))
    }
}

fn rtcp_fb(v: &str) -> R {
    let w: Vec<&str> = v.splitn(4, ' ').collect();
    if w.len() < 2 {
        return Err(Bad);
    }
    let pt = payload(w[0]);
    let param = w.get(2).copied();
    let one_of = |set: &[&str], need: bool| -> Result<String, E> {
        match param {
            Some(p) if set.contains(&p) => Ok(p.to_string()),
            Some(_) => Err(Unsup),
            None if need => Err(Unsup),
            None => Ok(String::new()),
        }
    };
    let (ty, p) = match w[1] {
        "ack" => ("Ack", one_of(&["rpsi", "app"], true)),
        "ccm" => ("Ccm", one_of(&["fir", "tmmbr", "tstr", "vbcm"], false)),
        "nack" => ("Nack", one_of(&["sli", "pli", "rpsi", "app"], false)),
        "trr-int" => (
            "TrrInt",
            match param {
                Some(p) if num(p, M32).is_ok() => Ok(p.to_string()),
                _ => Err(Bad),
            },
        ),
        "goog-remb" => ("Remb", one_of(&[], false)),
        "transport-cc" => ("TransCc", one_of(&[], false)),
        _ => ("", Err(Unsup)),
    };
    match (pt, p) {
        (Ok(pt), Ok(p)) => Ok(new(
            "Rtcpfb",
            V::M(vec![
                ("payload_type", pt),
                ("feedback_type", V::Unit(ty)),
                ("parameter", s(&p)),
                ("extra", s(w.get(3).copied().unwrap_or(""))),
            ]),
        )),
        (Err(_), Err(Unsup)) => Err(Either),
        (Ok(_), Err(e)) => Err(e),
        _ => Err(Bad),
    }
}

/// Split at a separator, but not inside brackets; an unclosed rest is dropped.
fn outside_brackets(t: &str, sep: char) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Vec<&str> = vec![];
    let mut depth = 0i64;
    for piece in t.split(sep) {
        depth += i64::from(piece.contains('['));
        depth -= i64::from(piece.contains(']'));
        cur.push(piece);
        if depth == 0 {
            out.push(cur.join(&sep.to_string()));
            cur.clear();
        }
    }
    out
}
fn braced(t: &str) -> Result<&str, E> {
    t.strip_prefix('[')
        .and_then(|x| x.strip_suffix(']'))
        .ok_or(Bad)
}
fn finite(t: &str) -> Result<f32, E> {
    let f: f32 = t.parse().map_err(|_| Bad)?;
    if f.is_finite() {
        Ok(f)
    } else {
        Err(Bad)
    }
}
fn xyrange(t: &str) -> R {
    if !t.starts_with('[') {
        return Ok(new("DiscreteValues", V::L(vec![u(num(t, M32)?)])));
    }
    let i = braced(t)?;
    if i.contains(':') {
        let p: Vec<u64> = i
            .split(':')
            .map(|x| num(x, M32))
            .collect::<Result<_, _>>()?;
        return match p.len() {
            2 => Ok(V::Tup("Range", vec![u(p[0]), u(p[1]), V::Null])),
            3 => Ok(V::Tup("Range", vec![u(p[0]), u(p[2]), u(p[1])])),
            _ => Err(Bad),
        };
    }
    let p: Vec<V> = i
        .split(',')
        .map(|x| num(x, M32).map(u))
        .collect::<Result<_, _>>()?;
    if p.len() < 2 {
        return Err(Bad);
    }
    Ok(new("DiscreteValues", V::L(p)))
}
fn minmax(t: &str) -> Result<(f32, f32), E> {
    let p: Vec<&str> = t.split('-').collect();
    if p.len() != 2 {
        return Err(Bad);
    }
    let (a, b) = (finite(p[0])?, finite(p[1])?);
    if a < b {
        Ok((a, b))
    } else {
        Err(Bad)
    }
}
fn imageset(t: &str) -> R {
    let parts = outside_brackets(braced(t)?, ',');
    let part = |i: usize, pre: &str| -> Result<String, E> {
        parts
            .get(i)
            .and_then(|x| x.strip_prefix(pre))
            .map(ToString::to_string)
            .ok_or(Bad)
    };
    let x = xyrange(&part(0, "x=")?)?;
    let y = xyrange(&part(1, "y=")?)?;
    let (mut sar, mut par, mut q) = (V::Null, V::Null, V::Null);
    for p in &parts[2..] {
        if let Some(r) = p.strip_prefix("sar=") {
            if r.starts_with('[') {
                let i = braced(r)?;
                if i.contains('-') {
                    let (a, b) = minmax(i)?;
                    sar = V::Tup("Range", vec![f32v(a), f32v(b)]);
                } else if i.contains(',') {
                    let v: Vec<f32> = i.split(',').map(finite).collect::<Result<_, _>>()?;
                    if v[0] <= 0.0 || v.windows(2).any(|w| w[0] >= w[1]) {
                        return Err(Bad);
                    }
                    sar = new("DiscreteValues", V::L(v.into_iter().map(f32v).collect()));
                }
            } else {
                sar = new("DiscreteValues", V::L(vec![f32v(finite(r)?)]));
            }
        } else if let Some(r) = p.strip_prefix("par=") {
            let (a, b) = minmax(braced(r)?)?;
            par = V::M(vec![("min", f32v(a)), ("max", f32v(b))]);
        } else if let Some(r) = p.strip_prefix("q=") {
            q = f32v(finite(r)?);
        }
    }
    Ok(V::M(vec![
        ("x", x),
        ("y", y),
        ("sar", sar),
        ("par", par),
        ("q", q),
    ]))
}
fn imageattr(v: &str) -> R {
    let w = outside_brackets(v, ' ');
    let mut i = 0;
    let mut next = || -> Result<String, E> {
        i += 1;
        w.get(i - 1).cloned().ok_or(Bad)
    };
    let pt = payload(&next()?)?;
    let d1 = direction(&next()?)?;
    let mut k = 2;
    let list = |k: &mut usize| -> R {
        let first = w.get(*k).ok_or(Bad)?;
        *k += 1;
        if first == "*" {
            return Ok(V::Unit("Wildcard"));
        }
        let mut sets = vec![imageset(first)?];
        while *k < w.len() && w[*k].starts_with('[') {
            sets.push(imageset(&w[*k])?);
            *k += 1;
        }
        Ok(new("Sets", V::L(sets)))
    };
    let l1 = list(&mut k)?;
    let mut l2 = new("Sets", V::L(vec![]));
    if k < w.len() {
        if direction(&w[k])? == d1 {
            return Err(Bad);
        }
        k += 1;
        l2 = list(&mut k)?;
    }
    if k < w.len() {
        return Err(Bad);
    }
    let (send, recv) = if d1 == "Send" { (l1, l2) } else { (l2, l1) };
    Ok(new(
        "ImageAttr",
        V::M(vec![("pt", pt), ("send", send), ("recv", recv)]),
    ))
}
fn direction(t: &str) -> Result<&'static str, E> {
    match t {
        "send" => Ok("Send"),
        "recv" => Ok("Recv"),
        _ => Err(Bad),
    }
}

fn extmap(v: &str) -> R {
    let w = words(v);
    if w.len() < 2 {
        return Err(Bad);
    }
    let (id, dir) = match w[0].find('/') {
        None => (w[0], V::Null),
        Some(p) => (
            &w[0][..p],
            V::Unit(match low(&w[0][p + 1..]).as_str() {
                "recvonly" => "Recvonly",
                "sendonly" => "Sendonly",
                "sendrecv" => "Sendrecv",
                _ => return Err(Bad),
            }),
        ),
    };
    let ext = if w.len() > 2 {
        let e = w[2..].join(" ");
        if e.contains('\0') {
            return Err(Bad);
        }
        s(&e)
    } else {
        V::Null
    };
    Ok(new(
        "Extmap",
        V::M(vec![
            ("id", u(num(id, M16)?)),
            ("direction", dir),
            ("url", s(w[1])),
            ("extension_attributes", ext),
        ]),
    ))
}

pub const RID_NUM: &[(&str, &str)] = &[
    ("max-width", "max_width"),
    ("max-height", "max_height"),
    ("max-fps", "max_fps"),
    ("max-fs", "max_fs"),
    ("max-br", "max_br"),
    ("max-pps", "max_pps"),
];
fn rid(v: &str) -> R {
    let w: Vec<&str> = v.splitn(3, ' ').collect();
    if w.len() < 2 {
        return Err(Bad);
    }
    let dir = direction(w[1])?;
    let mut formats = vec![];
    let mut params = V::M(vec![
        ("max_width", V::U(0)),
        ("max_height", V::U(0)),
        ("max_fps", V::U(0)),
        ("max_fs", V::U(0)),
        ("max_br", V::U(0)),
        ("max_pps", V::U(0)),
        ("unknown", V::L(vec![])),
    ]);
    let mut depends = vec![];
    if w.len() == 3 {
        for (i, raw) in w[2].split(';').enumerate() {
            if i == 0 {
                if let Some(l) = raw.strip_prefix("pt=") {
                    for f in l.split(',') {
                        formats.push(u(num(f.trim(), M16)?));
                    }
                    continue;
                }
            }
            let p = raw.trim();
            let eq = p.find('=').ok_or(Bad)?;
            let (name, val) = (&p[..eq], &p[eq + 1..]);
            if let Some((_, field)) = RID_NUM.iter().find(|x| x.0 == name) {
                params.set(field, u(num(val, M32)?));
            } else if name == "depends" {
                depends.extend(
                    val.split(',')
                        .map(str::trim)
                        .filter(|x| !x.is_empty())
                        .map(s),
                );
            } else if name == "pt" {
                return Err(Bad);
            } else {
                params.get_mut("unknown").list_mut().push(s(p));
            }
        }
    }
    Ok(new(
        "Rid",
        V::M(vec![
            ("id", s(w[0])),
            ("direction", V::Unit(dir)),
            ("formats", V::L(formats)),
            ("params", params),
            ("depends", V::L(depends)),
        ]),
    ))
}

fn versions(t: &str) -> R {
    let list = match t.find('=') {
        None => t,
        Some(p) if &t[..p] == "rid" => &t[p + 1..],
        Some(_) => return Err(Bad),
    };
    let mut out = vec![];
    for alt in list.split(';') {
        let mut ids = vec![];
        for id in alt.split(',') {
            let (paused, id) = match id.strip_prefix('~') {
                Some(x) => (true, x),
                None => (false, id),
            };
            if id.is_empty() || id.contains('=') {
                return Err(Bad);
            }
            ids.push(V::M(vec![("id", s(id)), ("paused", V::B(paused))]));
        }
        out.push(V::M(vec![("ids", V::L(ids))]));
    }
    Ok(V::L(out))
}
fn simulcast(v: &str) -> R {
    let w = words(v);
    if w.len() < 2 {
        return Err(Bad);
    }
    let d1 = direction(w[0])?;
    let l1 = versions(w[1])?;
    let mut l2 = V::L(vec![]);
    if w.len() > 2 {
        if direction(w[2])? == d1 || w.len() < 4 {
            return Err(Bad);
        }
        l2 = versions(w[3])?;
    }
    let (send, receive) = if d1 == "Send" { (l1, l2) } else { (l2, l1) };
    Ok(new(
        "Simulcast",
        V::M(vec![("send", send), ("receive", receive)]),
    ))
}

// ------------------------------------------------------------------ lines

/// One parsed line: a variant of the library's SdpType.
pub fn line(text: &str) -> R {
    let eq = text.find('=').ok_or(Bad)?;
    let ty = text[..eq].trim();
    if ty.len() != 1 {
        return Err(Bad);
    }
    let raw = &text[eq + 1..];
    let v = raw.trim();
    let ty = ty.to_ascii_lowercase();
    if v.is_empty() && ty != "s" {
        return Err(Bad);
    }
    match ty.as_str() {
        "a" => attribute(v).map(|a| new("Attribute", a)),
        "b" => bandwidth(v).map(|a| new("Bandwidth", a)),
        "c" => connection(v).map(|a| new("Connection", a)),
        "m" => media(v).map(|a| new("Media", a)),
        "o" => origin(v).map(|a| new("Origin", a)),
        "s" => Ok(new("Session", s(raw))),
        "t" => {
            let w = words(v);
            if w.len() != 2 {
                return Err(Bad);
            }
            Ok(new(
                "Timing",
                V::M(vec![
                    ("start", u(num(w[0], M64)?)),
                    ("stop", u(num(w[1], M64)?)),
                ]),
            ))
        }
        "v" => Ok(new("Version", u(num(v, 0)?))),
        "e" | "i" | "k" | "p" | "r" | "u" | "z" => Err(Bad),
        _ => Err(Bad),
    }
}

fn bandwidth(v: &str) -> R {
    let p: Vec<&str> = v.split(':').collect();
    if p.len() != 2 {
        return Err(Bad);
    }
    let n = u(num(p[1], M32)?);
    Ok(match up(p[0]).as_str() {
        "AS" => new("As", n),
        "CT" => new("Ct", n),
        "TIAS" => new("Tias", n),
        _ => V::Tup("Unknown", vec![s(p[0]), n]),
    })
}
fn connection(v: &str) -> R {
    let w = words(v);
    if w.len() != 3 {
        return Err(Bad);
    }
    let p: Vec<&str> = w[2].split('/').collect();
    Ok(V::M(vec![
        ("address", net_address(&[w[0], w[1], p[0]])?),
        (
            "ttl",
            if p.len() > 1 {
                u(num(p[1], M8)?)
            } else {
                V::Null
            },
        ),
        (
            "amount",
            if p.len() > 2 {
                u(num(p[2], M32)?)
            } else {
                V::Null
            },
        ),
    ]))
}
fn origin(v: &str) -> R {
    let w = words(v);
    if w.len() < 6 {
        return Err(Bad);
    }
    Ok(V::M(vec![
        ("username", s(w[0])),
        ("session_id", u(num(w[1], M64)?)),
        ("session_version", u(num(w[2], M64)?)),
        ("unicast_addr", net_address(&w[3..])?),
    ]))
}
pub const PROTOS: &[(&str, &str)] = &[
    ("RTP/AVP", "RtpAvp"),
    ("RTP/AVPF", "RtpAvpf"),
    ("RTP/SAVP", "RtpSavp"),
    ("RTP/SAVPF", "RtpSavpf"),
    ("TCP/DTLS/RTP/SAVP", "TcpDtlsRtpSavp"),
    ("TCP/DTLS/RTP/SAVPF", "TcpDtlsRtpSavpf"),
    ("UDP/TLS/RTP/SAVP", "UdpTlsRtpSavp"),
    ("UDP/TLS/RTP/SAVPF", "UdpTlsRtpSavpf"),
    ("DTLS/SCTP", "DtlsSctp"),
    ("UDP/DTLS/SCTP", "UdpDtlsSctp"),
    ("TCP/DTLS/SCTP", "TcpDtlsSctp"),
];
pub fn reserved(pt: u64) -> bool {
    pt == 1 || pt == 2 || pt == 19 || (64..=95).contains(&pt) || pt > 127
}
fn media(v: &str) -> R {
    let w = words(v);
    if w.len() < 4 {
        return Err(Bad);
    }
    let media = match low(w[0]).as_str() {
        "audio" => Some("Audio"),
        "video" => Some("Video"),
        "application" => Some("Application"),
        _ => None,
    };
    let proto = PROTOS.iter().find(|p| p.0 == up(w[2])).map(|p| p.1);
    let p: Vec<&str> = w[1].split('/').collect();
    let port = num(p[0], M16);
    let count = if p.len() > 1 { num(p[1], M32) } else { Ok(0) };
    let ints: Result<Vec<V>, E> = w[3..]
        .iter()
        .map(|f| match num(f, M32) {
            Ok(n) if !reserved(n) => Ok(u(n)),
            _ => Err(Bad),
        })
        .collect();
    let formats = match media {
        Some("Application") => Ok(new(
            "Strings",
            V::L(w[3..].iter().map(|x| s(x)).collect()),
        )),
        Some(_) => ints.map(|v| new("Integers", V::L(v))),
        // cannot be judged
        None => Ok(V::Null),
    };
    let bad = port.is_err() || count.is_err() || formats.is_err();
    let Some(m) = media else {
        return Err(if bad { Either } else { Unsup });
    };
    let Some(pr) = proto else {
        return Err(if bad { Either } else { Unsup });
    };
    Ok(V::M(vec![
        ("media", V::Unit(m)),
        ("port", u(port?)),
        ("port_count", u(count?)),
        ("proto", V::Unit(pr)),
        ("formats", formats?),
    ]))
}
