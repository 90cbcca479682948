//! Random values of every type, within the ranges that have a textual form,
//! as plain trees.
use crate::kinds::KINDS;
use crate::refparse::{fmtp_defaults, reserved, FMTP_BOOL, FMTP_NUM, PROTOS, RID_NUM};
use crate::rng::Rng;
use crate::val::{f32v, f64v, new, s, u, V};
use crate::words::{word, At};
use std::net::{Ipv4Addr, Ipv6Addr};

const TOK: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.+/!#$%&'^`{|}@";
const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

fn from(r: &mut Rng, set: &[u8], lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(set) as char).collect()
}
pub fn alnum(r: &mut Rng) -> String {
    from(r, ALNUM, 1, 10)
}
/// no blanks, not empty
pub fn token(r: &mut Rng) -> String {
    match r.n(27) {
        25 => {
            // as if quoted or escaped
            let t = if r.bool() { alnum(r) } else { word(r, At::Text) };
            let (a, b) = *r.pick(&[
                ("\"", "\""), ("'", "'"), ("<", ">"), ("(", ")"), ("{", "}"), ("[", "]"), ("`", "`"), ("%22", "%22"), ("\\", "\\"), ("&quot;", "&quot;"),
                ("\\\"", "\\\""), ("", "%20"), ("%", ""), ("\"", ""), ("", "\""), ("\u{201c}", "\u{201d}"), ("", "\\"), ("*", "*"), ("_", "_"), ("$", ""), ("~", "~"),
            ]);
            format!("{a}{t}{b}")
        }
        24 => word(r, At::Text),
        0 => r.pick_s(&["0", "-", "*", "1", "audio", "send", "recv", "rid", "-1", "IN", "IP4"]),
        1 => {
            let long = *r.pick(&[40, 90, 90, 90, 90, 90, 130, 260, 300, 600]);
            from(r, TOK, 30, long)
        }
        7 => {
            // any character there is, but for blanks
            let c = match r.n(4) {
                0 => char::from_u32(0x21 + r.n(0x5e) as u32),
                1 => char::from_u32(1 + r.n(0xff) as u32),
                2 => char::from_u32(r.n(0x3000) as u32),
                _ => char::from_u32(r.n(0x11_0000) as u32),
            };
            let c = c.filter(|c| !c.is_whitespace() && *c != '\0' && !matches!(c, 'ı' | 'İ' | 'ſ' | '\u{212a}'));
            let mut t = vec![from(r, ALNUM, 0, 3), c.unwrap_or('"').to_string(), from(r, ALNUM, 0, 3)];
            if r.chance(1, 4) {
                t.swap(0, 1);
            }
            t.concat()
        }
        2 => r.pick_s(&["é", "Ünï", "日本語", "😀", "a\u{301}b", "ß", "Ω-1"]),
        3 => format!("{}:{}", alnum(r), alnum(r)),
        4 => format!("{}={}", alnum(r), alnum(r)),
        5 => format!("{};{},", alnum(r), alnum(r)),
        6 => format!("{{{}-{:04x}}}", alnum(r), r.n(65536)),
        _ => from(r, TOK, 1, 12),
    }
}
/// letters, digits and a few marks that no list syntax uses
pub fn id(r: &mut Rng) -> String {
    match r.n(12) {
        0 => r.pick_s(&["0", "1", "-", "a", "é", "日本", "😀x", "send", "pt", "hi_res", "A"]),
        _ => from(r, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789-_.", 1, 8),
    }
}
/// free text: blanks, colons and equal signs inside, none at the ends
pub fn text(r: &mut Rng) -> String {
    let n = match r.n(6) {
        0 => 3,
        1 => 2,
        2 => 5,
        _ => 1,
    };
    let mut out = token(r);
    for _ in 1..n {
        out.push_str(r.pick(&[" ", "  ", ":", "=", "\t", "; ", " :", "/"]));
        out.push_str(&token(r));
    }
    out
}
/// a word with a meaning at that place, or else a token
fn known(r: &mut Rng, at: At) -> String {
    if r.chance(1, 4) {
        word(r, at)
    } else {
        token(r)
    }
}
fn known_id(r: &mut Rng, at: At) -> String {
    if r.chance(1, 4) {
        word(r, at)
    } else {
        id(r)
    }
}
fn known_text(r: &mut Rng, at: At) -> String {
    if r.chance(1, 4) {
        word(r, at)
    } else {
        text(r)
    }
}
/// a number up to max, the edges and powers of two more often
pub fn num(r: &mut Rng, max: u64) -> u64 {
    let x = match r.n(12) {
        0 => 0,
        1 => 1,
        2 | 3 => max,
        4 => max.saturating_sub(1),
        5 => 1u64 << r.n(64),
        6 => (1u64 << r.n(64)).wrapping_sub(1),
        7 => 10u64.pow(r.n(19) as u32),
        8 | 9 => r.u64() % 128,
        10 => r.u64() % 70000,
        _ => r.u64(),
    };
    if x > max {
        if max == u64::MAX {
            x
        } else {
            x % (max + 1)
        }
    } else {
        x
    }
}
const M32: u64 = 0xffff_ffff;
pub fn n8(r: &mut Rng) -> V {
    V::U(num(r, 255))
}
pub fn n16(r: &mut Rng) -> V {
    V::U(num(r, 65535))
}
pub fn n32(r: &mut Rng) -> V {
    V::U(num(r, M32))
}
pub fn n64(r: &mut Rng) -> V {
    V::U(num(r, u64::MAX))
}
pub fn maybe<F: FnOnce(&mut Rng) -> V>(r: &mut Rng, f: F) -> V {
    if r.bool() {
        f(r)
    } else {
        V::Null
    }
}
pub fn count(r: &mut Rng, lo: usize, hi: usize) -> usize {
    if r.chance(1, 600) {
        *r.pick(&[33, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300])
    } else if r.chance(1, 40) {
        r.range(hi, hi * 6)
    } else {
        r.range(lo, hi)
    }
}
pub fn list<F: FnMut(&mut Rng) -> V>(r: &mut Rng, lo: usize, hi: usize, mut f: F) -> V {
    let n = count(r, lo, hi);
    V::L((0..n).map(|_| f(r)).collect())
}

pub fn ipv4(r: &mut Rng) -> Ipv4Addr {
    match r.n(13) {
        // ranges with a meaning
        10 | 11 => {
            let (a, b) = *r.pick(&[
                (10u8, 0u8),
                (172, 16),
                (172, 31),
                (192, 168),
                (169, 254),
                (100, 64),
                (127, 0),
                (192, 0),
                (198, 18),
                (198, 51),
                (203, 0),
                (224, 0),
                (232, 1),
                (239, 255),
                (240, 0),
                (255, 255),
                (0, 0),
            ]);
            Ipv4Addr::new(a, b, r.n(256) as u8, r.n(256) as u8)
        }
        12 => {
            let x = Ipv4Addr::from(r.u64() as u32).octets();
            Ipv4Addr::new(x[0], x[1], x[2], *r.pick(&[0, 1, 254, 255]))
        }
        0 => Ipv4Addr::new(0, 0, 0, 0),
        1 => Ipv4Addr::new(255, 255, 255, 255),
        2 => Ipv4Addr::new(127, 0, 0, 1),
        3 => Ipv4Addr::new(224, 0, 0, r.n(256) as u8),
        4 => Ipv4Addr::new(0, 0, 0, r.n(9) as u8),
        _ => Ipv4Addr::from(r.u64() as u32),
    }
}
pub fn ipv6(r: &mut Rng) -> Ipv6Addr {
    match r.n(14) {
        // ranges with a meaning
        12 => {
            let (top, bits) = *r.pick(&[
                (0xfe80u16, 64usize),
                (0xfec0, 64),
                (0xfc00, 112),
                (0xfd12, 112),
                (0xff02, 16),
                (0xff0e, 112),
                (0x0064, 32),
                (0x2002, 112),
                (0x2001, 96),
                (0x0100, 64),
                (0x3fff, 112),
            ]);
            let rest = (u128::from(r.u64()) << 64 | u128::from(r.u64())) & ((1u128 << bits) - 1);
            Ipv6Addr::from(u128::from(top) << 112 | rest)
        }
        13 => ipv4(r).to_ipv6_compatible(),
        0 => Ipv6Addr::UNSPECIFIED,
        1 => Ipv6Addr::LOCALHOST,
        2 => ipv4(r).to_ipv6_mapped(),
        3 => Ipv6Addr::from(u128::from(r.u64() % 16)),
        4 => Ipv6Addr::from(u128::MAX),
        5 => Ipv6Addr::from(0x2001_0db8u128 << 96 | u128::from(r.u64() % 65536)),
        6 => {
            let mut x = [0u16; 8];
            for p in &mut x {
                if r.bool() {
                    *p = r.u64() as u16 >> r.n(16);
                }
            }
            Ipv6Addr::from(x)
        }
        _ => Ipv6Addr::from(u128::from(r.u64()) << 64 | u128::from(r.u64())),
    }
}
/// a host name in its normal form
pub fn host(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        return word(r, At::Host);
    }
    if r.chance(1, 8) {
        return r.pick_s(&[
            "localhost",
            "a",
            "example.com",
            "xn--mnchen-3ya.de",
            "foo.invalid",
            "8f1a.local",
            "ip4.in",
            "mozilla.org",
            "a-b.c-d",
        ]);
    }
    let n = r.range(1, 4);
    let l: Vec<String> = (0..n)
        .map(|_| {
            format!(
                "{}{}{}",
                from(r, b"ghijklmnopqrstuvwyz", 1, 1),
                from(r, b"abcdefghijklmnopqrstuvwyz0123456789", 0, 6),
                from(r, b"ghijklmnopqrstuvwyz", 1, 1)
            )
        })
        .collect();
    l.join(".")
}
pub fn address(r: &mut Rng) -> V {
    match r.n(5) {
        0 | 1 => new("Ip", s(&ipv4(r).to_string())),
        2 | 3 => new("Ip", s(&ipv6(r).to_string())),
        _ => new("Fqdn", s(&host(r))),
    }
}
pub fn typed(r: &mut Rng) -> V {
    match r.n(5) {
        0 | 1 => new("Ip", s(&ipv4(r).to_string())),
        2 | 3 => new("Ip", s(&ipv6(r).to_string())),
        _ => V::St(
            "Fqdn",
            vec![
                ("address_type", V::Unit(if r.bool() { "IpV4" } else { "IpV6" })),
                ("domain", s(&host(r))),
            ],
        ),
    }
}
pub fn bandwidth(r: &mut Rng) -> V {
    let n = n32(r);
    match r.n(5) {
        0 => new("As", n),
        1 => new("Ct", n),
        2 => new("Tias", n),
        _ => loop {
            let name = r.pick_s(&["RS", "RR", "X-YZ", "ASX", "A", "C", "TIASX", "x y", "é", "as2"]);
            let name = match r.n(4) {
                0 | 1 => name,
                2 => word(r, At::Bandwidth),
                _ => id(r),
            };
            if !["AS", "CT", "TIAS"].contains(&name.to_uppercase().as_str()) {
                break V::Tup("Unknown", vec![s(&name), n]);
            }
        },
    }
}
pub fn connection(r: &mut Rng) -> V {
    let ttl = maybe(r, n8);
    let amount = if ttl.is_null() {
        V::Null
    } else {
        maybe(r, n32)
    };
    V::M(vec![("address", typed(r)), ("ttl", ttl), ("amount", amount)])
}
pub fn origin(r: &mut Rng) -> V {
    V::M(vec![
        ("username", s(&known(r, At::User))),
        ("session_id", n64(r)),
        ("session_version", n64(r)),
        ("unicast_addr", typed(r)),
    ])
}
pub fn timing(r: &mut Rng) -> V {
    V::M(vec![("start", n64(r)), ("stop", n64(r))])
}
pub fn session_name(r: &mut Rng) -> V {
    match r.n(4) {
        0 => V::Null,
        1 => s(&word(r, At::Session)),
        _ => s(&text(r)),
    }
}
pub fn fmt_pt(r: &mut Rng) -> u64 {
    loop {
        let x = match r.n(6) {
            0 => *r.pick(&[0, 3, 18, 20, 63, 96, 127]),
            _ => r.n(128) as u64,
        };
        if !reserved(x) {
            return x;
        }
    }
}
pub fn media_line(r: &mut Rng) -> V {
    let m = *r.pick(&["Audio", "Video", "Application"]);
    let formats = if m == "Application" {
        new(
            "Strings",
            list(r, 1, 4, |r| {
                let t = token(r);
                s(r.pick(&["webrtc-datachannel", "5000", "0", &t]))
            }),
        )
    } else {
        new("Integers", list(r, 1, 6, |r| u(fmt_pt(r))))
    };
    V::M(vec![
        ("media", V::Unit(m)),
        ("port", n16(r)),
        (
            "port_count",
            if r.chance(1, 3) { n32(r) } else { V::U(0) },
        ),
        ("proto", V::Unit(r.pick(PROTOS).1)),
        ("formats", formats),
    ])
}

// --------------------------------------------------------------- attributes

/// octets of a digest: mostly random, sometimes with a structure that a rule about "impossible"
/// digests would look for
pub fn octets(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.n(10) {
        0 => vec![*r.pick(&[0u8, 255, 1, 0x0A, 0x0D, 0x20, 0x3A, 0xAA]); n],
        1 => {
            let start = r.n(256);
            let step = *r.pick(&[1usize, 255, 2, 16, 17]);
            (0..n).map(|i| (start + i * step) as u8).collect()
        }
        2 => {
            let p = *r.pick(&[2usize, 4, 8, n / 2]);
            let part: Vec<u8> = (0..p).map(|_| r.n(256) as u8).collect();
            (0..n).map(|i| part[i % p]).collect()
        }
        3 => (0..n).map(|_| *r.pick(&[0u8, 255])).collect(),
        4 => {
            // few octets differ from a uniform rest, at one of the ends
            let b = *r.pick(&[0u8, 255]);
            let k = r.range(1, 8);
            let head = r.bool();
            (0..n)
                .map(|i| {
                    if (head && i < k) || (!head && i + k >= n) {
                        r.n(256) as u8
                    } else {
                        b
                    }
                })
                .collect()
        }
        _ => (0..n).map(|_| r.n(256) as u8).collect(),
    }
}

fn pt(r: &mut Rng) -> V {
    if r.chance(1, 4) {
        V::Unit("Wildcard")
    } else {
        new("PayloadType", n8(r))
    }
}
fn f32any(r: &mut Rng) -> f32 {
    match r.n(5) {
        0 => (r.n(100) as f32) / 10.0,
        1 => *r.pick(&[0.0, 1.0, 0.5, 1.1, f32::MAX, f32::MIN_POSITIVE, 0.1, 1e10, 1e-10]),
        2 => loop {
            let f = f32::from_bits(r.u64() as u32 & 0x7fff_ffff);
            if f.is_finite() {
                break f;
            }
        },
        _ => (r.n(100_000) as f32) / 1000.0,
    }
}
/// ascending
fn f32s(r: &mut Rng, n: usize, positive: bool) -> Vec<f32> {
    loop {
        let mut v: Vec<f32> = (0..n).map(|_| f32any(r)).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup_by(|a, b| a == b);
        if v.len() == n && (!positive || v[0] > 0.0) {
            return v;
        }
    }
}
fn xyrange(r: &mut Rng) -> V {
    match r.n(4) {
        0 => V::Tup("Range", vec![n32(r), n32(r), V::Null]),
        1 => V::Tup("Range", vec![n32(r), n32(r), n32(r)]),
        2 => new("DiscreteValues", V::L(vec![n32(r)])),
        _ => new("DiscreteValues", list(r, 2, 4, n32)),
    }
}
fn imageset(r: &mut Rng) -> V {
    V::M(vec![
        ("x", xyrange(r)),
        ("y", xyrange(r)),
        (
            "sar",
            maybe(r, |r| match r.n(3) {
                0 => {
                    let v = f32s(r, 2, false);
                    V::Tup("Range", vec![f32v(v[0]), f32v(v[1])])
                }
                1 => new("DiscreteValues", V::L(vec![f32v(f32any(r))])),
                _ => {
                    let n = r.range(2, 4);
                    new(
                        "DiscreteValues",
                        V::L(f32s(r, n, true).into_iter().map(f32v).collect()),
                    )
                }
            }),
        ),
        (
            "par",
            maybe(r, |r| {
                let v = f32s(r, 2, false);
                V::M(vec![("min", f32v(v[0])), ("max", f32v(v[1]))])
            }),
        ),
        ("q", maybe(r, |r| f32v(f32any(r)))),
    ])
}
fn setlist(r: &mut Rng) -> V {
    if r.chance(1, 4) {
        V::Unit("Wildcard")
    } else {
        new("Sets", list(r, 1, 3, imageset))
    }
}
fn fmtp(r: &mut Rng) -> V {
    let mut q = fmtp_defaults();
    match r.n(8) {
        0 => {
            let t = tones(r);
            q.set("dtmf_tones", s(&t));
        }
        1 => q.set("encodings", list(r, 2, 4, |r| V::U(num(r, 128)))),
        _ => {
            let many = r.n(4) + 1;
            for _ in 0..many {
                match r.n(10) {
                    0..=4 => {
                        let (_, f, max) = r.pick(FMTP_NUM);
                        q.set(f, V::U(num(r, *max)));
                    }
                    5 => q.set(r.pick(FMTP_BOOL).1, V::B(r.chance(3, 4))),
                    6 => q.set("profile_level_id", V::U(num(r, 0xff_ffff))),
                    7 => q.set(
                        "rtx",
                        V::M(vec![("apt", n8(r)), ("rtx_time", maybe(r, n32))]),
                    ),
                    _ => {
                        let t = unknown_param(r);
                        q.get_mut("unknown_tokens").list_mut().push(s(&t));
                    }
                }
            }
            if r.chance(1, 20) {
                for (_, f, max) in FMTP_NUM {
                    q.set(f, V::U(num(r, *max)));
                }
                for (_, f) in FMTP_BOOL {
                    q.set(f, V::B(r.bool()));
                }
            }
            if q == fmtp_defaults() {
                q.set("max_fs", V::U(1 + num(r, 1000)));
            }
        }
    }
    V::M(vec![("payload_type", n8(r)), ("parameters", q)])
}
fn unknown_param(r: &mut Rng) -> String {
    loop {
        let n = match r.n(6) {
            0 => r.pick_s(&["x-google-min-bitrate", "sprop-stereo", "max-rcmd-nalu-size", "aptx", "xapt", "PROFILE-ID"]),
            1 | 2 => word(r, At::Fmtp),
            _ => id(r),
        };
        let l = n.to_lowercase();
        if l == "apt"
            || l == "rtx-time"
            || l == "profile-level-id"
            || FMTP_NUM.iter().any(|x| x.0 == l)
            || FMTP_BOOL.iter().any(|x| x.0 == l)
        {
            continue;
        }
        let v = match r.n(5) {
            0 => String::new(),
            1 => format!("{}={}", alnum(r), alnum(r)),
            2 => format!("{} {}", alnum(r), alnum(r)),
            3 => format!("{}/{},{}", alnum(r), alnum(r), alnum(r)),
            _ => alnum(r),
        };
        return format!("{n}={v}");
    }
}
fn tones(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let v: Vec<String> = (0..n)
        .map(|_| {
            let a = num(r, 100);
            if r.bool() && a < 100 {
                format!("{}-{}", a, a + 1 + num(r, 99 - a))
            } else {
                a.to_string()
            }
        })
        .collect();
    v.join(",")
}
fn versions(r: &mut Rng) -> V {
    list(r, 1, 3, |r| {
        V::M(vec![(
            "ids",
            list(r, 1, 3, |r| {
                V::M(vec![("id", s(&known_id(r, At::Rid))), ("paused", V::B(r.bool()))])
            }),
        )])
    })
}
fn dir(r: &mut Rng) -> V {
    V::Unit(if r.bool() { "Send" } else { "Recv" })
}
const CAND_EXT: &[&str] = &[
    "raddr", "rport", "tcptype", "generation", "network-cost", "ufrag",
];
pub fn candidate(r: &mut Rng) -> V {
    let tcp = r.chance(1, 3);
    V::M(vec![
        ("foundation", s(&known(r, At::Foundation))),
        ("component", n32(r)),
        ("transport", V::Unit(if tcp { "Tcp" } else { "Udp" })),
        ("priority", n64(r)),
        ("address", address(r)),
        ("port", n16(r)),
        (
            "c_type",
            V::Unit(r.pick(&["Host", "Srflx", "Prflx", "Relay"])),
        ),
        ("raddr", maybe(r, address)),
        ("rport", maybe(r, n16)),
        (
            "tcp_type",
            maybe(r, |r| {
                V::Unit(r.pick(&["Active", "Passive", "Simultaneous"]))
            }),
        ),
        ("generation", maybe(r, n32)),
        ("ufrag", maybe(r, |r| s(&known(r, At::Ufrag)))),
        ("networkcost", maybe(r, n32)),
        (
            "unknown_extensions",
            if r.chance(1, 3) {
                list(r, 1, 2, |r| {
                    let n = loop {
                        let n = known(r, At::CandExt);
                        if !CAND_EXT.contains(&n.to_lowercase().as_str()) {
                            break n;
                        }
                    };
                    V::L(vec![s(&n), s(&token(r))])
                })
            } else {
                V::L(vec![])
            },
        ),
    ])
}
pub fn ssrc(r: &mut Rng) -> V {
    let attribute = match r.n(4) {
        0 => V::Null,
        1 | 2 => s("cname"),
        _ => s(&known_id(r, At::SsrcAttr)),
    };
    let value = if attribute.is_null() || r.chance(1, 4) {
        V::Null
    } else {
        s(&known_text(r, At::Cname))
    };
    V::M(vec![("id", n32(r)), ("attribute", attribute), ("value", value)])
}

pub fn attr(r: &mut Rng, tag: &str) -> V {
    let k = crate::kinds::kind(tag);
    if k.flag {
        return V::Unit(k.tag);
    }
    let v = match k.tag {
        "Candidate" => candidate(r),
        "DtlsMessage" => new(
            if r.bool() { "Client" } else { "Server" },
            s(&token(r)),
        ),
        "Extmap" => V::M(vec![
            ("id", n16(r)),
            (
                "direction",
                maybe(r, |r| {
                    V::Unit(r.pick(&["Recvonly", "Sendonly", "Sendrecv"]))
                }),
            ),
            (
                "url",
                s(&match r.n(4) {
                    0 => format!("urn:ietf:params:rtp-hdrext:{}", id(r)),
                    1 => word(r, At::Url),
                    _ => token(r),
                }),
            ),
            (
                "extension_attributes",
                maybe(r, |r| {
                    let n = r.range(1, 3);
                    let w: Vec<String> = (0..n).map(|_| token(r)).collect();
                    s(&w.join(" "))
                }),
            ),
        ]),
        "Fingerprint" => {
            let (h, n) = *r.pick(&[
                ("Sha1", 20),
                ("Sha224", 28),
                ("Sha256", 32),
                ("Sha384", 48),
                ("Sha512", 64),
            ]);
            V::M(vec![
                ("hash_algorithm", V::Unit(h)),
                (
                    "fingerprint",
                    V::L(octets(r, n).into_iter().map(|b| u(b as u64)).collect()),
                ),
            ])
        }
        "Fmtp" => fmtp(r),
        "FrameRate" => loop {
            let f = match r.n(5) {
                0 => *r.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 29.97, 0.1, 1e21, 1e-7]),
                1 => f64::from_bits(r.u64() & (u64::MAX >> 1)),
                2 => r.n(1000) as f64,
                _ => (r.n(100_000) as f64) / 1000.0,
            };
            if f.is_finite() && f != 0.0 {
                break f64v(f);
            }
        },
        "Group" => V::M(vec![
            (
                "semantics",
                V::Unit(r.pick(&[
                    "LipSynchronization",
                    "FlowIdentification",
                    "SingleReservationFlow",
                    "AlternateNetworkAddressType",
                    "ForwardErrorCorrection",
                    "DecodingDependency",
                    "Bundle",
                ])),
            ),
            ("tags", list(r, 0, 4, |r| s(&known(r, At::Mid)))),
        ]),
        "IceOptions" => list(r, 1, 3, |r| {
            s(&known(r, At::IceOption))
        }),
        "IcePacing" => V::U(num(r, 9_999_999_999)),
        "IcePwd" => s(&known_text(r, At::Pwd)),
        "IceUfrag" => s(&known_text(r, At::Ufrag)),
        "Identity" => s(&known_text(r, At::Identity)),
        "Label" => s(&known_text(r, At::Label)),
        "Mid" => s(&known_text(r, At::Mid)),
        "ImageAttr" => {
            let (a, b) = match r.n(3) {
                0 => (setlist(r), new("Sets", V::L(vec![]))),
                1 => (new("Sets", V::L(vec![])), setlist(r)),
                _ => (setlist(r), setlist(r)),
            };
            V::M(vec![("pt", pt(r)), ("send", a), ("recv", b)])
        }
        "MaxMessageSize" | "MaxPtime" | "Ptime" => n64(r),
        "SctpPort" => n16(r),
        "Msid" => V::M(vec![
            ("id", s(&known(r, At::Stream))),
            ("appdata", maybe(r, |r| s(&known(r, At::Stream)))),
        ]),
        "MsidSemantic" => V::M(vec![
            ("semantic", {
                s(&known(r, At::Semantic))
            }),
            ("msids", list(r, 1, 4, |r| s(&known(r, At::Stream)))),
        ]),
        "Rid" => {
            let mut p = V::M(vec![
                ("max_width", V::U(0)),
                ("max_height", V::U(0)),
                ("max_fps", V::U(0)),
                ("max_fs", V::U(0)),
                ("max_br", V::U(0)),
                ("max_pps", V::U(0)),
                ("unknown", V::L(vec![])),
            ]);
            for (_, f) in RID_NUM {
                if r.chance(1, 4) {
                    p.set(f, n32(r));
                }
            }
            if r.chance(1, 4) {
                p.set(
                    "unknown",
                    list(r, 1, 3, |r| loop {
                        let n = known_id(r, At::RidParam);
                        if n != "pt" && n != "depends" && !RID_NUM.iter().any(|x| x.0 == n) {
                            let v = match r.n(3) {
                                0 => String::new(),
                                1 => format!("{},{}", alnum(r), alnum(r)),
                                _ => format!("{}={}", alnum(r), alnum(r)),
                            };
                            break s(&format!("{n}={v}"));
                        }
                    }),
                );
            }
            V::M(vec![
                ("id", s(&known_id(r, At::Rid))),
                ("direction", dir(r)),
                (
                    "formats",
                    if r.bool() {
                        list(r, 1, 3, n16)
                    } else {
                        V::L(vec![])
                    },
                ),
                ("params", p),
                (
                    "depends",
                    if r.chance(1, 4) {
                        list(r, 1, 3, |r| s(&known_id(r, At::Rid)))
                    } else {
                        V::L(vec![])
                    },
                ),
            ])
        }
        "RemoteCandidate" => V::M(vec![
            ("component", n32(r)),
            ("address", address(r)),
            ("port", n16(r)),
        ]),
        "Rtpmap" => V::M(vec![
            ("payload_type", V::U(num(r, 127))),
            ("codec_name", {
                let t = id(r);
                let k = word(r, At::Codec);
                s(r.pick(&["opus", "VP8", "H264", &k, &k, &t]))
            }),
            ("frequency", match r.n(3) {
                0 => V::U(*r.pick(&[8000, 16000, 44100, 48000, 90000, 1000, 32000])),
                _ => n32(r),
            }),
            ("channels", maybe(r, n32)),
        ]),
        "Rtcp" => V::M(vec![("port", n16(r)), ("unicast_addr", maybe(r, typed))]),
        "Rtcpfb" => {
            let (ty, params, need): (&str, &[&str], bool) = *r.pick(&[
                ("Ack", &["rpsi", "app"][..], true),
                ("Ccm", &["fir", "tmmbr", "tstr", "vbcm"][..], false),
                ("Nack", &["sli", "pli", "rpsi", "app"][..], false),
                ("TrrInt", &[][..], true),
                ("Remb", &[][..], false),
                ("TransCc", &[][..], false),
            ]);
            let param = if ty == "TrrInt" {
                num(r, M32).to_string()
            } else if !params.is_empty() && (need || r.bool()) {
                r.pick_s(params)
            } else {
                String::new()
            };
            let extra = if param.is_empty() || r.chance(2, 3) {
                String::new()
            } else {
                text(r)
            };
            V::M(vec![
                ("payload_type", pt(r)),
                ("feedback_type", V::Unit(ty)),
                ("parameter", s(&param)),
                ("extra", s(&extra)),
            ])
        }
        "Sctpmap" => V::M(vec![("port", n16(r)), ("channels", n32(r))]),
        "Setup" => V::Unit(r.pick(&["Active", "Actpass", "Holdconn", "Passive"])),
        "Simulcast" => {
            let (a, b) = match r.n(3) {
                0 => (versions(r), V::L(vec![])),
                1 => (V::L(vec![]), versions(r)),
                _ => (versions(r), versions(r)),
            };
            V::M(vec![("send", a), ("receive", b)])
        }
        "Ssrc" => ssrc(r),
        "SsrcGroup" => {
            return V::Tup(
                "SsrcGroup",
                vec![
                    V::Unit(r.pick(&[
                        "Duplication",
                        "FlowIdentification",
                        "ForwardErrorCorrection",
                        "ForwardErrorCorrectionFr",
                        "Sim",
                    ])),
                    list(r, 1, 4, |r| {
                        V::M(vec![
                            ("id", n32(r)),
                            ("attribute", V::Null),
                            ("value", V::Null),
                        ])
                    }),
                ],
            )
        }
        t => panic!("harness: no generator for {t}"),
    };
    new(k.tag, v)
}

pub fn any_attr(r: &mut Rng) -> V {
    let k = r.pick(KINDS);
    attr(r, k.tag)
}
pub fn session_attr(r: &mut Rng) -> V {
    loop {
        let k = r.pick(KINDS);
        if k.session {
            return attr(r, k.tag);
        }
    }
}
pub fn media_attr(r: &mut Rng) -> V {
    loop {
        let k = r.pick(KINDS);
        if k.media {
            return attr(r, k.tag);
        }
    }
}

/// How large a session is.
#[derive(Clone, Copy)]
pub struct Size {
    pub sections: usize,
    pub attrs: usize,
}
pub const SMALL: Size = Size {
    sections: 2,
    attrs: 3,
};
pub const MEDIUM: Size = Size {
    sections: 3,
    attrs: 8,
};

/// Makes a list of media attributes obey the rules that concern several lines.
pub fn settle(r: &mut Rng, line: &mut V, attrs: &mut Vec<V>, extmap: bool) {
    if !extmap {
        attrs.retain(|a| a.tag() != "Extmap");
    }
    if attrs.iter().any(|a| a.tag() == "RtcpMuxOnly") && !attrs.iter().any(|a| a.tag() == "RtcpMux")
    {
        let at = r.n(attrs.len() + 1);
        attrs.insert(at, V::Unit("RtcpMux"));
    }
    let formats: Vec<u64> = match line.get("formats") {
        V::New("Integers", l) => l.list().iter().map(V::u64).collect(),
        V::New(_, l) => l
            .list()
            .iter()
            .filter_map(|x| x.str().parse().ok())
            .filter(|n| *n <= 65535)
            .collect(),
        _ => vec![],
    };
    let canonical = |n: u64, line: &V| match line.get("formats") {
        V::New("Integers", _) => true,
        V::New(_, l) => l.list().iter().any(|x| x.str() == n.to_string()),
        _ => false,
    };
    let formats: Vec<u64> = formats.into_iter().filter(|n| canonical(*n, line)).collect();
    let mut ids: Vec<(V, V)> = vec![];
    for a in attrs.iter_mut().filter(|a| a.tag() == "Rid") {
        let rid = a.inner_mut();
        if formats.is_empty() {
            rid.set("formats", V::L(vec![]));
        } else {
            for f in rid.get_mut("formats").list_mut() {
                *f = V::U(*r.pick(&formats));
            }
        }
        ids.push((rid.get("direction").clone(), rid.get("id").clone()));
    }
    let mut missing: Vec<(&'static str, V)> = vec![];
    if let Some(sc) = attrs.iter_mut().find(|a| a.tag() == "Simulcast") {
        for (field, d) in [("send", "Send"), ("receive", "Recv")] {
            let have: Vec<V> = ids
                .iter()
                .filter(|x| x.0.tag() == d)
                .map(|x| x.1.clone())
                .collect();
            for v in sc.inner_mut().get_mut(field).list_mut() {
                for i in v.get_mut("ids").list_mut() {
                    if have.is_empty() || r.chance(1, 3) {
                        missing.push((d, i.get("id").clone()));
                    } else {
                        i.set("id", r.pick(&have).clone());
                    }
                }
            }
        }
    }
    for (d, i) in missing {
        let mut a = attr(r, "Rid");
        a.inner_mut().set("id", i);
        a.inner_mut().set("direction", V::Unit(d));
        a.inner_mut().set(
            "formats",
            if formats.is_empty() || r.bool() {
                V::L(vec![])
            } else {
                V::L(vec![V::U(*r.pick(&formats))])
            },
        );
        let at = r.n(attrs.len() + 1);
        attrs.insert(at, a);
    }
}

/// 0..=usual, rarely many more
fn crowd(r: &mut Rng, usual: usize) -> usize {
    if r.chance(1, 5000) {
        *r.pick(&[127, 128, 129, 130, 255, 256, 257, 300])
    } else if r.chance(1, 500) {
        r.range(9, 70)
    } else {
        r.n(usual + 1)
    }
}
pub fn section(r: &mut Rng, size: Size, need_connection: bool, extmap: bool) -> V {
    let mut line = media_line(r);
    let n = crowd(r, size.attrs);
    let mut attrs: Vec<V> = (0..n).map(|_| media_attr(r)).collect();
    settle(r, &mut line, &mut attrs, extmap);
    let connection = if need_connection || r.chance(1, 3) {
        connection(r)
    } else {
        V::Null
    };
    let bandwidth = if r.chance(1, 3) {
        list(r, 1, 3, bandwidth)
    } else {
        V::L(vec![])
    };
    V::M(vec![
        ("media", line),
        ("connection", connection),
        ("bandwidth", bandwidth),
        ("attribute", V::L(attrs)),
    ])
}

/// A session that obeys every rule.
pub fn session(r: &mut Rng, size: Size) -> V {
    let n = crowd(r, size.sections);
    let connection = if r.bool() { connection(r) } else { V::Null };
    let need = connection.is_null();
    let na = crowd(r, size.attrs);
    let mut attrs: Vec<V> = (0..na).map(|_| session_attr(r)).collect();
    let media_ext = r.bool();
    if media_ext {
        attrs.retain(|a| a.tag() != "Extmap");
    }
    let has = attrs.iter().any(|a| a.tag() == "Extmap");
    V::M(vec![
        ("version", V::U(0)),
        ("origin", origin(r)),
        ("session", session_name(r)),
        ("connection", connection),
        (
            "bandwidth",
            if r.chance(1, 3) {
                list(r, 1, 3, bandwidth)
            } else {
                V::L(vec![])
            },
        ),
        ("timing", timing(r)),
        ("attribute", V::L(attrs)),
        (
            "media",
            V::L((0..n).map(|_| section(r, size, need, !has)).collect()),
        ),
    ])
}
