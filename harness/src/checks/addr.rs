//! C21: addresses.
//!
//! "v4", "v6", "name": one address in one of its textual forms, written here
//!         from the address, so that the right answer is known
//! "bad":  a text that is no address
//! "any":  damaged forms, compared with an independent reading
//! "word": network and address types
//! "eq":   addresses compared pairwise
use super::common::*;
use crate::conv;
use crate::gen;
use crate::mutate;
use crate::refparse;
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, s, short, V};
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::network::*;
use webrtc_sdp::{parse_sdp_line, SdpType};

const TYPES: [(AddressType, &str, &str); 2] = [
    (AddressType::IpV4, "IpV4", "IP4"),
    (AddressType::IpV6, "IpV6", "IP6"),
];

// -------------------------------------------------------------- the forms

fn v4_part(r: &mut Rng, x: u64) -> String {
    match r.n(5) {
        0 => format!("0x{x:x}"),
        1 => format!("0X{x:X}"),
        2 => format!("0{x:o}"),
        3 if x > 0 => format!("0x{x:08x}"),
        _ => x.to_string(),
    }
}
/// An IPv4 address in one of the forms a host parser knows.
fn v4_form(r: &mut Rng, a: Ipv4Addr) -> (String, &'static str) {
    let o = a.octets().map(u64::from);
    match r.n(8) {
        0..=3 => (a.to_string(), "dotted IPv4 addresses"),
        4 => {
            let p: Vec<String> = o.iter().map(|x| v4_part(r, *x)).collect();
            (p.join("."), "IPv4 addresses with hexadecimal or octal parts")
        }
        5 => {
            let n = u64::from(u32::from(a));
            let t = match r.n(3) {
                0 => v4_part(r, n),
                1 => format!("{}.{}", v4_part(r, n >> 24), v4_part(r, n & 0xff_ffff)),
                _ => format!(
                    "{}.{}.{}",
                    v4_part(r, n >> 24),
                    v4_part(r, n >> 16 & 255),
                    v4_part(r, n & 0xffff)
                ),
            };
            (t, "IPv4 addresses in fewer parts")
        }
        6 => (format!("{a}."), "IPv4 addresses with a closing dot"),
        _ => {
            let t: String = a
                .to_string()
                .chars()
                .map(|c| if r.chance(1, 4) { format!("%{:02x}", c as u32) } else { c.to_string() })
                .collect();
            (t, "IPv4 addresses with escapes")
        }
    }
}
/// An IPv6 address: groups padded or not, in any case, zeros left out
/// somewhere or nowhere, the end as an IPv4 address or not.
fn v6_form(r: &mut Rng, a: Ipv6Addr) -> (String, &'static str) {
    if r.chance(1, 5) {
        return (a.to_string(), "IPv6 addresses as they are printed");
    }
    let g = a.segments();
    let dotted = r.chance(1, 4);
    let m = if dotted { 6 } else { 8 };
    let mut w: Vec<String> = g[..m]
        .iter()
        .map(|x| {
            let t = match r.n(4) {
                0 => format!("{x:04x}"),
                1 => format!("{x:02x}"),
                _ => format!("{x:x}"),
            };
            if r.bool() {
                t.to_uppercase()
            } else {
                t
            }
        })
        .collect();
    if dotted {
        let o = a.octets();
        w.push(format!("{}.{}.{}.{}", o[12], o[13], o[14], o[15]));
    }
    let runs: Vec<(usize, usize)> = (0..m)
        .flat_map(|i| (i + 1..=m).map(move |j| (i, j)))
        .filter(|(i, j)| g[*i..*j].iter().all(|x| *x == 0))
        .collect();
    let mut what = "IPv6 addresses in full";
    let mut t = if !runs.is_empty() && r.chance(4, 5) {
        what = "IPv6 addresses with zeros left out";
        let (i, j) = *r.pick(&runs);
        format!("{}::{}", w[..i].join(":"), w[j..].join(":"))
    } else {
        w.join(":")
    };
    if dotted {
        what = "IPv6 addresses with an IPv4 end";
    }
    if r.chance(1, 5) {
        t = format!("[{t}]");
        what = "IPv6 addresses in brackets";
    }
    (t, what)
}
/// written, normal form
const IDNA: &[(&str, &str)] = &[
    ("münchen.de", "xn--mnchen-3ya.de"),
    ("MÜNCHEN.de", "xn--mnchen-3ya.de"),
    ("bücher.example", "xn--bcher-kva.example"),
    ("Bücher.Example", "xn--bcher-kva.example"),
    ("faß.de", "xn--fa-hia.de"),
    ("例え.テスト", "xn--r8jz45g.xn--zckzah"),
    ("президент.рф", "xn--d1abbgf6aiiy.xn--p1ai"),
    ("中国", "xn--fiqs8s"),
    ("ｗｗｗ.example", "www.example"),
    ("www。example", "www.example"),
    ("XN--MNCHEN-3YA.de", "xn--mnchen-3ya.de"),
    ("ex%61mple.org", "example.org"),
];
/// Texts that stand for IPv4 addresses although they do not look like it.
const LIKE_V4: &[(&str, [u8; 4])] = &[
    ("１２７.0.0.1", [127, 0, 0, 1]),
    ("127。0。0。1", [127, 0, 0, 1]),
    ("%31.2.3.4", [1, 2, 3, 4]),
    ("0x", [0, 0, 0, 0]),
    ("1.0x", [1, 0, 0, 0]),
    ("0", [0, 0, 0, 0]),
    ("4294967295", [255, 255, 255, 255]),
    ("0xffffffff", [255, 255, 255, 255]),
    ("037777777777", [255, 255, 255, 255]),
    ("127.1", [127, 0, 0, 1]),
    ("0x7f.1", [127, 0, 0, 1]),
    ("0177.0.0.1", [127, 0, 0, 1]),
];
fn odd_host(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut l: Vec<String> = (0..n)
        .map(|_| {
            let k = *r.pick(&[1, 1, 2, 3, 5, 9, 20, 63]);
            (0..k)
                .map(|i| {
                    let set: &[u8] = if i == 0 || i == k - 1 {
                        b"abcdefghijklmnopqrstuvwyz0123456789"
                    } else {
                        b"abcdefghijklmnopqrstuvwyz0123456789-_"
                    };
                    *r.pick(set) as char
                })
                .collect()
        })
        .collect();
    // the last decides whether it is a number
    l.push(gen::host(r).rsplit('.').next().unwrap_or("x").to_string());
    let mut t = l.join(".");
    if r.chance(1, 10) {
        t.push('.');
    }
    t
}
/// Letters that are plain pairs.
const PAIRS: [(char, char); 9] =
    [('é', 'É'), ('ñ', 'Ñ'), ('ü', 'Ü'), ('ж', 'Ж'), ('я', 'Я'), ('ω', 'Ω'), ('č', 'Č'), ('ա', 'Ա'), ('𐐨', '𐐀')];
fn upper(c: char) -> char {
    PAIRS.iter().find(|x| x.0 == c).map_or(c.to_ascii_uppercase(), |x| x.1)
}
fn lower(t: &str) -> String {
    t.chars().map(|c| PAIRS.iter().find(|x| x.1 == c).map_or(c.to_ascii_lowercase(), |x| x.0)).collect()
}
fn known_letters(t: &str) -> bool {
    t.chars().all(|c| c.is_ascii() || PAIRS.iter().any(|x| x.0 == c || x.1 == c))
}
fn mix_case(r: &mut Rng, t: &str) -> String {
    let how = r.n(4);
    t.chars()
        .map(|c| match how {
            0 => upper(c),
            1 => c,
            _ if r.bool() => upper(c),
            _ => c,
        })
        .collect()
}
fn bad_form(r: &mut Rng) -> String {
    let four = gen::ipv4(r).to_string();
    let six = gen::ipv6(r);
    let full: Vec<String> = six.segments().iter().map(|x| format!("{x:x}")).collect();
    let h = gen::host(r);
    match r.n(22) {
        0 => String::new(),
        1 => format!("{four}.1"),
        2 => format!("256.{}.1", r.n(300)).replacen("256", &r.range(256, 9999).to_string(), 1) + ".1",
        3 => format!("1.2.3.{}", r.range(256, 70000)),
        4 => r.range(1 << 32, 1 << 40).to_string(),
        5 => format!("{h}.{}", r.n(1000)),
        6 => format!("{h}.0x{:x}", r.n(1000)),
        7 => format!("{}:{:x}", full.join(":"), r.n(65536)),
        8 => full[..7].join(":"),
        9 => format!("{}::{}::1", full[0], full[1]),
        10 => {
            let i = r.n(8);
            let mut f = full.clone();
            f[i] = r.pick_s(&["10000", "g", "", "-1", "0x1", "fffff", "1.2"]);
            let mut t = f.join(":");
            if t.starts_with(':') || t.ends_with(':') || t.contains("::") {
                t = format!("x{t}");
            }
            t
        }
        11 => format!("{six}%eth0"),
        12 => format!("[{six}"),
        13 => format!("{six}]"),
        14 => format!("[{four}]"),
        15 => format!("[{h}]"),
        16 => format!("{four}:{}", r.n(65536)),
        17 => format!("{h}:{}", r.n(65536)),
        18 => format!("::{}.256", &four[..four.rfind('.').unwrap_or(0)]),
        19 => format!("{six}:"),
        20 => format!("[{six}]:{}", r.n(65536)),
        _ => {
            let c = *r.pick(&[' ', '#', '/', '<', '>', '?', '@', '[', ']', '^', '|', '\\', '\u{1}', '\u{7f}', '\t', '\u{0}']);
            let i = r.n(h.len());
            format!("{}{c}{}", &h[..i], &h[i..])
        }
    }
}

// --------------------------------------------------------------- monitors

/// The lines that hold an address, and the address in them.
fn in_lines(t: &str, ty: AddressType) -> [(String, fn(&SdpType) -> Option<V>); 7] {
    fn attr(x: &SdpType) -> Option<V> {
        match x {
            SdpType::Attribute(SdpAttribute::Rtcp(x)) => x.unicast_addr.as_ref().map(conv::typed),
            SdpType::Attribute(SdpAttribute::Candidate(c)) => Some(conv::address(&c.address)),
            SdpType::Attribute(SdpAttribute::RemoteCandidate(c)) => Some(conv::address(&c.address)),
            _ => None,
        }
    }
    fn raddr(x: &SdpType) -> Option<V> {
        match x {
            SdpType::Attribute(SdpAttribute::Candidate(c)) => c.raddr.as_ref().map(conv::address),
            _ => None,
        }
    }
    fn conn(x: &SdpType) -> Option<V> {
        match x {
            SdpType::Connection(c) => Some(conv::typed(&c.address)),
            _ => None,
        }
    }
    fn origin(x: &SdpType) -> Option<V> {
        match x {
            SdpType::Origin(o) => Some(conv::typed(&o.unicast_addr)),
            _ => None,
        }
    }
    let ty = if ty == AddressType::IpV4 { "IP4" } else { "IP6" };
    [
        (format!("c=IN {ty} {t}"), conn),
        (format!("c=in {} {t}", ty.to_lowercase()), conn),
        (format!("o=- 1 2 IN {ty} {t}"), origin),
        (format!("a=rtcp:9 IN {ty} {t}"), attr),
        (format!("a=candidate:1 1 udp 1 {t} 9 typ host"), attr),
        (format!("a=remote-candidates:1 {t} 9"), attr),
        (format!("a=candidate:1 1 udp 1 x 9 typ srflx raddr {t} rport 9"), raddr),
    ]
}
const UNTYPED_LINES: [usize; 3] = [4, 5, 6];

fn typed_of(want: &V, ty: &'static str) -> Option<V> {
    match want {
        V::New("Ip", x) => {
            let six = x.str().contains(':');
            ((ty == "IpV6") == six).then(|| want.clone())
        }
        V::New(_, x) => Some(V::St(
            "Fqdn",
            vec![("address_type", V::Unit(ty)), ("domain", (**x).clone())],
        )),
        _ => None,
    }
}

/// Every way of reading `t` as an address must find `want`, or an error.
fn reads(cx: &mut Ctx, t: &str, want: Option<&V>) -> Verdict {
    let show = |x: Option<&V>| x.map_or_else(|| "an error".into(), short);
    for (what, got) in [
        ("Address::from_str", Address::from_str(t)),
        ("parse_unicast_address", parse_unicast_address(t)),
    ] {
        let g = got.as_ref().ok().map(conv::address);
        if g.as_ref() != want {
            return Err(format!("{what} of {t:?} gives {}, not {}", show(g.as_ref()), show(want)));
        }
    }
    for (ty, name, _) in TYPES {
        let got = ExplicitlyTypedAddress::try_from((ty, t));
        let g = got.as_ref().ok().map(conv::typed);
        let w = want.and_then(|w| typed_of(w, name));
        if g != w {
            return Err(format!(
                "{t:?} of type {name} gives {}, not {}",
                show(g.as_ref()),
                show(w.as_ref())
            ));
        }
        if want.is_some() && w.is_none() {
            cx.saw("addresses of the wrong type");
        }
        if let Ok(a) = &got {
            let at = a.address_type();
            if conv_type(at) != name {
                return Err(format!("{t:?} of type {name} says it is of type {at:?}"));
            }
        }
        if t.is_empty() || t.contains(|c: char| c.is_whitespace() || c == '/' || c.is_control()) || !plain(t) {
            continue;
        }
        for (i, (line, f)) in in_lines(t, ty).iter().enumerate() {
            let g = parse_sdp_line(line, 0).ok().and_then(|x| f(&x.sdp_type));
            let w = if UNTYPED_LINES.contains(&i) { want.cloned() } else { w.clone() };
            cx.saw("addresses read in lines");
            if g != w {
                return Err(format!(
                    "{line:?} holds {}, not {}",
                    show(g.as_ref()),
                    show(w.as_ref())
                ));
            }
        }
    }
    Ok(())
}
fn conv_type(t: AddressType) -> &'static str {
    match t {
        AddressType::IpV4 => "IpV4",
        AddressType::IpV6 => "IpV6",
    }
}

/// What is printed of an address, and that it reads back.
fn prints(cx: &mut Ctx, t: &str) -> Verdict {
    let Ok(a) = Address::from_str(t) else {
        return Ok(());
    };
    let v = conv::address(&a);
    let p = a.to_string();
    if p != v.inner().str() {
        return Err(format!("{} is printed as {p:?}", short(&v)));
    }
    let b = Address::from_str(&p).map_err(|_| format!("{p:?}, printed, is no address"))?;
    if b != a || a != b || conv::address(&b) != v {
        return Err(format!("{p:?}, printed, reads back as {}", short(&conv::address(&b))));
    }
    for (ty, name, word) in TYPES {
        let Ok(x) = ExplicitlyTypedAddress::try_from((ty, t)) else {
            continue;
        };
        let p = x.to_string();
        let want = format!("IN {word} {}", v.inner().str());
        if p != want {
            return Err(format!("{} of type {name} is printed as {p:?}", short(&v)));
        }
        let w: Vec<&str> = p.split(' ').collect();
        let y = parse_network_type(w[0])
            .and_then(|()| parse_address_type(w[1]))
            .and_then(|ty| ExplicitlyTypedAddress::try_from((ty, w[2])))
            .map_err(|_| format!("{p:?}, printed, cannot be read"))?;
        if y != x || x != y || conv::typed(&y) != conv::typed(&x) {
            return Err(format!("{p:?}, printed, reads back as {}", short(&conv::typed(&y))));
        }
        let z = Address::from(x.clone());
        if z != a || conv::address(&z) != v {
            return Err(format!("{} without its type is {}", p, short(&conv::address(&z))));
        }
        cx.saw("addresses printed and read back");
    }
    Ok(())
}

fn converts(ip: IpAddr) -> Verdict {
    let v = new("Ip", s(&ip.to_string()));
    let name = if ip.is_ipv4() { "IpV4" } else { "IpV6" };
    let word = if ip.is_ipv4() { "IP4" } else { "IP6" };
    let mut l = vec![ExplicitlyTypedAddress::from(ip)];
    match ip {
        IpAddr::V4(x) => l.push(ExplicitlyTypedAddress::from(x)),
        IpAddr::V6(x) => l.push(ExplicitlyTypedAddress::from(x)),
    }
    for x in l {
        same("conversion of an IP address", &conv::typed(&x), &v)?;
        if conv_type(x.address_type()) != name || conv_type(ip.address_type()) != name {
            return Err(format!("{ip} is said to be of type {:?}", x.address_type()));
        }
        if x.to_string() != format!("IN {word} {ip}") {
            return Err(format!("{ip} is printed as {x}"));
        }
        same("address without type", &conv::address(&Address::from(x)), &v)?;
    }
    let t = ip_address_to_string(ip);
    if t != format!("IN {word} {ip}") {
        return Err(format!("ip_address_to_string({ip}) is {t:?}"));
    }
    Ok(())
}

fn word(cx: &mut Ctx, t: &str) -> Verdict {
    if !plain(t) {
        return Ok(());
    }
    let net = t.eq_ignore_ascii_case("IN");
    if parse_network_type(t).is_ok() != net {
        return Err(format!("the network type {t:?} is {}", if net { "refused" } else { "accepted" }));
    }
    let want = TYPES.iter().find(|x| x.2.eq_ignore_ascii_case(t)).map(|x| x.1);
    for (what, got) in [
        ("parse_address_type", parse_address_type(t).ok()),
        ("AddressType::from_str", AddressType::from_str(t).ok()),
    ] {
        if got.map(conv_type) != want {
            return Err(format!("{what} of {t:?} gives {got:?}"));
        }
        if let Some(g) = got {
            let p = g.to_string();
            if !p.eq_ignore_ascii_case(t) || AddressType::from_str(&p).ok() != Some(g) {
                return Err(format!("{g:?} is printed as {p:?}"));
            }
        }
    }
    cx.saw(if net || want.is_some() { "type words accepted" } else { "type words refused" });
    // in a line
    if !t.is_empty() && !t.contains(|c: char| c.is_whitespace() || c.is_control()) {
        for line in [format!("c={t} IP4 x"), format!("o=- 1 1 {t} IP6 x"), format!("a=rtcp:9 {t} IP4 x")] {
            if parse_sdp_line(&line, 0).is_ok() != net {
                return Err(format!("{line:?} is {}", if net { "refused" } else { "accepted" }));
            }
        }
        for line in [format!("c=IN {t} x"), format!("o=- 1 1 IN {t} x"), format!("a=rtcp:9 IN {t} x")] {
            if parse_sdp_line(&line, 0).is_ok() != want.is_some() {
                return Err(format!("{line:?} is {}", if want.is_some() { "refused" } else { "accepted" }));
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------- equality

fn value(r: &mut Rng, like: Option<&Address>) -> Address {
    let near = r.n(10);
    match like {
        Some(Address::Fqdn(d)) if near < 8 => match near {
            0..=3 => Address::Fqdn(mix_case(r, d)),
            4 => Address::Fqdn(mutate::once(r, d)),
            5 => Address::Fqdn(format!("{d}{}", r.pick_s(&[".", "a", " ", "\0"]))),
            6 => Address::Fqdn(d.chars().skip(1).collect()),
            _ => Address::Fqdn(d.clone()),
        },
        Some(Address::Ip(ip)) if near < 8 => match (near, ip) {
            (0, _) => Address::Fqdn(ip.to_string()),
            (1, IpAddr::V4(x)) => Address::Ip(x.to_ipv6_mapped().into()),
            (2, IpAddr::V4(x)) => Address::Ip(x.to_ipv6_compatible().into()),
            (1 | 2, IpAddr::V6(x)) => Address::Ip(IpAddr::from((u128::from(*x) as u32).to_be_bytes())),
            (3, IpAddr::V4(x)) => Address::Ip(Ipv4Addr::from(u32::from(*x) ^ (1 << r.n(32))).into()),
            (3, IpAddr::V6(x)) => Address::Ip(Ipv6Addr::from(u128::from(*x) ^ (1 << r.n(128))).into()),
            _ => Address::Ip(*ip),
        },
        _ => match r.n(5) {
            0 => Address::Ip(gen::ipv4(r).into()),
            1 => Address::Ip(gen::ipv6(r).into()),
            2 => {
                let h = gen::host(r);
                Address::Fqdn(mix_case(r, &h))
            }
            3 if r.bool() => Address::Fqdn(odd_host(r)),
            3 => {
                let h: String = odd_host(r)
                    .chars()
                    .map(|c| if r.chance(1, 3) { r.pick(&PAIRS).0 } else { c })
                    .collect();
                Address::Fqdn(mix_case(r, &h))
            }
            _ => Address::Fqdn(gen::ipv4(r).to_string()),
        },
    }
}
fn key(a: &Address) -> (u8, String) {
    match a {
        Address::Fqdn(d) => (0, lower(d)),
        Address::Ip(IpAddr::V4(x)) => (4, x.to_string()),
        Address::Ip(IpAddr::V6(x)) => (6, x.to_string()),
    }
}
fn typed_value(r: &mut Rng, a: &Address) -> ExplicitlyTypedAddress {
    match a {
        Address::Fqdn(d) => ExplicitlyTypedAddress::Fqdn {
            address_type: TYPES[r.n(2)].0,
            domain: d.clone(),
        },
        Address::Ip(x) => ExplicitlyTypedAddress::Ip(*x),
    }
}
fn typed_key(a: &ExplicitlyTypedAddress) -> (u8, String, &'static str) {
    match a {
        ExplicitlyTypedAddress::Fqdn { address_type, domain } => {
            (0, lower(domain), conv_type(*address_type))
        }
        ExplicitlyTypedAddress::Ip(x) => {
            let k = key(&Address::Ip(*x));
            (k.0, k.1, "")
        }
    }
}
#[allow(clippy::nonminimal_bool)]
fn eq(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    let a = value(r, None);
    let mut l = vec![a.clone()];
    for _ in 0..3 {
        let like = r.pick(&l).clone();
        l.push(value(r, Some(&like)));
    }
    // letters whose case mappings are no plain pairs are left open
    l.retain(|x| !matches!(x, Address::Fqdn(d) if !known_letters(d)));
    let t: Vec<ExplicitlyTypedAddress> = l.iter().map(|x| typed_value(r, x)).collect();
    for i in 0..l.len() {
        for j in 0..l.len() {
            let (x, y) = (&l[i], &l[j]);
            let want = key(x) == key(y);
            if (x == y) != want || (x != y) == want {
                return Err(format!("{x:?} and {y:?} compare {}", if want { "unequal" } else { "equal" }));
            }
            cx.saw(if !want {
                "pairs that differ"
            } else if format!("{x:?}") == format!("{y:?}") {
                "pairs that are alike"
            } else {
                "pairs equal but for case"
            });
            let (x, y) = (&t[i], &t[j]);
            let want = typed_key(x) == typed_key(y);
            if (x == y) != want || (x != y) == want {
                return Err(format!("{x:?} and {y:?} compare {}", if want { "unequal" } else { "equal" }));
            }
        }
    }
    for (a, x, _) in TYPES {
        for (b, y, _) in TYPES {
            if (a == b) != (x == y) || (a != b) == (x == y) {
                return Err(format!("address types {x} and {y} compare wrongly"));
            }
        }
    }
    Ok(())
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    cx.interesting();
    let mut r = Rng::new(c.seed);
    let r = &mut r;
    match c.mode {
        "v4" => {
            let a = gen::ipv4(r);
            let (t, what) = v4_form(r, a);
            cx.saw(what);
            reads(cx, &t, Some(&new("Ip", s(&a.to_string()))))?;
            converts(a.into())?;
            prints(cx, &t)
        }
        "v6" => {
            let a = gen::ipv6(r);
            let (t, what) = v6_form(r, a);
            cx.saw(what);
            reads(cx, &t, Some(&new("Ip", s(&a.to_string()))))?;
            converts(a.into())?;
            prints(cx, &t)
        }
        "name" => {
            let h = if r.bool() { gen::host(r) } else { odd_host(r) };
            let t = mix_case(r, &h);
            cx.saw("host names");
            reads(cx, &t, Some(&new("Fqdn", s(&h))))?;
            prints(cx, &t)
        }
        "known" => {
            let i = c.seed as usize;
            let (t, want) = match IDNA.get(i) {
                Some((t, h)) => (t, new("Fqdn", s(h))),
                None => {
                    let (t, x) = &LIKE_V4[i - IDNA.len()];
                    (t, new("Ip", s(&Ipv4Addr::from(*x).to_string())))
                }
            };
            cx.saw("names and addresses in unusual letters");
            reads(cx, t, Some(&want))?;
            prints(cx, t)
        }
        "bad" => {
            cx.saw("texts that are no addresses");
            let t = bad_form(r);
            reads(cx, &t, None)
        }
        "any" => {
            let t = &c.text[0];
            let want = refparse::address(t).ok();
            cx.saw(match &want {
                None => "damaged forms refused",
                Some(V::New("Ip", _)) => "damaged forms that are IP addresses",
                _ => "damaged forms that are host names",
            });
            reads(cx, t, want.as_ref())?;
            prints(cx, t)
        }
        "word" => word(cx, &c.text[0]),
        _ => eq(cx, r),
    }
}

fn fixed() -> Vec<Case> {
    let mut v: Vec<Case> = (0..IDNA.len() + LIKE_V4.len())
        .map(|i| Case::seeded("known", i as u64))
        .collect();
    for t in ["IN", "in", "In", "iN", "IP4", "ip4", "Ip4", "iP4", "IP6", "ip6", "IP", "IP5", "IP46", "IPv4", "4", "", "INN", "I", " IN", "IP4 "] {
        v.push(Case::one("word", t));
    }
    v
}
fn gen_case(r: &mut Rng) -> Case {
    match r.n(12) {
        0 | 1 => Case::seeded("v4", r.u64()),
        2 | 3 => Case::seeded("v6", r.u64()),
        4 => Case::seeded("name", r.u64()),
        5 | 6 => Case::seeded("bad", r.u64()),
        7 | 8 => {
            let a = gen::ipv4(r);
            let b = gen::ipv6(r);
            let t = match r.n(5) {
                0 => v4_form(r, a).0,
                1 => v6_form(r, b).0,
                2 => odd_host(r),
                3 => bad_form(r),
                _ => r.pick(IDNA).0.to_string(),
            };
            Case::one("any", &mutate::some(r, &t))
        }
        9 => {
            let t = r.pick_s(&["IN", "IP4", "IP6", "in", "ip4", "IP"]);
            Case::one("word", &if r.bool() { mutate::once(r, &t) } else { mix_case(r, &t) })
        }
        _ => Case::seeded("eq", r.u64()),
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C21",
        rule: "IPv4 and IPv6 addresses and host names written in their many textual forms from known values, texts that are none, and damaged ones judged by an independent reading; through every function and line that reads an address, both declared types, printing and reading back, conversions; pairs of values compared; non-trivial: all",
        assumptions: &["for damaged forms, std's and the url crate's host parsers (which the library builds on) are right"],
        fixed,
        gen: gen_case,
        eval,
        quick: 3_000_000,
        floors: &[
            ("dotted IPv4 addresses", 10_000),
            ("IPv6 addresses with an IPv4 end", 5_000),
            ("IPv6 addresses in brackets", 5_000),
            ("host names", 10_000),
            ("texts that are no addresses", 10_000),
            ("damaged forms that are host names", 10_000),
            ("pairs equal but for case", 10_000),
            ("pairs that differ", 10_000),
            ("addresses of the wrong type", 10_000),
        ],
        log: log::LevelFilter::Off,
        threads: THREADS,
    }]
}
