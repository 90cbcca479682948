//! C26: public values compare, convert and name themselves exactly.
//!
//! "names":   the closed sets of values: equality of every pair, printed names,
//!            codes, the way back from a name
//! "equal":   image attributes and fingerprints: equal exactly when all their
//!            parts are, on every level
//! "hash":    hash names, octet counts, octets read, fingerprints put together
use super::common::*;
use crate::conv;
use crate::gen;
use crate::kinds::KINDS;
use crate::mutate;
use crate::refparse;
use crate::render;
use crate::rng::Rng;
use crate::run::*;
use crate::val::V;
use std::convert::TryFrom;
use std::fmt::Display;
use webrtc_sdp::address::AddressType;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::{SdpMediaValue, SdpProtocolValue};

/// x == y exactly when `want`, in both directions, and so for copies
fn eq<T: PartialEq + Clone>(cx: &mut Ctx, what: &str, x: &T, y: &T, want: bool, show: &dyn Fn() -> String) -> Verdict {
    cx.saw(if want { "equal pairs" } else { "pairs that differ" });
    if (x == y) != want || (y == x) != want || (x != y) == want || (y != x) == want {
        return Err(format!("{what} that {} compare otherwise: {}", if want { "have the same content" } else { "differ" }, show()));
    }
    #[allow(clippy::eq_op)]
    if !(x == x) || x.clone() != *x || *y != y.clone() {
        return Err(format!("{what} differ from themselves or their copies: {}", show()));
    }
    Ok(())
}
fn closed<T: PartialEq + Clone + Display>(cx: &mut Ctx, what: &str, l: &[(T, &str)]) -> Verdict {
    for (i, (x, n)) in l.iter().enumerate() {
        if x.to_string() != *n {
            return Err(format!("{what} prints as {:?}, its name is {n:?}", x.to_string()));
        }
        for (j, (y, m)) in l.iter().enumerate() {
            eq(cx, what, x, y, i == j, &|| format!("{n:?} and {m:?}"))?;
        }
        cx.saw("names");
    }
    Ok(())
}
fn names(cx: &mut Ctx) -> Verdict {
    use SdpAttributeCandidateTcpType as Tcp;
    use SdpAttributeCandidateTransport as Tr;
    use SdpAttributeCandidateType as Ty;
    use SdpAttributeFingerprintHashType as Hash;
    cx.interesting();
    let dirs = [(SdpSingleDirection::Send, "send"), (SdpSingleDirection::Recv, "recv")];
    closed(cx, "directions", &dirs)?;
    if SdpSingleDirection::Send as i32 != 1 || SdpSingleDirection::Recv as i32 != 2 {
        return Err("the codes of send and recv are not 1 and 2".into());
    }
    closed(cx, "transports", &[(Tr::Udp, "UDP"), (Tr::Tcp, "TCP")])?;
    closed(cx, "candidate types", &[(Ty::Host, "host"), (Ty::Srflx, "srflx"), (Ty::Prflx, "prflx"), (Ty::Relay, "relay")])?;
    closed(cx, "TCP types", &[(Tcp::Active, "active"), (Tcp::Passive, "passive"), (Tcp::Simultaneous, "so")])?;
    closed(cx, "address types", &[(AddressType::IpV4, "IP4"), (AddressType::IpV6, "IP6")])?;
    if AddressType::IpV4 as i32 != 4 || AddressType::IpV6 as i32 != 6 {
        return Err("the codes of the address types are not 4 and 6".into());
    }
    closed(
        cx,
        "media types",
        &[(SdpMediaValue::Audio, "audio"), (SdpMediaValue::Video, "video"), (SdpMediaValue::Application, "application")],
    )?;
    let protos: Vec<(SdpProtocolValue, &str)> = refparse::PROTOS.iter().map(|p| (conv::to_proto(&V::Unit(p.1)), p.0)).collect();
    closed(cx, "protocols", &protos)?;
    let hashes = [
        (Hash::Sha1, "sha-1"),
        (Hash::Sha224, "sha-224"),
        (Hash::Sha256, "sha-256"),
        (Hash::Sha384, "sha-384"),
        (Hash::Sha512, "sha-512"),
    ];
    closed(cx, "hash functions", &hashes)?;
    let kinds: Vec<(SdpAttributeType, &str)> = KINDS.iter().map(|k| (conv::attr_type(k.tag), k.wire)).collect();
    closed(cx, "attribute kinds", &kinds)?;
    let mut pts: Vec<(SdpAttributePayloadType, String)> =
        (0..=255u8).map(|n| (SdpAttributePayloadType::PayloadType(n), n.to_string())).collect();
    pts.push((SdpAttributePayloadType::Wildcard, "*".into()));
    let pts: Vec<(SdpAttributePayloadType, &str)> = pts.iter().map(|x| (x.0.clone(), x.1.as_str())).collect();
    closed(cx, "payload types", &pts)?;
    Ok(())
}

// ------------------------------------------------------------------ equality

/// Changes one part, or none.
fn nudge(r: &mut Rng, v: &mut V) {
    fn leaves<'a>(v: &'a mut V, out: &mut Vec<&'a mut V>) {
        match v {
            V::L(l) if l.is_empty() => (),
            V::L(l) => l.iter_mut().for_each(|x| leaves(x, out)),
            V::M(f) => f.iter_mut().for_each(|x| leaves(&mut x.1, out)),
            V::New(_, x) => leaves(x, out),
            V::Tup(_, l) => l.iter_mut().for_each(|x| leaves(x, out)),
            V::U(_) | V::F32(_) => out.push(v),
            _ => (),
        }
    }
    fn lists<'a>(v: &'a mut V, out: &mut Vec<&'a mut Vec<V>>) {
        match v {
            V::New(_, x) => lists(x, out),
            V::M(f) => f.iter_mut().for_each(|x| lists(&mut x.1, out)),
            // (the outermost ones only)
            V::L(l) => out.push(l),
            _ => (),
        }
    }
    if r.bool() {
        let mut l = vec![];
        lists(v, &mut l);
        if !l.is_empty() {
            let i = r.n(l.len());
            let l = &mut l[i];
            match r.n(4) {
                0 => {
                    l.pop();
                }
                1 if !l.is_empty() => {
                    let x = r.pick(l).clone();
                    l.push(x);
                }
                2 if l.len() > 1 => {
                    let i = r.n(l.len() - 1);
                    l.swap(i, i + 1);
                }
                _ if !l.is_empty() => {
                    let i = r.n(l.len());
                    nudge(r, &mut l[i]);
                }
                _ => (),
            }
            return;
        }
    }
    let mut l = vec![];
    leaves(v, &mut l);
    if l.is_empty() {
        return;
    }
    let i = r.n(l.len());
    match &mut *l[i] {
        V::U(n) => *n ^= 1 << r.n(if *n < 256 { 8 } else { 32 }),
        V::F32(b) => {
            let x = *b ^ (1 << r.n(32));
            let (p, q) = (f32::from_bits(*b), f32::from_bits(x));
            if q.is_finite() && p != q {
                *b = x;
            }
        }
        _ => (),
    }
}
fn parts(v: &V) -> Vec<V> {
    match v {
        V::New(_, l) => l.list().clone(),
        _ => vec![],
    }
}
fn equal(cx: &mut Ctx, seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let r = &mut r;
    cx.interesting();
    if r.chance(1, 3) {
        let x = gen::attr(r, "Fingerprint");
        let mut y = x.clone();
        match r.n(4) {
            0 => (),
            1 => y = gen::attr(r, "Fingerprint"),
            2 => {
                // the same octets under another name: no parser makes it, but
                // the fields are public
                let h = *r.pick(&["Sha1", "Sha224", "Sha256", "Sha384", "Sha512"]);
                y.inner_mut().set("hash_algorithm", V::Unit(h));
            }
            _ => {
                let l = y.inner_mut().get_mut("fingerprint").list_mut();
                let i = r.n(l.len());
                match r.n(3) {
                    0 => l[i] = V::U(l[i].u64() ^ (1 << r.n(8))),
                    1 => {
                        let j = r.n(l.len());
                        l.swap(i, j);
                    }
                    _ => {
                        l.pop();
                    }
                }
            }
        }
        let (SdpAttribute::Fingerprint(a), SdpAttribute::Fingerprint(b)) = (conv::to_attr(&x), conv::to_attr(&y)) else {
            panic!("harness: fingerprints");
        };
        cx.saw("pairs of fingerprints");
        return eq(cx, "fingerprints", &a, &b, x == y, &|| format!("{a} and {b}"));
    }
    let x = gen::attr(r, "ImageAttr");
    let x = x.inner();
    let (mut v, mut w) = (x.get("send").clone(), x.get("send").clone());
    match r.n(4) {
        0 => v = x.get("recv").clone(),
        1 => (),
        _ => {
            for _ in 0..r.range(1, 2) {
                nudge(r, &mut w);
            }
        }
    }
    let (a, b) = (conv::to_setlist(&v), conv::to_setlist(&w));
    // what is built says what it is built from
    same("image attribute sets", &conv::setlist(&a), &v)?;
    cx.saw("pairs of image attribute sets");
    eq(cx, "image attribute sets", &a, &b, v == w, &|| format!("{a} and {b}"))?;
    let text = |v: &V| match v {
        V::Unit(_) => "*".to_string(),
        _ => v.inner().list().iter().map(render::imageset).collect::<Vec<_>>().join(" "),
    };
    for (x, v) in [(&a, &v), (&b, &w)] {
        if x.to_string() != text(v) {
            return Err(format!("image attribute sets print as {:?}, not {:?}", x.to_string(), text(v)));
        }
    }
    let list = |x: &SdpAttributeImageAttrSetList| match x {
        SdpAttributeImageAttrSetList::Sets(l) => l.clone(),
        _ => vec![],
    };
    let (la, lb) = (list(&a), list(&b));
    for (x, v) in la.iter().zip(parts(&v)).take(6) {
        if x.to_string() != render::imageset(&v) {
            return Err(format!("an image attribute set prints as {:?}, not {:?}", x.to_string(), render::imageset(&v)));
        }
        for (n, d) in [("x", &x.x), ("y", &x.y)] {
            let want = render::xy(v.get(n));
            if d.to_string() != want {
                return Err(format!("a range prints as {:?}, not {want:?}", d.to_string()));
            }
        }
        for (y, w) in lb.iter().zip(parts(&w)).take(6) {
            let show = || format!("{x} and {y}");
            eq(cx, "image attribute sets", x, y, v == w, &show)?;
            let g = |n: &str| v.get(n) == w.get(n);
            eq(cx, "x ranges", &x.x, &y.x, g("x"), &show)?;
            eq(cx, "y ranges", &x.y, &y.y, g("y"), &show)?;
            eq(cx, "ranges across", &x.x, &y.y, v.get("x") == w.get("y"), &show)?;
            eq(cx, "aspect ratios", &x.sar, &y.sar, g("sar"), &show)?;
            eq(cx, "picture aspect ratios", &x.par, &y.par, g("par"), &show)?;
            cx.saw("pairs of image sets");
        }
    }
    Ok(())
}

// -------------------------------------------------------------- fingerprints

fn hash(cx: &mut Ctx, seed: u64) -> Verdict {
    use SdpAttributeFingerprintHashType as Hash;
    let mut r = Rng::new(seed);
    let r = &mut r;
    cx.interesting();
    let name = r.pick_s(&["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"]);
    let n = if r.bool() { name.clone() } else { mutate::once(r, &name) };
    match (Hash::try_from_name(&n), refparse::hash(&n)) {
        (Ok(h), Some((tag, _))) if h == conv::to_hash(&V::Unit(tag)) => cx.saw("hash names read"),
        (Err(webrtc_sdp::error::SdpParserInternalError::Unsupported(_)), None) => cx.saw("hash names not supported"),
        (got, want) => {
            return Err(format!("the hash name {n:?} is {}, must be {want:?}", match got {
                Ok(h) => h.to_string(),
                Err(e) => e.to_string(),
            }))
        }
    }
    let (tag, count) = refparse::hash(&name).expect("harness: hash");
    let h = conv::to_hash(&V::Unit(tag));
    if h.octet_count() != count {
        return Err(format!("{h} has {} octets", h.octet_count()));
    }
    let len = match r.n(6) {
        0 => count + 1,
        1 => count - 1,
        // that of another
        2 => *r.pick(&[20, 28, 32, 48, 64]),
        3 => *r.pick(&[0, 1, 16, 40, 65, 96, 128, 256, 276, 288]),
        _ => count,
    };
    let octets: Vec<u8> = if r.chance(1, 4) && len > 1 { gen::octets(r, len) } else { (0..len).map(|_| *r.pick(&[0u64, 9, 10, 15, 16, 99, 127, 128, 159, 160, 255]) as u8 ^ (r.n(256) as u8 & r.n(256) as u8)).collect() };
    let mut text = octets
        .iter()
        .map(|b| match r.n(2) {
            0 => format!("{b:02x}"),
            _ => format!("{b:02X}"),
        })
        .collect::<Vec<_>>()
        .join(":");
    let damaged = r.chance(1, 3);
    if damaged {
        text = mutate::once(r, &text);
    }
    let want: Option<Vec<u8>> = {
        let l: Result<Vec<u64>, _> = text.split(':').map(refparse::octet).collect();
        match l {
            Ok(l) if l.len() == count => Some(l.into_iter().map(|x| x as u8).collect()),
            _ => None,
        }
    };
    match (h.parse_octets(&text), &want) {
        (Ok(x), Some(y)) if x == *y => cx.saw("octets read"),
        (Err(_), None) => cx.saw("octets refused"),
        (got, _) => return Err(format!("octets {text:?} of {h} are read as {:?}, must be {want:?}", got.ok())),
    }
    match SdpAttributeFingerprint::try_from((h, octets.clone())) {
        Ok(f) if len == count && f.hash_algorithm == h && f.fingerprint == octets => {
            let want = format!("{name} {}", octets.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(":"));
            if f.to_string() != want {
                return Err(format!("a fingerprint prints as {f}, not {want}"));
            }
            cx.saw("fingerprints put together");
        }
        Err(_) if len != count => cx.saw("fingerprints of the wrong length"),
        x => return Err(format!("{h} with {len} octets makes {}", x.map_or("an error".to_string(), |f| f.to_string()))),
    }
    Ok(())
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "equal" => equal(cx, c.seed),
        "hash" => hash(cx, c.seed),
        "lengths" => lengths(cx),
        _ => names(cx),
    }
}
/// Every hash with any number of octets.
fn lengths(cx: &mut Ctx) -> Verdict {
    for name in ["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"] {
        let (tag, count) = refparse::hash(name).expect("harness: hash");
        let h = conv::to_hash(&V::Unit(tag));
        for n in 0..700usize {
            cx.saw("hashes with a number of octets");
            let octets: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            let t = octets.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(":");
            let read = h.parse_octets(&t);
            let made = SdpAttributeFingerprint::try_from((h, octets.clone()));
            if read.is_ok() != (n == count) || made.is_ok() != (n == count) {
                return Err(format!("{h} with {n} octets: read {:?}, put together {}", read.ok(), made.is_ok()));
            }
            if n == count && (read.unwrap() != octets || made.unwrap().fingerprint != octets) {
                return Err(format!("{h}: {t} comes out with other octets"));
            }
        }
    }
    Ok(())
}
fn fixed() -> Vec<Case> {
    vec![Case::seeded("names", 0), Case::seeded("lengths", 0)]
}
fn gen_case(r: &mut Rng) -> Case {
    Case::seeded(["equal", "equal", "hash"][r.n(3)], r.u64())
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C26",
        rule: "all pairs of the closed sets of values (kinds, types, protocols, directions, payload types); random image attributes and fingerprints compared with copies of which at most two parts were changed; hash names and octets, whole and damaged; non-trivial: all",
        assumptions: &["NaN never occurs in values that are compared"],
        fixed,
        gen: gen_case,
        eval,
        quick: 1_000_000,
        floors: &[
            ("names", 330),
            ("hashes with a number of octets", 3_500),
            ("equal pairs", 200_000),
            ("pairs that differ", 200_000),
            ("pairs of fingerprints", 50_000),
            ("pairs of image attribute sets", 100_000),
            ("octets read", 20_000),
            ("octets refused", 20_000),
            ("hash names not supported", 20_000),
            ("fingerprints put together", 20_000),
            ("fingerprints of the wrong length", 20_000),
        ],
        log: log::LevelFilter::Off,
        threads: THREADS,
    }]
}
