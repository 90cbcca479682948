//! C16, C17, C18: the anonymizer.
//!
//! The monitors walk the sensitive places ("slots") of the plain value trees of
//! an original and of its anonymized copy.
//!
//! C16 "pair":    a history of sessions (or parts) and the same history with all
//!                sensitive values renamed one-to-one give identical copies
//! C17 "history": masking calls and copies on one anonymizer, watched by a
//!                table of what every value was replaced with
//! C17 "many":    tens of thousands of distinct values of every class
//! C18 "copy":    original and copy agree outside of the slots
use super::common::*;
use crate::conv;
use crate::gen;
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, s, V};
use crate::words::{word, At, ODD_HOSTS};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::IpAddr;
use webrtc_sdp::address::{Address, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer, ToBytesVec};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::SdpMedia;
use webrtc_sdp::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Class {
    Host,
    V4,
    V6,
    User,
    Port,
    Ufrag,
    Pwd,
    Finger,
    Cname,
}
const CLASSES: &[Class] = &[
    Class::Host,
    Class::V4,
    Class::V6,
    Class::User,
    Class::Port,
    Class::Ufrag,
    Class::Pwd,
    Class::Finger,
    Class::Cname,
];
type Slot<'a> = &'a mut dyn FnMut(Class, &mut V);

fn address_slot(a: &mut V, f: Slot) {
    match a {
        V::St(_, x) => {
            for (n, v) in x {
                if *n == "domain" {
                    f(Class::Host, v);
                }
            }
        }
        V::New("Ip", x) => {
            let c = if x.str().contains(':') { Class::V6 } else { Class::V4 };
            f(c, x);
        }
        V::New(_, x) => f(Class::Host, x),
        _ => (),
    }
}
fn candidate_slots(c: &mut V, f: Slot) {
    address_slot(c.get_mut("address"), f);
    f(Class::Port, c.get_mut("port"));
    if !c.get("raddr").is_null() {
        address_slot(c.get_mut("raddr"), f);
    }
    if !c.get("rport").is_null() {
        f(Class::Port, c.get_mut("rport"));
    }
    if !c.get("ufrag").is_null() {
        f(Class::Ufrag, c.get_mut("ufrag"));
    }
}
pub fn is_cname(a: &V) -> bool {
    matches!(a, V::S(x) if x.trim().eq_ignore_ascii_case("cname"))
}
fn attribute_slots(a: &mut V, f: Slot) {
    let V::New(tag, i) = a else { return };
    match *tag {
        "Candidate" => candidate_slots(i, f),
        "RemoteCandidate" => {
            address_slot(i.get_mut("address"), f);
            f(Class::Port, i.get_mut("port"));
        }
        "Rtcp" => {
            if !i.get("unicast_addr").is_null() {
                address_slot(i.get_mut("unicast_addr"), f);
            }
        }
        "IceUfrag" => f(Class::Ufrag, i),
        "IcePwd" => f(Class::Pwd, i),
        "Fingerprint" => f(Class::Finger, i.get_mut("fingerprint")),
        "Ssrc" => {
            if is_cname(i.get("attribute")) && !i.get("value").is_null() {
                f(Class::Cname, i.get_mut("value"));
            }
        }
        _ => (),
    }
}
fn origin_slots(o: &mut V, f: Slot) {
    f(Class::User, o.get_mut("username"));
    address_slot(o.get_mut("unicast_addr"), f);
}
fn connection_slots(c: &mut V, f: Slot) {
    if !c.is_null() {
        address_slot(c.get_mut("address"), f);
    }
}
fn section_slots(m: &mut V, f: Slot) {
    connection_slots(m.get_mut("connection"), f);
    for a in m.get_mut("attribute").list_mut() {
        attribute_slots(a, f);
    }
}
fn session_slots(x: &mut V, f: Slot) {
    origin_slots(x.get_mut("origin"), f);
    connection_slots(x.get_mut("connection"), f);
    for a in x.get_mut("attribute").list_mut() {
        attribute_slots(a, f);
    }
    for m in x.get_mut("media").list_mut() {
        section_slots(m, f);
    }
}

/// Something that can be anonymized.
pub enum Thing {
    Session(SdpSession),
    Media(SdpMedia),
    Attr(SdpAttribute),
    Candidate(SdpAttributeCandidate),
    Origin(SdpOrigin),
    Connection(SdpConnection),
}
impl Thing {
    pub fn tree(&self) -> V {
        match self {
            Thing::Session(x) => conv::session(x),
            Thing::Media(x) => conv::media(x),
            Thing::Attr(x) => conv::attr(x),
            Thing::Candidate(x) => conv::candidate(x),
            Thing::Origin(x) => conv::origin(x),
            Thing::Connection(x) => conv::connection(x),
        }
    }
    pub fn masked(&self, a: &mut StatefulSdpAnonymizer) -> Thing {
        match self {
            Thing::Session(x) => Thing::Session(x.masked_clone(a)),
            Thing::Media(x) => Thing::Media(x.masked_clone(a)),
            // the types inside an attribute can be masked as well
            Thing::Attr(x) => Thing::Attr(x.masked_clone(a)),
            Thing::Candidate(x) => Thing::Candidate(x.masked_clone(a)),
            Thing::Origin(x) => Thing::Origin(x.masked_clone(a)),
            Thing::Connection(x) => Thing::Connection(x.masked_clone(a)),
        }
    }
    pub fn print(&self) -> String {
        match self {
            Thing::Session(x) => x.to_string(),
            Thing::Media(x) => x.to_string(),
            Thing::Attr(x) => x.to_string(),
            Thing::Candidate(x) => x.to_string(),
            Thing::Origin(x) => x.to_string(),
            Thing::Connection(x) => x.to_string(),
        }
    }
    fn json(&self) -> String {
        let r = match self {
            Thing::Session(x) => serde_json::to_string(x),
            Thing::Media(x) => serde_json::to_string(x),
            Thing::Attr(x) => serde_json::to_string(x),
            Thing::Candidate(x) => serde_json::to_string(x),
            Thing::Origin(x) => serde_json::to_string(x),
            Thing::Connection(x) => serde_json::to_string(x),
        };
        r.unwrap_or_default()
    }
    fn warnings(&self) -> usize {
        match self {
            Thing::Session(x) => x.warnings.len(),
            _ => 0,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Thing::Session(_) => "sessions",
            Thing::Media(_) => "sections",
            Thing::Attr(_) => "attributes",
            Thing::Candidate(_) => "candidates",
            Thing::Origin(_) => "origins",
            Thing::Connection(_) => "connections",
        }
    }
}
/// The tree of a thing, and what kind it is.
#[derive(Clone)]
struct Tree {
    kind: u8,
    v: V,
}
fn slots(kind: u8, v: &mut V, f: Slot) {
    match kind {
        0 => session_slots(v, f),
        1 => section_slots(v, f),
        2 => attribute_slots(v, f),
        3 => candidate_slots(v, f),
        4 => origin_slots(v, f),
        _ => connection_slots(v, f),
    }
}
fn build(t: &Tree, parsed: bool) -> Option<Thing> {
    Some(match t.kind {
        0 if parsed => Thing::Session(parse(&crate::render::text(&t.v)).ok()?),
        0 => Thing::Session(conv::to_session(&t.v).ok()?),
        1 => Thing::Media(conv::to_media(&t.v).ok()?),
        2 => Thing::Attr(conv::to_attr(&t.v)),
        3 => Thing::Candidate(conv::to_candidate(&t.v)),
        4 => Thing::Origin(conv::to_origin(&t.v)),
        _ => Thing::Connection(conv::to_connection(&t.v)),
    })
}
fn values_at(kind: u8, v: &V) -> Vec<(Class, V)> {
    let mut out = vec![];
    let mut v = v.clone();
    slots(kind, &mut v, &mut |c, x| out.push((c, x.clone())));
    out
}
fn blanked(kind: u8, v: &V) -> V {
    let mut v = v.clone();
    slots(kind, &mut v, &mut |c, x| {
        *x = V::Unit(match c {
            Class::Host => "a host",
            Class::V4 => "an IPv4 address",
            Class::V6 => "an IPv6 address",
            Class::User => "a user",
            Class::Port => "a port",
            Class::Ufrag => "an ufrag",
            Class::Pwd => "a pwd",
            Class::Finger => "a fingerprint",
            Class::Cname => "a cname",
        });
    });
    v
}

const SENSITIVE: &[&str] = &[
    "Candidate",
    "RemoteCandidate",
    "Rtcp",
    "IceUfrag",
    "IcePwd",
    "Fingerprint",
    "Ssrc",
];

/// A fresh value of a class; `like` is a value whose place it takes.
fn fresh(r: &mut Rng, c: Class, like: &V, parsed: bool) -> V {
    let look = |r: &mut Rng, p: &str| s(&format!("{p}{:08}", r.range(0, 6)));
    match c {
        Class::Host => {
            let label = gen::host(r);
            match r.n(8) {
                0 | 1 => look(r, "fqdn-"),
                // names and suffixes with a meaning
                2 => s(&format!("{label}{}", r.pick(&[".local", ".invalid", ".localhost", ".example.com", ".test"]))),
                3 => s(&word(r, At::Host)),
                4 if !parsed => s(&r.pick_s(ODD_HOSTS)),
                _ => s(&label),
            }
        }
        Class::V4 => match r.n(3) {
            // ranges with a meaning
            0 => {
                let p: [u8; 2] = *r.pick(&[[10, 0], [192, 168], [172, 16], [169, 254], [127, 0], [224, 0], [100, 64], [0, 0], [255, 255], [192, 0]]);
                s(&std::net::Ipv4Addr::new(p[0], p[1], r.n(256) as u8, r.n(256) as u8).to_string())
            }
            _ => s(&gen::ipv4(r).to_string()),
        },
        Class::V6 => match r.n(3) {
            0 => {
                let p = *r.pick(&[0xfe80u128, 0xfc00, 0xfd12, 0xff02, 0x2001, 0x0064]);
                s(&std::net::Ipv6Addr::from(p << 112 | u128::from(r.u64())).to_string())
            }
            _ => s(&gen::ipv6(r).to_string()),
        },
        Class::User => match r.n(4) {
            0 => look(r, "origin-user-"),
            1 => s(&word(r, At::User)),
            _ => s(&gen::token(r)),
        },
        Class::Port => match r.n(3) {
            0 => V::U(r.range(0, 12) as u64),
            1 if !parsed => V::U(r.u64() & 0xffff_ffff),
            _ => V::U(r.range(0, 65535) as u64),
        },
        Class::Ufrag => match r.n(5) {
            0 => look(r, "ice-user-"),
            4 => s(&word(r, At::Ufrag)),
            1 => s(&gen::alnum(r)),
            _ => s(&gen::token(r)),
        },
        Class::Pwd => match r.n(5) {
            0 => look(r, "ice-password-"),
            4 => s(&word(r, At::Pwd)),
            1 => s(&gen::alnum(r)),
            _ => s(&gen::token(r)),
        },
        Class::Finger => {
            // as many octets: the hash says how many there are
            let n = like.list().len();
            let small = r.chance(1, 3);
            V::L((0..n)
                .map(|i| {
                    V::U(if small {
                        if i + 1 == n { r.n(4) as u64 } else { 0 }
                    } else {
                        r.n(256) as u64
                    })
                })
                .collect())
        }
        Class::Cname => match r.n(5) {
            0 => look(r, "cname-"),
            4 => s(&word(r, At::Cname)),
            1 if !parsed => s(&gen::text(r)),
            _ => s(&gen::id(r)),
        },
    }
}

/// A tree with many sensitive values, several of them equal.
fn thing(r: &mut Rng, parsed: bool) -> Tree {
    let kind = if parsed { 0 } else { [0, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5][r.n(11)] };
    let mut v = match kind {
        0 => {
            let size = if r.bool() { gen::SMALL } else { gen::MEDIUM };
            let mut x = gen::session(r, size);
            for m in x.get_mut("media").list_mut() {
                sprinkle(r, m);
            }
            if !parsed && r.chance(1, 4) {
                x.set("version", gen::n64(r));
            }
            x
        }
        1 => {
            let mut m = gen::section(r, gen::MEDIUM, false, true);
            sprinkle(r, &mut m);
            m
        }
        2 => {
            if r.chance(4, 5) {
                let t = r.pick_s(SENSITIVE);
                gen::attr(r, &t)
            } else {
                gen::any_attr(r)
            }
        }
        3 => gen::candidate(r),
        4 => gen::origin(r),
        _ => gen::connection(r),
    };
    vary_cname(r, &mut v, kind);
    let mut pool: BTreeMap<Class, Vec<V>> = BTreeMap::new();
    slots(kind, &mut v, &mut |c, x| {
        let p = pool.entry(c).or_default();
        if c == Class::Finger {
            p.retain(|_| true);
            let same: Vec<V> = p.iter().filter(|y| y.list().len() == x.list().len()).cloned().collect();
            if !same.is_empty() && r.chance(1, 3) {
                *x = r.pick(&same).clone();
            }
        } else if !p.is_empty() && r.chance(1, 3) {
            *x = r.pick(p).clone();
        } else if r.chance(1, 3) {
            *x = fresh(r, c, x, parsed);
        }
        p.push(x.clone());
    });
    Tree { kind, v }
}
fn sprinkle(r: &mut Rng, m: &mut V) {
    for _ in 0..r.n(5) {
        let t = r.pick_s(SENSITIVE);
        let a = gen::attr(r, &t);
        let l = m.get_mut("attribute").list_mut();
        let at = r.n(l.len() + 1);
        l.insert(at, a);
    }
}
fn vary_cname(r: &mut Rng, v: &mut V, kind: u8) {
    let mut one = |a: &mut V| {
        if let V::New("Ssrc", i) = a {
            if is_cname(i.get("attribute")) && r.chance(1, 4) {
                let n = r.pick_s(&["CNAME", "CName", "cname"]);
                i.set("attribute", s(&n));
            } else if !i.get("attribute").is_null() && r.chance(1, 4) {
                let n = r.pick_s(&["cnames", "xcname", "msid", "label", "cname2"]);
                i.set("attribute", s(&n));
            }
        }
    };
    match kind {
        0 => {
            for m in v.get_mut("media").list_mut() {
                m.get_mut("attribute").list_mut().iter_mut().for_each(&mut one);
            }
        }
        1 => v.get_mut("attribute").list_mut().iter_mut().for_each(one),
        2 => one(v),
        _ => (),
    }
}

// ------------------------------------------------------------------ C16

/// One-to-one, per class, kept for a whole history.
struct Renaming {
    to: HashMap<(Class, V), V>,
    used: HashSet<(Class, V)>,
    seen: HashMap<Class, Vec<V>>,
    parsed: bool,
}
impl Renaming {
    fn map(&mut self, r: &mut Rng, c: Class, x: &V) -> V {
        if let Some(y) = self.to.get(&(c, x.clone())) {
            return y.clone();
        }
        for n in 0.. {
            // the other values of the history are good candidates
            let old = self.seen.get(&c).filter(|p| !p.is_empty() && n < 6 && r.chance(1, 3));
            let y = match old {
                Some(p) => r.pick(p).clone(),
                None => fresh(r, c, x, self.parsed),
            };
            let fits = c != Class::Finger || y.list().len() == x.list().len();
            // a renaming that leaves the value shows nothing
            if !fits || (y == *x && n < 20) {
                continue;
            }
            if self.used.insert((c, y.clone())) {
                self.to.insert((c, x.clone()), y.clone());
                return y;
            }
        }
        unreachable!()
    }
}

fn c16_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let parsed = c.mode == "parsed";
    let n = r.range(1, 4);
    let trees: Vec<Tree> = (0..n).map(|_| thing(&mut r, parsed)).collect();
    let mut ren = Renaming {
        to: HashMap::new(),
        used: HashSet::new(),
        seen: HashMap::new(),
        parsed,
    };
    for t in &trees {
        for (c, x) in values_at(t.kind, &t.v) {
            ren.seen.entry(c).or_default().push(x);
        }
    }
    let (mut a, mut b) = (StatefulSdpAnonymizer::new(), StatefulSdpAnonymizer::default());
    for t in &trees {
        let mut u = t.clone();
        let mut changed = 0u64;
        slots(u.kind, &mut u.v, &mut |c, x| {
            let y = ren.map(&mut r, c, x);
            changed += u64::from(y != *x);
            *x = y;
        });
        let (Some(x), Some(y)) = (build(t, parsed), build(&u, parsed)) else {
            cx.saw("not built");
            continue;
        };
        // only judge objects that are what they were meant to be
        if x.tree() != t.v || y.tree() != u.v {
            cx.saw("not built");
            continue;
        }
        if changed > 0 {
            cx.interesting();
        }
        cx.saw_n("renamed values", changed);
        cx.saw(match x.kind() {
            "sessions" => "pairs of sessions",
            "sections" => "pairs of sections",
            "attributes" => "pairs of attributes",
            "candidates" => "pairs of candidates",
            "origins" => "pairs of origins",
            _ => "pairs of connections",
        });
        let (p, q) = (x.masked(&mut a), y.masked(&mut b));
        let what = |m: &str| format!("{m} of two {} that differ by a renaming differ, the first is {}", x.kind(), clip(&x.print()));
        same(&what("anonymized copies"), &p.tree(), &q.tree())?;
        if p.print() != q.print() {
            return Err(what("the printed anonymized copies"));
        }
        if p.json() != q.json() {
            return Err(what("the serialized anonymized copies"));
        }
    }
    Ok(())
}
/// Texts with sentinels in every sensitive place and in warned lines.
fn c16_leak(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let mut t = thing(&mut r, true);
    // values that nothing else contains, and that are not what masking makes
    let mut n = 0u64;
    let mut secrets = vec![];
    let salt = r.range(1000, 9999);
    slots(t.kind, &mut t.v, &mut |c, x| {
        n += 1;
        *x = match c {
            Class::Host => s(&format!("zzhost{salt}q{n}.zq")),
            Class::V4 => s(&format!("203.{}.{}.{}", 100 + n % 100, salt % 250, 10 + n / 100)),
            Class::V6 => s(&format!("2a0b:{:x}:{:x}::bad:{:x}", 0x1000 + salt, 0x1000 + n, 0xabc)),
            Class::User => s(&format!("zzuser{salt}q{n}")),
            Class::Port => V::U(20_000 + n * 7),
            Class::Ufrag => s(&format!("zzufrag{salt}q{n}")),
            Class::Pwd => s(&format!("zzpwd{salt}q{n}")),
            Class::Finger => {
                let l = x.list().len();
                V::L((0..l).map(|i| V::U(0x5a ^ ((n + i as u64 * 31) % 256))).collect())
            }
            Class::Cname => s(&format!("zzcname{salt}q{n}")),
        };
        if c == Class::Finger {
            let l: Vec<String> = x.list().iter().map(|b| format!("{:02X}", b.u64())).collect();
            secrets.push(l.join(":"));
        } else if c != Class::Port {
            secrets.push(x.str().to_string());
        }
    });
    let mut lines = crate::render::lines(&t.v);
    let warned = "a=zzwarned:zzsecret";
    let at = r.range(4, lines.len());
    lines.insert(at, warned.to_string());
    secrets.push("zzwarned".into());
    secrets.push("zzsecret".into());
    let Ok(x) = parse(&join(&lines)) else {
        cx.saw("not built");
        return Ok(());
    };
    let before = x.to_string();
    let mut a = StatefulSdpAnonymizer::new();
    let y = x.masked_clone(&mut a);
    if Thing::Session(y.clone()).warnings() > 0 {
        return Err(format!("the anonymized copy keeps warnings: {:?}", warnings_of(&y)));
    }
    cx.interesting();
    let (text, js) = (y.to_string(), serde_json::to_string(&y).unwrap_or_default());
    for p in &secrets {
        if text.contains(p) || js.contains(p.as_str()) {
            return Err(format!("{p:?} of {:?} appears in the anonymized copy {:?}", clip(&before), clip(&text)));
        }
        cx.saw("secrets looked for");
    }
    Ok(())
}
fn c16_any(cx: &mut Ctx, c: &Case) -> Verdict {
    if c.mode == "leak" {
        c16_leak(cx, c)
    } else {
        c16_eval(cx, c)
    }
}
fn c16_gen(r: &mut Rng) -> Case {
    let m = match r.n(4) {
        0 => "leak",
        1 => "parsed",
        _ => "pair",
    };
    Case::seeded(m, r.u64())
}

// ------------------------------------------------------------------ C17

/// What one anonymizer has replaced.
#[derive(Default)]
struct Table {
    to: HashMap<(Class, V), V>,
    from: HashMap<(Class, V), V>,
}
fn class_of_ip(x: &V) -> Class {
    if x.str().contains(':') {
        Class::V6
    } else {
        Class::V4
    }
}
impl Table {
    fn note(&mut self, c: Class, x: &V, y: &V) -> Verdict {
        if let Some(z) = self.to.get(&(c, x.clone())) {
            if z != y {
                return Err(format!("{c:?} {x:?} was replaced by {z:?} before and by {y:?} now"));
            }
            return Ok(());
        }
        if matches!(c, Class::V4 | Class::V6) && class_of_ip(y) != c {
            return Err(format!("{c:?} {x:?} is replaced by {y:?}"));
        }
        if let Some(z) = self.from.get(&(c, y.clone())) {
            if z != x {
                return Err(format!("{c:?} {x:?} and {z:?} are both replaced by {y:?}"));
            }
        }
        self.to.insert((c, x.clone()), y.clone());
        self.from.insert((c, y.clone()), x.clone());
        Ok(())
    }
}
fn bytes_of(x: &V) -> Vec<u8> {
    x.list().iter().map(|b| b.u64() as u8).collect()
}
fn bytes_v(x: &[u8]) -> V {
    V::L(x.iter().map(|b| V::U(u64::from(*b))).collect())
}
/// One direct masking call.
fn call(a: &mut StatefulSdpAnonymizer, c: Class, x: &V, how: usize) -> Result<V, String> {
    Ok(match c {
        Class::Host => {
            let h = x.str().to_string();
            match how % 4 {
                0 => s(&a.mask_host(&h)),
                1 => match a.mask_address(&Address::Fqdn(h)) {
                    Address::Fqdn(y) => s(&y),
                    y => return Err(format!("the host name {x:?} is replaced by {y:?}")),
                },
                n => {
                    let t = V::St("Fqdn", vec![
                        ("address_type", V::Unit(if n == 2 { "IpV4" } else { "IpV6" })),
                        ("domain", x.clone()),
                    ]);
                    let m = conv::typed(&a.mask_typed_address(&conv::to_typed(&t)));
                    if !matches!(m, V::St(..)) || m.get("address_type") != t.get("address_type") {
                        return Err(format!("the host name {t:?} is replaced by {m:?}"));
                    }
                    m.get("domain").clone()
                }
            }
        }
        Class::V4 | Class::V6 => {
            let ip: IpAddr = x.str().parse().expect("harness: ip");
            let y = match how % 3 {
                0 => a.mask_ip(&ip),
                1 => match a.mask_address(&Address::Ip(ip)) {
                    Address::Ip(y) => y,
                    y => return Err(format!("the address {ip} is replaced by {y:?}")),
                },
                _ => match a.mask_typed_address(&ExplicitlyTypedAddress::Ip(ip)) {
                    ExplicitlyTypedAddress::Ip(y) => y,
                    y => return Err(format!("the address {ip} is replaced by {y:?}")),
                },
            };
            s(&y.to_string())
        }
        Class::User => s(&a.mask_origin_user(x.str())),
        Class::Port => V::U(u64::from(a.mask_port(x.u64() as u32))),
        Class::Ufrag => s(&a.mask_ice_user(x.str())),
        Class::Pwd => s(&a.mask_ice_password(x.str())),
        Class::Finger => bytes_v(&a.mask_cert_finger_print(&bytes_of(x))),
        Class::Cname => s(&a.mask_cname(x.str())),
    })
}
fn any_finger(r: &mut Rng) -> V {
    let n = *r.pick(&[20usize, 32, 32, 48, 64, 8, 1]);
    let like = V::L(vec![V::U(0); n]);
    fresh(r, Class::Finger, &like, false)
}

fn c17_history(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let n = r.range(5, 120);
    let mut a = StatefulSdpAnonymizer::new();
    let mut table = Table::default();
    let mut pool: BTreeMap<Class, Vec<V>> = BTreeMap::new();
    // the direct calls, to be repeated in other ways
    let mut calls: Vec<(Class, V, usize, V)> = vec![];
    let mut copies = 0u64;
    for i in 0..n {
        if r.chance(1, 12) && c.mode == "history" {
            let t = thing(&mut r, false);
            let Some(x) = build(&t, false) else { continue };
            // values seen before come back
            let mut v = x.tree();
            slots(t.kind, &mut v, &mut |c, x| {
                if let Some(p) = pool.get(&c).filter(|p| !p.is_empty()) {
                    if r.bool() {
                        *x = r.pick(p).clone();
                    }
                }
            });
            let Some(x) = build(&Tree { kind: t.kind, v }, false) else { continue };
            let (v, m) = (x.tree(), x.masked(&mut a).tree());
            let (p, q) = (values_at(t.kind, &v), values_at(t.kind, &m));
            for (c, x) in &p {
                pool.entry(*c).or_default().push(x.clone());
            }
            if p.len() != q.len() {
                cx.saw("copies of another shape");
                continue;
            }
            for ((c, x), (d, y)) in p.iter().zip(&q) {
                if c != d {
                    return Err(format!("{c:?} {x:?} is replaced by {d:?} {y:?}"));
                }
                table.note(*c, x, y)?;
            }
            copies += 1;
            continue;
        }
        let k = *r.pick(CLASSES);
        let p = pool.entry(k).or_default();
        let x = if !p.is_empty() && r.bool() {
            r.pick(p).clone()
        } else if k == Class::Finger {
            any_finger(&mut r)
        } else if r.chance(1, 3) {
            // near an earlier one
            match (k, p.last()) {
                (Class::Port, Some(V::U(n))) => V::U((n + 65_536 * r.n(3) as u64 + 1) & 0xffff_ffff),
                (Class::V4 | Class::V6, _) | (_, None) => fresh(&mut r, k, &V::Null, false),
                (_, Some(V::S(x))) => s(&format!("{x}{}", r.pick_s(&["0", "a", " ", "."]))),
                _ => fresh(&mut r, k, &V::Null, false),
            }
        } else {
            fresh(&mut r, k, &V::Null, false)
        };
        // host names that differ in their letter case only may count as equal
        let x = match (k, x) {
            (Class::Host, V::S(x)) => s(&x.to_lowercase()),
            (_, x) => x,
        };
        let how = r.n(12);
        let y = call(&mut a, k, &x, how)?;
        // the replacement is often masked itself
        p.push(if i % 5 == 0 { y.clone() } else { x.clone() });
        table.note(k, &x, &y)?;
        calls.push((k, x, how, y));
    }
    cx.interesting();
    cx.saw_n("direct calls", calls.len() as u64);
    cx.saw_n("anonymized copies", copies);
    cx.saw_n("distinct values replaced", table.to.len() as u64);
    if c.mode == "history" {
        return Ok(());
    }
    // the same calls with other values
    let mut ren = Renaming {
        to: HashMap::new(),
        used: HashSet::new(),
        seen: HashMap::new(),
        parsed: false,
    };
    let mut b = StatefulSdpAnonymizer::new();
    for (k, x, how, y) in &calls {
        let z = if *k == Class::Host {
            let z = ren.map(&mut r, *k, x);
            s(&z.str().to_lowercase())
        } else {
            ren.map(&mut r, *k, x)
        };
        let w = call(&mut b, *k, &z, *how + r.n(4))?;
        if w != *y {
            return Err(format!("{k:?} {x:?} is replaced by {y:?}; in the same history with other values {z:?} by {w:?}"));
        }
    }
    // the calls of one class alone
    for k in CLASSES {
        let mut b = StatefulSdpAnonymizer::new();
        for (_, x, how, y) in calls.iter().filter(|x| x.0 == *k) {
            let w = call(&mut b, *k, x, *how)?;
            if w != *y {
                return Err(format!("{k:?} {x:?} is replaced by {y:?}, without the calls for other classes by {w:?}"));
            }
        }
    }
    cx.saw("histories repeated with other values and by class");
    Ok(())
}
/// Many distinct values of every class, then all of them again.
fn c17_many(cx: &mut Ctx, c: &Case) -> Verdict {
    let n = if c.seed == 0 { 70_000 } else { c.seed };
    let k = CLASSES[c.text[0].parse::<usize>().expect("harness: class")];
    let value = |i: u64| -> V {
        match k {
            Class::Host => s(&format!("h{i}.example.com")),
            Class::V4 => s(&std::net::Ipv4Addr::from((i as u32).wrapping_mul(2_654_435_761)).to_string()),
            Class::V6 => s(&std::net::Ipv6Addr::from(u128::from(i).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835)).to_string()),
            Class::User | Class::Ufrag | Class::Pwd | Class::Cname => s(&format!("v{i}")),
            Class::Port => V::U(i),
            Class::Finger => bytes_v(&(i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).to_le_bytes()),
        }
    };
    let mut a = StatefulSdpAnonymizer::new();
    let mut seen: HashMap<V, u64> = HashMap::new();
    let mut all = vec![];
    for i in 0..n {
        let y = call(&mut a, k, &value(i), i as usize)?;
        if matches!(k, Class::V4 | Class::V6) && class_of_ip(&y) != k {
            return Err(format!("{k:?} {:?} is replaced by {y:?}", value(i)));
        }
        if let Some(j) = seen.insert(y.clone(), i) {
            return Err(format!("{k:?} {:?} and {:?} (numbers {j} and {i}) are both replaced by {y:?}", value(j), value(i)));
        }
        all.push(y);
    }
    for i in (0..n).rev() {
        let y = call(&mut a, k, &value(i), 7)?;
        if y != all[i as usize] {
            return Err(format!("{k:?} {:?} was replaced by {:?} before and by {y:?} after {n} others", value(i), all[i as usize]));
        }
    }
    cx.interesting();
    cx.saw_n("distinct values replaced", n);
    cx.saw("classes with tens of thousands of values");
    Ok(())
}
/// The numbers fingerprints are made from stay apart as bytes.
fn c17_bytes(cx: &mut Ctx) -> Verdict {
    let mut seen: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut r = Rng::new(7);
    let mut put = |n: u64| -> Verdict {
        match seen.insert(n.to_byte_vec(), n) {
            Some(m) if m != n => Err(format!("{m} and {n} have the same bytes {:?}", n.to_byte_vec())),
            _ => Ok(()),
        }
    };
    for b in 0..64 {
        for d in [0u64, 1, 255, 256, 257] {
            put((1u64 << b).wrapping_add(d))?;
            put((1u64 << b).wrapping_sub(d))?;
        }
    }
    for _ in 0..20_000 {
        let s = r.n(64);
        put(r.u64() >> s)?;
    }
    cx.saw_n("numbers turned to bytes", 20_640);
    Ok(())
}
/// Ports, hosts and the rest through copies of whole sessions only.
fn c17_copies(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let mut a = StatefulSdpAnonymizer::new();
    let mut table = Table::default();
    let mut keep: Vec<(V, V)> = vec![];
    for _ in 0..r.range(2, 30) {
        let t = thing(&mut r, false);
        let Some(x) = build(&t, false) else { continue };
        let (v, m) = (x.tree(), x.masked(&mut a).tree());
        let (p, q) = (values_at(t.kind, &v), values_at(t.kind, &m));
        if p.len() == q.len() {
            for ((c, x), (d, y)) in p.iter().zip(&q) {
                if c != d {
                    return Err(format!("{c:?} {x:?} is replaced by {d:?} {y:?}"));
                }
                table.note(*c, x, y)?;
            }
        }
        // an earlier one again
        if let Some((v0, m0)) = keep.get(r.n(8)) {
            if let Ok(x) = conv::to_session(v0) {
                let m1 = conv::session(&x.masked_clone(&mut a));
                same("a session anonymized before gets another copy", &m1, m0)?;
                cx.saw("sessions anonymized again");
            }
        }
        if t.kind == 0 {
            keep.push((v, m));
        }
        cx.saw("anonymized copies");
    }
    cx.interesting();
    cx.saw_n("distinct values replaced", table.to.len() as u64);
    Ok(())
}
fn c17_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "many" => c17_many(cx, c),
        "bytes" => c17_bytes(cx),
        "copies" => c17_copies(cx, c),
        _ => c17_history(cx, c),
    }
}
fn c17_gen(r: &mut Rng) -> Case {
    let m = match r.n(6) {
        0 => "copies",
        1 | 2 => "repeat",
        _ => "history",
    };
    Case::seeded(m, r.u64())
}
fn c17_fixed() -> Vec<Case> {
    let mut v = vec![Case::seeded("bytes", 0)];
    for i in 0..CLASSES.len() {
        for n in [70_000u64, 300_000] {
            v.push(Case {
                mode: "many",
                seed: n,
                text: vec![i.to_string()],
            });
        }
    }
    v
}

// ------------------------------------------------------------------ C18

fn c18_eval(cx: &mut Ctx, c: &Case) -> Verdict {
    let mut r = Rng::new(c.seed);
    let mut a = StatefulSdpAnonymizer::new();
    let things: Vec<(u8, Thing)> = if c.mode == "text" {
        match parse(&c.text[0]) {
            Ok(x) => vec![(0, Thing::Session(x))],
            Err(_) => {
                cx.saw("texts refused");
                return Ok(());
            }
        }
    } else {
        let n = r.range(1, 4);
        (0..n)
            .filter_map(|_| {
                let t = thing(&mut r, false);
                build(&t, false).map(|x| (t.kind, x))
            })
            .collect()
    };
    for (kind, x) in &things {
        let (v, p, j) = (x.tree(), x.print(), x.json());
        let m = x.masked(&mut a);
        let w = m.tree();
        cx.interesting();
        cx.saw(match x.kind() {
            "sessions" => "copies of sessions",
            "sections" => "copies of sections",
            "attributes" => "copies of attributes",
            "candidates" => "copies of candidates",
            "origins" => "copies of origins",
            _ => "copies of connections",
        });
        same(
            &format!("the anonymized copy differs outside of the masked values (copy versus original), original {:?}", clip(&p)),
            &blanked(*kind, &w),
            &blanked(*kind, &v),
        )?;
        if m.warnings() > 0 {
            return Err(format!("the anonymized copy of {:?} keeps warnings", clip(&p)));
        }
        same("anonymizing changed the original", &x.tree(), &v)?;
        if x.print() != p || x.json() != j {
            return Err(format!("anonymizing changed the original {:?}", clip(&p)));
        }
        // and once more: the parts that a caller can mask on their own
        if let Thing::Attr(x) = x {
            let mut b = StatefulSdpAnonymizer::new();
            let part = match x {
                SdpAttribute::Fingerprint(y) => Some(SdpAttribute::Fingerprint(y.masked_clone(&mut b))),
                SdpAttribute::RemoteCandidate(y) => Some(SdpAttribute::RemoteCandidate(y.masked_clone(&mut b))),
                SdpAttribute::Rtcp(y) => Some(SdpAttribute::Rtcp(y.masked_clone(&mut b))),
                SdpAttribute::Ssrc(y) => Some(SdpAttribute::Ssrc(y.masked_clone(&mut b))),
                SdpAttribute::Candidate(y) => Some(SdpAttribute::Candidate(y.masked_clone(&mut b))),
                _ => None,
            };
            if let Some(y) = part {
                let whole = x.masked_clone(&mut StatefulSdpAnonymizer::new());
                same("an attribute and its value are anonymized differently", &conv::attr(&y), &conv::attr(&whole))?;
                cx.saw("copies of attribute values");
            }
        }
    }
    Ok(())
}
fn c18_gen(r: &mut Rng) -> Case {
    if r.chance(1, 4) {
        let ops = few(r);
        Case::new("text", vec![odd_text(r, ops)])
    } else {
        Case::seeded("copy", r.u64())
    }
}
fn c18_fixed() -> Vec<Case> {
    let all = sweep(false);
    crate::corpus::all().iter().chain(&all).chain(&little()).chain(&crowds(&[36, 300])).map(|t| Case::one("text", t)).collect()
}

pub fn defs() -> Vec<Def> {
    let silence = "where sensitive values stand is fixed by the table of slots in anon.rs, taken from the property";
    let _ = new("x", V::Null);
    vec![
        Def {
            id: "C16",
            rule: "a case is a history of one to four sessions, sections, attributes, candidates, origins or connections, and the same history with every sensitive value renamed one-to-one within its class (fresh values, permutations of the others, and values that look like replacements), anonymized by two anonymizers whose copies must be identical as trees, as text and serialized; or a parsed session with unique sentinels in every sensitive place and in a warned line, none of which may appear in the copy; non-trivial: at least one value was renamed, or sentinels were looked for",
            assumptions: Box::leak(vec![silence].into_boxed_slice()),
            fixed: no_fixed,
            gen: c16_gen,
            eval: c16_any,
            quick: 100_000,
            floors: &[("renamed values", 200_000), ("secrets looked for", 50_000), ("pairs of sessions", 20_000), ("pairs of sections", 5_000), ("pairs of candidates", 3_000)],
            log: log::LevelFilter::Off,
            threads: THREADS,
        },
        Def {
            id: "C17",
            rule: "a case is a history of masking calls and anonymized copies on one anonymizer with repeated, fresh and near values, watched by a table of replacements (stable, one-to-one, of the same kind); direct histories are run again with renamed values and class by class and must give the same replacements; fixed cases use 70,000 and 300,000 distinct values per class; non-trivial: the history ran to its end",
            assumptions: &["host names that differ only in letter case are not used, as they are equal addresses"],
            fixed: c17_fixed,
            gen: c17_gen,
            eval: c17_eval,
            quick: 60_000,
            floors: &[("direct calls", 500_000), ("anonymized copies", 50_000), ("classes with tens of thousands of values", 18), ("histories repeated with other values and by class", 5_000)],
            log: log::LevelFilter::Off,
            threads: THREADS,
        },
        Def {
            id: "C18",
            rule: "a case is a history of one to four constructed or parsed sessions, sections, attributes, candidates, origins or connections; original and copy are compared as trees with all slots blanked, the original also with itself before; non-trivial: a copy was made and compared",
            assumptions: Box::leak(vec![silence].into_boxed_slice()),
            fixed: c18_fixed,
            gen: c18_gen,
            eval: c18_eval,
            quick: 150_000,
            floors: &[("copies of sessions", 30_000), ("copies of sections", 10_000), ("copies of attributes", 10_000), ("copies of attribute values", 5_000)],
            log: log::LevelFilter::Off,
            threads: THREADS,
        },
    ]
}
