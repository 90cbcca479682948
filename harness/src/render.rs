//! Plain trees to text: an independent writer of the grammar, which can also
//! write every spelling that means the same.
use crate::kinds::kind;
use crate::refparse::{fmtp_defaults, FMTP_BOOL, FMTP_NUM, PROTOS, RID_NUM};
use crate::rng::Rng;
use crate::val::V;

/// A piece of a line.
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    /// keyword: letter case does not matter
    K(String),
    /// verbatim
    T(String),
    /// blank between tokens: the length of the run does not matter
    B,
    /// blank around a line value: may be absent
    E,
}
use P::{B, E, K, T};

#[derive(Clone, Copy, Default)]
pub struct Style {
    /// vary what the grammar says does not matter
    pub spelling: bool,
    /// vary the order of parameters that may stand in any order, and write
    /// default values out
    pub order: bool,
}

fn t(x: &str) -> P {
    T(x.to_string())
}
fn k(x: &str) -> P {
    K(x.to_string())
}
fn n(v: &V) -> P {
    T(v.u64().to_string())
}

pub struct Writer<'a> {
    pub r: &'a mut Rng,
    pub style: Style,
}

impl Writer<'_> {
    pub fn emit(&mut self, p: &[P]) -> String {
        let mut out = String::new();
        for x in p {
            match x {
                T(s) => out.push_str(s),
                K(s) => {
                    if self.style.spelling && self.r.bool() {
                        let mode = self.r.n(3);
                        for c in s.chars() {
                            let up = match mode {
                                0 => true,
                                1 => false,
                                _ => self.r.bool(),
                            };
                            out.push(if up {
                                c.to_ascii_uppercase()
                            } else {
                                c.to_ascii_lowercase()
                            });
                        }
                    } else {
                        out.push_str(s);
                    }
                }
                B => {
                    if self.style.spelling && self.r.chance(1, 3) {
                        out.push_str(self.r.pick(&["  ", "\t", " \t ", "    ", "\t\t"]));
                    } else {
                        out.push(' ');
                    }
                }
                E => {
                    if self.style.spelling && self.r.chance(1, 4) {
                        out.push_str(self.r.pick(&[" ", "  ", "\t", " \t"]));
                    }
                }
            }
        }
        out
    }

    fn shuffle<X>(&mut self, v: &mut [X]) {
        if self.style.order {
            self.r.shuffle(v);
        }
    }

    pub fn plain_address(&mut self, a: &V) -> P {
        t(a.inner().str())
    }
    pub fn typed(&mut self, a: &V) -> Vec<P> {
        let (ty, x) = match a {
            V::St(_, _) => (
                if a.get("address_type").tag() == "IpV4" {
                    "IP4"
                } else {
                    "IP6"
                },
                a.get("domain").str(),
            ),
            _ => {
                let x = a.inner().str();
                (if x.contains(':') { "IP6" } else { "IP4" }, x)
            }
        };
        vec![k("IN"), B, k(ty), B, t(x)]
    }

    /// The pieces of an attribute, without "a=".
    pub fn attr(&mut self, a: &V) -> Vec<P> {
        let kd = kind(a.tag());
        let mut out = vec![k(kd.wire)];
        if !kd.flag {
            out.push(t(":"));
            out.push(E);
            let mut v = self.value(a);
            if !kd.blanks {
                for x in &mut v {
                    if *x == B {
                        *x = t(" ");
                    }
                }
            }
            out.extend(v);
        }
        out
    }

    fn words(&self, l: &V, out: &mut Vec<P>) {
        for (i, x) in l.list().iter().enumerate() {
            if i > 0 {
                out.push(B);
            }
            out.push(t(x.str()));
        }
    }

    fn value(&mut self, a: &V) -> Vec<P> {
        let mut o: Vec<P> = vec![];
        if let V::Tup(_, v) = a {
            o.push(k(match v[0].tag() {
                "Duplication" => "DUP",
                "FlowIdentification" => "FID",
                "ForwardErrorCorrection" => "FEC",
                "ForwardErrorCorrectionFr" => "FEC-FR",
                _ => "SIM",
            }));
            for x in v[1].list() {
                o.push(B);
                o.push(n(x.get("id")));
            }
            return o;
        }
        let i = a.inner();
        match a.tag() {
            "Candidate" => {
                o.extend([
                    t(i.get("foundation").str()),
                    B,
                    n(i.get("component")),
                    B,
                    k(if i.get("transport").tag() == "Udp" {
                        "UDP"
                    } else {
                        "TCP"
                    }),
                    B,
                    n(i.get("priority")),
                    B,
                    self.plain_address(i.get("address")),
                    B,
                    n(i.get("port")),
                    B,
                    k("typ"),
                    B,
                    k(match i.get("c_type").tag() {
                        "Host" => "host",
                        "Srflx" => "srflx",
                        "Prflx" => "prflx",
                        _ => "relay",
                    }),
                ]);
                let mut ext: Vec<(P, P)> = vec![];
                let mut add = |name: &str, v: P| ext.push((k(name), v));
                let g = |f: &str| i.get(f);
                if !g("raddr").is_null() {
                    add("raddr", t(g("raddr").inner().str()));
                }
                if !g("rport").is_null() {
                    add("rport", n(g("rport")));
                }
                if !g("tcp_type").is_null() {
                    add(
                        "tcptype",
                        k(match g("tcp_type").tag() {
                            "Active" => "active",
                            "Passive" => "passive",
                            _ => "so",
                        }),
                    );
                }
                if !g("generation").is_null() {
                    add("generation", n(g("generation")));
                }
                if !g("ufrag").is_null() {
                    add("ufrag", t(g("ufrag").str()));
                }
                if !g("networkcost").is_null() {
                    add("network-cost", n(g("networkcost")));
                }
                self.shuffle(&mut ext);
                // unknown ones keep their order
                for x in g("unknown_extensions").list() {
                    let p = (t(x.list()[0].str()), t(x.list()[1].str()));
                    let last = ext
                        .iter()
                        .rposition(|e| matches!(e.0, T(_)))
                        .map_or(0, |x| x + 1);
                    let at = if self.style.order {
                        self.r.range(last, ext.len())
                    } else {
                        ext.len()
                    };
                    ext.insert(at, p);
                }
                for (a, b) in ext {
                    o.extend([B, a, B, b]);
                }
            }
            "DtlsMessage" => {
                o.push(t(if i.tag() == "Client" {
                    "client "
                } else {
                    "server "
                }));
                o.push(t(i.inner().str()));
            }
            "Extmap" => {
                o.push(n(i.get("id")));
                if !i.get("direction").is_null() {
                    o.push(t("/"));
                    o.push(k(match i.get("direction").tag() {
                        "Recvonly" => "recvonly",
                        "Sendonly" => "sendonly",
                        _ => "sendrecv",
                    }));
                }
                o.push(B);
                o.push(t(i.get("url").str()));
                if !i.get("extension_attributes").is_null() {
                    for w in i.get("extension_attributes").str().split(' ') {
                        o.push(B);
                        o.push(t(w));
                    }
                }
            }
            "Fingerprint" => {
                o.push(t(match i.get("hash_algorithm").tag() {
                    "Sha1" => "sha-1",
                    "Sha224" => "sha-224",
                    "Sha256" => "sha-256",
                    "Sha384" => "sha-384",
                    _ => "sha-512",
                }));
                o.push(B);
                let x: Vec<String> = i
                    .get("fingerprint")
                    .list()
                    .iter()
                    .map(|b| format!("{:02X}", b.u64()))
                    .collect();
                o.push(k(&x.join(":")));
            }
            "Fmtp" => {
                o.push(n(i.get("payload_type")));
                o.push(t(" "));
                let p = self.fmtp(i.get("parameters"));
                o.push(t(&p));
            }
            "FrameRate" => match i {
                V::F64(x) => o.push(t(&f64::from_bits(*x).to_string())),
                _ => panic!("harness: framerate"),
            },
            "Group" => {
                o.push(k(match i.get("semantics").tag() {
                    "LipSynchronization" => "LS",
                    "FlowIdentification" => "FID",
                    "SingleReservationFlow" => "SRF",
                    "AlternateNetworkAddressType" => "ANAT",
                    "ForwardErrorCorrection" => "FEC",
                    "DecodingDependency" => "DDP",
                    _ => "BUNDLE",
                }));
                for x in i.get("tags").list() {
                    o.push(B);
                    o.push(t(x.str()));
                }
            }
            "IceOptions" => self.words(i, &mut o),
            "IcePacing" | "MaxMessageSize" | "MaxPtime" | "Ptime" | "SctpPort" => o.push(n(i)),
            "IcePwd" | "IceUfrag" | "Identity" | "Label" | "Mid" => o.push(t(i.str())),
            "ImageAttr" => {
                o.push(t(&pt(i.get("pt"))));
                let mut d = vec![];
                for (f, name) in [("send", "send"), ("recv", "recv")] {
                    if let V::New(_, l) = i.get(f) {
                        if l.list().is_empty() {
                            continue;
                        }
                    }
                    d.push((name, i.get(f).clone()));
                }
                self.shuffle(&mut d);
                for (name, l) in d {
                    let x = self.setlist(&l);
                    o.push(t(&format!(" {name} {x}")));
                }
            }
            "Msid" => {
                o.push(t(i.get("id").str()));
                if !i.get("appdata").is_null() {
                    o.push(B);
                    o.push(t(i.get("appdata").str()));
                }
            }
            "MsidSemantic" => {
                o.push(t(i.get("semantic").str()));
                for x in i.get("msids").list() {
                    o.push(B);
                    o.push(t(x.str()));
                }
            }
            "Rid" => {
                o.push(t(i.get("id").str()));
                o.push(t(if i.get("direction").tag() == "Send" {
                    " send"
                } else {
                    " recv"
                }));
                let mut p: Vec<String> = vec![];
                for (w, f) in RID_NUM {
                    let x = i.get("params").get(f).u64();
                    if x != 0 || (self.style.order && self.r.chance(1, 20)) {
                        p.push(format!("{w}={x}"));
                    }
                }
                let dep = i.get("depends").list();
                if !dep.is_empty() {
                    let d: Vec<&str> = dep.iter().map(V::str).collect();
                    p.push(format!("depends={}", d.join(",")));
                }
                self.shuffle(&mut p);
                let mut at = 0;
                for x in i.get("params").get("unknown").list() {
                    at = if self.style.order {
                        self.r.range(at, p.len())
                    } else {
                        p.len()
                    };
                    p.insert(at, x.str().to_string());
                    at += 1;
                }
                let f = i.get("formats").list();
                if !f.is_empty() {
                    let d: Vec<String> = f.iter().map(|x| x.u64().to_string()).collect();
                    p.insert(0, format!("pt={}", d.join(",")));
                }
                if !p.is_empty() {
                    o.push(t(" "));
                    let j = p.join(";");
                    o.push(t(&j));
                }
            }
            "RemoteCandidate" => o.extend([
                n(i.get("component")),
                B,
                self.plain_address(i.get("address")),
                B,
                n(i.get("port")),
            ]),
            "Rtpmap" => {
                o.extend([n(i.get("payload_type")), B]);
                o.push(t(i.get("codec_name").str()));
                o.push(t("/"));
                o.push(n(i.get("frequency")));
                if !i.get("channels").is_null() {
                    o.push(t("/"));
                    o.push(n(i.get("channels")));
                }
            }
            "Rtcp" => {
                o.push(n(i.get("port")));
                if !i.get("unicast_addr").is_null() {
                    o.push(B);
                    o.extend(self.typed(i.get("unicast_addr")));
                }
            }
            "Rtcpfb" => {
                o.push(t(&pt(i.get("payload_type"))));
                o.push(t(match i.get("feedback_type").tag() {
                    "Ack" => " ack",
                    "Ccm" => " ccm",
                    "Nack" => " nack",
                    "TrrInt" => " trr-int",
                    "Remb" => " goog-remb",
                    _ => " transport-cc",
                }));
                for f in ["parameter", "extra"] {
                    let x = i.get(f).str();
                    if !x.is_empty() {
                        o.push(t(" "));
                        o.push(t(x));
                    }
                }
            }
            "Sctpmap" => o.extend([
                n(i.get("port")),
                B,
                k("webrtc-datachannel"),
                B,
                n(i.get("channels")),
            ]),
            "Setup" => o.push(k(match i.tag() {
                "Active" => "active",
                "Actpass" => "actpass",
                "Holdconn" => "holdconn",
                _ => "passive",
            })),
            "Simulcast" => {
                let mut d = vec![];
                for (f, name) in [("send", "send"), ("receive", "recv")] {
                    let l = i.get(f).list();
                    if l.is_empty() {
                        continue;
                    }
                    let vs: Vec<String> = l
                        .iter()
                        .map(|x| {
                            let ids: Vec<String> = x
                                .get("ids")
                                .list()
                                .iter()
                                .map(|i| {
                                    format!(
                                        "{}{}",
                                        if i.get("paused").bool() { "~" } else { "" },
                                        i.get("id").str()
                                    )
                                })
                                .collect();
                            ids.join(",")
                        })
                        .collect();
                    d.push((name, vs.join(";")));
                }
                self.shuffle(&mut d);
                for (j, (name, l)) in d.into_iter().enumerate() {
                    if j > 0 {
                        o.push(B);
                    }
                    o.extend([t(name), B]);
                    // the form of older drafts
                    if self.style.order && self.r.chance(1, 4) {
                        o.push(t("rid="));
                    }
                    o.push(t(&l));
                }
            }
            "Ssrc" => {
                o.push(n(i.get("id")));
                if !i.get("attribute").is_null() {
                    o.push(t(" "));
                    o.push(t(i.get("attribute").str()));
                    if !i.get("value").is_null() {
                        o.push(t(":"));
                        o.push(t(i.get("value").str()));
                    }
                }
            }
            x => panic!("harness: no writer for {x}"),
        }
        o
    }

    fn fmtp(&mut self, q: &V) -> String {
        let tones = q.get("dtmf_tones").str();
        if !tones.is_empty() {
            return tones.to_string();
        }
        let e = q.get("encodings").list();
        if !e.is_empty() {
            let e: Vec<String> = e.iter().map(|x| x.u64().to_string()).collect();
            return e.join("/");
        }
        let def = fmtp_defaults();
        // groups of parameters that keep their order
        let mut g: Vec<String> = vec![];
        let spell = |w: &mut Self, name: &str| {
            let s = w.emit(&[k(name)]);
            if w.style.spelling {
                s
            } else {
                name.to_string()
            }
        };
        for (w, f, _) in FMTP_NUM {
            let x = q.get(f);
            if x.is_null() {
                continue;
            }
            if x != def.get(f) || (self.style.order && self.r.chance(1, 20)) {
                let w = spell(self, w);
                g.push(format!("{w}={}", x.u64()));
            }
        }
        for (w, f) in FMTP_BOOL {
            let x = q.get(f);
            if x != def.get(f) || (self.style.order && self.r.chance(1, 20)) {
                let w = spell(self, w);
                g.push(format!("{w}={}", u64::from(x.bool())));
            }
        }
        let x = q.get("profile_level_id");
        if x != def.get("profile_level_id") || (self.style.order && self.r.chance(1, 20)) {
            let w = spell(self, "profile-level-id");
            g.push(if self.style.order && self.r.bool() {
                format!("{w}={:X}", x.u64())
            } else {
                format!("{w}={:06x}", x.u64())
            });
        }
        let rtx = q.get("rtx");
        let mut tail: Option<String> = None;
        if !rtx.is_null() {
            let w = spell(self, "apt");
            g.push(format!("{w}={}", rtx.get("apt").u64()));
            if !rtx.get("rtx_time").is_null() {
                let w = spell(self, "rtx-time");
                tail = Some(format!("{w}={}", rtx.get("rtx_time").u64()));
            }
        }
        self.shuffle(&mut g);
        if let Some(x) = tail {
            let apt = g
                .iter()
                .position(|p| p.to_ascii_lowercase().starts_with("apt="))
                .unwrap();
            let at = if self.style.order {
                self.r.range(apt + 1, g.len())
            } else {
                apt + 1
            };
            g.insert(at, x);
        }
        let mut at = 0;
        for x in q.get("unknown_tokens").list() {
            at = if self.style.order {
                self.r.range(at, g.len())
            } else {
                g.len()
            };
            g.insert(at, x.str().to_string());
            at += 1;
        }
        let sep = if self.style.order {
            *self.r.pick(&[";", "; ", ";"])
        } else {
            ";"
        };
        g.join(sep)
    }

    fn setlist(&mut self, l: &V) -> String {
        match l {
            V::Unit(_) => "*".to_string(),
            _ => {
                let v: Vec<String> = l.inner().list().iter().map(imageset).collect();
                v.join(" ")
            }
        }
    }

    // ------------------------------------------------------------- lines

    fn line(&mut self, ty: &str, v: Vec<P>) -> String {
        let mut p = vec![E, k(ty), E, t("="), E];
        p.extend(v);
        p.push(E);
        self.emit(&p)
    }
    pub fn attr_line(&mut self, a: &V) -> String {
        let v = self.attr(a);
        self.line("a", v)
    }
    /// only the value of the a= line
    pub fn attr_text(&mut self, a: &V) -> String {
        let v = self.attr(a);
        self.emit(&v)
    }
    pub fn bandwidth_line(&mut self, b: &V) -> String {
        let (name, x) = match b {
            V::Tup(_, v) => (t(v[0].str()), &v[1]),
            _ => (
                k(match b.tag() {
                    "As" => "AS",
                    "Ct" => "CT",
                    _ => "TIAS",
                }),
                b.inner(),
            ),
        };
        self.line("b", vec![name, t(":"), n(x)])
    }
    pub fn connection_line(&mut self, c: &V) -> String {
        let mut p = self.typed(c.get("address"));
        for f in ["ttl", "amount"] {
            if !c.get(f).is_null() {
                p.push(t("/"));
                p.push(n(c.get(f)));
            }
        }
        self.line("c", p)
    }
    pub fn origin_line(&mut self, o: &V) -> String {
        let mut p = vec![
            t(o.get("username").str()),
            B,
            n(o.get("session_id")),
            B,
            n(o.get("session_version")),
            B,
        ];
        p.extend(self.typed(o.get("unicast_addr")));
        self.line("o", p)
    }
    pub fn timing_line(&mut self, x: &V) -> String {
        self.line("t", vec![n(x.get("start")), B, n(x.get("stop"))])
    }
    pub fn media_line(&mut self, m: &V) -> String {
        let mut p = vec![
            k(match m.get("media").tag() {
                "Audio" => "audio",
                "Video" => "video",
                _ => "application",
            }),
            B,
            n(m.get("port")),
        ];
        if m.get("port_count").u64() != 0 {
            p.push(t("/"));
            p.push(n(m.get("port_count")));
        }
        p.push(B);
        p.push(k(PROTOS
            .iter()
            .find(|x| x.1 == m.get("proto").tag())
            .unwrap()
            .0));
        match m.get("formats") {
            V::New("Integers", l) => {
                for x in l.list() {
                    p.push(B);
                    p.push(n(x));
                }
            }
            V::New(_, l) => {
                for x in l.list() {
                    p.push(B);
                    p.push(t(x.str()));
                }
            }
            _ => panic!("harness: formats"),
        }
        self.line("m", p)
    }
    pub fn name_line(&mut self, x: &V) -> String {
        let v = if x.is_null() {
            vec![t(" ")]
        } else {
            vec![t(x.str())]
        };
        self.line("s", v)
    }

    /// Lines of a session. With `order`, the lines below s= stand in any order
    /// that means the same.
    pub fn session_lines(&mut self, x: &V) -> Vec<String> {
        let mut out = vec![
            self.line("v", vec![n(x.get("version"))]),
            self.origin_line(x.get("origin")),
            self.name_line(x.get("session")),
        ];
        let mut parts: Vec<Vec<String>> = vec![];
        if !x.get("timing").is_null() {
            let mut l = vec![];
            if self.style.order && self.r.chance(1, 8) {
                // overridden by the next one
                l.push("t=1 2".to_string());
            }
            l.push(self.timing_line(x.get("timing")));
            parts.push(l);
        }
        self.common(x, &mut parts, true);
        out.extend(self.merge(parts));
        for m in x.get("media").list() {
            out.push(self.media_line(m.get("media")));
            let mut parts: Vec<Vec<String>> = vec![];
            self.common(m, &mut parts, false);
            out.extend(self.merge(parts));
        }
        out
    }
    fn common(&mut self, x: &V, parts: &mut Vec<Vec<String>>, session: bool) {
        parts.push(
            x.get("bandwidth")
                .list()
                .iter()
                .map(|b| self.bandwidth_line(b))
                .collect(),
        );
        if !x.get("connection").is_null() {
            let mut l = vec![];
            if session && self.style.order && self.r.chance(1, 8) {
                l.push("c=IN IP6 ::9/7/8".to_string());
            }
            l.push(self.connection_line(x.get("connection")));
            parts.push(l);
        }
        parts.push(
            x.get("attribute")
                .list()
                .iter()
                .map(|a| self.attr_line(a))
                .collect(),
        );
    }
    fn merge(&mut self, parts: Vec<Vec<String>>) -> Vec<String> {
        if !self.style.order {
            return parts.into_iter().flatten().collect();
        }
        let mut its: Vec<_> = parts
            .into_iter()
            .filter(|p| !p.is_empty())
            .map(|p| p.into_iter().peekable())
            .collect();
        let mut out = vec![];
        while !its.is_empty() {
            let i = self.r.n(its.len());
            out.push(its[i].next().unwrap());
            if its[i].peek().is_none() {
                let _ = its.remove(i);
            }
        }
        out
    }

    pub fn join(&mut self, lines: &[String]) -> String {
        let mut out = String::new();
        let style = if self.style.spelling { self.r.n(3) } else { 0 };
        for (i, l) in lines.iter().enumerate() {
            if self.style.spelling && self.r.chance(1, 12) {
                out.push_str(self.r.pick(&["\r\n", "\n", " \r\n", "\t\n"]));
            }
            out.push_str(l);
            let last = i + 1 == lines.len();
            // a lone CR is no line end, so the last end is left out as a whole
            if last && self.style.spelling && self.r.chance(1, 4) {
                break;
            }
            out.push_str(match style {
                0 => "\r\n",
                1 => "\n",
                _ => {
                    if self.r.bool() {
                        "\n"
                    } else {
                        "\r\n"
                    }
                }
            });
        }
        out
    }
}

fn pt(v: &V) -> String {
    match v {
        V::Unit(_) => "*".to_string(),
        _ => v.inner().u64().to_string(),
    }
}
pub fn xy(v: &V) -> String {
    match v {
        V::Tup(_, x) => match &x[2] {
            V::Null => format!("[{}:{}]", x[0].u64(), x[1].u64()),
            s => format!("[{}:{}:{}]", x[0].u64(), s.u64(), x[1].u64()),
        },
        _ => {
            let l: Vec<String> = v
                .inner()
                .list()
                .iter()
                .map(|x| x.u64().to_string())
                .collect();
            if l.len() == 1 {
                l[0].clone()
            } else {
                format!("[{}]", l.join(","))
            }
        }
    }
}
pub fn imageset(x: &V) -> String {
    let mut o = format!("[x={},y={}", xy(x.get("x")), xy(x.get("y")));
    match x.get("sar") {
        V::Null => (),
        V::Tup(_, v) => o.push_str(&format!(",sar=[{}-{}]", v[0].f32(), v[1].f32())),
        v => {
            let l: Vec<String> = v
                .inner()
                .list()
                .iter()
                .map(|x| x.f32().to_string())
                .collect();
            if l.len() == 1 {
                o.push_str(&format!(",sar={}", l[0]));
            } else {
                o.push_str(&format!(",sar=[{}]", l.join(",")));
            }
        }
    }
    let p = x.get("par");
    if !p.is_null() {
        o.push_str(&format!(",par=[{}-{}]", p.get("min").f32(), p.get("max").f32()));
    }
    if !x.get("q").is_null() {
        o.push_str(&format!(",q={}", x.get("q").f32()));
    }
    o.push(']');
    o
}

/// The canonical text of one attribute.
pub fn attr_text(a: &V) -> String {
    let mut r = Rng::new(0);
    Writer {
        r: &mut r,
        style: Style::default(),
    }
    .attr_text(a)
}
pub fn lines(x: &V) -> Vec<String> {
    let mut r = Rng::new(0);
    Writer {
        r: &mut r,
        style: Style::default(),
    }
    .session_lines(x)
}
pub fn text(x: &V) -> String {
    let mut out = String::new();
    for l in lines(x) {
        out.push_str(&l);
        out.push_str("\r\n");
    }
    out
}
