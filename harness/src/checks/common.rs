use crate::conv;
use crate::gen;
use crate::refparse::E;
use crate::reftext;
use crate::render::{Style, Writer};
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};
use crate::val::{new, short, show_diff, V};
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession};

pub const THREADS: usize = 8;

/// What the library makes of a line.
pub fn impl_line(text: &str) -> Result<V, E> {
    match parse_sdp_line(text, 0) {
        Ok(l) => Ok(conv::sdp_type(&l.sdp_type)),
        Err(SdpParserError::Unsupported { .. }) => Err(E::Unsup),
        Err(_) => Err(E::Bad),
    }
}
pub fn say(r: &Result<V, E>) -> String {
    match r {
        Ok(v) => format!("accepted as {}", short(v)),
        Err(E::Bad) => "an error".into(),
        Err(E::Unsup) => "unsupported".into(),
        Err(E::Either) => "refused".into(),
    }
}
pub fn same(what: &str, got: &V, want: &V) -> Verdict {
    match got.diff(want) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {}", show_diff(&d))),
    }
}
pub fn parse(text: &str) -> Result<SdpSession, SdpParserError> {
    parse_sdp(text, false)
}
pub fn clip(t: &str) -> String {
    if t.chars().count() > 600 {
        format!("{}…", t.chars().take(600).collect::<String>())
    } else {
        t.to_string()
    }
}
/// lines with blank characters that are not ASCII or letters with unusual case
/// mappings are left to the robustness checks
pub fn plain(t: &str) -> bool {
    !t.chars().any(|c| {
        (c.is_whitespace() && c != ' ' && c != '\t' && c != '\n' && c != '\r')
            || matches!(c, 'ı' | 'İ' | 'ſ' | '\u{212a}' | '\0')
    })
}
pub fn join(lines: &[String]) -> String {
    let mut t = lines.join("\r\n");
    t.push_str("\r\n");
    t
}
pub fn pick_text(r: &mut Rng) -> String {
    r.pick(crate::corpus::all()).clone()
}

// ------------------------------------------------------------ whole texts

/// Lines of skippable but unsupported features.
pub const SKIPPABLE: &[&str] = &[
    "a=x-unknown",
    "a=x-unknown:with a value",
    "a=Crypto:1 AES_CM_128_HMAC_SHA1_80 inline:d0RmdmcmVCspeEc3",
    "a=rtcp-fb:96 foo",
    "a=rtcp-fb:* nack foo",
    "a=group:XYZ 1 2",
    "a=ssrc-group:XYZ 1 2",
    "a=key-mgmt:mikey AQAFgM0X",
    "a=sendrecv-ish",
    "a=midi:0",
];
/// A line of a skippable feature: a listed one, or a name near a known one.
pub fn skippable(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        return skippable_value(r);
    }
    if r.bool() {
        return r.pick_s(SKIPPABLE);
    }
    let value = match r.n(4) {
        0 => String::new(),
        1 => format!(":{}", gen::text(r)),
        2 => ":0".to_string(),
        _ => {
            // the value of the known one, if it has one
            let a = gen::any_attr(r);
            let l = line_of(r, Style::default(), &new("Attribute", a));
            match l.split_once(':') {
                Some((_, v)) => format!(":{v}"),
                None => String::new(),
            }
        }
    };
    format!("a={}{value}", unknown_name(r))
}
/// Values of known attributes that are registered (or were in use) but not supported.
const OTHER_GROUPS: &[&str] = &["CS", "DUP", "FID2", "SIM", "FEC-FR", "MID", "ls-", "BUNDLE-ONLY", "CPA", "SYNC", "DDP2", "LS2", "TIAS", "WMS", "X-BUNDLE", "BUNDLED", "BUNDL"];
const OTHER_SSRC_GROUPS: &[&str] = &["FEC-XR", "RTX", "LS", "BUNDLE", "FEC2", "FECFR", "FEC_FR", "SIMULCAST", "FLEX", "DDP", "SI", "FIDS", "X-SIM", "FEC-FRR"];
const OTHER_HASHES: &[&str] = &[
    "md5", "md2", "md4", "MD5", "sha", "sha-0", "sha1", "sha-2", "sha256", "sha-265", "SHA-1", "SHA-256", "Sha-256", "SHA-512", "sha-512/256", "sha3-256", "sha-3", "sha-128",
    "shake128", "shake256", "sha-521", "blake2b", "crc32", "UNKNOWN", "sha_256", "sha-1-", "token", "none", "x509", "sha-1024", "ripemd160", "sm3", "sha-225", "sha-25",
];
const OTHER_FEEDBACK: &[&str] = &[
    "ccfb", "tmmbr", "fir", "pli", "nack-pli", "rrtr", "goog-lntf", "goog-remb2", "remb", "ack-", "NACK", "CCM", "transport-cc-02", "transport-wide-cc", "app", "x-foo", "ack ccfb",
    "ack ecn", "ack roi", "nack rai", "nack tllei", "nack pslei", "nack ecn", "nack rps", "nack roi", "nack 3gpp-roi", "nack fir", "nack PLI", "nack sli2", "nack app2", "ccm pause",
    "ccm tmmbn", "ccm smaxpr=120", "ccm nack", "ccm pli", "ccm roi", "ccm FIR", "ack", "ack pli", "ack sli", "ack RPSI", "goog-remb 1", "transport-cc app", "3gpp-roi-arbitrary",
    "vbcm", "lrr", "ccm lrr", "ccm app", "trr", "trrint 5", "doppler",
];
const OTHER_MEDIA: &[&str] = &["text", "message", "image", "control", "data", "x-video", "audio2", "model", "multipart", "font", "haptics", "vide", "applications", "app", "*", "text/plain", "x"];
const OTHER_PROTOCOLS: &[&str] = &[
    "udp", "TCP", "vat", "rtp", "UDPTL", "udptl", "TCP/MSRP", "TCP/TLS/MSRP", "TCP/BFCP", "TCP/TLS/BFCP", "UDP/BFCP", "UDP/TLS/BFCP", "UDP/TLS/UDPTL", "RTP/XYZ", "RTP/SAVPFF", "RTP/AVPS", "TCP/RTP/AVP",
    "TCP/RTP/AVPF", "TCP/RTP/SAVP", "TCP/RTP/SAVPF", "TCP/TLS/RTP/AVP", "TCP/TLS/RTP/SAVP", "TCP/TLS/RTP/SAVPF", "UDP/TLS/RTP/AVP", "UDP/TLS/RTP/AVPF", "UDP/DTLS/RTP/SAVPF", "DTLS/RTP/SAVPF", "DTLS/RTP/SAVP",
    "TCP/DTLS/RTP/AVP", "TCP/DTLS/BFCP", "SCTP", "SCTP/DTLS", "UDP/SCTP", "TCP/SCTP", "DCCP/RTP/AVP", "DCCP", "FILE", "PSTN", "http", "RTP", "AVP", "SAVPF", "RTP/AVP/TCP", "RTP/AVP/UDP", "QUIC", "UDP/QUIC", "UDP/DTLS", "webrtc-datachannel", "UDP/DTLS/SCTP/", "/RTP/AVP", "FLUTE/UDP", "FEC/UDP", "UDP/FEC", "MP2T/UDP", "TCP/WS/BFCP",
];
/// An unsupported value of a known attribute.
pub fn skippable_value(r: &mut Rng) -> String {
    let near = |r: &mut Rng, t: String| match r.n(8) {
        0 => t.to_uppercase(),
        1 => t.to_lowercase(),
        _ => t,
    };
    match r.n(6) {
        0 => {
            let t = r.pick_s(OTHER_GROUPS);
            format!("a=group:{} {}", near(r, t), gen::id(r))
        }
        1 => {
            let t = r.pick_s(OTHER_SSRC_GROUPS);
            format!("a=ssrc-group:{} {} {}", near(r, t), r.u64() as u32, r.u64() as u32)
        }
        2 => {
            let n = *r.pick(&[1usize, 2, 16, 20, 28, 32, 48, 64]);
            let o: Vec<String> = (0..n).map(|_| format!("{:02X}", r.n(256))).collect();
            format!("a=fingerprint:{} {}", r.pick_s(OTHER_HASHES), o.join(":"))
        }
        3 => format!("a=fmtp:{}", r.n(128)),
        4 => {
            // an extension name at the end
            let a = gen::attr(r, "Candidate");
            let l = line_of(r, Style::default(), &new("Attribute", a));
            format!("{l} {}", r.pick_s(&["generation", "tcptype", "raddr", "rport", "ufrag", "network-cost", "network-id", "x", "typ", "0"]))
        }
        _ => {
            let pt = if r.bool() { "*".to_string() } else { r.n(128).to_string() };
            format!("a=rtcp-fb:{pt} {}", r.pick_s(OTHER_FEEDBACK))
        }
    }
}
/// An unsupported m= line: a listed one, or one of another medium or protocol.
pub fn skippable_media(r: &mut Rng) -> String {
    let port = *r.pick(&[0u32, 9, 5000, 65535]);
    match r.n(4) {
        0 => r.pick_s(SKIPPABLE_MEDIA),
        1 => format!("m={} {port} {} {}", r.pick_s(OTHER_MEDIA), r.pick_s(&["RTP/AVP", "UDP/TLS/RTP/SAVPF", "DTLS/SCTP"]), r.n(60)),
        2 => format!("m={} {port} {} {}", r.pick_s(&["audio", "video", "application"]), r.pick_s(OTHER_PROTOCOLS), r.n(60)),
        _ => format!("m={} {port} {} {}", r.pick_s(OTHER_MEDIA), r.pick_s(OTHER_PROTOCOLS), r.pick_s(&["*", "t38", "0 8", "webrtc-datachannel"])),
    }
}
/// Names of attributes that others use.
pub const FOREIGN: &[&str] = &[
    "x-google-flag", "x-google-start-bitrate", "crypto", "rtcp-xr", "key-mgmt", "ts-refclk", "mediaclk", "curr", "des", "conf",
    "content", "range", "control", "tool", "type", "cat", "keywds", "charset", "sdplang", "lang", "quality", "orient", "cliprect",
    "x-dimensions", "x-qt-text-nam", "rtcp-resource", "source-filter", "zrtp-hash", "silenceSupp", "ecan", "gpmd", "X-nat", "x-bwealloc",
    "framesize", "maxprate", "AvgBitRate", "StreamId", "path", "accept-types", "accept-wrapped-types", "connection", "floorctrl", "confid", "userid",
    "floorid", "tls-id", "msid-control", "depend", "acap", "pcfg", "acfg", "tcap", "csup", "creq", "3ge2ae", "altc", "rtcp-mux-", "bfcpver",
    "x-plgroup", "x-caps", "x-candidate-ipv6", "x-source-streamid", "x-mediabw", "x-devicecaps", "dcmap", "dcsa", "x-alt", "alt-group",
    "cname", "mslabel", "x-rtp-session-id", "x-sqn", "trickle", "nortpproxy", "oldmediaip", "x-modem", "T38FaxVersion", "T38MaxBitRate",
    "T38FaxUdpEC", "rtcp-fb-", "ice2", "ssrc-audio-level", "x-cap", "bandwidth", "rtpred1", "etag", "chain", "sqn", "cdsc", "cpar", "mid2", "candidates",
    "x-mozilla", "moz-", "x-ufrag", "alt", "group-call", "X-MS", "x-ms-", "webrtc", "datachannel", "ptime2", "packetization", "h248item", "inactive-",
];
/// A name no attribute has, made from one.
pub fn unknown_name(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        let t = r.pick_s(FOREIGN);
        return match r.n(6) {
            0 => t.to_uppercase(),
            1 => format!("{t}{}", gen::alnum(r)),
            _ => t,
        };
    }
    loop {
        let k = r.pick(crate::kinds::KINDS).wire;
        let other = r.pick(crate::kinds::KINDS).wire;
        let name = match r.n(14) {
            0 => format!("a={k}"),
            1 => format!("x-{k}"),
            2 => format!("X-{}", k.to_uppercase()),
            3 => format!("{k}s"),
            4 => k[..k.len() - 1].to_string(),
            5 => k[1..].to_string(),
            6 => k.replace('-', "_"),
            7 => k.replace('-', ""),
            8 => format!("{k}-{other}"),
            9 => format!("{k}="),
            10 => format!("{k} {other}"),
            11 => format!("{k}/{other}"),
            12 => format!("-{k}"),
            _ => format!("{k}{}", r.n(10)),
        };
        if !name.trim().is_empty() && crate::kinds::by_wire(&name.to_lowercase()).is_none() {
            return name;
        }
    }
}
/// Unsupported m= lines. What follows one is attributed to the section above.
pub const SKIPPABLE_MEDIA: &[&str] = &[
    "m=message 2855 TCP/MSRP *",
    "m=text 9 RTP/AVP 98",
    "m=audio 9 RTP/XYZ 0",
    "m=image 9 udptl t38",
];
/// Lines that say what holds anyway; they need not be printed.
pub const DEFAULTS: &[&str] = &[
    "a=fmtp:96 packetization-mode=0",
    "a=fmtp:97 maxplaybackrate=48000",
    "a=fmtp:98 profile-level-id=42000a",
    "a=fmtp:98 profile-level-id=42000A",
    "a=fmtp:99 usedtx=0;stereo=0;useinbandfec=0;cbr=0;level-asymmetry-allowed=0",
    "a=fmtp:100 max-fs=0;max-cpb=0;max-dpb=0;max-br=0;max-mbps=0;max-fr=0",
    "a=fmtp:101 ptime=0;minptime=0;maxptime=0;maxaveragebitrate=0",
    "a=msid-semantic:WMS *",
    "a=msid-semantic:WMS",
    "a=extmap:1 urn:x",
    "b=AS:0",
    "a=group:BUNDLE",
];
/// Lines that are never valid.
pub const MALFORMED: &[&str] = &[
    "q=unknown type",
    "no equal sign",
    "a=",
    "=x",
    "vv=0",
    "v=1",
    "t=0",
    "c=IN IP4",
    "b=AS:x",
    "m=audio 9 RTP/AVP",
    "a=sendrecv:yes",
    "a=ptime:x",
    "a=rtpmap:96",
    "o=- 0 0 IN IP5 x",
    "x=",
    "i=a title",
    "e=someone@example.com (Some One)",
    "u=http://example.com/sdp",
    "p=+1 617 555-6011",
    "k=clear:secret",
    "r=604800 3600 0 90000",
    "z=2882844526 -1h 2898848070 0",
    " E = me",
];

pub fn truth_lines(r: &mut Rng, size: gen::Size, style: Style) -> (V, Vec<String>) {
    let x = gen::session(r, size);
    let mut w = Writer { r, style };
    let l = w.session_lines(&x);
    (x, l)
}

/// A random line that may stand (or not) in a session.
pub fn any_line(r: &mut Rng) -> String {
    let x = match r.n(20) {
        0 => return skippable(r),
        1 => return r.pick_s(MALFORMED),
        2 if r.bool() => return r.pick_s(&["", " ", "\t", "  \t "]),
        2 => return r.pick_s(DEFAULTS),
        3 => {
            let t = pick_text(r);
            let l: Vec<&str> = t.lines().collect();
            return r.pick(&l).to_string();
        }
        4 => new("Version", V::U(0)),
        5 => {
            let n = gen::session_name(r);
            new("Session", if n.is_null() { V::S(String::new()) } else { n })
        }
        6 => new("Timing", gen::timing(r)),
        7 => new("Bandwidth", gen::bandwidth(r)),
        8 | 9 => new("Connection", gen::connection(r)),
        10 => new("Origin", gen::origin(r)),
        11 | 12 => new("Media", gen::media_line(r)),
        _ => new("Attribute", gen::any_attr(r)),
    };
    line_of(r, Style::default(), &x)
}
/// One line for one value.
pub fn line_of(r: &mut Rng, style: Style, v: &V) -> String {
    let mut w = Writer { r, style };
    let i = v.inner();
    match v.tag() {
        "Version" => "v=0".to_string(),
        "Session" => w.name_line(i),
        "Timing" => w.timing_line(i),
        "Bandwidth" => w.bandwidth_line(i),
        "Connection" => w.connection_line(i),
        "Origin" => w.origin_line(i),
        "Media" => w.media_line(i),
        _ => w.attr_line(i),
    }
}

/// Lines taken out, repeated, moved, exchanged, damaged, put in.
pub fn shake(r: &mut Rng, l: &mut Vec<String>, ops: usize) {
    for _ in 0..ops {
        if l.is_empty() {
            l.push(any_line(r));
            continue;
        }
        let i = r.n(l.len());
        match r.n(14) {
            0 => {
                l.remove(i);
            }
            1 => {
                let x = l[i].clone();
                let j = r.n(l.len() + 1);
                l.insert(j, x);
            }
            2 => {
                let x = l.remove(i);
                let j = r.n(l.len() + 1);
                l.insert(j, x);
            }
            3 => {
                let j = r.n(l.len());
                l.swap(i, j);
            }
            4 | 5 => l[i] = crate::mutate::some(r, &l[i]).replace(['\n', '\r'], " "),
            6 | 7 => l.insert(i, skippable(r)),
            8 => {
                let m = skippable_media(r);
                l.insert(i, m)
            }
            9 => l.insert(i, r.pick_s(&["", " ", "\t", " \t"])),
            _ => {
                let x = any_line(r);
                let j = r.n(l.len() + 1);
                l.insert(j, x);
            }
        }
    }
}
pub fn ends(r: &mut Rng, l: &[String]) -> String {
    let mut w = Writer {
        r,
        style: Style {
            spelling: true,
            order: false,
        },
    };
    w.join(l)
}
/// A text that is valid, or nearly.
pub fn near_text(r: &mut Rng, ops: usize) -> String {
    let mut l: Vec<String> = if r.chance(1, 6) {
        let t = pick_text(r);
        let mut l: Vec<String> = t.lines().map(str::to_string).collect();
        // a part of it
        if l.len() > 20 && r.chance(3, 4) {
            let n = r.range(4, 20);
            let at = r.n(l.len() - n);
            let mut k: Vec<String> = l[..4.min(l.len())].to_vec();
            k.extend(l[at..at + n].to_vec());
            l = k;
        }
        l
    } else {
        let size = if r.bool() { gen::SMALL } else { gen::MEDIUM };
        let style = Style {
            spelling: r.bool(),
            order: r.bool(),
        };
        truth_lines(r, size, style).1
    };
    shake(r, &mut l, ops);
    if r.chance(1, 120) {
        crowd(r, &mut l);
    }
    ends(r, &l)
}
/// Many lines of one sort (kept, warned about, blank) in one place.
fn crowd(r: &mut Rng, l: &mut Vec<String>) {
    let at = r.range(l.len().min(5), l.len());
    let n = r.range(9, 70);
    let how = r.n(4);
    let one = any_line(r);
    for i in 0..n {
        let x = match how {
            0 => skippable(r),
            1 => format!("a=x-unknown:{i}"),
            2 => String::new(),
            _ => one.clone(),
        };
        l.insert(at, x);
    }
}
/// Texts of which there is little, and what holds anyway.
pub fn little() -> Vec<String> {
    let t = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\nm=video 9 UDP/TLS/RTP/SAVPF 96\r\na=mid:0\r\n";
    let mut v: Vec<String> = (0..=t.len()).map(|i| t[..i].to_string()).collect();
    v.extend((0..t.len()).map(|i| t[i..].to_string()));
    let l: Vec<&str> = t.split_inclusive("\r\n").collect();
    for i in 0..1 << l.len() {
        v.push((0..l.len()).filter(|k| i >> k & 1 == 1).map(|k| l[k]).collect());
    }
    v.extend([" ", "\n", "\r", "\n\n", "\t", "=", "v", "v=", "\u{feff}", "\0", "\r\n\r\n"].map(String::from));
    for x in DEFAULTS {
        v.push(format!("{t}{x}\r\n"));
        v.push(format!("{t}a=sendrecv\r\n{x}\r\na=rtcp-mux\r\n"));
        v.push(t.replace("c=IN", &format!("{x}\r\nc=IN")));
    }
    v
}
/// Every element of the families of C02 repeated often.
pub fn crowds(counts: &[usize]) -> Vec<String> {
    let l = super::cost::list();
    l.iter().flat_map(|f| counts.iter().map(|n| f.text(*n))).collect()
}
/// Lines of every kind in which one number has become another.
pub fn numbered(shapes: usize) -> Vec<String> {
    let mut r = Rng::new(1618);
    let mut lines: Vec<String> = ["v=0", "o=- 1 2 IN IP4 10.0.0.1", "t=1 2", "c=IN IP4 10.0.0.1", "c=IN IP6 2001:db8::1", "b=AS:1", "b=X-Y:1",
        "m=audio 9 RTP/AVP 0", "m=video 9/2 UDP/TLS/RTP/SAVPF 96 97", "m=application 9 UDP/DTLS/SCTP 5000", "m=application 9/2 DTLS/SCTP webrtc-datachannel"]
        .map(String::from).into();
    for k in crate::kinds::KINDS {
        let mut n = 0;
        for _ in 0..60 {
            let a = gen::attr(&mut r, k.tag);
            let l = line_of(&mut r, Style::default(), &new("Attribute", a));
            if l.len() < 300 && !k.flag {
                lines.push(l);
                n += 1;
            }
            if n == shapes {
                break;
            }
        }
    }
    let mut out = vec![];
    for l in lines {
        let b = l.as_bytes();
        let mut i = 2;
        let mut runs = 0;
        while i < b.len() && runs < 12 {
            if !b[i].is_ascii_digit() {
                i += 1;
                continue;
            }
            let from = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            runs += 1;
            for n in crate::mutate::NUMS {
                out.push(format!("{}{n}{}", &l[..from], &l[i..]));
            }
            out.push(format!("{}{}", &l[..from], &l[i..]));
        }
    }
    out.sort();
    out.dedup();
    out
}
/// A line within a session that is valid without it.
pub fn within(l: &str) -> String {
    let head = ["v=0", "o=- 0 0 IN IP4 127.0.0.1", "s=-", "t=0 0", "c=IN IP4 0.0.0.0"];
    let m = "m=video 9 UDP/TLS/RTP/SAVPF 96 97 98";
    let ty = l.get(..2).unwrap_or("");
    if let Some(i) = head.iter().position(|h| h.starts_with(ty) && ty.len() == 2) {
        let mut v: Vec<String> = head.map(String::from).to_vec();
        v[i] = l.to_string();
        v.push(m.to_string());
        return join(&v);
    }
    let mut v: Vec<String> = head.map(String::from).to_vec();
    let name = l.get(2..).unwrap_or("").split(':').next().unwrap_or("").to_lowercase();
    let media = ty != "a=" || crate::kinds::by_wire(&name).is_none_or(|k| k.media);
    if ty == "m=" {
        v.push(l.to_string());
    } else if media {
        v.push(m.to_string());
        v.push(l.to_string());
    } else {
        v.push(l.to_string());
        v.push(m.to_string());
    }
    join(&v)
}
/// Texts in which more things are counted than any limit someone may think of.
pub fn huge() -> Vec<String> {
    let head = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";
    let c = "c=IN IP4 0.0.0.0\r\n";
    let m = "m=video 9 UDP/TLS/RTP/SAVPF 96\r\n";
    let rep = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let mut v = vec![];
    for n in [1_100usize, 70_000] {
        v.push(format!("{head}{c}{}", rep(n, &|i| format!("m=audio 9 RTP/AVP 0\r\na=mid:{i}\r\n"))));
        v.push(format!("{head}{}", rep(n, &|i| format!("m=audio 9 RTP/AVP 0\r\nc=IN IP4 h{i}\r\n"))));
        v.push(format!("{head}{c}{m}{}", rep(n, &|i| format!("a=ssrc:{i} cname:c{i}\r\n"))));
        v.push(format!("{head}{c}{m}{}", rep(n, &|i| format!("b=AS:{i}\r\n"))));
        v.push(format!("{head}{}{c}{m}", rep(n, &|i| format!("b=X-Y:{i}\r\n"))));
        v.push(format!("{head}{}{c}{m}", rep(n, &|i| format!("a=ice-ufrag:u{i}\r\n"))));
        v.push(format!("{head}{}{c}{m}", rep(n, &|i| format!("a=x-y:{i}\r\n"))));
        v.push(format!("{head}{c}{m}{}", rep(n, &|i| format!("a=x-y:{i}\r\n"))));
        let blank = "\r\n".repeat(n);
        for x in ["a=sendrecv", "a=x-unknown:y", "a=ptime:x", "a=ice-lite", "t=0 0", "c=IN IP4 a\r\nc=IN IP4 b", "a=simulcast:send a", "m=audio 9 RTP/AVP 0\r\na=mid:x"] {
            v.push(format!("{head}{c}{m}{blank}{x}\r\n"));
        }
        v.push(format!("{head}{blank}a=rtcp-mux\r\n{c}{m}"));
        v.push(format!("{head}{blank}a=sendrecv\r\n{c}{m}"));
        v.push(format!("{blank}{head}{m}a=mid:0\r\n"));
    }
    v
}
/// Characters that editors, terminals and files put in unseen.
pub const UNSEEN: &[char] = &[
    '\u{feff}', '\u{a0}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{85}', '\u{b}', '\u{c}',
    '\u{0}', '\u{1}', '\u{7f}', '\u{1a}', '\u{ad}', '\u{3000}', '\u{2060}', '\u{fffd}', '\r', '\u{301}', 'ſ', 'İ',
];
/// A text that is valid, or nearly, or has unseen characters in places.
pub fn odd_text(r: &mut Rng, ops: usize) -> String {
    let t = near_text(r, ops);
    if r.chance(7, 8) {
        return t;
    }
    unseen(r, &t)
}
pub fn unseen(r: &mut Rng, t: &str) -> String {
    let mut t: Vec<char> = t.chars().collect();
    let times = r.range(1, 3);
    for _ in 0..times {
        let x = if r.bool() {
            *r.pick(UNSEEN)
        } else {
            r.n(128) as u8 as char
        };
        let at = |p: &dyn Fn(usize) -> bool, r: &mut Rng| {
            let v: Vec<usize> = (0..=t.len()).filter(|i| p(*i)).collect();
            if v.is_empty() {
                0
            } else {
                *r.pick(&v)
            }
        };
        let i = match r.n(9) {
            0 | 1 => 0,
            2 => t.len(),
            3 => at(&|i| i == 0 || t[i - 1] == '\n', r),
            4 => at(&|i| i == t.len() || t[i] == '\r' || t[i] == '\n', r),
            5 => at(&|i| i < t.len() && t[i] == '=' , r),
            6 => at(&|i| i > 0 && (t[i - 1] == '=' || t[i - 1] == ':'), r),
            7 => at(&|i| i > 0 && t[i - 1] == ' ', r),
            _ => at(&|_| true, r),
        };
        t.insert(i, x);
    }
    t.into_iter().collect()
}
/// Texts with one odd character at one of the distinguished places of one line
/// of every kind: `full` with every ASCII character, otherwise with those that
/// are no letters or digits.
pub fn sweep(full: bool) -> Vec<String> {
    let mut r = Rng::new(2718);
    let mut lines: Vec<(u8, String)> = vec![
        (0, "v=0".into()),
        (1, "o=user 1 2 IN IP4 10.0.0.1".into()),
        (2, "s=a name".into()),
        (3, "t=1 2".into()),
        (4, "c=IN IP6 2001:db8::1".into()),
        (5, "b=AS:64".into()),
        (5, "b=X-Y:64".into()),
        (6, "m=audio 9 RTP/AVP 0 96".into()),
        (6, "m=application 9 UDP/DTLS/SCTP webrtc-datachannel".into()),
        (8, "a=x-unknown:y".into()),
        (8, "e=me".into()),
    ];
    for k in crate::kinds::KINDS {
        let l = loop {
            let a = gen::attr(&mut r, k.tag);
            let l = line_of(&mut r, Style::default(), &new("Attribute", a));
            if l.len() < 200 && l.is_ascii() {
                break l;
            }
        };
        lines.push((if k.media { 9 } else { 8 }, l));
    }
    let mut chars: Vec<char> = (0..128u8).map(char::from).filter(|c| full || !c.is_ascii_alphanumeric()).collect();
    chars.extend(UNSEEN.iter().filter(|c| !c.is_ascii()));
    let base = [
        "v=0", "o=- 0 0 IN IP4 127.0.0.1", "s=-", "t=0 0", "c=IN IP4 0.0.0.0", "", "m=video 9 UDP/TLS/RTP/SAVPF 96 97 98", "", "", "",
    ];
    let mut out = vec![];
    for (at, l) in &lines {
        let mut places = vec![0, 1, 2, l.len()];
        places.extend(l.find(':'));
        places.extend(l.find(':').map(|x| x + 1));
        places.extend(l[2..].find(' ').map(|x| x + 2));
        places.extend(l.rfind(' ').map(|x| x + 1));
        places.push(l.len() - 1);
        places.sort_unstable();
        places.dedup();
        for p in places {
            for c in &chars {
                let mut t = l.clone();
                t.insert(p, *c);
                let mut b: Vec<String> = base.iter().map(|x| (*x).to_string()).collect();
                if *at == 8 {
                    b[5] = t;
                } else if *at == 5 {
                    b[7] = t;
                } else {
                    b[*at as usize] = t;
                }
                b.retain(|x| !x.is_empty());
                out.push(join(&b));
            }
        }
    }
    out
}
pub fn few(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 5])
}

/// Compares what the parser makes of a text with what the reference does.
pub fn judge(
    cx: &mut Ctx,
    text: &str,
    got: &Result<SdpSession, SdpParserError>,
    want: &reftext::Expect,
    warnings: &[(usize, String)],
    look: reftext::Look,
) -> Verdict {
    match reftext::compare(got, want, warnings, look) {
        reftext::Cmp::Agree => Ok(()),
        reftext::Cmp::Open => {
            cx.saw("texts the grammar leaves open");
            Ok(())
        }
        reftext::Cmp::Differ(m) => Err(format!("{m}, for {:?}", clip(text))),
    }
}
pub fn warnings_of(x: &SdpSession) -> Vec<(usize, String)> {
    x.warnings
        .iter()
        .map(|w| match w {
            SdpParserError::Unsupported {
                line, line_number, ..
            } => (*line_number, line.clone()),
            e => (usize::MAX, reftext::describe_err(e)),
        })
        .collect()
}
pub fn number_of(e: &SdpParserError) -> usize {
    match e {
        SdpParserError::Line { line_number, .. }
        | SdpParserError::Unsupported { line_number, .. }
        | SdpParserError::Sequence { line_number, .. } => *line_number,
    }
}
