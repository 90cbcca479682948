//! Damaging a text: pieces removed, repeated, exchanged, replaced, numbers
//! moved to the edges of ranges. Only ASCII is introduced.
use crate::rng::Rng;

pub const NUMS: &[&str] = &[
    "0", "1", "2", "3", "4", "15", "16", "18", "19", "20", "31", "32", "63", "64", "95", "96", "99",
    "100", "101", "126", "127", "128", "129", "255", "256", "32767", "65534", "65535", "65536",
    "16777215", "16777216", "4294967294", "4294967295", "4294967296", "9999999999", "10000000000",
    "18446744073709551614", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999", "-1", "-0", "00", "007", "1.5", "0.0", "1e5", "1e400", "NaN",
    "inf", "-5", "0x10", "ffffff", "1000000", "42e01f", "1 ", "٣",
];
pub const WORDS: &[&str] = &[
    "*", "-", "~", "=", ":", ";", ",", "/", " ", "  ", "[", "]", "send", "recv", "SEND", "rid=",
    "pt=", "pt=96", "depends=", "max-width=", "x=", "y=", "sar=", "par=", "q=", "[x=1,y=2]", "IN",
    "IP4", "IP6", "ip4", "127.0.0.1", "::1", "1.2.3", "256.1.1.1", "a.b", "", "UDP", "TCP", "tls",
    "typ", "host", "srflx", "relay", "raddr", "rport", "tcptype", "active", "passive", "so",
    "generation", "network-cost", "ufrag", "sha-1", "sha-256", "SHA-1", "md5", "AA", "G0", "nack",
    "pli", "ack", "rpsi", "ccm", "fir", "trr-int", "goog-remb", "transport-cc", "app", "sli",
    "apt=", "apt=96", "rtx-time=5", "profile=", "level-idx=", "tier=", "stereo=", "stereo=2",
    "packetization-mode=", "profile-level-id=", "audio", "video", "application", "message",
    "RTP/AVP", "UDP/TLS/RTP/SAVPF", "DTLS/SCTP", "RTP/XYZ", "webrtc-datachannel", "client",
    "server", "BUNDLE", "LS", "FID", "FEC", "FEC-FR", "SIM", "DUP", "XYZ", "cname:x", "cname",
    "holdconn", "actpass", "sendonly", "sendrecv", "inactive", "/sendonly", "AS", "TIAS", "CT",
    "opus/48000/2", "0-15", "1-0", "100-101", "é", "true", "mid", "candidate", "trickle", "\t",
];

fn is_sep(c: char) -> bool {
    " \t/:;,=[]-~.".contains(c)
}
fn pieces(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = false;
    for c in t.chars() {
        if is_sep(c) {
            out.push(c.to_string());
            word = false;
        } else if word {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
            word = true;
        }
    }
    out
}
fn foreign(r: &mut Rng) -> String {
    if r.bool() {
        r.pick_s(NUMS)
    } else {
        r.pick_s(WORDS)
    }
}

pub fn once(r: &mut Rng, t: &str) -> String {
    let mut p = pieces(t);
    if p.is_empty() {
        return foreign(r);
    }
    let i = r.n(p.len());
    match r.n(14) {
        0 => {
            p.remove(i);
        }
        1 => {
            let x = p[i].clone();
            p.insert(i, x);
        }
        2 => {
            let j = r.n(p.len());
            p.swap(i, j);
        }
        3 => p[i] = foreign(r),
        4 => p.insert(i, foreign(r)),
        5 => p.truncate(i),
        6 => {
            let x = foreign(r);
            p.push(r.pick(&[" ", ";", ",", ":", "/", "="]).to_string());
            p.push(x);
        }
        7 | 8 => {
            // a number to the edge of a range
            let idx: Vec<usize> = (0..p.len())
                .filter(|i| p[*i].bytes().all(|b| b.is_ascii_digit()))
                .collect();
            if idx.is_empty() {
                p[i] = foreign(r);
            } else {
                let j = *r.pick(&idx);
                p[j] = r.pick_s(NUMS);
            }
        }
        9 => {
            p[i] = if r.bool() {
                p[i].to_ascii_uppercase()
            } else {
                p[i].to_ascii_lowercase()
            }
        }
        10 => {
            // a word and the separator before it
            p.remove(i);
            if i > 0 {
                p.remove(i - 1);
            }
        }
        11 => {
            let c: Vec<char> = t.chars().collect();
            let j = r.n(c.len());
            let mut c = c;
            match r.n(3) {
                0 => {
                    c.remove(j);
                }
                1 => c[j] = (b' ' + r.n(95) as u8) as char,
                _ => c.insert(j, (b' ' + r.n(95) as u8) as char),
            }
            return c.into_iter().collect();
        }
        12 => {
            // number one off
            if let Ok(x) = p[i].parse::<u64>() {
                p[i] = if r.bool() {
                    x.wrapping_add(1)
                } else {
                    x.wrapping_sub(1)
                }
                .to_string();
            } else {
                p[i].push('x');
            }
        }
        _ => {
            let j = r.n(p.len());
            p[i] = p[j].clone();
        }
    }
    p.concat()
}

pub fn some(r: &mut Rng, t: &str) -> String {
    let mut out = once(r, t);
    while r.chance(1, 3) {
        out = once(r, &out);
    }
    out
}

/// words thrown together
pub fn soup(r: &mut Rng) -> String {
    let n = r.range(0, 9);
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out.push_str(r.pick(&[" ", " ", " ", ";", ",", ":", "/", "=", ""]));
        }
        out.push_str(&foreign(r));
    }
    out
}
