//! C02: work and memory are proportional to the size of the text.
//!
//! "work":   a text with one element repeated n, 2n and 4n times is parsed and
//!           the outcome used, under callgrind, which counts the instructions
//!           of every phase; doubling the text again must about double the
//!           additional work
//! "memory": the same with the bytes asked for and held, counted by the
//!           allocator
//! "short":  no short text makes the parser hold much memory
use super::common::*;
use crate::alloc::measure;
use crate::gen;
use crate::kinds::KINDS;
use crate::mutate;
use crate::render::Style;
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, V};
use std::collections::BTreeMap;
use std::hint::black_box;
use std::process::{Command, Stdio};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::{parse_sdp, SdpSession};

// ----------------------------------------------------------------- families

const HEAD: &str = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
const M: &str = "m=video 9 UDP/TLS/RTP/SAVPF 96\r\n";

/// Text before, repeated part and text after; '#' in the repeated part is
/// replaced with its index, '@' with the index in a range of 96..=127, '$' and
/// '^' with the index as two decimal or hexadecimal bytes.
const MARKS: [char; 4] = ['#', '@', '$', '^'];
pub struct Family {
    what: String,
    pre: String,
    pub unit: String,
    post: String,
    /// a second part repeated as often
    unit2: String,
    end: String,
}
fn fam(what: &str, pre: &str, unit: &str, post: &str) -> Family {
    Family {
        what: what.to_string(),
        pre: pre.to_string(),
        unit: unit.to_string(),
        post: post.to_string(),
        unit2: String::new(),
        end: String::new(),
    }
}
fn two(what: &str, pre: &str, unit: &str, post: &str, unit2: &str, end: &str) -> Family {
    Family {
        unit2: unit2.to_string(),
        end: end.to_string(),
        ..fam(what, pre, unit, post)
    }
}
impl Family {
    pub fn text(&self, n: usize) -> String {
        let mut t = self.pre.clone();
        let put = |t: &mut String, u: &str| {
            for i in 0..n {
                for c in u.chars() {
                    match c {
                        '#' => t.push_str(&i.to_string()),
                        '@' => t.push_str(&(96 + i % 32).to_string()),
                        '$' => t.push_str(&format!("{}.{}", i >> 8 & 255, i & 255)),
                        '^' => t.push_str(&format!("{:02X}:{:02X}", i >> 8 & 255, i & 255)),
                        c => t.push(c),
                    }
                }
            }
        };
        put(&mut t, &self.unit);
        t.push_str(&self.post);
        if !self.unit2.is_empty() {
            put(&mut t, &self.unit2);
        }
        t.push_str(&self.end);
        t
    }
    /// repetitions for a text of about that many bytes
    fn count(&self, bytes: usize) -> usize {
        let per = self.unit.len() + self.unit2.len() + 3 * self.unit.matches('#').count();
        (bytes / per.max(1)).max(40) / 4 * 4
    }
}
const FORMATS: &str = "m=video 9 UDP/TLS/RTP/SAVPF 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127\r\n";

pub fn list() -> Vec<Family> {
    let mut v = vec![];
    let hm = format!("{HEAD}{M}");
    let s = |w: &str, line: &str| fam(w, HEAD, &format!("{line}\r\n"), M);
    let m = |w: &str, line: &str| fam(w, &hm, &format!("{line}\r\n"), "");
    // whole lines
    for (w, l) in [
        ("blank lines", ""),
        ("bandwidths", "b=AS:#"),
        ("bandwidths of many types", "b=X#:1"),
        ("times", "t=# 0"),
        ("connections", "c=IN IP4 1.2.3.4"),
        ("unsupported attributes", "a=x-unknown:#"),
        ("unsupported lines", "e=someone"),
        ("malformed lines", "nonsense #"),
        ("second origins", "o=- 0 0 IN IP4 127.0.0.1"),
        ("session groups", "a=group:BUNDLE # a"),
        ("session extmaps", "a=extmap:# urn:x"),
        ("session fingerprints", "a=fingerprint:sha-1 AA:BB:AD:6D:30:44:7B:FD:0E:9B:2B:3D:0D:3D:9B:9E:5E:30:45:1C"),
        ("session ufrags", "a=ice-ufrag:x#"),
        ("session pwds", "a=ice-pwd:x#"),
        ("msid-semantics", "a=msid-semantic:WMS a#"),
        ("identities", "a=identity:x#"),
        ("dtls messages", "a=dtls-message:client AAA#"),
        ("ice-options", "a=ice-options:x#"),
        ("sendrecvs", "a=sendrecv"),
        ("misplaced attributes", "a=mid:#"),
    ] {
        v.push(s(w, l));
    }
    for (w, l) in [
        ("sections", "m=video 9 UDP/TLS/RTP/SAVPF 96"),
        ("application sections", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel"),
        ("unsupported sections", "m=image 9 UDP/TLS/RTP/SAVPF 96"),
        ("sections with connections", "m=video 9 UDP/TLS/RTP/SAVPF 96\r\nc=IN IP4 10.0.0.1\r\na=mid:#"),
        ("sections with rids", "m=video 9 UDP/TLS/RTP/SAVPF 96\r\na=rid:a send\r\na=simulcast:send a"),
        ("sections with extmaps", "m=video 9 UDP/TLS/RTP/SAVPF 96\r\na=extmap:1 urn:x"),
        ("sections with mux-only", "m=video 9 UDP/TLS/RTP/SAVPF 96\r\na=rtcp-mux\r\na=rtcp-mux-only"),
        ("media bandwidths", "b=X-Y:#"),
        ("candidates with new addresses", "a=candidate:1 1 udp # 10.0.0.1 # typ host raddr h#.local rport # ufrag u#"),
        ("candidates with hosts", "a=candidate:1 1 udp # h#.example.org 9 typ host"),
        ("remote candidates", "a=remote-candidates:1 10.0.0.1 #"),
        ("rtcp addresses", "a=rtcp:9 IN IP4 h#"),
        ("cnames", "a=ssrc:# cname:c#"),
        ("fingerprints", "a=fingerprint:sha-1 41:BB:AD:6D:30:44:7B:FD:0E:9B:2B:3D:0D:3D:9B:9E:5E:30:45:1C"),
        ("ufrags", "a=ice-ufrag:x#"),
        ("pwds", "a=ice-pwd:x#"),
        ("rids", "a=rid:r# send"),
        ("rids with formats", "a=rid:r# send pt=96"),
        ("rids with parameters", "a=rid:r# recv max-width=#;depends=r#;x=y"),
        ("rtpmaps", "a=rtpmap:@ VP8/90000"),
        ("fmtps", "a=fmtp:@ max-fs=#;x=#"),
        ("rtcp-fbs", "a=rtcp-fb:@ nack pli"),
        ("imageattrs", "a=imageattr:* send [x=1,y=2] recv *"),
        ("simulcasts", "a=simulcast:send a"),
        ("misplaced session attributes", "a=ice-lite"),
        ("second connections", "c=IN IP4 1.1.1.#"),
        ("ignored dtls messages", "a=dtls-message:client A#"),
        ("unsupported media attributes", "a=x-unknown:#"),
        ("unsupported feedback", "a=rtcp-fb:96 foo"),
        ("unsupported groups", "a=ssrc-group:XYZ 1 2"),
        ("malformed attributes", "a=ptime:x"),
        ("misplaced lines", "t=0 0"),
        ("candidates with distinct addresses", "a=candidate:1 1 udp # 10.1.$ 9 typ host"),
        ("candidates with distinct IPv6 addresses", "a=candidate:1 1 udp # 2001:db8::10.1.$ 9 typ host"),
        ("candidates with distinct related addresses", "a=candidate:1 1 udp # 10.1.1.1 9 typ srflx raddr 10.2.$ rport #"),
        ("distinct remote candidates", "a=remote-candidates:1 10.3.$ #"),
        ("rtcp with distinct addresses", "a=rtcp:# IN IP4 10.4.$"),
        ("sections with distinct connections", "m=video 9 RTP/AVP 96\r\nc=IN IP4 10.5.$"),
        ("sections with distinct IPv6 connections", "m=video 9 RTP/AVP 96\r\nc=IN IP6 2001:db8::10.5.$"),
        ("sections with distinct hosts", "m=video 9 RTP/AVP 96\r\nc=IN IP4 h#.example.org"),
        ("sections with distinct mids", "m=video 9 RTP/AVP 96\r\na=mid:m#\r\na=msid:s# t#\r\na=label:l#"),
        ("sections with distinct candidates", "m=video 9 RTP/AVP 96\r\na=candidate:1 1 udp # 10.1.$ 9 typ host\r\na=end-of-candidates"),
        ("distinct fingerprints", "a=fingerprint:sha-1 41:BB:AD:6D:30:44:7B:FD:0E:9B:2B:3D:0D:3D:9B:9E:5E:30:^"),
        ("distinct sources of one cname", "a=ssrc:# cname:c"),
        ("one source", "a=ssrc:1 cname:c"),
        ("extmaps", "a=extmap:# urn:x"),
        ("rids with one id", "a=rid:r send"),
    ] {
        v.push(m(w, l));
    }
    // every kind of attribute where it may stand, verbatim, with its last number
    // counted up and with something appended
    let mut r = Rng::new(4711);
    for k in KINDS {
        let a = gen::attr(&mut r, k.tag);
        let line = line_of(&mut r, Style::default(), &new("Attribute", a)).replace(MARKS, "_");
        let mut units = vec![line.clone()];
        if let Some(e) = line.rfind(|c: char| c.is_ascii_digit()) {
            let b = line[..e].rfind(|c: char| !c.is_ascii_digit()).map_or(0, |x| x + 1);
            units.push(format!("{}#{}", &line[..b], &line[e + 1..]));
        }
        if !k.flag {
            units.push(format!("{line}#"));
        }
        for (i, u) in units.iter().enumerate() {
            let what = format!("{} ({})", k.wire, ["verbatim", "counted", "extended"][i]);
            if k.session {
                v.push(s(&format!("session {what}"), u));
            }
            if k.media {
                v.push(fam(&what, &format!("{HEAD}{FORMATS}"), &format!("{u}\r\n"), ""));
            }
        }
    }
    // parts of a line
    let sp = |w: &str, pre: &str, unit: &str, post: &str| {
        fam(w, &format!("{HEAD}{pre}"), unit, &format!("{post}\r\n{M}"))
    };
    let mp = |w: &str, pre: &str, unit: &str, post: &str| {
        fam(w, &format!("{hm}{pre}"), unit, &format!("{post}\r\n"))
    };
    for (w, a, b, c) in [
        ("group tags", "a=group:BUNDLE", " t#", ""),
        ("msid-semantic ids", "a=msid-semantic:WMS", " t#", ""),
        ("ice-options tokens", "a=ice-options:", " t#", ""),
        ("a long identity", "a=identity:", "xy", ""),
        ("a long pwd", "a=ice-pwd:", "xy", ""),
        ("a long fingerprint", "a=fingerprint:sha-1 AA", ":AA", ""),
        ("a long hash name", "a=fingerprint:", "s", " AA"),
        ("extmap attributes", "a=extmap:1 urn:x", " a#", ""),
        ("a long extmap url", "a=extmap:1 urn:x", "x/", ""),
        ("blanks in a group", "a=group:BUNDLE", " ", "x"),
        ("a long number", "a=ice-pacing:", "1", ""),
        ("leading zeros", "a=ice-pacing:", "0", "1"),
        ("dtls bytes", "a=dtls-message:client ", "xy", ""),
        ("blanks in dtls-message", "a=dtls-message:client", " ", "x"),
        ("a long unknown name", "a=", "x", ""),
        ("a long unknown value", "a=x:", "x:", ""),
        ("a long type", "", "x", "=1"),
        ("a line of equals signs", "a=", "=", ""),
        ("a line without equals sign", "", "x", ""),
        ("a line of blanks", "", " ", "x"),
        ("bandwidth colons", "b=AS", ":1", ""),
        ("time tokens", "t=0", " 0", ""),
        ("connection tokens", "c=IN IP4 1.1.1.1", " x", ""),
        ("connection slashes", "c=IN IP4 1.1.1.1", "/1", ""),
        ("a long host", "c=IN IP4 a", ".a", ""),
        ("a long label", "c=IN IP4 a", "a", ""),
        ("a host of many non-ASCII letters", "c=IN IP4 ", "é", ""),
        ("a host of non-ASCII labels", "c=IN IP4 é", ".é", ""),
        ("a host of punycode labels", "c=IN IP4 xn--9ca", ".xn--9ca", ""),
        ("a host of percent signs", "c=IN IP4 ", "%61", ""),
        ("an address of colons", "c=IN IP6 ", ":1", ""),
        ("an address of numbers", "c=IN IP4 1", ".1", ""),
        ("a bracketed address", "c=IN IP6 [", "1:", "]"),
        ("a long user", "o=", "u", " 0 0 IN IP4 1.1.1.1"),
        ("origin tokens", "o=- 0 0 IN IP4 1.1.1.1", " x", ""),
        ("multi-byte letters", "a=identity:", "🙂", ""),
        ("case-changing letters", "a=setup:", "İ", ""),
    ] {
        v.push(sp(w, a, b, c));
    }
    v.push(fam("a long name", "v=0\r\no=- 0 0 IN IP4 1.1.1.1\r\ns=", "na ", "\r\nt=0 0\r\n"));
    v.push(fam("a long blank name", "v=0\r\no=- 0 0 IN IP4 1.1.1.1\r\ns=", " ", "\r\nt=0 0\r\n"));
    v.push(fam("formats", &format!("{HEAD}m=audio 9 RTP/AVP"), " @", "\r\n"));
    v.push(fam("application formats", &format!("{HEAD}m=application 9 UDP/DTLS/SCTP"), " f#", "\r\n"));
    v.push(fam("reserved formats", &format!("{HEAD}m=audio 9 RTP/AVP 0"), " 1", "\r\n"));
    v.push(fam("port parts", &format!("{HEAD}m=audio 9"), "/1", " RTP/AVP 0\r\n"));
    v.push(fam("a long protocol", &format!("{HEAD}m=audio 9 RTP"), "/AVP", " 0\r\n"));
    v.push(fam("a long media type", &format!("{HEAD}m="), "x", " 9 RTP/AVP 0\r\n"));
    for (w, a, b, c) in [
        ("candidate extensions", "a=candidate:1 1 udp 1 1.1.1.1 1 typ host", " n# v#", ""),
        ("repeated candidate extensions", "a=candidate:1 1 udp 1 1.1.1.1 1 typ host", " ufrag u", ""),
        ("odd candidate extensions", "a=candidate:1 1 udp 1 1.1.1.1 1 typ host x", " n# v#", ""),
        ("remote-candidates tokens", "a=remote-candidates:1 1.1.1.1 1", " 2 1.1.1.1 1", ""),
        ("rtcp tokens", "a=rtcp:9 IN IP4 1.1.1.1", " x", ""),
        ("ssrc-group ids", "a=ssrc-group:FID", " #", ""),
        ("a long ssrc value", "a=ssrc:1 cname:", "x:", ""),
        ("a long ssrc attribute", "a=ssrc:1 ", "x ", ""),
        ("rtcp-fb words", "a=rtcp-fb:* nack pli", " x", ""),
        ("rtcp-fb parameter", "a=rtcp-fb:* nack ", "x", ""),
        ("unknown fmtp parameters", "a=fmtp:96 ", "p#=#;", ""),
        ("known fmtp parameters", "a=fmtp:96 ", "max-fs=#;", ""),
        ("empty fmtp parameters", "a=fmtp:96 a=b", ";", ""),
        ("fmtp equals signs", "a=fmtp:96 a", "=b", ""),
        ("fmtp rtx times", "a=fmtp:96 apt=96", ";rtx-time=1", ""),
        ("fmtp apts", "a=fmtp:96 x=y", ";apt=1", ""),
        ("RED encodings", "a=fmtp:96 0", "/@", ""),
        ("telephone events", "a=fmtp:96 0", ",1-9", ""),
        ("wrong telephone events", "a=fmtp:96 0", ",999", ""),
        ("telephone ranges", "a=fmtp:96 0", "-9", ""),
        ("image sets", "a=imageattr:* send", " [x=1,y=2,q=0.5]", ""),
        ("image values", "a=imageattr:* send [x=[1", ",2", "],y=1]"),
        ("image range parts", "a=imageattr:* send [x=[1", ":2", "],y=1]"),
        ("image ratios", "a=imageattr:* send [x=1,y=1,sar=[0.1", ",2", "]]"),
        ("ascending image ratios", "a=imageattr:* send [x=1,y=1,sar=[1", ",1#", "]]"),
        ("different image values", "a=imageattr:* send [x=[1", ",1#", "],y=1]"),
        ("different image sets", "a=imageattr:* send", " [x=1#,y=2]", ""),
        ("different unknown image parts", "a=imageattr:* send [x=1,y=1", ",z#=1", "]"),
        ("different undefined alternatives", "a=simulcast:send a", ",~b#", ""),
        ("image ratio brackets", "a=imageattr:* send [x=1,y=1", ",sar=[1-2]", "]"),
        ("image unknown parts", "a=imageattr:* send [x=1,y=1", ",z=1", "]"),
        ("open brackets", "a=imageattr:* send ", "[", ""),
        ("open bracket words", "a=imageattr:* send", " [", ""),
        ("closed brackets", "a=imageattr:* send ", "]", ""),
        ("bracket pairs", "a=imageattr:* send ", "[]", ""),
        ("image words", "a=imageattr:* send [x=1,y=1]", " x", ""),
        ("rid formats", "a=rid:a send pt=96", ",96", ""),
        ("undeclared rid formats", "a=rid:a send pt=97", ",97", ""),
        ("rid unknown parameters", "a=rid:a send x=y", ";p#=#", ""),
        ("rid known parameters", "a=rid:a send x=y", ";max-fs=#", ""),
        ("rid dependencies", "a=rid:a send depends=a", ",d#", ""),
        ("rid depends parameters", "a=rid:a send depends=a", ";depends=d#", ""),
        ("rid empty parameters", "a=rid:a send x=y", ";", ""),
        ("simulcast alternatives", "a=rid:a send\r\na=simulcast:send a", ",~a", ""),
        ("simulcast versions", "a=rid:a send\r\na=simulcast:send a", ";a", ""),
        ("undefined simulcast versions", "a=simulcast:send a", ";b#", ""),
        ("simulcast words", "a=rid:a send\r\na=simulcast:send a", " a", ""),
        ("a long mid", "a=mid:", "x", ""),
        ("a long label", "a=label:", "x ", ""),
        ("msid words", "a=msid:a b", " c", ""),
        ("rtpmap parts", "a=rtpmap:96 x/1", "/1", ""),
        ("rtpmap words", "a=rtpmap:96 x/1", " x", ""),
        ("a long codec", "a=rtpmap:96 ", "x", "/1"),
        ("framerate digits", "a=framerate:1.", "1", ""),
        ("framerate zeros", "a=framerate:", "0", "1"),
        ("framerate exponent", "a=framerate:1e", "0", "1"),
        ("image float digits", "a=imageattr:* send [x=1,y=1,q=0.", "3", "]"),
        ("sctpmap words", "a=sctpmap:1 webrtc-datachannel 1", " 1", ""),
        ("case-changing setup", "a=setup:", "ẞ", ""),
        ("candidate blanks", "a=candidate:1 1 udp 1", " ", "1.1.1.1 1 typ host"),
        ("a long foundation", "a=candidate:", "x", " 1 udp 1 1.1.1.1 1 typ host"),
        ("a long candidate host", "a=candidate:1 1 udp 1 a", ".a", " 1 typ host"),
    ] {
        v.push(mp(w, a, b, c));
    }
    // two things at once
    let f = format!("{HEAD}{FORMATS}");
    v.push(two("rids and simulcast ids", &hm, "a=rid:r# send\r\n", "a=simulcast:send x", ";r#", "\r\n"));
    v.push(two("rids and their simulcast ids", &hm, "a=rid:r# recv\r\n", "a=simulcast:recv r0", ",r#", "\r\n"));
    v.push(two("formats and rid formats", &format!("{HEAD}m=video 9 RTP/SAVPF"), " @", "\r\na=rid:a send pt=96", ",@", "\r\n"));
    v.push(two("application formats and rid formats", &format!("{HEAD}m=application 9 UDP/DTLS/SCTP"), " #", "\r\na=rid:a send pt=1", ",#", "\r\n"));
    v.push(two("formats and rids", &format!("{HEAD}m=video 9 RTP/SAVPF"), " @", "\r\n", "a=rid:r# send pt=@\r\n", ""));
    v.push(two("session attributes and sections", HEAD, "a=sendrecv\r\n", "", M, ""));
    v.push(two("session extmaps and sections", HEAD, "a=extmap:# urn:x\r\n", "", M, ""));
    v.push(two("session groups and mids", &format!("{HEAD}a=group:BUNDLE"), " m#", "\r\n", &format!("{M}a=mid:m#\r\n"), ""));
    v.push(two("warnings and attributes", &hm, "a=x-y\r\n", "", "a=sendrecv\r\n", ""));
    v.push(two("session warnings and sections", HEAD, "a=x-y\r\n", "", M, ""));
    v.push(two("errors and warnings", &hm, "a=ptime:x\r\n", "", "a=x-y\r\n", ""));
    v.push(two("blank lines and errors", &hm, "\r\n", "", "a=ptime:x\r\n", ""));
    v.push(two("rtpmaps and fmtps", &f, "a=rtpmap:@ x/1\r\n", "", "a=fmtp:@ x=y\r\n", ""));
    v.push(two("bandwidths and attributes", &hm, "b=AS:1\r\n", "", "a=sendrecv\r\n", ""));
    v.push(two("session attributes and media attributes", HEAD, "a=sendrecv\r\n", M, "a=recvonly\r\n", ""));
    v.push(two("sections and attributes in the last", HEAD, M, "", "a=sendrecv\r\n", ""));
    v.push(two("sections and rids in the last", HEAD, M, "", "a=rid:r# send\r\n", ""));
    v.push(two("candidates and ssrcs", &hm, "a=candidate:1 1 udp 1 10.0.0.1 # typ host\r\n", "", "a=ssrc:# cname:c#\r\n", ""));
    v.push(two("mux attributes and mux-only", &hm, "a=rtcp-mux\r\n", "", "a=rtcp-mux-only\r\n", ""));
    for (w, a, b) in [
        ("candidates and end-of-candidates", "a=candidate:1 1 udp # 10.1.$ 9 typ host", "a=end-of-candidates"),
        ("candidates and remote candidates", "a=candidate:1 1 udp # 10.1.$ 9 typ host", "a=remote-candidates:1 10.3.$ #"),
        ("candidates and ufrags", "a=candidate:1 1 udp # 10.1.$ 9 typ host ufrag u#", "a=ice-ufrag:u#"),
        ("ufrags and candidates", "a=ice-ufrag:u#", "a=candidate:1 1 udp # 10.1.$ 9 typ host ufrag v#"),
        ("ssrcs and ssrc-groups", "a=ssrc:# cname:c", "a=ssrc-group:FID # 1"),
        ("ssrcs and msids", "a=ssrc:# msid:a b#", "a=msid:a b#"),
        ("fingerprints and setups", "a=fingerprint:sha-1 41:BB:AD:6D:30:44:7B:FD:0E:9B:2B:3D:0D:3D:9B:9E:5E:30:^", "a=setup:active"),
        ("sctpmaps and sctp-ports", "a=sctpmap:# webrtc-datachannel 1", "a=sctp-port:#"),
        ("rids and imageattrs", "a=rid:r# send", "a=imageattr:@ send [x=#,y=1]"),
        ("extmaps and rids", "a=extmap:# urn:ietf:params:rtp-hdrext:sdes:mid", "a=rid:r# send"),
        ("rtpmaps and feedback", "a=rtpmap:@ x#/1", "a=rtcp-fb:@ nack"),
        ("rtpmaps and imageattrs", "a=rtpmap:@ x/1", "a=imageattr:* recv [x=#,y=1]"),
    ] {
        v.push(two(w, &f, &format!("{a}\r\n"), "", &format!("{b}\r\n"), ""));
    }
    let fs = format!("{HEAD}m=video 9 RTP/SAVPF 0");
    for (w, b) in [
        ("rtpmaps", "a=rtpmap:@ x/1"),
        ("undeclared rtpmaps", "a=rtpmap:3 x/1"),
        ("fmtps", "a=fmtp:@ x=y"),
        ("undeclared fmtps", "a=fmtp:3 x=y"),
        ("undeclared feedback", "a=rtcp-fb:3 nack"),
        ("feedback", "a=rtcp-fb:@ nack"),
        ("undeclared imageattrs", "a=imageattr:3 send *"),
        ("wildcard feedback", "a=rtcp-fb:* nack"),
        ("attributes", "a=sendrecv"),
    ] {
        v.push(two(&format!("formats and {w}"), &fs, " @", "\r\n", &format!("{b}\r\n"), ""));
    }
    v.push(two("simulcasts and rids", &hm, "a=simulcast:send r0\r\n", "", "a=rid:r# send\r\n", ""));
    v
}

/// Something of a random text is repeated.
pub fn random(seed: u64) -> Family {
    let mut r = Rng::new(seed);
    if r.chance(1, 3) {
        let (_, l) = truth_lines(&mut r, gen::SMALL, Style::default());
        let i = r.n(l.len());
        let j = (i + r.range(1, 3)).min(l.len());
        return fam("lines of a random session", &joined(&l[..i]), &joined(&l[i..j]), &joined(&l[j..]));
    }
    let k = *r.pick(&KINDS.iter().filter(|k| !k.flag).collect::<Vec<_>>());
    let a = gen::attr(&mut r, k.tag);
    let line = line_of(&mut r, Style::default(), &new("Attribute", a));
    let line = if r.chance(1, 4) { mutate::some(&mut r, &line) } else { line };
    let b: Vec<usize> = line.char_indices().map(|x| x.0).chain([line.len()]).collect();
    // from a separator to the next, or any piece
    let seps: Vec<usize> = b
        .iter()
        .copied()
        .filter(|i| line[*i..].starts_with([' ', ';', ',', ':', '/', '-', '[', '=']) || *i == line.len())
        .collect();
    let from = if r.chance(3, 4) && seps.len() > 1 { &seps } else { &b };
    let i = r.n(from.len());
    let j = (i + r.range(1, 3)).min(from.len() - 1);
    let (i, j) = (from[i.min(j)], from[j]);
    let unit = if i == j { "x" } else { &line[i..j] };
    // sometimes different each time
    let mut unit = unit.replace(MARKS, "_");
    if let (Some(e), true) = (unit.rfind(|c: char| c.is_ascii_digit()), r.bool()) {
        unit.replace_range(e..=e, "#");
    } else if r.chance(1, 3) {
        unit.push('#');
    }
    let h = if k.media { format!("{HEAD}{FORMATS}") } else { HEAD.to_string() };
    fam(
        &format!("a piece of {}", k.wire),
        &format!("{h}{}", &line[..i]).replace(MARKS, "_"),
        &unit,
        &format!("{}\r\n", &line[j..]).replace(MARKS, "_"),
    )
}
fn joined(l: &[String]) -> String {
    l.iter().map(|x| format!("{}\r\n", x.replace(MARKS, "_"))).collect()
}

/// One element of every kind, and of some other lines: (where, what, text).
/// Where: 0 in the session, 1 in the m= line, 2 in a section, 3 a section
fn elements() -> Vec<(u8, String, String)> {
    let mut r = Rng::new(1147);
    let mut v = vec![];
    for (at, what, u) in [
        (0, "times", "t=# 0\r\n"),
        (0, "session bandwidths", "b=AS:#\r\n"),
        (0, "session connections", "c=IN IP4 10.1.$\r\n"),
        (0, "session warnings", "a=x-#:y\r\n"),
        (1, "formats", " @"),
        (1, "repeated formats", " 0"),
        (2, "bandwidths", "b=AS:#\r\n"),
        (2, "warnings", "a=x-#:y\r\n"),
        (2, "misplaced attributes", "a=ice-lite\r\n"),
        (2, "distinct ssrcs", "a=ssrc:# cname:c#\r\n"),
        (2, "distinct rids", "a=rid:r# send\r\n"),
        (2, "distinct mids", "a=mid:m#\r\n"),
        (2, "distinct candidates", "a=candidate:1 1 udp # 10.1.$ 9 typ host\r\n"),
        (2, "distinct fingerprints", "a=fingerprint:sha-1 41:BB:AD:6D:30:44:7B:FD:0E:9B:2B:3D:0D:3D:9B:9E:5E:30:^\r\n"),
        (2, "declared rtpmaps", "a=rtpmap:@ c#/1\r\n"),
        (2, "undeclared rtpmaps", "a=rtpmap:3 c#/1\r\n"),
        (3, "sections", M),
        (3, "application sections", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\n"),
        (3, "named sections", "m=audio 9 RTP/AVP 0\r\na=mid:m#\r\n"),
        (3, "connected sections", "m=audio 9 RTP/AVP 0\r\nc=IN IP4 10.1.$\r\n"),
        (3, "unsupported sections", "m=image 9 UDP/TLS/RTP/SAVPF 96\r\n"),
    ] {
        v.push((at, what.to_string(), u.to_string()));
    }
    for k in KINDS {
        // short ones, in which a number counts
        let line = (0..6)
            .map(|_| {
                let a = gen::attr(&mut r, k.tag);
                line_of(&mut r, Style::default(), &new("Attribute", a)).replace(MARKS, "_")
            })
            .min_by_key(|l| l.len())
            .unwrap();
        let mut u = line.clone();
        if let (Some(e), false) = (line.rfind(|c: char| c.is_ascii_digit()), k.tag == "SsrcGroup") {
            u.replace_range(e..=e, "#");
        }
        if k.session {
            v.push((0, format!("session {}", k.wire), format!("{u}\r\n")));
        }
        if k.media {
            v.push((2, k.wire.to_string(), format!("{u}\r\n")));
        }
    }
    v
}
/// The a-th and the b-th of these.
fn pair(a: usize, b: usize) -> Family {
    let e = elements();
    let (mut x, mut y) = (&e[a % e.len()], &e[b % e.len()]);
    if x.0 > y.0 {
        (x, y) = (y, x);
    }
    let what = format!("{} and {}", x.1, y.1);
    let head = HEAD.to_string();
    let fs = "m=video 9 UDP/TLS/RTP/SAVPF 96";
    let (pre, post, end) = match (x.0, y.0) {
        (0, 0) => (head, "", FORMATS),
        (0, 1) => (head, fs, "\r\n"),
        (0, 2) => (head, FORMATS, ""),
        (0, _) => (head, "", ""),
        (1, 1) => (head + fs, "", "\r\n"),
        (1, _) => (head + fs, "\r\n", ""),
        (2, _) => (head + FORMATS, "", ""),
        _ => (head, "", ""),
    };
    two(&what, &pre, &x.2, post, &y.2, end)
}
const PAIR: u64 = 1 << 20;

const RANDOM: u64 = 1 << 32;
fn family(seed: u64) -> Family {
    if seed < PAIR {
        list().swap_remove(seed as usize)
    } else if seed < RANDOM {
        let s = (seed - PAIR) as usize;
        pair(s >> 10, s & 1023)
    } else {
        random(seed)
    }
}

// ------------------------------------------------------------------- phases

const PHASES: &[&str] = &[
    "parsing",
    "printing",
    "copying",
    "anonymizing",
    "serializing",
    "refusing",
    "printing the error of",
    "copying the error of",
    "",
    "serializing the error of",
    "parsing (with warnings)",
    "printing (with warnings)",
    "copying (with warnings)",
    "anonymizing (with warnings)",
    "serializing (with warnings)",
];

/// Does everything that costs, each phase within `f`; `f` is told afterwards
/// which phase it was.
fn phases(text: &str, mut f: impl FnMut(&mut dyn FnMut() -> usize)) {
    let mut out: Option<Result<SdpSession, SdpParserError>> = None;
    f(&mut || {
        let r = black_box(parse_sdp(black_box(text), false));
        let p = match &r {
            Ok(x) if x.warnings.is_empty() => 0,
            Ok(_) => 10,
            Err(_) => 5,
        };
        out = Some(r);
        p
    });
    match out.unwrap() {
        Ok(x) => {
            let base = if x.warnings.is_empty() { 0 } else { 10 };
            f(&mut || {
                black_box(x.to_string());
                base + 1
            });
            f(&mut || {
                black_box(x.clone());
                base + 2
            });
            f(&mut || {
                let mut a = StatefulSdpAnonymizer::new();
                black_box(x.masked_clone(&mut a));
                base + 3
            });
            f(&mut || {
                black_box(serde_json::to_string(&x).ok());
                base + 4
            });
        }
        Err(e) => {
            f(&mut || {
                black_box(e.to_string());
                6
            });
            f(&mut || {
                black_box(e.clone());
                7
            });
            f(&mut || {
                black_box(serde_json::to_string(&e).ok());
                9
            });
        }
    }
}

#[cfg(target_arch = "x86_64")]
fn request(code: u64, arg: u64) {
    let args: [u64; 6] = [code, arg, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") 0u64 => _,
        );
    }
}
const CT: u64 = 0x4354_0000;

/// Runs under callgrind.
pub fn cost_worker(seed: u64, bytes: usize) {
    crate::logcap::install(log::LevelFilter::Trace);
    let fm = family(seed);
    let n = fm.count(bytes);
    for k in [1usize, 2, 4] {
        let t = fm.text(n * k);
        phases(&t, |g| {
            request(CT + 2, 0);
            let p = g();
            request(CT + 2, 0);
            let label = std::ffi::CString::new(format!("{p} {k} {}", t.len())).unwrap();
            request(CT + 3, label.as_ptr() as u64);
        });
    }
    println!("done");
}

/// phase -> size -> (instructions, bytes of text)
type Counts = BTreeMap<usize, BTreeMap<usize, (u64, usize)>>;
/// CPU seconds under callgrind; a family needs one or two.
const PATIENCE: u64 = 120;
fn callgrind(seed: u64, bytes: usize) -> Result<Counts, String> {
    let dir = root().join(format!("work/cost-{}-{seed:x}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("harness: work folder");
    let mut cmd = Command::new("valgrind");
    child_cpu(&mut cmd, PATIENCE);
    let out = cmd
        .args(["--tool=callgrind", "--collect-atstart=no", "-q"])
        .arg(format!("--callgrind-out-file={}/cg", dir.display()))
        .arg(std::env::current_exe().expect("harness: exe"))
        .args(["--cost-worker", &seed.to_string(), &bytes.to_string()])
        .stdin(Stdio::null())
        .output()
        .expect("harness: valgrind");
    let mut c = Counts::new();
    for f in std::fs::read_dir(&dir).expect("harness: work folder").flatten() {
        let t = std::fs::read_to_string(f.path()).unwrap_or_default();
        let Some(label) = t
            .lines()
            .find_map(|l| l.strip_prefix("desc: Trigger: Client Request: "))
        else {
            continue;
        };
        let n: Option<u64> = t
            .lines()
            .find_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: ")))
            .and_then(|x| x.trim().parse().ok());
        let w: Vec<usize> = label.split(' ').filter_map(|x| x.parse().ok()).collect();
        if let (Some(n), [p, k, len]) = (n, &w[..]) {
            c.entry(*p).or_default().insert(*k, (n, *len));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if matches!(std::os::unix::process::ExitStatusExt::signal(&out.status), Some(24 | 9)) {
        return Err(format!(
            "handling texts of {} to {} bytes with {} repeated takes more than {PATIENCE} s of CPU time under callgrind",
            bytes, 4 * bytes, family(seed).what
        ));
    }
    let good = out.status.success() && String::from_utf8_lossy(&out.stdout).contains("done");
    if !good {
        panic!(
            "harness: callgrind run of family {seed} failed: {:?} {}",
            out.status,
            String::from_utf8_lossy(&out.stderr)
        );
    }
    Ok(c)
}

/// Instructions per byte not worth a thought: any work growing with the square
/// of a text of 50 kB costs thousands.
const CHEAP: u64 = 60;

/// The phases whose additional work per additional byte is growing.
fn growing(cx: &mut Ctx, what: &str, c: &Counts, limit: f64) -> Vec<(usize, String)> {
    let mut out = vec![];
    for (p, by) in c {
        let (Some(a), Some(b), Some(d)) = (by.get(&1), by.get(&2), by.get(&4)) else {
            // rejected at one size and accepted at another
            continue;
        };
        let bytes = d.1 as u64;
        if d.0 < CHEAP * bytes {
            cx.saw("phases too cheap to matter");
            continue;
        }
        cx.saw("phases whose growth was judged");
        // 4 if in proportion, 16 if quadratic
        // (an outcome that differs between the sizes, say an error quoting a
        // longer line, may start from next to nothing)
        let ratio = d.0 as f64 / a.0.max(CHEAP * a.1 as u64) as f64;
        if std::env::var("SDPMON_COST").is_ok() {
            println!("{ratio:.2} {} {what} {} instructions/byte", PHASES[*p], d.0 / bytes);
        }
        if ratio > limit && d.0 as f64 > 2.2 * b.0 as f64 {
            out.push((
                *p,
                format!(
                    "{} a text with {what} repeated costs {}, {} and {} instructions for {}, {} and {} bytes: more than in proportion",
                    PHASES[*p], a.0, b.0, d.0, a.1, b.1, d.1
                ),
            ));
        }
    }
    out
}

fn work(cx: &mut Ctx, seed: u64) -> Verdict {
    let fm = family(seed);
    let bytes = if cx.tier_thorough || (PAIR..RANDOM).contains(&seed) { 40_000 } else { 12_000 };
    let c = callgrind(seed, bytes)?;
    cx.interesting();
    cx.saw("families of texts run under callgrind");
    let first = growing(cx, &fm.what, &c, 5.2);
    if first.is_empty() {
        return Ok(());
    }
    // growth in steps looks alike; in texts of other sizes it does not
    // (smaller ones if these were expensive already)
    let dear = c.values().filter_map(|by| by.get(&4)).any(|d| d.0 > 3000 * d.1 as u64);
    cx.saw("families measured again with texts of other sizes");
    let c = callgrind(seed, if dear { bytes * 2 / 3 } else { bytes * 4 })?;
    for (p, m) in growing(cx, &fm.what, &c, 5.6) {
        if first.iter().any(|x| x.0 == p) {
            return Err(m);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- screening

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
/// CPU time of this thread in microseconds
fn cpu_time() -> f64 {
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 * 1e6 + t[1] as f64 / 1e3
}
/// All the phases.
fn cpu_of(text: &str) -> f64 {
    let mut sum = 0.0;
    phases(text, |g| {
        let t = cpu_time();
        g();
        sum += cpu_time() - t;
    });
    sum
}
fn least(n: usize, text: &str) -> f64 {
    (0..n).map(|_| cpu_of(text)).fold(f64::MAX, f64::min)
}

/// Time is only a hint; the instructions decide.
fn screened(cx: &mut Ctx, seed: u64) -> Verdict {
    let fm = family(seed);
    let n = fm.count(40_000);
    let (a, b) = (fm.text(n), fm.text(n * 24));
    let per = |t: f64, x: &str| t / x.len() as f64;
    cx.interesting();
    cx.saw("pairs of repeated elements timed");
    let ratio = per(cpu_of(&b), &b) / per(least(2, &a), &a);
    if std::env::var("SDPMON_COST").is_ok() {
        println!("time {ratio:.2} {} {}", per(cpu_of(&b), &b), fm.what);
    }
    if ratio < 2.4 || per(least(2, &b), &b) / per(least(4, &a), &a) < 2.4 {
        return Ok(());
    }
    cx.saw("pairs that looked dear");
    work(cx, seed)
}

fn memory(cx: &mut Ctx, seed: u64) -> Verdict {
    let fm = family(seed);
    let n = fm.count(if cx.tier_thorough { 60_000 } else { 20_000 });
    let (mut total, mut peak) = (Counts::new(), Counts::new());
    for k in [1usize, 8] {
        let t = fm.text(n * k);
        phases(&t, |g| {
            let (p, a, b) = measure(g);
            total.entry(p).or_default().insert(k, (a, t.len()));
            peak.entry(p).or_default().insert(k, (b, t.len()));
        });
    }
    cx.interesting();
    cx.saw("families of texts whose memory was counted");
    for (unit, c) in [("in total", &total), ("at once", &peak)] {
        for (p, by) in c {
            // (outcomes may differ between the sizes)
            let (Some(a), Some(b)) = (by.get(&1), by.get(&8)) else {
                continue;
            };
            if b.0 < 4 * b.1 as u64 {
                cx.saw("phases too cheap to matter");
                continue;
            }
            cx.saw("phases whose memory was judged");
            // a doubled vector may be filled or just begun: up to 16
            let ratio = b.0 as f64 / a.0.max(a.1 as u64) as f64;
            if std::env::var("SDPMON_COST").is_ok() {
                println!("mem {ratio:.2} {} {} {} {unit}/byte", PHASES[*p], fm.what, b.0 / b.1 as u64);
            }
            if ratio > 26.0 {
                return Err(format!(
                    "{} a text with {} repeated allocates {} and {} bytes {unit} for {} and {} bytes: more than in proportion",
                    PHASES[*p], fm.what, a.0, b.0, a.1, b.1
                ));
            }
        }
    }
    Ok(())
}

/// Microseconds of CPU time that no short text needs by far (some hundred do).
const LONG: f64 = 100_000.0;

fn short(cx: &mut Ctx, text: &str) -> Verdict {
    let mut worst = (0, 0.0);
    let begun = cpu_time();
    phases(text, |g| {
        let (p, total, peak) = measure(g);
        for x in [total as f64 / 6.0, peak as f64] {
            let per = x / (text.len() as f64 + 64.0);
            if per > worst.1 {
                worst = (p, per);
            }
        }
    });
    let took = cpu_time() - begun;
    cx.interesting();
    cx.saw("short texts whose memory was counted");
    if std::env::var("SDPMON_COST").is_ok() && took > 5000.0 {
        println!("short {took} {} {:?}", text.len(), clip(text));
    }
    if took > LONG && text.len() < 20_000 {
        let t = least(5, text);
        if t > LONG {
            return Err(format!(
                "handling {:?}, of {} bytes, takes {:.0} ms of CPU time",
                clip(text),
                text.len(),
                t / 1e3
            ));
        }
    }
    if worst.1 > 100.0 {
        cx.saw("of these above 100 bytes per byte");
    }
    if worst.1 > 1200.0 {
        return Err(format!(
            "{} {:?} holds {:.0} bytes for every byte of the text",
            PHASES[worst.0],
            clip(text),
            worst.1
        ));
    }
    Ok(())
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "work" => work(cx, c.seed),
        "memory" => memory(cx, c.seed),
        "pair" => screened(cx, c.seed),
        _ => short(cx, &c.text[0]),
    }
}
fn fixed() -> Vec<Case> {
    let n = list().len() as u64;
    let mut v: Vec<Case> = (0..n).map(|i| Case::seeded("memory", i)).collect();
    v.extend((0..n).map(|i| Case::seeded("work", i)));
    let n = elements();
    for (i, a) in n.iter().enumerate() {
        for (j, b) in n.iter().enumerate() {
            // one order of the two is enough
            let turn = (i < j) == ((i + j) % 2 == 0) || i == j;
            if a.0 < b.0 || a.0 == b.0 && a.0 != 1 && turn {
                v.push(Case::seeded("pair", PAIR + ((i as u64) << 10) + j as u64));
            }
        }
    }
    v
}
fn gen_case(r: &mut Rng) -> Case {
    match r.n(1000) {
        0 => Case::seeded("work", RANDOM | r.u64()),
        1..=60 => Case::seeded("memory", RANDOM | r.u64()),
        61..=700 => {
            let k = r.pick(KINDS);
            let a = gen::attr(r, k.tag);
            let l = line_of(r, Style::default(), &new("Attribute", a));
            let l = mutate::some(r, &l).replace(['\n', '\r'], " ");
            let (s, m) = if k.media { ("", l.as_str()) } else { (l.as_str(), "") };
            Case::one("short", &format!("{HEAD}{s}\r\n{M}{m}\r\n"))
        }
        _ => {
            let n = r.n(4);
            Case::one("short", &near_text(r, n))
        }
    }
}

pub fn defs() -> Vec<Def> {
    let _ = V::Null;
    vec![Def {
        id: "C02",
        rule: "families of texts in which one element (or two) is repeated n, 2n and 4n times, for some 400 listed elements (every kind of attribute at each level among them) and random ones; the instructions callgrind counts in every phase, and the bytes the allocator counts, must not grow faster than the text; plus short, number-heavy texts whose memory is bounded by their length; non-trivial: measured",
        assumptions: &["callgrind's instruction counts stand for work", "growth is judged between about 12, 24 and 48 kB (thorough: 40, 80 and 160 kB)"],
        fixed,
        gen: gen_case,
        eval,
        quick: 100_000,
        floors: &[("families of texts run under callgrind", 150), ("pairs of repeated elements timed", 1000), ("phases whose growth was judged", 250), ("short texts whose memory was counted", 50_000)],
        log: log::LevelFilter::Trace,
        threads: THREADS,
    }]
}
