//! Words with a meaning in SDP and around it: registered names, what browsers
//! and gateways write, special values. A rule that hangs on one particular word
//! is only met by that word.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum At {
    IceOption,
    Codec,
    Url,
    Mid,
    Label,
    Stream,
    Rid,
    Semantic,
    User,
    Cname,
    Ufrag,
    Pwd,
    Identity,
    Fmtp,
    Host,
    Foundation,
    CandExt,
    Bandwidth,
    RidParam,
    SsrcAttr,
    Session,
    Text,
}

pub const ICE_OPTIONS: &[&str] = &[
    "trickle", "renomination", "ice2", "rtp+ecn", "google-ice", "half-trickle", "gice", "trickle-ice", "ice-lite", "mdns",
];
pub const CODECS: &[&str] = &[
    "opus", "OPUS", "VP8", "VP9", "vp8", "H264", "H265", "h264", "AV1", "AV1X", "rtx", "red", "ulpfec", "flexfec-03", "flexfec",
    "telephone-event", "CN", "cn", "PCMU", "PCMA", "pcmu", "G722", "G722-1", "G729", "G723", "G726-32", "GSM", "iLBC", "ISAC",
    "isac", "L16", "L8", "L24", "MPA", "MP4A-LATM", "mpeg4-generic", "AMR", "AMR-WB", "EVS", "speex", "SILK", "DVI4", "LPC",
    "JPEG", "MPV", "H261", "H263", "H263-1998", "H263-2000", "theora", "vorbis", "t140", "tone", "lyra", "multiopus",
    "audio-red", "raw", "X-ULPFECUC", "parityfec", "webrtc-datachannel", "ccn", "MP4V-ES", "VDVI", "QCELP",
];
pub const URLS: &[&str] = &[
    "urn:ietf:params:rtp-hdrext:ssrc-audio-level",
    "urn:ietf:params:rtp-hdrext:csrc-audio-level",
    "urn:ietf:params:rtp-hdrext:toffset",
    "urn:ietf:params:rtp-hdrext:sdes:mid",
    "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id",
    "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id",
    "urn:ietf:params:rtp-hdrext:encrypt",
    "urn:ietf:params:rtp-hdrext:framemarking",
    "urn:3gpp:video-orientation",
    "urn:3gpp:roi-sent",
    "http://www.webrtc.org/experiments/rtp-hdrext/abs-send-time",
    "http://www.webrtc.org/experiments/rtp-hdrext/playout-delay",
    "http://www.webrtc.org/experiments/rtp-hdrext/video-content-type",
    "http://www.webrtc.org/experiments/rtp-hdrext/video-timing",
    "http://www.webrtc.org/experiments/rtp-hdrext/color-space",
    "http://www.webrtc.org/experiments/rtp-hdrext/transport-wide-cc-02",
    "http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01",
    "http://tools.ietf.org/html/draft-ietf-avtext-framemarking-07",
    "https://aomediacodec.github.io/av1-rtp-spec/#dependency-descriptor-rtp-header-extension",
    "URI-toffset",
    "urn:x",
    "http://example.com/082005/ext.htm#ttime",
];
pub const MIDS: &[&str] = &[
    "0", "1", "2", "00", "01", "-1", "10", "audio", "video", "data", "sdparta_0", "sdparta_1", "mid", "foo", "*", "-", "~", "none", "null", "{0}",
    "1.0", "0x1", "+1", "default", "application",
];
pub const LABELS: &[&str] = &["1", "0", "main", "slides", "sl", "label", "-", "*", "sign", "speaker"];
pub const STREAMS: &[&str] = &[
    "-", "*", "default", "0", "{5a990edd-0568-ac40-8d97-310fc33f3411}", "61317484-2ed4-49d7-9eb7-1414322a7aae", "stream", "ma", "mixedmslabel",
    "janus", "janusa0", "unknown", "none", "WMS",
];
pub const RIDS: &[&str] = &["hi", "lo", "mid", "q", "h", "f", "0", "1", "r0", "low", "high", "a", "b", "send", "recv", "foo", "-", "rid", "paused"];
pub const SEMANTICS: &[&str] = &["WMS", "wms", "Wms", "LS", "FID", "BUNDLE", "-", "*", "WMS2"];
pub const USERS: &[&str] = &[
    "-", "mozilla...THIS_IS_SDPARTA-99.0", "anonymous", "root", "alice", "jdoe", "Bob", "0", "user", "none", "null", "rtc", "Mozilla-SIPUA-35.0a1",
    "origin-user-00000001", "sip", "FreeSWITCH", "localhost", "*", "guest", "admin", "unknown",
];
pub const CNAMES: &[&str] = &[
    "{5a990edd-0568-ac40-8d97-310fc33f3411}", "mixed", "cname", "-", "0", "user@host", "jdoe@example.com", "recvonly", "cname-00000001", "*", "root",
];
pub const UFRAGS: &[&str] = &["58b99ead", "4a799b2e", "F7gI", "0", "-", "ufrag", "0000", "ice-user-00000001", "google", "*", "none", "remote", "abcd"];
pub const PWDS: &[&str] = &[
    "05adf3e04e51c0a5cc1bd8f0f2d5c8f4", "e4cc12a910f106a0a744719425510e17", "ice-password-00000001", "-", "0", "password", "0000000000000000000000",
    "asd88fgpdd777uzjYhagZg", "none", "*",
];
pub const IDENTITIES: &[&str] = &["eyJpZHAiOnsiZG9tYWluIjoiZXhhbXBsZS5vcmciLCJwcm90b2NvbCI6ImJvZ3VzIn19", "none", "-", "*", "====", "e30="];
pub const FMTP: &[&str] = &[
    "sprop-stereo", "sprop-maxcapturerate", "sprop-parameter-sets", "x-google-min-bitrate", "x-google-max-bitrate", "x-google-start-bitrate",
    "max-rcmd-nalu-size", "max-smbps", "max-bitrate", "max-fps", "max-width", "max-height", "max-don-diff", "sprop-depack-buf-nalus", "profile-id",
    "level-id", "tier-flag", "tx-mode", "interop-constraints", "sprop-vps", "sprop-sps", "sprop-pps", "mode", "bitrate", "annexb", "octet-align",
    "mode-set", "mode-change-period", "channels", "vbr", "cng", "penh", "ptime-max", "max-ptime", "min-ptime", "repair-window", "L", "D", "ToP",
    "num_streams", "coupled_streams", "channel_mapping", "emphasis", "parameter-add", "redundant-pic-cap", "in-band-parameter-sets", "sar-understood",
    "sar-supported", "level", "config", "streamtype", "sizelength", "QCIF", "CIF", "SQCIF", "apt-time", "rtx", "rtxtime", "x-mode", "useinbandfec2",
    "stereo-mode", "dtx", "fec", "maxplayback", "max-playback-rate", "minptime2", "implementation_id", "use-level-src-parameter-sets",
    "sprop-interleaving-depth", "packetization", "packetization-mode2", "profile", "level-idx2",
];
pub const HOSTS: &[&str] = &[
    "localhost", "invalid", "host.invalid", "a.local", "8f1a8b2c-1111-4222-8333-444455556666.local", "example.com", "www.example.org", "mozilla.org",
    "a.onion", "expyuzz4wqqyqhjn.onion", "x.test", "ip6-localhost", "fqdn-00000001", "internal", "a.arpa", "1.0.0.127.in-addr.arpa", "router.lan",
    "home.arpa", "x.invalid", "x.localhost", "broadcasthost", "unspecified",
    "a.ip6.arpa", "1.0.0.0.ip6.arpa", "ip6.arpa", "in-addr.arpa", "e164.arpa", "ipv4only.arpa", "resolver.arpa", "ipv6.example.net", "ip4.example.net", "v6.test", "x.alt",
    "x.corp", "x.home", "x.intranet", "x.mil", "x.int", "wpad", "isatap", "10-0-0-1.sslip.io", "10.0.0.1.nip.io", "metadata.google.internal",
    "host.docker.internal", "stun.l.google.com", "turn.example.com", "relay.example.com", "local", "x.localdomain", "ip6-loopback", "gateway", "0.pool.ntp.org", "x.i2p", "x.bit",
    "192-168-0-1.local", "dead.beef", "fe80.local", "a.b.c.d.e.f.g", "x.co.uk",
];
/// Names that reading never gives, but a constructed address can have.
pub const ODD_HOSTS: &[&str] = &[
    "10.0.0.1", "0.0.0.0", "127.0.0.1", "192.168.1.7", "::1", "::", "fe80::1", "[::1]", "[2001:db8::7]", "Example.ORG.", "a b", "*",
    "-", "", "a.b.", "bücher.example", "é", "255.255.255.255", "1", "0x7f.1", "%", "a/b", "IN IP4 10.0.0.2",
];
pub const FOUNDATIONS: &[&str] = &["0", "1", "842163049", "1f4712db", "-", "Hc0a80101", "foundation", "00", "+", "candidate", "remote", "*"];
pub const CAND_EXT: &[&str] = &[
    "network-id", "cost", "svcfrag", "ext", "rem-addr", "rel-addr", "raddr6", "tcp-type", "related", "gen", "priority", "typ", "host", "udp", "url", "rel-port",
    "username", "password", "ufrag2", "pwd", "relay-protocol", "remote-ufrag", "fragment", "transport", "local-preference", "-", "mdns", "port", "address", "addr", "ip",
];
pub const BANDWIDTHS: &[&str] = &["RS", "RR", "X-YZ", "X-AS", "x-TIAS", "TIAS2", "AS2", "ASX", "CTX", "X-CT", "T", "MAX", "S", "as-", "-AS"];
pub const RID_PARAMS: &[&str] = &[
    "max-bpp", "depend", "max-framerate", "max-bitrate", "maxwidth", "max-w", "min-width", "MAX-WIDTH", "Max-Fps", "DEPENDS", "PT", "scale", "scaleresolutiondownby",
    "rid", "paused", "send", "max-fr", "max-mbps", "active", "profile", "x-max-width", "level",
];
pub const SSRC_ATTRS: &[&str] = &[
    "cname", "CNAME", "Cname", "msid", "mslabel", "label", "fmtp", "previous-ssrc", "previous-cname", "cname2", "xcname", "information", "sendrecv", "ts-refclk",
    "mediaclk", "cnames", "c-name", "cname-", "ssrc", "framerate", "ptime",
];
pub const SESSIONS: &[&str] = &["-", "SIP Call", "session", "s", "0", "Asterisk", "QuickTime", "WebRTC", "call", "-1", "--", "None", "unnamed", "VideoRoom 1234"];

/// A word of a place; any word for `Text`.
pub fn word(r: &mut Rng, at: At) -> String {
    let l = match at {
        At::IceOption => ICE_OPTIONS,
        At::Codec => CODECS,
        At::Url => URLS,
        At::Mid => MIDS,
        At::Label => LABELS,
        At::Stream => STREAMS,
        At::Rid => RIDS,
        At::Semantic => SEMANTICS,
        At::User => USERS,
        At::Cname => CNAMES,
        At::Ufrag => UFRAGS,
        At::Pwd => PWDS,
        At::Identity => IDENTITIES,
        At::Fmtp => FMTP,
        At::Host => HOSTS,
        At::Foundation => FOUNDATIONS,
        At::CandExt => CAND_EXT,
        At::Bandwidth => BANDWIDTHS,
        At::RidParam => RID_PARAMS,
        At::SsrcAttr => SSRC_ATTRS,
        At::Session => SESSIONS,
        At::Text => {
            let all: &[&[&str]] = &[
                ICE_OPTIONS, CODECS, URLS, MIDS, LABELS, STREAMS, RIDS, SEMANTICS, USERS, UFRAGS, PWDS, IDENTITIES, FMTP, HOSTS, FOUNDATIONS, CAND_EXT, BANDWIDTHS,
                RID_PARAMS, SSRC_ATTRS,
            ];
            r.pick(all)
        }
    };
    let w = r.pick_s(l);
    if at == At::Host && r.chance(1, 4) {
        return format!("{}{}.{w}", (b'a' + r.n(26) as u8) as char, r.n(100));
    }
    w
}
