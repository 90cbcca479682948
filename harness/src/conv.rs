//! Library values to plain trees and back. Reads public fields and getters
//! only; no printing, comparing or serializing code of the library is used.
use crate::val::{f32v, f64v, new, opt, s, u, V};
use std::net::IpAddr;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub fn address(a: &Address) -> V {
    match a {
        Address::Fqdn(d) => new("Fqdn", s(d)),
        Address::Ip(ip) => new("Ip", s(&ip.to_string())),
    }
}
fn addrtype(t: AddressType) -> V {
    V::Unit(match t {
        AddressType::IpV4 => "IpV4",
        AddressType::IpV6 => "IpV6",
    })
}
pub fn typed(a: &ExplicitlyTypedAddress) -> V {
    match a {
        ExplicitlyTypedAddress::Fqdn {
            address_type,
            domain,
        } => V::St(
            "Fqdn",
            vec![("address_type", addrtype(*address_type)), ("domain", s(domain))],
        ),
        ExplicitlyTypedAddress::Ip(ip) => new("Ip", s(&ip.to_string())),
    }
}
pub fn bandwidth(b: &SdpBandwidth) -> V {
    match b {
        SdpBandwidth::As(x) => new("As", u(*x)),
        SdpBandwidth::Ct(x) => new("Ct", u(*x)),
        SdpBandwidth::Tias(x) => new("Tias", u(*x)),
        SdpBandwidth::Unknown(n, x) => V::Tup("Unknown", vec![s(n), u(*x)]),
    }
}
pub fn connection(c: &SdpConnection) -> V {
    V::M(vec![
        ("address", typed(&c.address)),
        ("ttl", opt(c.ttl, u)),
        ("amount", opt(c.amount, u)),
    ])
}
pub fn origin(o: &SdpOrigin) -> V {
    V::M(vec![
        ("username", s(&o.username)),
        ("session_id", u(o.session_id)),
        ("session_version", u(o.session_version)),
        ("unicast_addr", typed(&o.unicast_addr)),
    ])
}
pub fn timing(t: &SdpTiming) -> V {
    V::M(vec![("start", u(t.start)), ("stop", u(t.stop))])
}
fn strs(v: &[String]) -> V {
    V::L(v.iter().map(|x| s(x)).collect())
}
fn ostr(v: &Option<String>) -> V {
    opt(v.as_ref(), |x| s(x))
}
pub fn media_value(m: &SdpMediaValue) -> V {
    V::Unit(match m {
        SdpMediaValue::Audio => "Audio",
        SdpMediaValue::Video => "Video",
        SdpMediaValue::Application => "Application",
    })
}
pub fn proto(p: &SdpProtocolValue) -> V {
    V::Unit(match p {
        SdpProtocolValue::RtpAvp => "RtpAvp",
        SdpProtocolValue::RtpAvpf => "RtpAvpf",
        SdpProtocolValue::RtpSavp => "RtpSavp",
        SdpProtocolValue::RtpSavpf => "RtpSavpf",
        SdpProtocolValue::TcpDtlsRtpSavp => "TcpDtlsRtpSavp",
        SdpProtocolValue::TcpDtlsRtpSavpf => "TcpDtlsRtpSavpf",
        SdpProtocolValue::UdpTlsRtpSavp => "UdpTlsRtpSavp",
        SdpProtocolValue::UdpTlsRtpSavpf => "UdpTlsRtpSavpf",
        SdpProtocolValue::DtlsSctp => "DtlsSctp",
        SdpProtocolValue::UdpDtlsSctp => "UdpDtlsSctp",
        SdpProtocolValue::TcpDtlsSctp => "TcpDtlsSctp",
    })
}
pub fn formats(f: &SdpFormatList) -> V {
    match f {
        SdpFormatList::Integers(x) => {
            new("Integers", V::L(x.iter().map(|n| u(*n)).collect()))
        }
        SdpFormatList::Strings(x) => new("Strings", strs(x)),
    }
}
pub fn media_line(m: &SdpMediaLine) -> V {
    V::M(vec![
        ("media", media_value(&m.media)),
        ("port", u(m.port)),
        ("port_count", u(m.port_count)),
        ("proto", proto(&m.proto)),
        ("formats", formats(&m.formats)),
    ])
}
pub fn media(m: &SdpMedia) -> V {
    V::M(vec![
        (
            "media",
            V::M(vec![
                ("media", media_value(m.get_type())),
                ("port", u(m.get_port())),
                ("port_count", u(m.get_port_count())),
                ("proto", proto(m.get_proto())),
                ("formats", formats(m.get_formats())),
            ]),
        ),
        ("connection", opt(m.get_connection().as_ref(), connection)),
        (
            "bandwidth",
            V::L(m.get_bandwidth().iter().map(bandwidth).collect()),
        ),
        (
            "attribute",
            V::L(m.get_attributes().iter().map(attr).collect()),
        ),
    ])
}
/// everything but the warnings
pub fn session(x: &SdpSession) -> V {
    V::M(vec![
        ("version", u(x.version)),
        ("origin", origin(&x.origin)),
        ("session", ostr(&x.session)),
        ("connection", opt(x.connection.as_ref(), connection)),
        (
            "bandwidth",
            V::L(x.bandwidth.iter().map(bandwidth).collect()),
        ),
        ("timing", opt(x.timing.as_ref(), timing)),
        ("attribute", V::L(x.attribute.iter().map(attr).collect())),
        ("media", V::L(x.media.iter().map(media).collect())),
    ])
}
pub fn sdp_type(t: &SdpType) -> V {
    match t {
        SdpType::Attribute(a) => new("Attribute", attr(a)),
        SdpType::Bandwidth(b) => new("Bandwidth", bandwidth(b)),
        SdpType::Connection(c) => new("Connection", connection(c)),
        SdpType::Media(m) => new("Media", media_line(m)),
        SdpType::Origin(o) => new("Origin", origin(o)),
        SdpType::Session(x) => new("Session", s(x)),
        SdpType::Timing(t) => new("Timing", timing(t)),
        SdpType::Version(v) => new("Version", u(*v)),
    }
}

fn single_dir(d: &SdpSingleDirection) -> V {
    V::Unit(match d {
        SdpSingleDirection::Send => "Send",
        SdpSingleDirection::Recv => "Recv",
    })
}
fn pt(p: &SdpAttributePayloadType) -> V {
    match p {
        SdpAttributePayloadType::PayloadType(x) => new("PayloadType", u(*x)),
        SdpAttributePayloadType::Wildcard => V::Unit("Wildcard"),
    }
}
pub fn candidate(c: &SdpAttributeCandidate) -> V {
    V::M(vec![
        ("foundation", s(&c.foundation)),
        ("component", u(c.component)),
        (
            "transport",
            V::Unit(match c.transport {
                SdpAttributeCandidateTransport::Udp => "Udp",
                SdpAttributeCandidateTransport::Tcp => "Tcp",
            }),
        ),
        ("priority", u(c.priority)),
        ("address", address(&c.address)),
        ("port", u(c.port)),
        (
            "c_type",
            V::Unit(match c.c_type {
                SdpAttributeCandidateType::Host => "Host",
                SdpAttributeCandidateType::Srflx => "Srflx",
                SdpAttributeCandidateType::Prflx => "Prflx",
                SdpAttributeCandidateType::Relay => "Relay",
            }),
        ),
        ("raddr", opt(c.raddr.as_ref(), address)),
        ("rport", opt(c.rport, u)),
        (
            "tcp_type",
            opt(c.tcp_type.as_ref(), |t| {
                V::Unit(match t {
                    SdpAttributeCandidateTcpType::Active => "Active",
                    SdpAttributeCandidateTcpType::Passive => "Passive",
                    SdpAttributeCandidateTcpType::Simultaneous => "Simultaneous",
                })
            }),
        ),
        ("generation", opt(c.generation, u)),
        ("ufrag", ostr(&c.ufrag)),
        ("networkcost", opt(c.networkcost, u)),
        (
            "unknown_extensions",
            V::L(
                c.unknown_extensions
                    .iter()
                    .map(|(a, b)| V::L(vec![s(a), s(b)]))
                    .collect(),
            ),
        ),
    ])
}
fn fmtp_params(p: &SdpAttributeFmtpParameters) -> V {
    V::M(vec![
        ("packetization_mode", u(p.packetization_mode)),
        ("level_asymmetry_allowed", V::B(p.level_asymmetry_allowed)),
        ("profile_level_id", u(p.profile_level_id)),
        ("max_fs", u(p.max_fs)),
        ("max_cpb", u(p.max_cpb)),
        ("max_dpb", u(p.max_dpb)),
        ("max_br", u(p.max_br)),
        ("max_mbps", u(p.max_mbps)),
        ("max_fr", u(p.max_fr)),
        ("profile", opt(p.profile, u)),
        ("level_idx", opt(p.level_idx, u)),
        ("tier", opt(p.tier, u)),
        ("maxplaybackrate", u(p.maxplaybackrate)),
        ("maxaveragebitrate", u(p.maxaveragebitrate)),
        ("usedtx", V::B(p.usedtx)),
        ("stereo", V::B(p.stereo)),
        ("useinbandfec", V::B(p.useinbandfec)),
        ("cbr", V::B(p.cbr)),
        ("ptime", u(p.ptime)),
        ("minptime", u(p.minptime)),
        ("maxptime", u(p.maxptime)),
        (
            "encodings",
            V::L(p.encodings.iter().map(|x| u(*x)).collect()),
        ),
        ("dtmf_tones", s(&p.dtmf_tones)),
        (
            "rtx",
            opt(p.rtx.as_ref(), |r| {
                V::M(vec![("apt", u(r.apt)), ("rtx_time", opt(r.rtx_time, u))])
            }),
        ),
        ("unknown_tokens", strs(&p.unknown_tokens)),
    ])
}
fn xy(r: &SdpAttributeImageAttrXyRange) -> V {
    match r {
        SdpAttributeImageAttrXyRange::Range(a, b, st) => {
            V::Tup("Range", vec![u(*a), u(*b), opt(*st, u)])
        }
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => new(
            "DiscreteValues",
            V::L(v.iter().map(|x| u(*x)).collect()),
        ),
    }
}
pub fn setlist(l: &SdpAttributeImageAttrSetList) -> V {
    match l {
        SdpAttributeImageAttrSetList::Wildcard => V::Unit("Wildcard"),
        SdpAttributeImageAttrSetList::Sets(v) => new(
            "Sets",
            V::L(
                v.iter()
                    .map(|x| {
                        V::M(vec![
                            ("x", xy(&x.x)),
                            ("y", xy(&x.y)),
                            (
                                "sar",
                                opt(x.sar.as_ref(), |r| match r {
                                    SdpAttributeImageAttrSRange::Range(a, b) => {
                                        V::Tup("Range", vec![f32v(*a), f32v(*b)])
                                    }
                                    SdpAttributeImageAttrSRange::DiscreteValues(v) => new(
                                        "DiscreteValues",
                                        V::L(v.iter().map(|x| f32v(*x)).collect()),
                                    ),
                                }),
                            ),
                            (
                                "par",
                                opt(x.par.as_ref(), |r| {
                                    V::M(vec![("min", f32v(r.min)), ("max", f32v(r.max))])
                                }),
                            ),
                            ("q", opt(x.q, f32v)),
                        ])
                    })
                    .collect(),
            ),
        ),
    }
}
pub fn ssrc(x: &SdpAttributeSsrc) -> V {
    V::M(vec![
        ("id", u(x.id)),
        ("attribute", ostr(&x.attribute)),
        ("value", ostr(&x.value)),
    ])
}
fn versions(v: &[SdpAttributeSimulcastVersion]) -> V {
    V::L(
        v.iter()
            .map(|x| {
                V::M(vec![(
                    "ids",
                    V::L(
                        x.ids
                            .iter()
                            .map(|i| {
                                V::M(vec![("id", s(&i.id)), ("paused", V::B(i.paused))])
                            })
                            .collect(),
                    ),
                )])
            })
            .collect(),
    )
}

pub fn attr(a: &SdpAttribute) -> V {
    match a {
        SdpAttribute::BundleOnly => V::Unit("BundleOnly"),
        SdpAttribute::Candidate(c) => new("Candidate", candidate(c)),
        SdpAttribute::DtlsMessage(d) => new(
            "DtlsMessage",
            match d {
                SdpAttributeDtlsMessage::Client(x) => new("Client", s(x)),
                SdpAttributeDtlsMessage::Server(x) => new("Server", s(x)),
            },
        ),
        SdpAttribute::EndOfCandidates => V::Unit("EndOfCandidates"),
        SdpAttribute::Extmap(e) => new(
            "Extmap",
            V::M(vec![
                ("id", u(e.id)),
                (
                    "direction",
                    opt(e.direction.as_ref(), |d| {
                        V::Unit(match d {
                            SdpAttributeDirection::Recvonly => "Recvonly",
                            SdpAttributeDirection::Sendonly => "Sendonly",
                            SdpAttributeDirection::Sendrecv => "Sendrecv",
                        })
                    }),
                ),
                ("url", s(&e.url)),
                ("extension_attributes", ostr(&e.extension_attributes)),
            ]),
        ),
        SdpAttribute::ExtmapAllowMixed => V::Unit("ExtmapAllowMixed"),
        SdpAttribute::Fingerprint(f) => new(
            "Fingerprint",
            V::M(vec![
                (
                    "hash_algorithm",
                    V::Unit(match f.hash_algorithm {
                        SdpAttributeFingerprintHashType::Sha1 => "Sha1",
                        SdpAttributeFingerprintHashType::Sha224 => "Sha224",
                        SdpAttributeFingerprintHashType::Sha256 => "Sha256",
                        SdpAttributeFingerprintHashType::Sha384 => "Sha384",
                        SdpAttributeFingerprintHashType::Sha512 => "Sha512",
                    }),
                ),
                (
                    "fingerprint",
                    V::L(f.fingerprint.iter().map(|b| u(*b)).collect()),
                ),
            ]),
        ),
        SdpAttribute::Fmtp(f) => new(
            "Fmtp",
            V::M(vec![
                ("payload_type", u(f.payload_type)),
                ("parameters", fmtp_params(&f.parameters)),
            ]),
        ),
        SdpAttribute::FrameRate(x) => new("FrameRate", f64v(*x)),
        SdpAttribute::Group(g) => new(
            "Group",
            V::M(vec![
                (
                    "semantics",
                    V::Unit(match g.semantics {
                        SdpAttributeGroupSemantic::LipSynchronization => "LipSynchronization",
                        SdpAttributeGroupSemantic::FlowIdentification => "FlowIdentification",
                        SdpAttributeGroupSemantic::SingleReservationFlow => {
                            "SingleReservationFlow"
                        }
                        SdpAttributeGroupSemantic::AlternateNetworkAddressType => {
                            "AlternateNetworkAddressType"
                        }
                        SdpAttributeGroupSemantic::ForwardErrorCorrection => {
                            "ForwardErrorCorrection"
                        }
                        SdpAttributeGroupSemantic::DecodingDependency => "DecodingDependency",
                        SdpAttributeGroupSemantic::Bundle => "Bundle",
                    }),
                ),
                ("tags", strs(&g.tags)),
            ]),
        ),
        SdpAttribute::IceLite => V::Unit("IceLite"),
        SdpAttribute::IceMismatch => V::Unit("IceMismatch"),
        SdpAttribute::IceOptions(x) => new("IceOptions", strs(x)),
        SdpAttribute::IcePacing(x) => new("IcePacing", u(*x)),
        SdpAttribute::IcePwd(x) => new("IcePwd", s(x)),
        SdpAttribute::IceUfrag(x) => new("IceUfrag", s(x)),
        SdpAttribute::Identity(x) => new("Identity", s(x)),
        SdpAttribute::ImageAttr(i) => new(
            "ImageAttr",
            V::M(vec![
                ("pt", pt(&i.pt)),
                ("send", setlist(&i.send)),
                ("recv", setlist(&i.recv)),
            ]),
        ),
        SdpAttribute::Inactive => V::Unit("Inactive"),
        SdpAttribute::Label(x) => new("Label", s(x)),
        SdpAttribute::MaxMessageSize(x) => new("MaxMessageSize", u(*x)),
        SdpAttribute::MaxPtime(x) => new("MaxPtime", u(*x)),
        SdpAttribute::Mid(x) => new("Mid", s(x)),
        SdpAttribute::Msid(m) => new(
            "Msid",
            V::M(vec![("id", s(&m.id)), ("appdata", ostr(&m.appdata))]),
        ),
        SdpAttribute::MsidSemantic(m) => new(
            "MsidSemantic",
            V::M(vec![("semantic", s(&m.semantic)), ("msids", strs(&m.msids))]),
        ),
        SdpAttribute::Ptime(x) => new("Ptime", u(*x)),
        SdpAttribute::Rid(r) => new(
            "Rid",
            V::M(vec![
                ("id", s(&r.id)),
                ("direction", single_dir(&r.direction)),
                ("formats", V::L(r.formats.iter().map(|x| u(*x)).collect())),
                (
                    "params",
                    V::M(vec![
                        ("max_width", u(r.params.max_width)),
                        ("max_height", u(r.params.max_height)),
                        ("max_fps", u(r.params.max_fps)),
                        ("max_fs", u(r.params.max_fs)),
                        ("max_br", u(r.params.max_br)),
                        ("max_pps", u(r.params.max_pps)),
                        ("unknown", strs(&r.params.unknown)),
                    ]),
                ),
                ("depends", strs(&r.depends)),
            ]),
        ),
        SdpAttribute::Recvonly => V::Unit("Recvonly"),
        SdpAttribute::RemoteCandidate(r) => new(
            "RemoteCandidate",
            V::M(vec![
                ("component", u(r.component)),
                ("address", address(&r.address)),
                ("port", u(r.port)),
            ]),
        ),
        SdpAttribute::Rtpmap(r) => new("Rtpmap", rtpmap(r)),
        SdpAttribute::Rtcp(r) => new(
            "Rtcp",
            V::M(vec![
                ("port", u(r.port)),
                ("unicast_addr", opt(r.unicast_addr.as_ref(), typed)),
            ]),
        ),
        SdpAttribute::Rtcpfb(r) => new(
            "Rtcpfb",
            V::M(vec![
                ("payload_type", pt(&r.payload_type)),
                (
                    "feedback_type",
                    V::Unit(match r.feedback_type {
                        SdpAttributeRtcpFbType::Ack => "Ack",
                        SdpAttributeRtcpFbType::Ccm => "Ccm",
                        SdpAttributeRtcpFbType::Nack => "Nack",
                        SdpAttributeRtcpFbType::TrrInt => "TrrInt",
                        SdpAttributeRtcpFbType::Remb => "Remb",
                        SdpAttributeRtcpFbType::TransCc => "TransCc",
                    }),
                ),
                ("parameter", s(&r.parameter)),
                ("extra", s(&r.extra)),
            ]),
        ),
        SdpAttribute::RtcpMux => V::Unit("RtcpMux"),
        SdpAttribute::RtcpMuxOnly => V::Unit("RtcpMuxOnly"),
        SdpAttribute::RtcpRsize => V::Unit("RtcpRsize"),
        SdpAttribute::Sctpmap(x) => new(
            "Sctpmap",
            V::M(vec![("port", u(x.port)), ("channels", u(x.channels))]),
        ),
        SdpAttribute::SctpPort(x) => new("SctpPort", u(*x)),
        SdpAttribute::Sendonly => V::Unit("Sendonly"),
        SdpAttribute::Sendrecv => V::Unit("Sendrecv"),
        SdpAttribute::Setup(x) => new(
            "Setup",
            V::Unit(match x {
                SdpAttributeSetup::Active => "Active",
                SdpAttributeSetup::Actpass => "Actpass",
                SdpAttributeSetup::Holdconn => "Holdconn",
                SdpAttributeSetup::Passive => "Passive",
            }),
        ),
        SdpAttribute::Simulcast(x) => new(
            "Simulcast",
            V::M(vec![
                ("send", versions(&x.send)),
                ("receive", versions(&x.receive)),
            ]),
        ),
        SdpAttribute::Ssrc(x) => new("Ssrc", ssrc(x)),
        SdpAttribute::SsrcGroup(sem, v) => V::Tup(
            "SsrcGroup",
            vec![
                V::Unit(match sem {
                    SdpSsrcGroupSemantic::Duplication => "Duplication",
                    SdpSsrcGroupSemantic::FlowIdentification => "FlowIdentification",
                    SdpSsrcGroupSemantic::ForwardErrorCorrection => "ForwardErrorCorrection",
                    SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => {
                        "ForwardErrorCorrectionFr"
                    }
                    SdpSsrcGroupSemantic::Sim => "Sim",
                }),
                V::L(v.iter().map(ssrc).collect()),
            ],
        ),
    }
}
pub fn rtpmap(r: &SdpAttributeRtpmap) -> V {
    V::M(vec![
        ("payload_type", u(r.payload_type)),
        ("codec_name", s(&r.codec_name)),
        ("frequency", u(r.frequency)),
        ("channels", opt(r.channels, u)),
    ])
}

// ---------------------------------------------------------------------
// plain trees to library values

fn o<T, F: FnOnce(&V) -> T>(v: &V, f: F) -> Option<T> {
    if v.is_null() {
        None
    } else {
        Some(f(v))
    }
}
fn st(v: &V) -> String {
    v.str().to_string()
}
fn svec(v: &V) -> Vec<String> {
    v.list().iter().map(st).collect()
}
fn ip(v: &V) -> IpAddr {
    IpAddr::from_str(v.str()).expect("harness: ip")
}
pub fn to_address(v: &V) -> Address {
    match v.tag() {
        "Fqdn" => Address::Fqdn(st(v.inner())),
        _ => Address::Ip(ip(v.inner())),
    }
}
pub fn to_typed(v: &V) -> ExplicitlyTypedAddress {
    match v.tag() {
        "Fqdn" => ExplicitlyTypedAddress::Fqdn {
            address_type: if v.get("address_type").tag() == "IpV4" {
                AddressType::IpV4
            } else {
                AddressType::IpV6
            },
            domain: st(v.get("domain")),
        },
        _ => ExplicitlyTypedAddress::Ip(ip(v.inner())),
    }
}
pub fn to_bandwidth(v: &V) -> SdpBandwidth {
    match v {
        V::New("As", x) => SdpBandwidth::As(x.u64() as u32),
        V::New("Ct", x) => SdpBandwidth::Ct(x.u64() as u32),
        V::New("Tias", x) => SdpBandwidth::Tias(x.u64() as u32),
        V::Tup(_, x) => SdpBandwidth::Unknown(st(&x[0]), x[1].u64() as u32),
        _ => panic!("harness: bandwidth"),
    }
}
pub fn to_connection(v: &V) -> SdpConnection {
    SdpConnection {
        address: to_typed(v.get("address")),
        ttl: o(v.get("ttl"), |x| x.u64() as u8),
        amount: o(v.get("amount"), |x| x.u64() as u32),
    }
}
pub fn to_origin(v: &V) -> SdpOrigin {
    SdpOrigin {
        username: st(v.get("username")),
        session_id: v.get("session_id").u64(),
        session_version: v.get("session_version").u64(),
        unicast_addr: to_typed(v.get("unicast_addr")),
    }
}
pub fn to_timing(v: &V) -> SdpTiming {
    SdpTiming {
        start: v.get("start").u64(),
        stop: v.get("stop").u64(),
    }
}
pub fn to_media_value(v: &V) -> SdpMediaValue {
    match v.tag() {
        "Audio" => SdpMediaValue::Audio,
        "Video" => SdpMediaValue::Video,
        _ => SdpMediaValue::Application,
    }
}
pub fn to_proto(v: &V) -> SdpProtocolValue {
    match v.tag() {
        "RtpAvp" => SdpProtocolValue::RtpAvp,
        "RtpAvpf" => SdpProtocolValue::RtpAvpf,
        "RtpSavp" => SdpProtocolValue::RtpSavp,
        "RtpSavpf" => SdpProtocolValue::RtpSavpf,
        "TcpDtlsRtpSavp" => SdpProtocolValue::TcpDtlsRtpSavp,
        "TcpDtlsRtpSavpf" => SdpProtocolValue::TcpDtlsRtpSavpf,
        "UdpTlsRtpSavp" => SdpProtocolValue::UdpTlsRtpSavp,
        "UdpTlsRtpSavpf" => SdpProtocolValue::UdpTlsRtpSavpf,
        "DtlsSctp" => SdpProtocolValue::DtlsSctp,
        "UdpDtlsSctp" => SdpProtocolValue::UdpDtlsSctp,
        "TcpDtlsSctp" => SdpProtocolValue::TcpDtlsSctp,
        x => panic!("harness: proto {x}"),
    }
}
pub fn to_formats(v: &V) -> SdpFormatList {
    match v.tag() {
        "Integers" => {
            SdpFormatList::Integers(v.inner().list().iter().map(|x| x.u64() as u32).collect())
        }
        _ => SdpFormatList::Strings(svec(v.inner())),
    }
}
pub fn to_media_line(v: &V) -> SdpMediaLine {
    SdpMediaLine {
        media: to_media_value(v.get("media")),
        port: v.get("port").u64() as u32,
        port_count: v.get("port_count").u64() as u32,
        proto: to_proto(v.get("proto")),
        formats: to_formats(v.get("formats")),
    }
}
/// Builds a section through the public constructor and editing calls.
pub fn to_media(v: &V) -> Result<SdpMedia, String> {
    let mut m = SdpMedia::new(to_media_line(v.get("media")));
    if !v.get("connection").is_null() {
        m.set_connection(to_connection(v.get("connection")));
    }
    for b in v.get("bandwidth").list() {
        m.add_bandwidth(to_bandwidth(b));
    }
    for a in v.get("attribute").list() {
        m.add_attribute(to_attr(a)).map_err(|e| e.to_string())?;
    }
    Ok(m)
}
/// Builds a session through the public constructor and editing calls.
pub fn to_session(v: &V) -> Result<SdpSession, String> {
    let mut x = SdpSession::new(
        v.get("version").u64(),
        to_origin(v.get("origin")),
        if v.get("session").is_null() {
            String::new()
        } else {
            st(v.get("session"))
        },
    );
    if !v.get("connection").is_null() {
        x.set_connection(to_connection(v.get("connection")));
    }
    for b in v.get("bandwidth").list() {
        x.add_bandwidth(to_bandwidth(b));
    }
    if !v.get("timing").is_null() {
        x.set_timing(to_timing(v.get("timing")));
    }
    for a in v.get("attribute").list() {
        x.add_attribute(to_attr(a)).map_err(|e| e.to_string())?;
    }
    let mut media = Vec::new();
    for m in v.get("media").list() {
        media.push(to_media(m)?);
    }
    x.extend_media(media);
    Ok(x)
}
pub fn to_pt(v: &V) -> SdpAttributePayloadType {
    match v {
        V::New(_, x) => SdpAttributePayloadType::PayloadType(x.u64() as u8),
        _ => SdpAttributePayloadType::Wildcard,
    }
}
fn to_dir(v: &V) -> SdpSingleDirection {
    match v.tag() {
        "Send" => SdpSingleDirection::Send,
        _ => SdpSingleDirection::Recv,
    }
}
pub fn to_xy(v: &V) -> SdpAttributeImageAttrXyRange {
    match v {
        V::Tup(_, x) => SdpAttributeImageAttrXyRange::Range(
            x[0].u64() as u32,
            x[1].u64() as u32,
            o(&x[2], |y| y.u64() as u32),
        ),
        _ => SdpAttributeImageAttrXyRange::DiscreteValues(
            v.inner().list().iter().map(|x| x.u64() as u32).collect(),
        ),
    }
}
pub fn to_setlist(v: &V) -> SdpAttributeImageAttrSetList {
    match v {
        V::Unit(_) => SdpAttributeImageAttrSetList::Wildcard,
        _ => SdpAttributeImageAttrSetList::Sets(
            v.inner()
                .list()
                .iter()
                .map(|x| SdpAttributeImageAttrSet {
                    x: to_xy(x.get("x")),
                    y: to_xy(x.get("y")),
                    sar: o(x.get("sar"), |r| match r {
                        V::Tup(_, y) => SdpAttributeImageAttrSRange::Range(y[0].f32(), y[1].f32()),
                        _ => SdpAttributeImageAttrSRange::DiscreteValues(
                            r.inner().list().iter().map(V::f32).collect(),
                        ),
                    }),
                    par: o(x.get("par"), |r| SdpAttributeImageAttrPRange {
                        min: r.get("min").f32(),
                        max: r.get("max").f32(),
                    }),
                    q: o(x.get("q"), V::f32),
                })
                .collect(),
        ),
    }
}
fn to_versions(v: &V) -> Vec<SdpAttributeSimulcastVersion> {
    v.list()
        .iter()
        .map(|x| SdpAttributeSimulcastVersion {
            ids: x
                .get("ids")
                .list()
                .iter()
                .map(|i| SdpAttributeSimulcastId {
                    id: st(i.get("id")),
                    paused: i.get("paused").bool(),
                })
                .collect(),
        })
        .collect()
}
pub fn to_candidate(c: &V) -> SdpAttributeCandidate {
    let mut r = SdpAttributeCandidate::new(
        st(c.get("foundation")),
        c.get("component").u64() as u32,
        match c.get("transport").tag() {
            "Udp" => SdpAttributeCandidateTransport::Udp,
            _ => SdpAttributeCandidateTransport::Tcp,
        },
        c.get("priority").u64(),
        to_address(c.get("address")),
        c.get("port").u64() as u32,
        match c.get("c_type").tag() {
            "Host" => SdpAttributeCandidateType::Host,
            "Srflx" => SdpAttributeCandidateType::Srflx,
            "Prflx" => SdpAttributeCandidateType::Prflx,
            _ => SdpAttributeCandidateType::Relay,
        },
    );
    r.raddr = o(c.get("raddr"), to_address);
    r.rport = o(c.get("rport"), |x| x.u64() as u32);
    r.tcp_type = o(c.get("tcp_type"), |x| match x.tag() {
        "Active" => SdpAttributeCandidateTcpType::Active,
        "Passive" => SdpAttributeCandidateTcpType::Passive,
        _ => SdpAttributeCandidateTcpType::Simultaneous,
    });
    r.generation = o(c.get("generation"), |x| x.u64() as u32);
    r.ufrag = o(c.get("ufrag"), st);
    r.networkcost = o(c.get("networkcost"), |x| x.u64() as u32);
    r.unknown_extensions = c
        .get("unknown_extensions")
        .list()
        .iter()
        .map(|x| (st(&x.list()[0]), st(&x.list()[1])))
        .collect();
    r
}
pub fn to_ssrc(x: &V) -> SdpAttributeSsrc {
    let mut r = SdpAttributeSsrc::new(x.get("id").u64() as u32);
    r.attribute = o(x.get("attribute"), st);
    r.value = o(x.get("value"), st);
    r
}
pub fn to_rtpmap(x: &V) -> SdpAttributeRtpmap {
    let mut r = SdpAttributeRtpmap::new(
        x.get("payload_type").u64() as u8,
        st(x.get("codec_name")),
        x.get("frequency").u64() as u32,
    );
    r.channels = o(x.get("channels"), |y| y.u64() as u32);
    r
}
pub fn to_hash(x: &V) -> SdpAttributeFingerprintHashType {
    match x.tag() {
        "Sha1" => SdpAttributeFingerprintHashType::Sha1,
        "Sha224" => SdpAttributeFingerprintHashType::Sha224,
        "Sha256" => SdpAttributeFingerprintHashType::Sha256,
        "Sha384" => SdpAttributeFingerprintHashType::Sha384,
        _ => SdpAttributeFingerprintHashType::Sha512,
    }
}

pub fn to_attr(a: &V) -> SdpAttribute {
    let i = match a {
        V::New(_, i) => i.as_ref(),
        _ => a,
    };
    match a.tag() {
        "BundleOnly" => SdpAttribute::BundleOnly,
        "Candidate" => SdpAttribute::Candidate(to_candidate(i)),
        "DtlsMessage" => SdpAttribute::DtlsMessage(match i.tag() {
            "Client" => SdpAttributeDtlsMessage::Client(st(i.inner())),
            _ => SdpAttributeDtlsMessage::Server(st(i.inner())),
        }),
        "EndOfCandidates" => SdpAttribute::EndOfCandidates,
        "Extmap" => SdpAttribute::Extmap(SdpAttributeExtmap {
            id: i.get("id").u64() as u16,
            direction: o(i.get("direction"), |d| match d.tag() {
                "Recvonly" => SdpAttributeDirection::Recvonly,
                "Sendonly" => SdpAttributeDirection::Sendonly,
                _ => SdpAttributeDirection::Sendrecv,
            }),
            url: st(i.get("url")),
            extension_attributes: o(i.get("extension_attributes"), st),
        }),
        "ExtmapAllowMixed" => SdpAttribute::ExtmapAllowMixed,
        "Fingerprint" => SdpAttribute::Fingerprint(SdpAttributeFingerprint {
            hash_algorithm: to_hash(i.get("hash_algorithm")),
            fingerprint: i
                .get("fingerprint")
                .list()
                .iter()
                .map(|x| x.u64() as u8)
                .collect(),
        }),
        "Fmtp" => {
            let p = i.get("parameters");
            let n = |f: &str| p.get(f).u64() as u32;
            SdpAttribute::Fmtp(SdpAttributeFmtp {
                payload_type: i.get("payload_type").u64() as u8,
                parameters: SdpAttributeFmtpParameters {
                    packetization_mode: n("packetization_mode"),
                    level_asymmetry_allowed: p.get("level_asymmetry_allowed").bool(),
                    profile_level_id: n("profile_level_id"),
                    max_fs: n("max_fs"),
                    max_cpb: n("max_cpb"),
                    max_dpb: n("max_dpb"),
                    max_br: n("max_br"),
                    max_mbps: n("max_mbps"),
                    max_fr: n("max_fr"),
                    profile: o(p.get("profile"), |x| x.u64() as u8),
                    level_idx: o(p.get("level_idx"), |x| x.u64() as u8),
                    tier: o(p.get("tier"), |x| x.u64() as u8),
                    maxplaybackrate: n("maxplaybackrate"),
                    maxaveragebitrate: n("maxaveragebitrate"),
                    usedtx: p.get("usedtx").bool(),
                    stereo: p.get("stereo").bool(),
                    useinbandfec: p.get("useinbandfec").bool(),
                    cbr: p.get("cbr").bool(),
                    ptime: n("ptime"),
                    minptime: n("minptime"),
                    maxptime: n("maxptime"),
                    encodings: p
                        .get("encodings")
                        .list()
                        .iter()
                        .map(|x| x.u64() as u8)
                        .collect(),
                    dtmf_tones: st(p.get("dtmf_tones")),
                    rtx: o(p.get("rtx"), |r| RtxFmtpParameters {
                        apt: r.get("apt").u64() as u8,
                        rtx_time: o(r.get("rtx_time"), |x| x.u64() as u32),
                    }),
                    unknown_tokens: svec(p.get("unknown_tokens")),
                },
            })
        }
        "FrameRate" => SdpAttribute::FrameRate(match i {
            V::F64(x) => f64::from_bits(*x),
            _ => panic!("harness: framerate"),
        }),
        "Group" => SdpAttribute::Group(SdpAttributeGroup {
            semantics: match i.get("semantics").tag() {
                "LipSynchronization" => SdpAttributeGroupSemantic::LipSynchronization,
                "FlowIdentification" => SdpAttributeGroupSemantic::FlowIdentification,
                "SingleReservationFlow" => SdpAttributeGroupSemantic::SingleReservationFlow,
                "AlternateNetworkAddressType" => {
                    SdpAttributeGroupSemantic::AlternateNetworkAddressType
                }
                "ForwardErrorCorrection" => SdpAttributeGroupSemantic::ForwardErrorCorrection,
                "DecodingDependency" => SdpAttributeGroupSemantic::DecodingDependency,
                _ => SdpAttributeGroupSemantic::Bundle,
            },
            tags: svec(i.get("tags")),
        }),
        "IceLite" => SdpAttribute::IceLite,
        "IceMismatch" => SdpAttribute::IceMismatch,
        "IceOptions" => SdpAttribute::IceOptions(svec(i)),
        "IcePacing" => SdpAttribute::IcePacing(i.u64()),
        "IcePwd" => SdpAttribute::IcePwd(st(i)),
        "IceUfrag" => SdpAttribute::IceUfrag(st(i)),
        "Identity" => SdpAttribute::Identity(st(i)),
        "ImageAttr" => SdpAttribute::ImageAttr(SdpAttributeImageAttr {
            pt: to_pt(i.get("pt")),
            send: to_setlist(i.get("send")),
            recv: to_setlist(i.get("recv")),
        }),
        "Inactive" => SdpAttribute::Inactive,
        "Label" => SdpAttribute::Label(st(i)),
        "MaxMessageSize" => SdpAttribute::MaxMessageSize(i.u64()),
        "MaxPtime" => SdpAttribute::MaxPtime(i.u64()),
        "Mid" => SdpAttribute::Mid(st(i)),
        "Msid" => SdpAttribute::Msid(SdpAttributeMsid {
            id: st(i.get("id")),
            appdata: o(i.get("appdata"), st),
        }),
        "MsidSemantic" => SdpAttribute::MsidSemantic(SdpAttributeMsidSemantic {
            semantic: st(i.get("semantic")),
            msids: svec(i.get("msids")),
        }),
        "Ptime" => SdpAttribute::Ptime(i.u64()),
        "Rid" => {
            let p = i.get("params");
            let n = |f: &str| p.get(f).u64() as u32;
            SdpAttribute::Rid(SdpAttributeRid {
                id: st(i.get("id")),
                direction: to_dir(i.get("direction")),
                formats: i
                    .get("formats")
                    .list()
                    .iter()
                    .map(|x| x.u64() as u16)
                    .collect(),
                params: SdpAttributeRidParameters {
                    max_width: n("max_width"),
                    max_height: n("max_height"),
                    max_fps: n("max_fps"),
                    max_fs: n("max_fs"),
                    max_br: n("max_br"),
                    max_pps: n("max_pps"),
                    unknown: svec(p.get("unknown")),
                },
                depends: svec(i.get("depends")),
            })
        }
        "Recvonly" => SdpAttribute::Recvonly,
        "RemoteCandidate" => SdpAttribute::RemoteCandidate(SdpAttributeRemoteCandidate {
            component: i.get("component").u64() as u32,
            address: to_address(i.get("address")),
            port: i.get("port").u64() as u32,
        }),
        "Rtpmap" => SdpAttribute::Rtpmap(to_rtpmap(i)),
        "Rtcp" => {
            let mut r = SdpAttributeRtcp::new(i.get("port").u64() as u16);
            r.unicast_addr = o(i.get("unicast_addr"), to_typed);
            SdpAttribute::Rtcp(r)
        }
        "Rtcpfb" => SdpAttribute::Rtcpfb(SdpAttributeRtcpFb {
            payload_type: to_pt(i.get("payload_type")),
            feedback_type: match i.get("feedback_type").tag() {
                "Ack" => SdpAttributeRtcpFbType::Ack,
                "Ccm" => SdpAttributeRtcpFbType::Ccm,
                "Nack" => SdpAttributeRtcpFbType::Nack,
                "TrrInt" => SdpAttributeRtcpFbType::TrrInt,
                "Remb" => SdpAttributeRtcpFbType::Remb,
                _ => SdpAttributeRtcpFbType::TransCc,
            },
            parameter: st(i.get("parameter")),
            extra: st(i.get("extra")),
        }),
        "RtcpMux" => SdpAttribute::RtcpMux,
        "RtcpMuxOnly" => SdpAttribute::RtcpMuxOnly,
        "RtcpRsize" => SdpAttribute::RtcpRsize,
        "Sctpmap" => SdpAttribute::Sctpmap(SdpAttributeSctpmap {
            port: i.get("port").u64() as u16,
            channels: i.get("channels").u64() as u32,
        }),
        "SctpPort" => SdpAttribute::SctpPort(i.u64()),
        "Sendonly" => SdpAttribute::Sendonly,
        "Sendrecv" => SdpAttribute::Sendrecv,
        "Setup" => SdpAttribute::Setup(match i.tag() {
            "Active" => SdpAttributeSetup::Active,
            "Actpass" => SdpAttributeSetup::Actpass,
            "Holdconn" => SdpAttributeSetup::Holdconn,
            _ => SdpAttributeSetup::Passive,
        }),
        "Simulcast" => SdpAttribute::Simulcast(SdpAttributeSimulcast {
            send: to_versions(i.get("send")),
            receive: to_versions(i.get("receive")),
        }),
        "Ssrc" => SdpAttribute::Ssrc(to_ssrc(i)),
        "SsrcGroup" => SdpAttribute::SsrcGroup(
            match a.tup()[0].tag() {
                "Duplication" => SdpSsrcGroupSemantic::Duplication,
                "FlowIdentification" => SdpSsrcGroupSemantic::FlowIdentification,
                "ForwardErrorCorrection" => SdpSsrcGroupSemantic::ForwardErrorCorrection,
                "ForwardErrorCorrectionFr" => SdpSsrcGroupSemantic::ForwardErrorCorrectionFr,
                _ => SdpSsrcGroupSemantic::Sim,
            },
            a.tup()[1].list().iter().map(to_ssrc).collect(),
        ),
        x => panic!("harness: unknown kind {x}"),
    }
}

/// The library's type tag for a kind name.
pub fn attr_type(kind: &str) -> SdpAttributeType {
    use SdpAttributeType as T;
    match kind {
        "BundleOnly" => T::BundleOnly,
        "Candidate" => T::Candidate,
        "DtlsMessage" => T::DtlsMessage,
        "EndOfCandidates" => T::EndOfCandidates,
        "Extmap" => T::Extmap,
        "ExtmapAllowMixed" => T::ExtmapAllowMixed,
        "Fingerprint" => T::Fingerprint,
        "Fmtp" => T::Fmtp,
        "FrameRate" => T::FrameRate,
        "Group" => T::Group,
        "IceLite" => T::IceLite,
        "IceMismatch" => T::IceMismatch,
        "IceOptions" => T::IceOptions,
        "IcePacing" => T::IcePacing,
        "IcePwd" => T::IcePwd,
        "IceUfrag" => T::IceUfrag,
        "Identity" => T::Identity,
        "ImageAttr" => T::ImageAttr,
        "Inactive" => T::Inactive,
        "Label" => T::Label,
        "MaxMessageSize" => T::MaxMessageSize,
        "MaxPtime" => T::MaxPtime,
        "Mid" => T::Mid,
        "Msid" => T::Msid,
        "MsidSemantic" => T::MsidSemantic,
        "Ptime" => T::Ptime,
        "Rid" => T::Rid,
        "Recvonly" => T::Recvonly,
        "RemoteCandidate" => T::RemoteCandidate,
        "Rtpmap" => T::Rtpmap,
        "Rtcp" => T::Rtcp,
        "Rtcpfb" => T::Rtcpfb,
        "RtcpMux" => T::RtcpMux,
        "RtcpMuxOnly" => T::RtcpMuxOnly,
        "RtcpRsize" => T::RtcpRsize,
        "Sctpmap" => T::Sctpmap,
        "SctpPort" => T::SctpPort,
        "Sendonly" => T::Sendonly,
        "Sendrecv" => T::Sendrecv,
        "Setup" => T::Setup,
        "Simulcast" => T::Simulcast,
        "Ssrc" => T::Ssrc,
        "SsrcGroup" => T::SsrcGroup,
        x => panic!("harness: unknown kind {x}"),
    }
}
