//! The 43 attribute kinds: registered name, where they may stand, which
//! property covers their value, and whether their value is a list of
//! blank-separated tokens.
pub struct Kind {
    /// variant name in the library
    pub tag: &'static str,
    /// registered name on the wire
    pub wire: &'static str,
    pub session: bool,
    pub media: bool,
    pub flag: bool,
    pub prop: &'static str,
    /// value is split at runs of blanks
    pub blanks: bool,
}

macro_rules! kinds {
    ($($tag:literal $wire:literal $lv:literal $flag:literal $prop:literal $bl:literal;)*) => {
        &[$(Kind { tag: $tag, wire: $wire,
            session: $lv.as_bytes()[0] == b's', media: $lv.as_bytes()[$lv.len() - 1] == b'm',
            flag: $flag, prop: $prop, blanks: $bl }),*]
    };
}

pub const KINDS: &[Kind] = kinds! {
    "BundleOnly" "bundle-only" "m" true "C08" false;
    "Candidate" "candidate" "m" false "C06" true;
    "DtlsMessage" "dtls-message" "s" false "C06" false;
    "EndOfCandidates" "end-of-candidates" "sm" true "C06" false;
    "Extmap" "extmap" "sm" false "C08" true;
    "ExtmapAllowMixed" "extmap-allow-mixed" "sm" true "C08" false;
    "Fingerprint" "fingerprint" "sm" false "C06" true;
    "Fmtp" "fmtp" "m" false "C07" false;
    "FrameRate" "framerate" "m" false "C07" false;
    "Group" "group" "s" false "C08" true;
    "IceLite" "ice-lite" "s" true "C06" false;
    "IceMismatch" "ice-mismatch" "m" true "C06" false;
    "IceOptions" "ice-options" "sm" false "C06" true;
    "IcePacing" "ice-pacing" "s" false "C06" false;
    "IcePwd" "ice-pwd" "sm" false "C06" false;
    "IceUfrag" "ice-ufrag" "sm" false "C06" false;
    "Identity" "identity" "s" false "C06" false;
    "ImageAttr" "imageattr" "m" false "C07" false;
    "Inactive" "inactive" "sm" true "C08" false;
    "Label" "label" "m" false "C08" false;
    "MaxMessageSize" "max-message-size" "m" false "C06" false;
    "MaxPtime" "maxptime" "m" false "C07" false;
    "Mid" "mid" "m" false "C08" false;
    "Msid" "msid" "m" false "C08" true;
    "MsidSemantic" "msid-semantic" "s" false "C08" true;
    "Ptime" "ptime" "m" false "C07" false;
    "Rid" "rid" "m" false "C08" false;
    "Recvonly" "recvonly" "sm" true "C08" false;
    "RemoteCandidate" "remote-candidates" "m" false "C06" true;
    "Rtpmap" "rtpmap" "m" false "C07" true;
    "Rtcp" "rtcp" "m" false "C06" true;
    "Rtcpfb" "rtcp-fb" "m" false "C07" false;
    "RtcpMux" "rtcp-mux" "m" true "C06" false;
    "RtcpMuxOnly" "rtcp-mux-only" "m" true "C06" false;
    "RtcpRsize" "rtcp-rsize" "m" true "C06" false;
    "Sctpmap" "sctpmap" "m" false "C06" true;
    "SctpPort" "sctp-port" "m" false "C06" false;
    "Sendonly" "sendonly" "sm" true "C08" false;
    "Sendrecv" "sendrecv" "sm" true "C08" false;
    "Setup" "setup" "sm" false "C06" false;
    "Simulcast" "simulcast" "m" false "C08" true;
    "Ssrc" "ssrc" "m" false "C08" false;
    "SsrcGroup" "ssrc-group" "m" false "C08" true;
};

pub fn kind(tag: &str) -> &'static Kind {
    KINDS
        .iter()
        .find(|k| k.tag == tag)
        .unwrap_or_else(|| panic!("harness: kind {tag}"))
}
pub fn by_wire(w: &str) -> Option<&'static Kind> {
    KINDS.iter().find(|k| k.wire == w)
}
