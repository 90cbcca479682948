//! Texts to start from: those of the repository's examples (read when the
//! check runs) and a few of our own, close to what browsers send.
use std::sync::OnceLock;

pub const FIREFOX: &str = "v=0\r\no=mozilla...THIS_IS_SDPARTA-99.0 3001 0 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\na=fingerprint:sha-256 9F:1F:C3:6E:7B:01:4D:1C:55:62:D1:1E:6B:F3:5B:1C:0C:E1:9B:31:4A:2B:1A:6C:E2:57:35:5A:D4:8A:5C:B6\r\na=group:BUNDLE 0 1 2\r\na=ice-options:trickle\r\na=msid-semantic:WMS *\r\na=extmap-allow-mixed\r\nm=audio 9 UDP/TLS/RTP/SAVPF 109 9 0 8 101\r\nc=IN IP4 0.0.0.0\r\na=sendrecv\r\na=extmap:1 urn:ietf:params:rtp-hdrext:ssrc-audio-level\r\na=extmap:2/recvonly urn:ietf:params:rtp-hdrext:csrc-audio-level\r\na=fmtp:109 maxplaybackrate=48000;stereo=1;useinbandfec=1\r\na=fmtp:101 0-15\r\na=ice-pwd:5ddd6d1a1d3a1c9ab6a0e6eb1b1ae4d2\r\na=ice-ufrag:7f2a6b10\r\na=mid:0\r\na=msid:{a1f5} {b2c6}\r\na=rtcp-mux\r\na=rtpmap:109 opus/48000/2\r\na=rtpmap:9 G722/8000/1\r\na=rtpmap:0 PCMU/8000\r\na=rtpmap:8 PCMA/8000\r\na=rtpmap:101 telephone-event/8000/1\r\na=setup:actpass\r\na=ssrc:1234567 cname:{5a4f}\r\na=candidate:0 1 UDP 2122252543 192.168.2.10 52323 typ host\r\na=candidate:1 1 TCP 2105524479 192.168.2.10 9 typ host tcptype active\r\na=candidate:2 1 UDP 1686052351 203.0.113.7 52323 typ srflx raddr 192.168.2.10 rport 52323 generation 0 ufrag 7f2a6b10 network-cost 10\r\na=end-of-candidates\r\nm=video 9 UDP/TLS/RTP/SAVPF 120 124 126 97\r\nc=IN IP6 ::\r\nb=AS:512\r\nb=TIAS:512000\r\na=sendonly\r\na=fmtp:126 profile-level-id=42e01f;level-asymmetry-allowed=1;packetization-mode=1\r\na=fmtp:120 max-fs=12288;max-fr=60\r\na=fmtp:124 apt=120;rtx-time=3000\r\na=ice-pwd:5ddd6d1a1d3a1c9ab6a0e6eb1b1ae4d2\r\na=ice-ufrag:7f2a6b10\r\na=mid:1\r\na=rid:hi send max-width=1280;max-fps=30\r\na=rid:lo send pt=120;max-br=64000\r\na=simulcast:send hi;~lo\r\na=rtcp:53020 IN IP4 126.0.0.1\r\na=rtcp-fb:120 nack\r\na=rtcp-fb:120 nack pli\r\na=rtcp-fb:* ccm fir\r\na=rtcp-fb:120 goog-remb\r\na=rtcp-mux\r\na=rtcp-mux-only\r\na=rtcp-rsize\r\na=rtpmap:120 VP8/90000\r\na=rtpmap:124 rtx/90000\r\na=rtpmap:126 H264/90000\r\na=imageattr:97 send [x=[480:16:800],y=[320:16:640],par=[1.2-1.3],q=0.6] [x=[176:8:208],y=[176:8:208]] recv *\r\na=setup:active\r\na=ssrc-group:FID 1 2\r\na=ssrc:1 cname:a b\r\nm=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\nc=IN IP4 host.invalid\r\na=sendrecv\r\na=mid:2\r\na=setup:actpass\r\na=sctp-port:5000\r\na=max-message-size:1073741823\r\na=sctpmap:5000 webrtc-datachannel 256\r\na=remote-candidates:1 10.0.0.1 1234\r\na=bundle-only\r\na=framerate:29.97\r\na=ptime:20\r\na=maxptime:60\r\na=label:x\r\na=ice-mismatch\r\n";

pub const CHROME: &str = "v=0\no=- 2397106153131073818 2 IN IP4 127.0.0.1\ns= \nt=0 0\nb=CT:1000\nc=IN IP4 224.2.1.1/127/3\na=group:BUNDLE audio video\na=group:LS audio video\na=msid-semantic: WMS ma\na=ice-lite\na=ice-pacing:50\na=identity:eyJpZHAiOnsiZG9tYWluIjoiZXhhbXBsZSJ9fQ== x=1\na=dtls-message:client FgEAAAAAAAAAAAAAAAAA\na=sendrecv\na=i-am-unknown:yes\nm=audio 54278 RTP/SAVPF 111 103\na=extmap:1 urn:ietf:params:rtp-hdrext:ssrc-audio-level\na=candidate:1467250027 1 udp 2122260223 192.168.0.196 46243 typ host generation 0\na=ice-ufrag:dyBZyOx7nOtB7Nyg\na=ice-pwd:Xyz/+ab\na=fingerprint:sha-1 41:BB:AD:6D:30:44:7B:FD:0E:9B:2B:3D:0D:3D:9B:9E:5E:30:45:1C\na=rtpmap:111 opus/48000/2\na=fmtp:111 minptime=10\na=rtpmap:103 ISAC/16000\na=mid:audio\na=rtcp-fb:111 transport-cc\na=rtcp-fb:111 trr-int 100\na=fmtp:103 0/5\nm=video 60372/2 RTP/SAVPF 100 101\na=rtpmap:100 VP8/90000\na=fmtp:101 x-google-start-bitrate=800;apt=100\na=mid:video\na=recvonly\na=rid:1 recv\na=rid:2 recv pt=100,101;max-height=720;depends=1;foo=bar\na=simulcast:recv 1,~2\n";

pub const MINIMAL: &str = "v=0\no=- 0 0 IN IP4 a\ns=\nt=0 0";

static FILES: OnceLock<Vec<String>> = OnceLock::new();

pub fn all() -> &'static [String] {
    FILES.get_or_init(|| {
        let mut v = vec![
            FIREFOX.to_string(),
            CHROME.to_string(),
            MINIMAL.to_string(),
        ];
        let mut names: Vec<_> = std::fs::read_dir("/repo/examples/sdps")
            .map(|d| d.filter_map(Result::ok).map(|e| e.path()).collect())
            .unwrap_or_default();
        names.sort();
        for n in names {
            if n.extension().is_some_and(|e| e == "sdp") {
                if let Ok(t) = std::fs::read_to_string(&n) {
                    v.push(t);
                }
            }
        }
        v
    })
}
