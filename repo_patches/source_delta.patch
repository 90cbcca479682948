From 789a05633560cc553e89a2eee9599a2d52abdcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/21] fix: keep (masked) media sections when anonymizing a
 session

SdpSession::masked_clone() returned a session without any of its media sections.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..c2bb806 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for i in &self.media {
+            masked.media.push(i.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From e2b82ae7a24f3badbdb4656c64fe2eaca5516d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 02/21] fix: mask the connection address of media sections

SdpMedia::masked_clone() copied the media level c= address unmasked.
---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..8103d94 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|c| c.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From e924010d281d7dcd205ace21be8fc0a480151cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 03/21] fix: mask the address of rtcp attributes

The unicast address of an a=rtcp attribute was copied unmasked.
---
 src/attribute_type.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..8629447 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -463,6 +463,18 @@ impl fmt::Display for SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        SdpAttributeRtcp {
+            port: self.port,
+            unicast_addr: self
+                .unicast_addr
+                .as_ref()
+                .map(|addr| anon.mask_typed_address(addr)),
+        }
+    }
+}
+
 #[derive(Clone)]
 #[cfg_attr(feature = "serialize", derive(Serialize))]
 #[cfg_attr(feature = "enhanced_debug", derive(Debug))]
@@ -1581,6 +1593,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From 69955f065d92ec8fc7750d0bb5b1b60820237c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 04/21] fix: mask the ufrag extension of candidates

The ICE user fragment was masked in a=ice-ufrag but copied as is in a=candidate.
---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8629447..9ae79bb 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -298,6 +298,10 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self
+            .ufrag
+            .as_ref()
+            .map(|ufrag| anonymizer.mask_ice_user(ufrag));
         masked
     }
 }
-- 
2.43.0


From c0e9c8a694e661235864b26d0e1358f0d0b76228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 05/21] fix: use all bytes of the counter in to_byte_vec

Shifting left kept only the lowest byte, so that the 256th masked fingerprint
collided with the 0th, the 257th with the 1st, and so on.
---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From 7d1a595dc74e6e31a09a67860c3f97c888515bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 06/21] fix: don't print an empty attribute line when no
 attribute prints anything

A section whose only attribute was an fmtp with default values was printed with
an empty 'a=' line, which can't be parsed again.
---
 src/attribute_type.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 9ae79bb..0a33327 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -40,16 +40,16 @@ macro_rules! write_option_string {
 #[macro_export]
 macro_rules! maybe_vector_to_string {
     ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
-            0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+        {
+            let strings: Vec<String> = $vec
+                .iter()
+                .map(ToString::to_string)
+                .filter(|s| !s.is_empty())
+                .collect();
+            match strings.len() {
+                0 => "".to_string(),
+                _ => format!($fmt_str, strings.join($sep)),
+            }
         }
     };
 }
-- 
2.43.0


From 645681e10cc30c3a2036b6bc7fed31fe0892abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 07/21] fix: separate unknown fmtp parameters with ';' when
 printing

Printed with ',' they were parsed back as one single parameter.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 0a33327..abbfaa2 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -716,7 +716,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From ca4f1632b0320c4bbba818dfabaf160b5bc4eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 08/21] fix: print the other fmtp parameters next to apt and
 rtx-time

An fmtp with an apt parameter was printed without any of its other parameters.
---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index abbfaa2..7e94c08 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -657,10 +657,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -678,6 +674,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From 776b61796d029f878e123f3e801984e95a7a0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 09/21] fix: don't reject short but complete SDP

The connection line is optional without media sections, so that complete SDPs
(and the printed form of accepted SDPs) can be shorter than 51 bytes.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2bb806..ef70528 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -830,8 +830,8 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
             line_number: 0,
         });
     }
-    // see test_parse_sdp_minimal_sdp_successfully
-    if sdp.len() < 51 {
+    // "v=0\no=- 0 0 IN IP4 a\ns=\nt=0 0" is the shortest SDP possible
+    if sdp.len() < 29 {
         return Err(SdpParserError::Line {
             error: SdpParserInternalError::Generic("string too short to be valid SDP".to_string()),
             line: sdp.to_string(),
-- 
2.43.0


From b5f92c4fe686a6dd671c441d540b8bab9b10a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 10/21] fix: recognize fmtp parameters preceded by whitespace

In 'minptime=10; useinbandfec=1' the second parameter ended up as the unknown
parameter ' useinbandfec=1'.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 7e94c08..7185ec3 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2164,6 +2164,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From 36a952a8074a8dd6122dcdf990bb19f3019ef444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 11/21] fix: ignore whitespace around and empty entries of rid
 parameters

'max-fs=10; depends=1, 2' had neither a depends parameter nor the id '2', and
empty ids in the depends list vanished when printed.
---
 src/attribute_type.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 7185ec3..9b4c6d0 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2952,7 +2952,7 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             }
         }
 
-        for param in parameters {
+        for param in parameters.map(str::trim) {
             // TODO: Bug 1225877. Add support for params without '='
             let param_value_pair: Vec<&str> = param.splitn(2, '=').collect();
             if param_value_pair.len() != 2 {
@@ -2969,7 +2969,12 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                 "max-br" => params.max_br = param_value_pair[1].parse::<u32>()?,
                 "max-pps" => params.max_pps = param_value_pair[1].parse::<u32>()?,
                 "depends" => {
-                    depends.extend(param_value_pair[1].split(',').map(ToString::to_string));
+                    depends.extend(
+                        param_value_pair[1]
+                            .split(',')
+                            .map(|id| id.trim().to_string())
+                            .filter(|id| !id.is_empty()),
+                    );
                 }
                 _ => params.unknown.push(param.to_string()),
             }
-- 
2.43.0


From 215a2f7ae70a380202513a8c881ed93093a99d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 12/21] fix: reject rid attributes whose pt parameter isn't the
 first one

Such a parameter was kept as an unknown one and skipped the payload type checks,
but was printed in front, where it is a payload type restriction.
---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 9b4c6d0..c3f8ea6 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2976,6 +2976,11 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                             .filter(|id| !id.is_empty()),
                     );
                 }
+                "pt" => {
+                    return Err(SdpParserInternalError::Generic(
+                        "The rid parameter 'pt' must be the first parameter".to_string(),
+                    ));
+                }
                 _ => params.unknown.push(param.to_string()),
             }
         }
-- 
2.43.0


From 521c030026bfacbcd8fd73c3864f79a95cf76889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 13/21] fix: reject simulcast attributes with invalid ids

Empty ids and ids with '=' were printed in a way that can't be parsed again.
---
 src/attribute_type.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index c3f8ea6..daaf1b6 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -3324,22 +3324,28 @@ fn parse_simulcast_version_list(
     let make_version_list = |to_parse: &str| {
         to_parse
             .split(';')
-            .map(SdpAttributeSimulcastVersion::new)
+            .map(|idlist| {
+                let version = SdpAttributeSimulcastVersion::new(idlist);
+                if version.ids.iter().any(|x| x.id.is_empty() || x.id.contains('=')) {
+                    return Err(SdpParserInternalError::Generic(
+                        "Simulcast attribute has an invalid rid id".to_string(),
+                    ));
+                }
+                Ok(version)
+            })
             .collect()
     };
     if to_parse.contains('=') {
         let mut descriptor_versionlist_pair = to_parse.splitn(2, '=');
         match descriptor_versionlist_pair.next().unwrap() {
             // TODO Bug 1470568
-            "rid" => Ok(make_version_list(
-                descriptor_versionlist_pair.next().unwrap(),
-            )),
+            "rid" => make_version_list(descriptor_versionlist_pair.next().unwrap()),
             descriptor => Err(SdpParserInternalError::Generic(format!(
                 "Simulcast attribute has unknown list descriptor '{descriptor:?}'"
             ))),
         }
     } else {
-        Ok(make_version_list(to_parse))
+        make_version_list(to_parse)
     }
 }
 
-- 
2.43.0


From 7602d3b125d1c9b74919786a29abdfe4ce49af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 14/21] fix: return an error instead of panicking in
 parse_media_vector without lines

---
 src/media_type.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/media_type.rs b/src/media_type.rs
index 8103d94..3293b64 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -409,6 +409,13 @@ pub fn parse_media(value: &str) -> Result<SdpType, SdpParserInternalError> {
 pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, SdpParserError> {
     let mut media_sections: Vec<SdpMedia> = Vec::new();
 
+    if lines.is_empty() {
+        return Err(SdpParserError::Sequence {
+            message: "media section needs to have a media line".to_string(),
+            line_number: 0,
+        });
+    }
+
     let media_line = lines.remove(0);
     let mut sdp_media = match media_line.sdp_type {
         SdpType::Media(v) => SdpMedia::new(v),
-- 
2.43.0


From abe0979accff7588b1da23e25d4659e3de923536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 15/21] fix: don't move all remaining lines for every parsed
 line

Removing every line from the front of the vector took time quadratic in the
number of lines: over 7 s for 40000 lines.
---
 src/lib.rs        | 3 +--
 src/media_type.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef70528..b874c14 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -304,8 +304,7 @@ impl SdpSession {
     }
 
     pub fn parse_session_vector(&mut self, lines: &mut Vec<SdpLine>) -> Result<(), SdpParserError> {
-        while !lines.is_empty() {
-            let line = lines.remove(0);
+        for line in lines.drain(..) {
             match line.sdp_type {
                 SdpType::Attribute(a) => {
                     let _line_number = line.line_number;
diff --git a/src/media_type.rs b/src/media_type.rs
index 3293b64..98a90b5 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -427,8 +427,7 @@ pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, Sdp
         }
     };
 
-    while !lines.is_empty() {
-        let line = lines.remove(0);
+    for line in lines.drain(..) {
         let _line_number = line.line_number;
         match line.sdp_type {
             SdpType::Connection(c) => {
-- 
2.43.0


From 8da2e36229a6cb4f5e70c8826e43c3ccb70cf56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 16/21] fix: don't copy all remaining imageattr tokens for
 every set

This took time quadratic in the number of sets.
---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index daaf1b6..db64b61 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2681,7 +2681,7 @@ fn parse_image_attr_set_list<I>(
     tokens: &mut iter::Peekable<I>,
 ) -> Result<SdpAttributeImageAttrSetList, SdpParserInternalError>
 where
-    I: Iterator<Item = String> + Clone,
+    I: Iterator<Item = String>,
 {
     let parse_set = |set_token: &str| -> Result<SdpAttributeImageAttrSet, SdpParserInternalError> {
         parse_image_attr_set(parse_imagettr_braced_token(set_token).ok_or_else(|| {
@@ -2701,7 +2701,7 @@ where
         "*" => Ok(SdpAttributeImageAttrSetList::Wildcard),
         x => {
             let mut sets = vec![parse_set(x)?];
-            while let Some(set_str) = tokens.clone().peek() {
+            while let Some(set_str) = tokens.peek() {
                 if set_str.starts_with('[') {
                     sets.push(parse_set(&tokens.next().unwrap())?);
                 } else {
-- 
2.43.0


From 58259b317942caaf4e4a4b4ff66181ce16742420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 17/21] fix: look up rid payload types and simulcast ids in
 sets

Searching the vectors took time proportional to the product of their lengths.
---
 src/lib.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b874c14..eb10cf9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,7 @@ extern crate log;
 extern crate serde_derive;
 #[cfg(feature = "serialize")]
 extern crate serde;
+use std::collections::HashSet;
 use std::convert::TryFrom;
 use std::fmt;
 
@@ -708,14 +709,14 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
                 _ => None,
             })
             .collect();
-        let recv_rids: Vec<&str> = rids
+        let recv_rids: HashSet<&str> = rids
             .iter()
             .filter_map(|rid| match rid.direction {
                 SdpSingleDirection::Recv => Some(rid.id.as_str()),
                 _ => None,
             })
             .collect();
-        let send_rids: Vec<&str> = rids
+        let send_rids: HashSet<&str> = rids
             .iter()
             .filter_map(|rid| match rid.direction {
                 SdpSingleDirection::Send => Some(rid.id.as_str()),
@@ -723,22 +724,17 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             })
             .collect();
 
+        let declared_formats: HashSet<String> = match *msection.get_formats() {
+            SdpFormatList::Integers(ref int_fmt) => {
+                int_fmt.iter().map(ToString::to_string).collect()
+            }
+            SdpFormatList::Strings(ref str_fmt) => str_fmt.iter().cloned().collect(),
+        };
         for rid_format in rids.iter().flat_map(|rid| &rid.formats) {
-            match *msection.get_formats() {
-                SdpFormatList::Integers(ref int_fmt) => {
-                    if !int_fmt.contains(&(u32::from(*rid_format))) {
-                        return Err(make_seq_error(
-                            "Rid pts must be declared in the media section",
-                        ));
-                    }
-                }
-                SdpFormatList::Strings(ref str_fmt) => {
-                    if !str_fmt.contains(&rid_format.to_string()) {
-                        return Err(make_seq_error(
-                            "Rid pts must be declared in the media section",
-                        ));
-                    }
-                }
+            if !declared_formats.contains(&rid_format.to_string()) {
+                return Err(make_seq_error(
+                    "Rid pts must be declared in the media section",
+                ));
             }
         }
 
@@ -747,10 +743,10 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-                 rid_ids: &[&str]|
+                 rid_ids: &HashSet<&str>|
                  -> Result<(), SdpParserError> {
                     for simulcast_rid in simulcast_version_list.iter().flat_map(|x| &x.ids) {
-                        if !rid_ids.contains(&simulcast_rid.id.as_str()) {
+                        if !rid_ids.contains(simulcast_rid.id.as_str()) {
                             return Err(make_seq_error(
                                 "Simulcast RIDs must be defined in any rid attribute",
                             ));
-- 
2.43.0


From 69301a571b07ad5f8bd9f66238fab531915c32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 18/21] fix: reject '+' in the octets of fingerprints

u8::from_str_radix() accepts a leading '+', so that '+A' was read as 0A.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index db64b61..52b1fe5 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -781,7 +781,7 @@ impl SdpAttributeFingerprintHashType {
         let bytes = octets_string
             .split(':')
             .map(|byte_token| {
-                if byte_token.len() != 2 {
+                if byte_token.len() != 2 || byte_token.starts_with('+') {
                     return Err(SdpParserInternalError::Generic(
                         "fingerpint's byte tokens must have 2 hexdigits".to_string(),
                     ));
-- 
2.43.0


From 76edb6e23c0c4dc17fa9859392ffdedd87662792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 19/21] fix: mask the cname of ssrc attributes with extra
 whitespace

In 'ssrc:1  cname:foo' the attribute name is ' cname', whose value wasn't masked.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 52b1fe5..395e314 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -1267,7 +1267,7 @@ impl AnonymizingClone for SdpAttributeSsrc {
             id: self.id,
             attribute: self.attribute.clone(),
             value: self.attribute.as_ref().and_then(|attribute| {
-                match (attribute.to_lowercase().as_str(), &self.value) {
+                match (attribute.trim().to_lowercase().as_str(), &self.value) {
                     ("cname", Some(ref cname)) => Some(anon.mask_cname(cname.as_str())),
                     (_, Some(_)) => self.value.clone(),
                     (_, None) => None,
-- 
2.43.0


From 6499a525e73084ebfba31ad6391b60107e16a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 20/21] fix: reject NaN and infinite numbers in imageattr
 attributes

They aren't numbers of the imageattr grammar, and NaN passed the checks that
ranges and lists are ascending.
---
 src/attribute_type.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 395e314..460de74 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2557,6 +2557,16 @@ fn parse_image_attr_xyrange(
     }
 }
 
+fn parse_imageattr_float(to_parse: &str) -> Result<f32, SdpParserInternalError> {
+    let value = to_parse.parse::<f32>()?;
+    if !value.is_finite() {
+        return Err(SdpParserInternalError::Generic(
+            "imageattr's sar, par and q values must be finite numbers".to_string(),
+        ));
+    }
+    Ok(value)
+}
+
 fn parse_image_attr_set(
     to_parse: &str,
 ) -> Result<SdpAttributeImageAttrSet, SdpParserInternalError> {
@@ -2595,8 +2605,8 @@ fn parse_image_attr_set(
             ));
         }
 
-        let min = minmax_pair[0].parse::<f32>()?;
-        let max = minmax_pair[1].parse::<f32>()?;
+        let min = parse_imageattr_float(minmax_pair[0])?;
+        let max = parse_imageattr_float(minmax_pair[1])?;
 
         if min >= max {
             return Err(SdpParserInternalError::Generic(
@@ -2624,7 +2634,7 @@ fn parse_image_attr_set(
                     // Discrete values
                     let values = sar_values
                         .split(',')
-                        .map(str::parse::<f32>)
+                        .map(parse_imageattr_float)
                         .collect::<Result<Vec<f32>, _>>()?;
 
                     if values.len() < 2 {
@@ -2649,7 +2659,7 @@ fn parse_image_attr_set(
                 }
             } else {
                 sar = Some(SdpAttributeImageAttrSRange::DiscreteValues(vec![
-                    value_token.parse::<f32>()?,
+                    parse_imageattr_float(value_token)?,
                 ]))
             }
         } else if let Some(braced_value_token) = current_token.strip_prefix("par=") {
@@ -2670,7 +2680,7 @@ fn parse_image_attr_set(
                 max: range.1,
             })
         } else if let Some(qval) = current_token.strip_prefix("q=") {
-            q = Some(qval.parse::<f32>()?);
+            q = Some(parse_imageattr_float(qval)?);
         }
     }
 
-- 
2.43.0


From 7de20d367434c67ce2125cb7fdc23d1bd43d4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 21/21] fix: report the actual line number of a misplaced
 first, second or third line

---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index eb10cf9..7b9271b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -771,30 +771,33 @@ fn parse_sdp_vector(lines: &mut Vec<SdpLine>) -> Result<SdpSession, SdpParserErr
         });
     }
 
-    let version = match lines.remove(0).sdp_type {
+    let version_line = lines.remove(0);
+    let version = match version_line.sdp_type {
         SdpType::Version(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "first line needs to be version number".to_string(),
-                line_number: 0,
+                line_number: version_line.line_number,
             });
         }
     };
-    let origin = match lines.remove(0).sdp_type {
+    let origin_line = lines.remove(0);
+    let origin = match origin_line.sdp_type {
         SdpType::Origin(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "second line needs to be origin".to_string(),
-                line_number: 1,
+                line_number: origin_line.line_number,
             });
         }
     };
-    let session = match lines.remove(0).sdp_type {
+    let session_line = lines.remove(0);
+    let session = match session_line.sdp_type {
         SdpType::Session(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "third line needs to be session".to_string(),
-                line_number: 2,
+                line_number: session_line.line_number,
             });
         }
     };
-- 
2.43.0

