//! Everything that is observable about a text, as short digests.
use crate::conv;
use crate::rng::hash_str;
use std::panic::{catch_unwind, AssertUnwindSafe};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession};

pub fn error(e: &SdpParserError) -> String {
    let (kind, line, number) = match e {
        SdpParserError::Line { line, line_number, .. } => ("line", line.as_str(), *line_number),
        SdpParserError::Unsupported { line, line_number, .. } => ("unsupported", line.as_str(), *line_number),
        SdpParserError::Sequence { line_number, .. } => ("sequence", "", *line_number),
    };
    format!("{kind} {number} {line:?} {e}")
}
fn masked(x: &SdpSession) -> String {
    let mut a = StatefulSdpAnonymizer::new();
    let y = x.masked_clone(&mut a);
    // again, with what the anonymizer knows now
    let z = x.masked_clone(&mut a);
    format!("{:?} {y} {z}", conv::session(&y))
}
/// What comes of using a session without changing it.
pub fn used(x: &SdpSession) -> String {
    format!("{} {:?} {}", x, conv::session(&x.clone()), masked(x))
}

/// Name and content of every observable part.
pub fn pieces(text: &str) -> Vec<(&'static str, String)> {
    let got = catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![];
        match parse_sdp(text, false) {
            Ok(x) => {
                v.push(("verdict", "accepted".to_string()));
                v.push(("content", format!("{:?}", conv::session(&x))));
                let w: Vec<String> = x.warnings.iter().map(error).collect();
                v.push(("warnings", w.join("\n")));
                v.push(("printed", x.to_string()));
                v.push(("anonymized", masked(&x)));
            }
            Err(e) => {
                v.push(("verdict", "refused".to_string()));
                v.push(("error", error(&e)));
            }
        }
        v.push((
            "strict",
            match parse_sdp(text, true) {
                Ok(x) => format!("{:?} {}", conv::session(&x), x.warnings.len()),
                Err(e) => error(&e),
            },
        ));
        let mut l = String::new();
        for (i, line) in text.lines().enumerate() {
            match parse_sdp_line(line, i) {
                Ok(x) => l.push_str(&format!("{} {:?}\n", x.line_number, conv::sdp_type(&x.sdp_type))),
                Err(e) => l.push_str(&error(&e)),
            }
        }
        v.push(("lines", l));
        v
    }));
    got.unwrap_or_else(|_| vec![("verdict", "panicked".to_string())])
}
/// One line of digests.
pub fn line(text: &str) -> String {
    let p: Vec<String> = pieces(text)
        .iter()
        .map(|(n, t)| {
            if *n == "verdict" {
                format!("verdict:{t}")
            } else {
                format!("{n}:{:016x}", hash_str(t))
            }
        })
        .collect();
    p.join(" ")
}
/// The first part in which two lines of digests differ.
pub fn differ(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(0);
    let name = x[i].split(':').next().unwrap_or("?");
    Some(if name == "verdict" {
        format!("{} in one and {} in the other", x[i], y[i])
    } else {
        format!("its \"{name}\" differs")
    })
}

/// Lets a value cross threads whether or not its type may: the monitors build
/// either way, and whether it may is what C22 looks at.
pub struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}
impl<T> Carry<T> {
    pub fn new(x: T) -> Self {
        Carry(x)
    }
    pub fn get(&self) -> &T {
        &self.0
    }
}
