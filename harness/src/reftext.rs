//! The independent reader of whole texts: lines, levels, cross-line rules,
//! warnings and the errors that may be reported.
use crate::kinds::kind;
use crate::refparse::{line, E};
use crate::val::{s, V};
use std::collections::BTreeSet;
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::SdpSession;

pub struct Line {
    pub no: usize,
    pub text: String,
    pub what: Result<V, E>,
}

/// The lines of a text that are not blank. Only "\n" and "\r\n" end a line.
pub fn lines(text: &str) -> Vec<Line> {
    let mut out = vec![];
    let mut pieces: Vec<&str> = text.split('\n').collect();
    let n = pieces.len();
    for (i, p) in pieces.iter_mut().enumerate() {
        // what follows the last line end is not ended by a line end itself
        if i + 1 < n {
            if let Some(x) = p.strip_suffix('\r') {
                *p = x;
            }
        }
    }
    for (no, p) in pieces.into_iter().enumerate() {
        if p.trim().is_empty() {
            continue;
        }
        out.push(Line {
            no,
            text: p.to_string(),
            what: line(p),
        });
    }
    out
}

#[derive(Debug, Clone)]
pub enum Expect {
    /// accepted with this content
    Ok(V),
    /// an error about a line, a warning turned into an error
    Line(usize, String),
    Unsup(usize, String),
    /// one of these line numbers
    Sequence(BTreeSet<usize>),
    /// too short to hold a session: any error about the text
    Short,
    /// the grammar does not decide (a line that is malformed and unsupported)
    Open,
}

pub struct Outcome {
    pub lenient: Expect,
    pub strict: Expect,
    pub warnings: Vec<(usize, String)>,
}

pub struct Assembled {
    pub session: V,
    pub bad: BTreeSet<usize>,
}

/// Puts parsed lines in their places and collects every violated rule.
pub fn assemble(items: &[(usize, V)]) -> Assembled {
    let mut bad = BTreeSet::new();
    let mut session = V::M(vec![
        ("version", V::U(0)),
        ("origin", V::Null),
        ("session", V::Null),
        ("connection", V::Null),
        ("bandwidth", V::L(vec![])),
        ("timing", V::Null),
        ("attribute", V::L(vec![])),
        ("media", V::L(vec![])),
    ]);
    if items.len() < 4 {
        bad.insert(0);
    }
    for (i, want) in ["Version", "Origin", "Session"].iter().enumerate() {
        match items.get(i) {
            Some((_, v)) if v.tag() == *want => match *want {
                "Version" => session.set("version", v.inner().clone()),
                "Origin" => session.set("origin", v.inner().clone()),
                _ => {
                    let t = v.inner().str().trim();
                    if !t.is_empty() {
                        session.set("session", s(t));
                    }
                }
            },
            Some((no, _)) => {
                bad.insert(*no);
            }
            None => (),
        }
    }
    let mut sections: Vec<V> = vec![];
    for (no, v) in items.iter().skip(3) {
        let x = v.inner().clone();
        match v.tag() {
            "Media" => sections.push(V::M(vec![
                ("media", x),
                ("connection", V::Null),
                ("bandwidth", V::L(vec![])),
                ("attribute", V::L(vec![])),
            ])),
            "Version" | "Origin" | "Session" => {
                bad.insert(*no);
            }
            "Attribute" => {
                let k = kind(x.tag());
                match sections.last_mut() {
                    None if k.session => session.get_mut("attribute").list_mut().push(x),
                    Some(m) if k.media => m.get_mut("attribute").list_mut().push(x),
                    Some(_) if k.tag == "DtlsMessage" => (),
                    _ => {
                        bad.insert(*no);
                    }
                }
            }
            "Bandwidth" => sections
                .last_mut()
                .unwrap_or(&mut session)
                .get_mut("bandwidth")
                .list_mut()
                .push(x),
            "Connection" => match sections.last_mut() {
                None => session.set("connection", x),
                Some(m) if m.get("connection").is_null() => m.set("connection", x),
                Some(_) => {
                    bad.insert(*no);
                }
            },
            "Timing" => {
                if sections.is_empty() {
                    session.set("timing", x);
                } else {
                    bad.insert(*no);
                }
            }
            t => panic!("harness: line type {t}"),
        }
    }
    session.set("media", V::L(sections));
    if cross_rules(&session) {
        bad.insert(0);
    }
    Assembled { session, bad }
}

pub fn has(list: &V, tag: &str) -> bool {
    list.list().iter().any(|a| a.tag() == tag)
}

/// Is one of the rules that concern several lines violated?
pub fn cross_rules(x: &V) -> bool {
    let sections = x.get("media").list();
    if x.get("timing").is_null() {
        return true;
    }
    if x.get("connection").is_null() && sections.iter().any(|m| m.get("connection").is_null()) {
        return true;
    }
    if has(x.get("attribute"), "Extmap")
        && sections.iter().any(|m| has(m.get("attribute"), "Extmap"))
    {
        return true;
    }
    sections.iter().any(|m| {
        let at = m.get("attribute");
        if has(at, "RtcpMuxOnly") && !has(at, "RtcpMux") {
            return true;
        }
        let formats: Vec<String> = match m.get("media").get("formats") {
            V::New("Integers", l) => l.list().iter().map(|n| n.u64().to_string()).collect(),
            V::New(_, l) => l.list().iter().map(|n| n.str().to_string()).collect(),
            _ => vec![],
        };
        let rids: Vec<&V> = at
            .list()
            .iter()
            .filter(|a| a.tag() == "Rid")
            .map(V::inner)
            .collect();
        if rids.iter().any(|r| {
            r.get("formats")
                .list()
                .iter()
                .any(|f| !formats.contains(&f.u64().to_string()))
        }) {
            return true;
        }
        if let Some(sc) = at.list().iter().find(|a| a.tag() == "Simulcast") {
            for (field, dir) in [("send", "Send"), ("receive", "Recv")] {
                for v in sc.inner().get(field).list() {
                    for id in v.get("ids").list() {
                        if !rids.iter().any(|r| {
                            r.get("direction").tag() == dir && r.get("id") == id.get("id")
                        }) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    })
}

/// the shortest text that can hold a session has 29 bytes
pub const SHORTEST: usize = 29;

pub fn outcome(text: &str) -> Outcome {
    outcome_of(text, &lines(text))
}

pub fn outcome_of(text: &str, ls: &[Line]) -> Outcome {
    if text.len() < SHORTEST {
        return Outcome {
            lenient: Expect::Short,
            strict: Expect::Short,
            warnings: vec![],
        };
    }
    let open = ls.iter().any(|l| l.what == Err(E::Either));
    let warnings: Vec<(usize, String)> = ls
        .iter()
        .filter(|l| l.what == Err(E::Unsup))
        .map(|l| (l.no, l.text.clone()))
        .collect();
    let last_bad = ls
        .iter()
        .rev()
        .find(|l| l.what == Err(E::Bad))
        .map(|l| (l.no, l.text.clone()));
    let lenient = if open {
        Expect::Open
    } else if let Some((no, t)) = last_bad {
        Expect::Line(no, t)
    } else {
        let items: Vec<(usize, V)> = ls
            .iter()
            .filter_map(|l| l.what.as_ref().ok().map(|v| (l.no, v.clone())))
            .collect();
        let a = assemble(&items);
        if a.bad.is_empty() {
            Expect::Ok(a.session)
        } else {
            Expect::Sequence(a.bad)
        }
    };
    let strict = if open {
        Expect::Open
    } else if let Some((no, t)) = warnings.first() {
        Expect::Unsup(*no, t.clone())
    } else {
        lenient.clone()
    };
    Outcome {
        lenient,
        strict,
        warnings,
    }
}

pub fn describe_err(e: &SdpParserError) -> String {
    match e {
        SdpParserError::Line {
            line, line_number, ..
        } => format!("line error at {line_number} {line:?} ({e})"),
        SdpParserError::Unsupported {
            line, line_number, ..
        } => format!("unsupported at {line_number} {line:?} ({e})"),
        SdpParserError::Sequence { line_number, .. } => {
            format!("sequence error at {line_number} ({e})")
        }
    }
}

/// Which parts of an outcome are compared; every property looks at its own.
#[derive(Clone, Copy, Default)]
pub struct Look {
    pub content: bool,
    pub warnings: bool,
    /// kind, line number and text of an error
    pub position: bool,
}

pub enum Cmp {
    Agree,
    Open,
    Differ(String),
}

pub fn compare(got: &Result<SdpSession, SdpParserError>, want: &Expect, warn: &[(usize, String)], look: Look) -> Cmp {
    let d = |m: String| Cmp::Differ(m);
    match (got, want) {
        (_, Expect::Open) => Cmp::Open,
        (Ok(x), Expect::Ok(v)) => {
            if look.content {
                if let Some(df) = crate::conv::session(x).diff(v) {
                    return d(format!(
                        "parsed session differs from what the text says: {} (parsed versus written)",
                        crate::val::show_diff(&df)
                    ));
                }
            }
            if look.warnings {
                let got: Vec<(usize, String)> = x
                    .warnings
                    .iter()
                    .map(|w| match w {
                        SdpParserError::Unsupported {
                            line, line_number, ..
                        } => (*line_number, line.clone()),
                        e => (usize::MAX, format!("not a warning: {}", describe_err(e))),
                    })
                    .collect();
                if got != warn {
                    return d(format!("warnings {got:?} instead of {warn:?}"));
                }
            }
            Cmp::Agree
        }
        (Ok(_), w) => d(format!("accepted, but must be refused: {w:?}")),
        (Err(e), Expect::Ok(_)) => d(format!(
            "refused, but must be accepted: {}",
            describe_err(e)
        )),
        (Err(_), Expect::Short) => Cmp::Agree,
        (Err(e), w) => {
            if !look.position {
                return Cmp::Agree;
            }
            let ok = match (e, w) {
                (
                    SdpParserError::Line {
                        line, line_number, ..
                    },
                    Expect::Line(n, t),
                )
                | (
                    SdpParserError::Unsupported {
                        line, line_number, ..
                    },
                    Expect::Unsup(n, t),
                ) => line == t && line_number == n,
                (SdpParserError::Sequence { line_number, .. }, Expect::Sequence(b)) => {
                    b.contains(line_number)
                }
                _ => false,
            };
            if ok {
                Cmp::Agree
            } else {
                d(format!("{} instead of {w:?}", describe_err(e)))
            }
        }
    }
}
