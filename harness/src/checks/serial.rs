//! C23: the serialized form mirrors the content.
//!
//! "text":   whatever a text decodes to, or the error it gives
//! "line":   the same for single lines
//! "value":  sections, attributes and addresses put together here
//! "error":  errors with arbitrary texts and numbers
//!
//! The expected form is computed from the public fields; the real one is taken
//! twice, as a serde_json value and as JSON text read again. A further
//! serializer checks that announced lengths are right, which the compact
//! formats depend on.
use super::common::*;
use crate::conv;
use crate::gen;
use crate::kinds::KINDS;
use crate::mutate;
use crate::render::Style;
use crate::rng::Rng;
use crate::run::*;
use crate::val::{new, V};
use serde::ser::{self, Serialize};
use serde_json::{json, Value};
use std::str::FromStr;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession, SdpType};

// ----------------------------------------- announced and actual lengths

#[derive(Debug)]
struct Wrong(String);
impl std::fmt::Display for Wrong {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Wrong {}
impl ser::Error for Wrong {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Wrong(m.to_string())
    }
}
#[derive(Clone, Copy)]
struct Lengths;
struct Open {
    said: Option<usize>,
    got: usize,
    what: &'static str,
    names: Vec<&'static str>,
}
impl Open {
    fn new(said: Option<usize>, what: &'static str) -> Result<Open, Wrong> {
        Ok(Open { said, got: 0, what, names: vec![] })
    }
    fn add<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.got += 1;
        x.serialize(Lengths)
    }
    fn field<T: ?Sized + Serialize>(&mut self, n: &'static str, x: &T) -> Result<(), Wrong> {
        if self.names.contains(&n) {
            return Err(Wrong(format!("{} has the field {n} twice", self.what)));
        }
        self.names.push(n);
        self.add(x)
    }
    fn close(self) -> Result<(), Wrong> {
        match self.said {
            Some(n) if n != self.got => Err(Wrong(format!(
                "{} announces {n} parts and has {}",
                self.what, self.got
            ))),
            _ => Ok(()),
        }
    }
}
macro_rules! leaf {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Wrong> { Ok(()) })* };
}
impl ser::Serializer for Lengths {
    type Ok = ();
    type Error = Wrong;
    type SerializeSeq = Open;
    type SerializeTuple = Open;
    type SerializeTupleStruct = Open;
    type SerializeTupleVariant = Open;
    type SerializeMap = Open;
    type SerializeStruct = Open;
    type SerializeStructVariant = Open;
    leaf!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
          serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64,
          serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str,
          serialize_bytes &[u8]);
    fn serialize_none(self) -> Result<(), Wrong> {
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<(), Wrong> {
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Wrong> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Wrong> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Wrong> {
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<(), Wrong> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, x: &T) -> Result<(), Wrong> {
        x.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Open, Wrong> {
        Open::new(n, "a list")
    }
    fn serialize_tuple(self, n: usize) -> Result<Open, Wrong> {
        Open::new(Some(n), "a tuple")
    }
    fn serialize_tuple_struct(self, w: &'static str, n: usize) -> Result<Open, Wrong> {
        Open::new(Some(n), w)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, w: &'static str, n: usize) -> Result<Open, Wrong> {
        Open::new(Some(n), w)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Open, Wrong> {
        Open::new(n, "a map")
    }
    fn serialize_struct(self, w: &'static str, n: usize) -> Result<Open, Wrong> {
        Open::new(Some(n), w)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, w: &'static str, n: usize) -> Result<Open, Wrong> {
        Open::new(Some(n), w)
    }
}
impl ser::SerializeSeq for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.add(x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}
impl ser::SerializeTuple for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.add(x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}
impl ser::SerializeTupleStruct for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.add(x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}
impl ser::SerializeTupleVariant for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.add(x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}
impl ser::SerializeMap for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        x.serialize(Lengths)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.add(x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}
impl ser::SerializeStruct for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, x: &T) -> Result<(), Wrong> {
        self.field(n, x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}
impl ser::SerializeStructVariant for Open {
    type Ok = ();
    type Error = Wrong;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, x: &T) -> Result<(), Wrong> {
        self.field(n, x)
    }
    fn end(self) -> Result<(), Wrong> {
        self.close()
    }
}

// --------------------------------------------------------------- compare

/// The first place where two JSON values differ. `floats`: numbers that are
/// equal as 32-bit floats do not count.
fn differ(path: &str, a: &Value, b: &Value, floats: bool) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{path} should not have {k:?}")),
                    Some(w) => {
                        if let Some(d) = differ(&format!("{path}/{k}"), v, w, floats) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys()
                .find(|k| !x.contains_key(*k))
                .map(|k| format!("{path} lacks {k:?}"))
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if let Some(d) = differ(&format!("{path}/{i}"), v, w, floats) {
                    return Some(d);
                }
            }
            (x.len() != y.len()).then(|| format!("{path} has {} parts, not {}", x.len(), y.len()))
        }
        (Value::Number(x), Value::Number(y)) if floats && (x.is_f64() || y.is_f64()) => {
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            (x as f32 != y as f32).then(|| format!("{path} is {x}, not {y}"))
        }
        _ => (a != b).then(|| format!("{path} is {a}, not {b}")),
    }
}

fn mirror<T: Serialize>(cx: &mut Ctx, what: &'static str, x: &T, want: &Value) -> Verdict {
    let e = |m: String| format!("{what}, serialized: {m}");
    let got = serde_json::to_value(x).map_err(|m| e(m.to_string()))?;
    if let Some(d) = differ("", &got, want, false) {
        return Err(e(d));
    }
    let text = serde_json::to_string(x).map_err(|m| e(m.to_string()))?;
    let again: Value = serde_json::from_str(&text).map_err(|m| e(m.to_string()))?;
    if let Some(d) = differ("", &again, want, true) {
        return Err(e(format!("as JSON text: {d}")));
    }
    x.serialize(Lengths).map_err(|m| e(m.to_string()))?;
    cx.saw(what);
    Ok(())
}

fn error_form(e: &SdpParserError) -> Value {
    match e {
        SdpParserError::Line { error, line, line_number } => json!({
            "type": "Line", "message": error.to_string(), "line": line, "line_number": line_number
        }),
        SdpParserError::Unsupported { error, line, line_number } => json!({
            "type": "Unsupported", "message": error.to_string(), "line": line, "line_number": line_number
        }),
        SdpParserError::Sequence { message, line_number } => json!({
            "type": "Sequence", "message": message, "line_number": line_number
        }),
    }
}
fn error(cx: &mut Ctx, e: &SdpParserError) -> Verdict {
    let want = error_form(e);
    // the form must show what a reader of the error is told
    let text = e.to_string();
    for k in ["message", "line"] {
        if let Some(p) = want.get(k).and_then(Value::as_str) {
            if !text.contains(p) {
                return Err(format!("an error with the {k} {p:?} says only {text:?}"));
            }
        }
    }
    mirror(
        cx,
        match e {
            SdpParserError::Line { .. } => "line errors",
            SdpParserError::Unsupported { .. } => "unsupported errors",
            SdpParserError::Sequence { .. } => "sequence errors",
        },
        e,
        &want,
    )
}
fn session(cx: &mut Ctx, x: &SdpSession, tree: &V) -> Verdict {
    let mut want = tree.json();
    let w: Vec<Value> = x.warnings.iter().map(error_form).collect();
    want.as_object_mut()
        .expect("harness: object")
        .insert("warnings".into(), Value::Array(w));
    mirror(cx, "sessions", x, &want)?;
    for w in &x.warnings {
        error(cx, w)?;
    }
    mirror(cx, "origins", &x.origin, &tree.get("origin").json())?;
    mirror(cx, "connections", &x.connection, &tree.get("connection").json())?;
    mirror(cx, "times", &x.timing, &tree.get("timing").json())?;
    mirror(cx, "bandwidth lists", &x.bandwidth, &tree.get("bandwidth").json())?;
    for m in &x.media {
        mirror(cx, "sections", m, &conv::media(m).json())?;
    }
    for a in x.attribute.iter().chain(x.media.iter().flat_map(|m| m.get_attributes())) {
        mirror(cx, "attributes", a, &conv::attr(a).json())?;
    }
    Ok(())
}

fn text(cx: &mut Ctx, t: &str) -> Verdict {
    match parse_sdp(t, false) {
        Ok(x) => {
            cx.interesting();
            let tree = conv::session(&x);
            session(cx, &x, &tree)
        }
        Err(e) => {
            cx.interesting();
            error(cx, &e)
        }
    }
}
fn line(cx: &mut Ctx, t: &str, number: usize) -> Verdict {
    match parse_sdp_line(t, number) {
        Ok(l) => {
            cx.interesting();
            // (what is in the line; the line itself has no public form)
            match &l.sdp_type {
                SdpType::Attribute(a) => mirror(cx, "attributes", a, &conv::attr(a).json()),
                SdpType::Bandwidth(a) => mirror(cx, "bandwidths", a, &conv::bandwidth(a).json()),
                SdpType::Connection(a) => {
                    mirror(cx, "connections", a, &conv::connection(a).json())?;
                    mirror(cx, "addresses", &a.address, &conv::typed(&a.address).json())
                }
                SdpType::Media(a) => mirror(cx, "media lines", a, &conv::media_line(a).json()),
                SdpType::Origin(a) => mirror(cx, "origins", a, &conv::origin(a).json()),
                SdpType::Timing(a) => mirror(cx, "times", a, &conv::timing(a).json()),
                SdpType::Session(_) | SdpType::Version(_) => Ok(()),
            }
        }
        Err(e) => {
            cx.interesting();
            error(cx, &e)
        }
    }
}

/// One value changed somewhere: another form.
fn value(cx: &mut Ctx, r: &mut Rng) -> Verdict {
    cx.interesting();
    match r.n(6) {
        0 => {
            let v = gen::session(r, gen::SMALL);
            let Ok(x) = conv::to_session(&v) else { return Ok(()) };
            same("a session put together", &conv::session(&x), &v)?;
            session(cx, &x, &v)
        }
        1 => {
            let v = gen::address(r);
            let x = conv::to_address(&v);
            mirror(cx, "addresses", &x, &v.json())
        }
        2 => {
            let v = gen::typed(r);
            let x = conv::to_typed(&v);
            mirror(cx, "typed addresses", &x, &v.json())
        }
        _ => {
            let k = r.pick(KINDS);
            let v = gen::attr(r, k.tag);
            let x = conv::to_attr(&v);
            if conv::attr(&x) != v {
                panic!("harness: {v:?} is built as {:?}", conv::attr(&x));
            }
            mirror(cx, "attributes", &x, &v.json())?;
            // another one of the kind
            let w = gen::attr(r, k.tag);
            let y = conv::to_attr(&w);
            let (a, b) = (serde_json::to_string(&x), serde_json::to_string(&y));
            if v != w && a.ok() == b.ok() {
                return Err(format!("{} and {} have the same form", crate::val::short(&v), crate::val::short(&w)));
            }
            Ok(())
        }
    }
}

fn some_text(r: &mut Rng) -> String {
    match r.n(6) {
        0 => String::new(),
        1 => mutate::soup(r),
        2 => r.pick_s(&["\"", "\\", "\0", "\u{7f}", "a\r\nb", "é\u{10ffff}", "</script>", "null", "{}", "line_number", "%s"]),
        _ => any_line(r),
    }
}
fn some_number(r: &mut Rng) -> usize {
    match r.n(4) {
        0 => 0,
        1 => usize::MAX,
        2 => r.u64() as usize,
        _ => r.n(1000),
    }
}
fn made_error(r: &mut Rng) -> SdpParserError {
    let line = some_text(r);
    let line_number = some_number(r);
    let error = match r.n(7) {
        0 => SdpParserInternalError::Generic(some_text(r)),
        1 => SdpParserInternalError::Unsupported(some_text(r)),
        2 => "x".parse::<u8>().map_err(SdpParserInternalError::from).expect_err("harness"),
        3 => "x".parse::<f32>().map_err(SdpParserInternalError::from).expect_err("harness"),
        4 => "x".parse::<std::net::IpAddr>().map_err(SdpParserInternalError::from).expect_err("harness"),
        5 => webrtc_sdp::address::Address::from_str("").expect_err("harness"),
        _ => webrtc_sdp::address::AddressType::from_str(&format!("x{}", some_text(r))).expect_err("harness"),
    };
    match r.n(3) {
        0 => SdpParserError::Line { error, line, line_number },
        1 => SdpParserError::Unsupported { error, line, line_number },
        _ => SdpParserError::Sequence { message: line, line_number },
    }
}

fn eval(cx: &mut Ctx, c: &Case) -> Verdict {
    match c.mode {
        "text" => text(cx, &c.text[0]),
        "line" => line(cx, &c.text[0], c.seed as usize),
        "value" => value(cx, &mut Rng::new(c.seed)),
        _ => {
            cx.interesting();
            error(cx, &made_error(&mut Rng::new(c.seed)))
        }
    }
}
fn fixed() -> Vec<Case> {
    let all = sweep(false);
    crate::corpus::all().iter().chain(&all).chain(&little()).chain(&crowds(&[36, 300])).map(|t| Case::one("text", t)).collect()
}
fn gen_case(r: &mut Rng) -> Case {
    match r.n(10) {
        0..=3 => {
            let n = few(r);
            Case::one("text", &odd_text(r, n))
        }
        4 | 5 => {
            let l = match r.n(3) {
                0 => any_line(r),
                _ => {
                    let k = r.pick(KINDS);
                    let a = gen::attr(r, k.tag);
                    line_of(r, Style::default(), &new("Attribute", a))
                }
            };
            let l = if r.chance(1, 3) { mutate::some(r, &l) } else { l };
            Case { seed: some_number(r) as u64, ..Case::one("line", &l) }
        }
        6..=8 => Case::seeded("value", r.u64()),
        _ => Case::seeded("error", r.u64()),
    }
}

pub fn defs() -> Vec<Def> {
    vec![Def {
        id: "C23",
        rule: "sessions, lines and errors from valid and damaged texts, values and errors put together at random; the serialized form (as a serde_json value, as JSON text read again, and through a serializer that checks announced lengths) must be the one computed from the public fields; non-trivial: all",
        assumptions: &["serde and serde_json are right"],
        fixed,
        gen: gen_case,
        eval,
        quick: 500_000,
        floors: &[
            ("sessions", 50_000),
            ("sections", 50_000),
            ("attributes", 200_000),
            ("addresses", 5_000),
            ("typed addresses", 5_000),
            ("line errors", 10_000),
            ("unsupported errors", 10_000),
            ("sequence errors", 5_000),
        ],
        log: log::LevelFilter::Off,
        threads: THREADS,
    }]
}
