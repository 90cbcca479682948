//! A plain value tree that mirrors the public data types of the library field
//! by field. Everything the monitors compare is compared in this form, so that
//! no comparison relies on code of the library (which has no PartialEq for
//! most types anyway).
use serde_json::{json, Map, Value};

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum V {
    Null,
    B(bool),
    U(u64),
    /// bit patterns, so that comparison is exact and total
    F32(u32),
    F64(u64),
    S(String),
    /// a list
    L(Vec<V>),
    /// a struct
    M(Vec<(&'static str, V)>),
    /// unit, newtype, tuple and struct variants of an enum
    Unit(&'static str),
    New(&'static str, Box<V>),
    Tup(&'static str, Vec<V>),
    St(&'static str, Vec<(&'static str, V)>),
}

pub fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn u<T: Into<u64>>(x: T) -> V {
    V::U(x.into())
}
pub fn f32v(x: f32) -> V {
    V::F32(x.to_bits())
}
pub fn f64v(x: f64) -> V {
    V::F64(x.to_bits())
}
pub fn new(n: &'static str, v: V) -> V {
    V::New(n, Box::new(v))
}
pub fn opt<T, F: FnOnce(T) -> V>(o: Option<T>, f: F) -> V {
    match o {
        None => V::Null,
        Some(x) => f(x),
    }
}

impl V {
    pub fn get(&self, name: &str) -> &V {
        match self {
            V::M(f) | V::St(_, f) => f
                .iter()
                .find(|(n, _)| *n == name)
                .map(|(_, v)| v)
                .unwrap_or_else(|| panic!("harness: no field {name} in {self:?}")),
            _ => panic!("harness: no struct: {self:?}"),
        }
    }
    pub fn get_mut(&mut self, name: &str) -> &mut V {
        match self {
            V::M(f) | V::St(_, f) => f
                .iter_mut()
                .find(|(n, _)| *n == name)
                .map(|(_, v)| v)
                .unwrap_or_else(|| panic!("harness: no field {name}")),
            _ => panic!("harness: no struct: {self:?}"),
        }
    }
    pub fn set(&mut self, name: &str, v: V) {
        *self.get_mut(name) = v;
    }
    pub fn list(&self) -> &Vec<V> {
        match self {
            V::L(l) => l,
            _ => panic!("harness: no list: {self:?}"),
        }
    }
    pub fn list_mut(&mut self) -> &mut Vec<V> {
        match self {
            V::L(l) => l,
            _ => panic!("harness: no list"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::S(x) => x,
            _ => panic!("harness: no string: {self:?}"),
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            V::U(x) => *x,
            _ => panic!("harness: no number: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            V::B(x) => *x,
            _ => panic!("harness: no bool: {self:?}"),
        }
    }
    pub fn f32(&self) -> f32 {
        match self {
            V::F32(x) => f32::from_bits(*x),
            _ => panic!("harness: no f32: {self:?}"),
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
    /// name of the enum variant
    pub fn tag(&self) -> &'static str {
        match self {
            V::Unit(n) | V::New(n, _) | V::Tup(n, _) | V::St(n, _) => n,
            _ => panic!("harness: no variant: {self:?}"),
        }
    }
    /// payload of a newtype variant
    pub fn inner(&self) -> &V {
        match self {
            V::New(_, v) => v,
            _ => panic!("harness: no newtype variant: {self:?}"),
        }
    }
    pub fn inner_mut(&mut self) -> &mut V {
        match self {
            V::New(_, v) => v,
            _ => panic!("harness: no newtype variant"),
        }
    }
    pub fn tup(&self) -> &Vec<V> {
        match self {
            V::Tup(_, v) => v,
            _ => panic!("harness: no tuple variant: {self:?}"),
        }
    }

    /// The first place where two trees differ: (path, left, right).
    pub fn diff(&self, o: &V) -> Option<(String, String, String)> {
        fn go(path: &mut String, a: &V, b: &V) -> Option<(String, String, String)> {
            let leaf = |path: &String| Some((path.clone(), short(a), short(b)));
            match (a, b) {
                (V::L(x), V::L(y)) => {
                    for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                        let l = path.len();
                        path.push_str(&format!("[{i}]"));
                        if let Some(d) = go(path, p, q) {
                            return Some(d);
                        }
                        path.truncate(l);
                    }
                    if x.len() != y.len() {
                        return Some((
                            format!("{path}.len"),
                            format!("{} ({})", x.len(), short(a)),
                            format!("{} ({})", y.len(), short(b)),
                        ));
                    }
                    None
                }
                (V::M(x), V::M(y)) => fields(path, x, y).unwrap_or_else(|| leaf(path)),
                (V::St(m, x), V::St(n, y)) if m == n => {
                    fields(path, x, y).unwrap_or_else(|| leaf(path))
                }
                (V::New(m, x), V::New(n, y)) if m == n => {
                    path.push('.');
                    path.push_str(m);
                    go(path, x, y)
                }
                (V::Tup(m, x), V::Tup(n, y)) if m == n && x.len() == y.len() => {
                    for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                        let l = path.len();
                        path.push_str(&format!(".{m}.{i}"));
                        if let Some(d) = go(path, p, q) {
                            return Some(d);
                        }
                        path.truncate(l);
                    }
                    None
                }
                _ if a == b => None,
                _ => leaf(path),
            }
        }
        #[allow(clippy::type_complexity)]
        fn fields(
            path: &mut String,
            x: &[(&'static str, V)],
            y: &[(&'static str, V)],
        ) -> Option<Option<(String, String, String)>> {
            if x.len() != y.len() || x.iter().zip(y).any(|(p, q)| p.0 != q.0) {
                return None;
            }
            for (p, q) in x.iter().zip(y) {
                let l = path.len();
                path.push('.');
                path.push_str(p.0);
                if let Some(d) = go(path, &p.1, &q.1) {
                    return Some(Some(d));
                }
                path.truncate(l);
            }
            Some(None)
        }
        let mut path = String::new();
        go(&mut path, self, o)
    }

    /// What serde must produce for the value in a human-readable format.
    pub fn json(&self) -> Value {
        fn map(f: &[(&'static str, V)]) -> Value {
            let mut m = Map::new();
            for (n, v) in f {
                m.insert((*n).to_string(), v.json());
            }
            Value::Object(m)
        }
        fn one(n: &str, v: Value) -> Value {
            let mut m = Map::new();
            m.insert(n.to_string(), v);
            Value::Object(m)
        }
        match self {
            V::Null => Value::Null,
            V::B(b) => json!(b),
            V::U(x) => json!(x),
            V::F32(x) => json!(f32::from_bits(*x)),
            V::F64(x) => json!(f64::from_bits(*x)),
            V::S(x) => json!(x),
            V::L(l) => Value::Array(l.iter().map(V::json).collect()),
            V::M(f) => map(f),
            V::Unit(n) => json!(n),
            V::New(n, v) => one(n, v.json()),
            V::Tup(n, v) => one(n, Value::Array(v.iter().map(V::json).collect())),
            V::St(n, f) => one(n, map(f)),
        }
    }
}

pub fn short(v: &V) -> String {
    let t = format!("{v:?}");
    if t.chars().count() > 300 {
        let mut c: String = t.chars().take(300).collect();
        c.push('…');
        c
    } else {
        t
    }
}

pub fn show_diff(d: &(String, String, String)) -> String {
    format!("at {}: {} versus {}", if d.0.is_empty() { "(root)" } else { &d.0 }, d.1, d.2)
}
