//! Reference model of structured data: JSON text, version strings, self-addressing identifiers,
//! identifier prefixes. Shares nothing with the code under test.
use crate::refc;
use cesride::data::{Object, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    /// a float, as the text of its shortest decimal form
    Dec(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

fn quote(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Dec(d) => o.push_str(d),
            J::Str(x) => quote(x, o),
            J::Arr(a) => {
                o.push('[');
                for (i, e) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    quote(k, o);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::Str(x)) => x,
            _ => "",
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(m) = self {
            match m.iter_mut().find(|(n, _)| n == k) {
                Some(e) => e.1 = v,
                None => m.push((k.to_string(), v)),
            }
        }
    }
    pub fn remove(&mut self, k: &str) {
        if let J::Obj(m) = self {
            m.retain(|(n, _)| n != k);
        }
    }
    pub fn len(&self) -> usize {
        match self {
            J::Arr(a) => a.len(),
            J::Obj(m) => m.len(),
            J::Str(x) => x.len(),
            _ => 0,
        }
    }
    /// The library's own representation, built node by node.
    pub fn value(&self) -> Value {
        match self {
            J::Null => Value::Null,
            J::Bool(b) => Value::Boolean(*b),
            J::Int(i) => {
                if let Ok(n) = i64::try_from(*i) {
                    Value::from(n)
                } else {
                    Value::Number(cesride::data::Number::from(u64::try_from(*i).unwrap_or(u64::MAX)))
                }
            }
            J::Dec(d) => Value::from(d.parse::<f64>().unwrap()),
            J::Str(x) => Value::String(x.clone()),
            J::Arr(a) => Value::Array(a.iter().map(|e| e.value()).collect()),
            J::Obj(m) => {
                let mut o = Object::new();
                for (k, v) in m {
                    o.insert(k.clone(), v.value());
                }
                Value::Object(o)
            }
        }
    }
}

/// Does the library's value hold exactly this content, in this order?
pub fn same(j: &J, v: &Value) -> bool {
    match (j, v) {
        (J::Null, Value::Null) => true,
        (J::Bool(a), Value::Boolean(b)) => a == b,
        (J::Int(a), Value::Number(_)) => match v.to_i64() {
            Ok(n) => n as i128 == *a,
            Err(_) => *a > i64::MAX as i128 && v.to_json().map(|t| t == a.to_string()).unwrap_or(false),
        },
        (J::Dec(a), Value::Number(_)) => v.to_f64().map(|f| f.to_bits() == a.parse::<f64>().unwrap().to_bits()).unwrap_or(false),
        (J::Str(a), Value::String(b)) => a == b,
        (J::Arr(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (J::Obj(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().zip(b.iter()).all(|((k, x), (l, y))| k == l && same(x, y))
        }
        _ => false,
    }
}

/// Strict reader of the texts the reference writer produces (and of any compact JSON).
pub fn parse(t: &str) -> Option<J> {
    let b = t.as_bytes();
    let mut p = 0;
    let v = value(b, &mut p, 0)?;
    ws(b, &mut p);
    if p == b.len() {
        Some(v)
    } else {
        None
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}
fn value(b: &[u8], p: &mut usize, depth: usize) -> Option<J> {
    if depth > 120 {
        return None;
    }
    ws(b, p);
    match *b.get(*p)? {
        b'n' if b[*p..].starts_with(b"null") => {
            *p += 4;
            Some(J::Null)
        }
        b't' if b[*p..].starts_with(b"true") => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' if b[*p..].starts_with(b"false") => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'"' => Some(J::Str(string(b, p)?)),
        b'[' => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if b.get(*p) == Some(&b']') {
                *p += 1;
                return Some(J::Arr(a));
            }
            loop {
                a.push(value(b, p, depth + 1)?);
                ws(b, p);
                match b.get(*p)? {
                    b',' => *p += 1,
                    b']' => {
                        *p += 1;
                        return Some(J::Arr(a));
                    }
                    _ => return None,
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut m: Vec<(String, J)> = vec![];
            ws(b, p);
            if b.get(*p) == Some(&b'}') {
                *p += 1;
                return Some(J::Obj(m));
            }
            loop {
                ws(b, p);
                let k = string(b, p)?;
                ws(b, p);
                if b.get(*p)? != &b':' {
                    return None;
                }
                *p += 1;
                let v = value(b, p, depth + 1)?;
                match m.iter_mut().find(|(n, _)| *n == k) {
                    Some(e) => e.1 = v,
                    None => m.push((k, v)),
                }
                ws(b, p);
                match b.get(*p)? {
                    b',' => *p += 1,
                    b'}' => {
                        *p += 1;
                        return Some(J::Obj(m));
                    }
                    _ => return None,
                }
            }
        }
        b'-' | b'0'..=b'9' => {
            let s = *p;
            if b[*p] == b'-' {
                *p += 1;
            }
            let d = *p;
            while *p < b.len() && b[*p].is_ascii_digit() {
                *p += 1;
            }
            if *p == d || (b[d] == b'0' && *p > d + 1) {
                return None;
            }
            let mut float = false;
            if b.get(*p) == Some(&b'.') {
                float = true;
                *p += 1;
                let d = *p;
                while *p < b.len() && b[*p].is_ascii_digit() {
                    *p += 1;
                }
                if *p == d {
                    return None;
                }
            }
            if matches!(b.get(*p), Some(b'e' | b'E')) {
                float = true;
                *p += 1;
                if matches!(b.get(*p), Some(b'+' | b'-')) {
                    *p += 1;
                }
                let d = *p;
                while *p < b.len() && b[*p].is_ascii_digit() {
                    *p += 1;
                }
                if *p == d {
                    return None;
                }
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            if float {
                Some(J::Dec(t.to_string()))
            } else {
                t.parse::<i128>().ok().map(J::Int)
            }
        }
        _ => None,
    }
}
fn hex4(b: &[u8], p: &mut usize) -> Option<u32> {
    let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
    if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    *p += 4;
    u32::from_str_radix(h, 16).ok()
}
fn string(b: &[u8], p: &mut usize) -> Option<String> {
    if b.get(*p)? != &b'"' {
        return None;
    }
    *p += 1;
    let mut o: Vec<u8> = vec![];
    loop {
        let c = *b.get(*p)?;
        *p += 1;
        match c {
            b'"' => return String::from_utf8(o).ok(),
            b'\\' => {
                let e = *b.get(*p)?;
                *p += 1;
                let c = match e {
                    b'"' => '"',
                    b'\\' => '\\',
                    b'/' => '/',
                    b'b' => '\u{8}',
                    b'f' => '\u{c}',
                    b'n' => '\n',
                    b'r' => '\r',
                    b't' => '\t',
                    b'u' => {
                        let mut n = hex4(b, p)?;
                        if (0xd800..0xdc00).contains(&n) {
                            if b.get(*p..*p + 2)? != b"\\u" {
                                return None;
                            }
                            *p += 2;
                            let l = hex4(b, p)?;
                            if !(0xdc00..0xe000).contains(&l) {
                                return None;
                            }
                            n = 0x10000 + ((n - 0xd800) << 10) + (l - 0xdc00);
                        }
                        char::from_u32(n)?
                    }
                    _ => return None,
                };
                let mut buf = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            }
            c if c < 0x20 => return None,
            c => o.push(c),
        }
    }
}

// ------------------------------------------------------------------ digests

pub const DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];

pub fn digest(code: &str, data: &[u8]) -> Vec<u8> {
    use blake2::digest::{Update, VariableOutput};
    use sha2::Digest;
    match code {
        "E" => blake3::hash(data).as_bytes().to_vec(),
        "0D" => {
            let mut out = vec![0u8; 64];
            let mut h = blake3::Hasher::new();
            h.update(data);
            h.finalize_xof().fill(&mut out);
            out
        }
        "F" => {
            let mut h = blake2::Blake2bVar::new(32).unwrap();
            h.update(data);
            let mut o = vec![0u8; 32];
            h.finalize_variable(&mut o).unwrap();
            o
        }
        "0E" => {
            let mut h = blake2::Blake2bVar::new(64).unwrap();
            h.update(data);
            let mut o = vec![0u8; 64];
            h.finalize_variable(&mut o).unwrap();
            o
        }
        "G" => {
            let mut h = blake2::Blake2sVar::new(32).unwrap();
            h.update(data);
            let mut o = vec![0u8; 32];
            h.finalize_variable(&mut o).unwrap();
            o
        }
        "H" => sha3::Sha3_256::digest(data).to_vec(),
        "0F" => sha3::Sha3_512::digest(data).to_vec(),
        "I" => sha2::Sha256::digest(data).to_vec(),
        "0G" => sha2::Sha512::digest(data).to_vec(),
        _ => panic!("not a digest code {code}"),
    }
}
pub fn digest_text(code: &str, data: &[u8]) -> String {
    refc::matter_text(code, &digest(code, data)).unwrap()
}

// ------------------------------------------------------------------ version strings and SAIDs

pub const V: &str = "v";
pub fn version_string(ident: &str, size: usize) -> String {
    format!("{ident}10JSON{size:06x}_")
}
/// Give `v` the size of the serialization it is part of.
pub fn sized(mut j: J) -> J {
    if let Some(J::Str(v)) = j.get(V) {
        let ident = v[..4].to_string();
        let n = j.text().len();
        j.set(V, s(version_string(&ident, n)));
    }
    j
}
fn dummy(code: &str) -> J {
    let n = refc::matter(code).unwrap().fs;
    s("#".repeat(n))
}
/// Content with its self-addressing identifier filled in under `label`.
pub fn saidify(j: &J, code: &str, label: &str, versioned: bool, ignore: &[&str]) -> (String, J) {
    let mut d = j.clone();
    d.set(label, dummy(code));
    if versioned {
        d = sized(d);
    }
    let mut e = d.clone();
    for i in ignore {
        e.remove(i);
    }
    let said = digest_text(code, e.text().as_bytes());
    d.set(label, s(said.clone()));
    (said, d)
}
/// An inception event whose prefix is its own digest: "i" and "d" alike.
pub fn self_addressing(j: &J, code: &str) -> (String, J) {
    let mut d = j.clone();
    d.set("d", dummy(code));
    d.set("i", dummy(code));
    let d = sized(d);
    let said = digest_text(code, d.text().as_bytes());
    let mut e = d;
    e.set("d", s(said.clone()));
    e.set("i", s(said.clone()));
    (said, e)
}
