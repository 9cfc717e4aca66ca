//! Reference model of the CESR code tables and codecs, written from the tables and sharing nothing
//! with the code under test.

pub const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn sextet(c: u8) -> Option<u8> {
    Some(match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'-' => 62,
        b'_' => 63,
        _ => return None,
    })
}
/// Text of a multiple of three bytes.
pub fn to_text(b: &[u8]) -> String {
    assert!(b.len() % 3 == 0);
    let mut s = String::with_capacity(b.len() / 3 * 4);
    for t in b.chunks(3) {
        let v = (t[0] as u32) << 16 | (t[1] as u32) << 8 | t[2] as u32;
        for k in [18, 12, 6, 0] {
            s.push(ALPHA[(v >> k) as usize & 63] as char);
        }
    }
    s
}
/// Bytes of a multiple of four characters.
pub fn to_bytes(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 {
        return None;
    }
    let mut v = Vec::with_capacity(t.len() / 4 * 3);
    for q in t.chunks(4) {
        let mut n = 0u32;
        for c in q {
            n = n << 6 | sextet(*c)? as u32;
        }
        v.extend_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    Some(v)
}
pub fn num_text(mut v: u128, len: usize) -> Option<String> {
    let mut s = vec![b'A'; len];
    for i in (0..len).rev() {
        s[i] = ALPHA[(v & 63) as usize];
        v >>= 6;
    }
    if v != 0 {
        return None;
    }
    Some(String::from_utf8(s).unwrap())
}
pub fn text_num(t: &[u8]) -> Option<u128> {
    let mut v = 0u128;
    for c in t {
        v = v << 6 | sextet(*c)? as u128;
    }
    Some(v)
}

/// hs hard size, ss soft size, os other-index size, fs full size (0: variable), ls lead bytes
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Size {
    pub code: &'static str,
    pub hs: usize,
    pub ss: usize,
    pub os: usize,
    pub fs: usize,
    pub ls: usize,
}
const fn m(code: &'static str, fs: usize) -> Size {
    Size { code, hs: code.len(), ss: 0, os: 0, fs, ls: 0 }
}
const fn ml(code: &'static str, fs: usize, ls: usize) -> Size {
    Size { code, hs: code.len(), ss: 0, os: 0, fs, ls }
}
const fn mv(code: &'static str, ss: usize, ls: usize) -> Size {
    Size { code, hs: code.len(), ss, os: 0, fs: 0, ls }
}
pub const MATTER: &[Size] = &[
    m("A", 44), m("B", 44), m("C", 44), m("D", 44), m("E", 44), m("F", 44), m("G", 44), m("H", 44), m("I", 44), m("J", 44),
    m("K", 76), m("L", 76), m("M", 4), m("N", 12), m("O", 44), m("P", 124), m("Q", 44),
    m("0A", 24), m("0B", 88), m("0C", 88), m("0D", 88), m("0E", 88), m("0F", 88), m("0G", 88), m("0H", 8), m("0I", 88),
    m("1AAA", 48), m("1AAB", 48), m("1AAC", 80), m("1AAD", 80), m("1AAE", 56), m("1AAF", 8), m("1AAG", 36), m("1AAH", 100),
    m("1AAI", 48), m("1AAJ", 48),
    ml("2AAA", 8, 1), ml("3AAA", 8, 2),
    mv("4A", 2, 0), mv("5A", 2, 1), mv("6A", 2, 2), mv("7AAA", 4, 0), mv("8AAA", 4, 1), mv("9AAA", 4, 2),
    mv("4B", 2, 0), mv("5B", 2, 1), mv("6B", 2, 2), mv("7AAB", 4, 0), mv("8AAB", 4, 1), mv("9AAB", 4, 2),
];
const fn i(code: &'static str, ss: usize, os: usize, fs: usize, ls: usize) -> Size {
    Size { code, hs: code.len(), ss, os, fs, ls }
}
pub const INDEXER: &[Size] = &[
    i("A", 1, 0, 88, 0), i("B", 1, 0, 88, 0), i("C", 1, 0, 88, 0), i("D", 1, 0, 88, 0), i("E", 1, 0, 88, 0), i("F", 1, 0, 88, 0),
    i("0A", 2, 1, 156, 0), i("0B", 2, 1, 156, 0),
    i("2A", 4, 2, 92, 0), i("2B", 4, 2, 92, 0), i("2C", 4, 2, 92, 0), i("2D", 4, 2, 92, 0), i("2E", 4, 2, 92, 0), i("2F", 4, 2, 92, 0),
    i("3A", 6, 3, 160, 0), i("3B", 6, 3, 160, 0),
    i("0z", 2, 0, 0, 0), i("1z", 2, 1, 76, 1), i("4z", 6, 3, 80, 1),
];
/// Codes whose signature appears in the current list only: they have no other index.
pub const CURRENT_ONLY: &[&str] = &["B", "D", "F", "0B", "2B", "2D", "2F", "3B"];
pub const BOTH: &[&str] = &["A", "C", "E", "0A", "2A", "2C", "2E", "3A"];
const fn k(code: &'static str, ss: usize) -> Size {
    Size { code, hs: code.len(), ss, os: 0, fs: code.len() + ss, ls: 0 }
}
pub const COUNTER: &[Size] = &[
    k("-A", 2), k("-B", 2), k("-C", 2), k("-D", 2), k("-E", 2), k("-F", 2), k("-G", 2), k("-H", 2), k("-I", 2), k("-J", 2),
    k("-K", 2), k("-L", 2), k("-V", 2), k("-0V", 5), k("--AAA", 3),
];

pub fn matter(code: &str) -> Option<Size> {
    MATTER.iter().find(|s| s.code == code).copied()
}
pub fn indexer(code: &str) -> Option<Size> {
    INDEXER.iter().find(|s| s.code == code).copied()
}
pub fn counter(code: &str) -> Option<Size> {
    COUNTER.iter().find(|s| s.code == code).copied()
}

impl Size {
    /// Raw material size of a fixed-size code.
    pub fn raw(&self) -> usize {
        (self.fs - self.hs - self.ss) * 3 / 4 - self.ls
    }
}

pub fn matter_raw_size(code: &str) -> Option<usize> {
    let s = matter(code)?;
    if s.fs == 0 {
        None
    } else {
        Some(s.raw())
    }
}
/// Every (code, size in quadlets) is fixed for variable material: the code for a raw size.
pub fn variable_code(kind: char, raw: usize) -> (String, usize) {
    let ls = (3 - raw % 3) % 3;
    let quads = (raw + ls) / 3;
    if quads < 4096 {
        (format!("{}{}", ["4", "5", "6"][ls], kind), quads)
    } else {
        (format!("{}AA{}", ["7", "8", "9"][ls], kind), quads)
    }
}

fn assemble(prefix: &str, ls: usize, raw: &[u8]) -> Option<String> {
    // code characters take the place of the leading pad bits
    let cs = prefix.len();
    let ps = (3 - (raw.len() + ls) % 3) % 3;
    if ps != cs % 4 {
        return None;
    }
    let mut b = vec![0u8; ps + ls];
    b.extend_from_slice(raw);
    let t = to_text(&b);
    Some(format!("{prefix}{}", &t[ps..]))
}

pub fn matter_text(code: &str, raw: &[u8]) -> Option<String> {
    let s = matter(code)?;
    if s.fs != 0 {
        if raw.len() != s.raw() {
            return None;
        }
        let t = assemble(code, s.ls, raw)?;
        if t.len() != s.fs {
            return None;
        }
        Some(t)
    } else {
        if (raw.len() + s.ls) % 3 != 0 {
            return None;
        }
        let soft = num_text(((raw.len() + s.ls) / 3) as u128, s.ss)?;
        assemble(&format!("{code}{soft}"), s.ls, raw)
    }
}
pub fn indexer_text(code: &str, index: u32, ondex: u32, raw: &[u8]) -> Option<String> {
    let s = indexer(code)?;
    let ms = s.ss - s.os;
    let prefix = format!("{code}{}{}", num_text(index as u128, ms)?, num_text(ondex as u128, s.os).or(if s.os == 0 { Some(String::new()) } else { None })?);
    let fs = if s.fs == 0 { index as usize * 4 + s.hs + s.ss } else { s.fs };
    let t = assemble(&prefix, s.ls, raw)?;
    if t.len() != fs {
        return None;
    }
    Some(t)
}
pub fn counter_text(code: &str, count: u64) -> Option<String> {
    let s = counter(code)?;
    Some(format!("{code}{}", num_text(count as u128, s.ss)?))
}
/// The binary form of any item: its text has a multiple of four characters.
pub fn binary(text: &str) -> Vec<u8> {
    to_bytes(text.as_bytes()).expect("reference text is base64 in quadlets")
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
    /// size in characters
    pub fs: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum No {
    /// more bytes could still make it an item
    Short,
    Bad,
}

fn disassemble(t: &[u8], cs: usize, ls: usize) -> Result<Vec<u8>, No> {
    let ps = cs % 4;
    let mut q = vec![b'A'; ps];
    q.extend_from_slice(&t[cs..]);
    let b = to_bytes(&q).ok_or(No::Bad)?;
    if b[..ps + ls].iter().any(|x| *x != 0) {
        return Err(No::Bad);
    }
    Ok(b[ps + ls..].to_vec())
}

pub fn matter_hard(c: u8) -> Option<usize> {
    Some(match c {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0' | b'4' | b'5' | b'6' => 2,
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => 4,
        _ => return None,
    })
}
pub fn indexer_hard(c: u8) -> Option<usize> {
    Some(match c {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0'..=b'4' => 2,
        _ => return None,
    })
}

/// Decode the item at the head of a text stream. Only what the item occupies is looked at.
pub fn matter_read(t: &[u8]) -> Result<Item, No> {
    let hs = matter_hard(*t.first().ok_or(No::Short)?).ok_or(No::Bad)?;
    if t.len() < hs {
        return Err(No::Short);
    }
    let code = std::str::from_utf8(&t[..hs]).map_err(|_| No::Bad)?;
    let s = matter(code).ok_or(No::Bad)?;
    let cs = s.hs + s.ss;
    if t.len() < cs {
        return Err(No::Short);
    }
    let fs = if s.fs == 0 { text_num(&t[s.hs..cs]).ok_or(No::Bad)? as usize * 4 + cs } else { s.fs };
    if t.len() < fs {
        return Err(No::Short);
    }
    // an empty variable item with lead bytes has nowhere to put them
    if (fs - cs) * 3 / 4 < s.ls {
        return Err(No::Bad);
    }
    Ok(Item { code: code.to_string(), raw: disassemble(&t[..fs], cs, s.ls)?, index: 0, ondex: 0, fs })
}
pub fn indexer_read(t: &[u8]) -> Result<Item, No> {
    let hs = indexer_hard(*t.first().ok_or(No::Short)?).ok_or(No::Bad)?;
    if t.len() < hs {
        return Err(No::Short);
    }
    let code = std::str::from_utf8(&t[..hs]).map_err(|_| No::Bad)?;
    let s = indexer(code).ok_or(No::Bad)?;
    let cs = s.hs + s.ss;
    if t.len() < cs {
        return Err(No::Short);
    }
    let ms = s.ss - s.os;
    let index = text_num(&t[s.hs..s.hs + ms]).ok_or(No::Bad)? as u32;
    let mut ondex = text_num(&t[s.hs + ms..cs]).ok_or(No::Bad)? as u32;
    if CURRENT_ONLY.contains(&code) {
        if ondex != 0 {
            return Err(No::Bad);
        }
    } else if s.os == 0 {
        ondex = index;
    }
    let fs = if s.fs == 0 { index as usize * 4 + cs } else { s.fs };
    if t.len() < fs {
        return Err(No::Short);
    }
    if (fs - cs) * 3 / 4 < s.ls {
        return Err(No::Bad);
    }
    Ok(Item { code: code.to_string(), raw: disassemble(&t[..fs], cs, s.ls)?, index, ondex, fs })
}
/// `index` carries the count.
pub fn counter_read(t: &[u8]) -> Result<Item, No> {
    if *t.first().ok_or(No::Short)? != b'-' {
        return Err(No::Bad);
    }
    let hs = match *t.get(1).ok_or(No::Short)? {
        b'A'..=b'Z' | b'a'..=b'z' => 2,
        b'0' => 3,
        b'-' => 5,
        _ => return Err(No::Bad),
    };
    if t.len() < hs {
        return Err(No::Short);
    }
    let code = std::str::from_utf8(&t[..hs]).map_err(|_| No::Bad)?;
    let s = counter(code).ok_or(No::Bad)?;
    if t.len() < s.fs {
        return Err(No::Short);
    }
    let n = text_num(&t[hs..s.fs]).ok_or(No::Bad)? as u32;
    Ok(Item { code: code.to_string(), raw: vec![], index: n, ondex: 0, fs: s.fs })
}
/// As the readers above, from the head of a binary stream.
pub fn from_binary(b: &[u8], read: fn(&[u8]) -> Result<Item, No>) -> Result<Item, No> {
    // whole sextets only; three bytes make four characters
    let whole = b.len() / 3 * 3;
    let mut t = to_text(&b[..whole]).into_bytes();
    let rest = &b[whole..];
    let mut acc = 0u32;
    for (n, x) in rest.iter().enumerate() {
        acc = acc << 8 | *x as u32;
        let bits = (n + 1) * 8;
        t.push(ALPHA[(acc >> (bits - (n + 1) * 6)) as usize & 63]);
    }
    read(&t)
}
