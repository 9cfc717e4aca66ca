//! What flows through the simulated systems.
use crate::kinds::{self, Kind};
use crate::refc;
use crate::refj::{self, s, J};
use crate::world::*;
use cesride::*;

/// Raw material for a code, of exactly the size the code prescribes.
pub fn raw_for(c: &mut Ctx, code: &str) -> Vec<u8> {
    let z = refc::matter(code).unwrap();
    if z.fs != 0 {
        let n = z.raw();
        return match c.draw(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                // a single bit
                let mut v = vec![0; n];
                let b = c.below(n * 8);
                v[b / 8] |= 1 << (b % 8);
                v
            }
            _ => c.random(n),
        };
    }
    // small codes are promoted at 4096 triplets, big ones hold anything
    let small = z.hs == 2;
    let quads = match c.draw(40) {
        0..=9 => c.below(4),
        10..=33 => c.below(40),
        34..=37 => c.below(400),
        38 => [63, 64, 65, 255, 256, 1023, 1024][c.below(7)],
        _ => {
            if c.chance(1, 12) {
                if small {
                    4095 - c.below(2)
                } else {
                    4094 + c.below(6)
                }
            } else {
                c.below(40)
            }
        }
    };
    let n = (quads * 3).saturating_sub(z.ls);
    if (n + z.ls) % 3 != 0 {
        // no room for the lead bytes of an empty item
        return c.bytes(3 - z.ls);
    }
    if n > 200 {
        c.random(n)
    } else {
        c.bytes(n)
    }
}

const B64: &[u8] = refc::ALPHA;
pub fn b64_string(c: &mut Ctx, n: usize) -> String {
    if c.chance(1, 6) && n > 0 {
        let x = *c.pick(&[b'A', b'_', b'-', b'a', b'9', b'Z', b's', b'c']);
        return String::from_utf8(vec![x; n]).unwrap();
    }
    let r = c.random(n);
    r.iter().map(|b| B64[*b as usize & 63] as char).collect()
}

/// Text fields: ASCII mostly, anything sometimes.
pub fn text(c: &mut Ctx, max: usize) -> String {
    let n = c.below(max + 1);
    match c.draw(6) {
        0 => String::new(),
        1..=3 => b64_string(c, n),
        _ => {
            const P: &[&str] = &[
                "a", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\r", "\u{8}", "\u{c}", "\u{0}", "\u{1f}", "\u{7f}", "\u{80}", "é", "ß",
                "€", "世", "\u{2028}", "\u{feff}", "\u{fffd}", "💩", "𝄞", "{", "}", "[", "]", ":", ",", "'", "#", "KERI10JSON", "<", "&", "\u{10ffff}",
            ];
            let mut o = String::new();
            for _ in 0..n.min(12) {
                o.push_str(*c.pick(P));
            }
            o
        }
    }
}
pub fn label(c: &mut Ctx) -> String {
    match c.draw(8) {
        0 => text(c, 6),
        1 => "d".into(),
        2 => "i".into(),
        _ => {
            let n = 1 + c.below(6);
            b64_string(c, n)
        }
    }
}
/// Decimals whose shortest form is how they are written.
pub fn decimal(c: &mut Ctx) -> J {
    let neg = if c.chance(1, 3) { "-" } else { "" };
    match c.draw(12) {
        0 => return J::Dec(format!("{neg}0.0")),
        1 => {
            // far from one, where it is written with an exponent
            let f: f64 = format!("{neg}{}e{}", 1 + c.draw(99), c.draw(41) as i64 - 20).parse().unwrap();
            return J::Dec(serde_json::to_string(&f).unwrap());
        }
        _ => {}
    }
    let i = c.draw(100_000);
    let f = 1 + c.draw(9);
    let z = c.below(4);
    let d = format!("{neg}{i}.{}{f}", "0".repeat(z));
    J::Dec(if c.chance(1, 4) { format!("{neg}{i}.0") } else { d })
}
pub fn integer(c: &mut Ctx) -> J {
    J::Int(match c.draw(5) {
        0 => c.draw(10) as i128,
        1 => -(c.draw(1000) as i128),
        2 => i64::MAX as i128 - c.draw(3) as i128 + 1,
        3 => i64::MIN as i128 + c.draw(2) as i128,
        _ => c.number(u64::MAX as u128) as i128,
    })
}
pub fn json(c: &mut Ctx, depth: usize) -> J {
    match c.draw(if depth == 0 { 7 } else { 10 }) {
        0 => J::Null,
        1 => J::Bool(c.chance(1, 2)),
        2 => integer(c),
        3 => decimal(c),
        4..=6 => s(text(c, 20)),
        7 | 8 => {
            let n = c.below(4);
            J::Arr((0..n).map(|_| c.span(|c| json(c, depth - 1))).collect())
        }
        _ => {
            let n = c.below(4);
            let mut o = J::Obj(vec![]);
            for _ in 0..n {
                c.span(|c| {
                    let k = label(c);
                    let v = json(c, depth - 1);
                    o.set(&k, v);
                });
            }
            o
        }
    }
}

pub fn key_text(c: &mut Ctx) -> String {
    let code = *c.pick(kinds::VER);
    let raw = raw_for(c, code);
    refc::matter_text(code, &raw).unwrap()
}
pub fn digest_text(c: &mut Ctx) -> String {
    let code = *c.pick(refj::DIGESTS);
    let raw = raw_for(c, code);
    refc::matter_text(code, &raw).unwrap()
}
pub fn hexnum(c: &mut Ctx) -> (u128, String) {
    let n = c.number(u128::MAX);
    (n, format!("{n:x}"))
}

/// A threshold expression over n keys, as it would appear in an event: (json, clauses as (num, den))
#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
    Count(u64),
    Weights(Vec<Vec<(u64, u64)>>),
}
impl Rule {
    pub fn keys(&self) -> usize {
        match self {
            Rule::Count(n) => *n as usize,
            Rule::Weights(w) => w.iter().map(|c| c.len()).sum(),
        }
    }
    /// Exactly: for every clause, the weights of the signers sum to at least one.
    pub fn satisfied(&self, signers: &[u32]) -> bool {
        let mut v: Vec<u32> = signers.to_vec();
        v.sort();
        v.dedup();
        match self {
            Rule::Count(n) => *n > 0 && v.len() as u64 >= *n,
            Rule::Weights(w) => {
                let mut at = 0u32;
                for clause in w {
                    let mut sum = Frac::zero();
                    for (i, (n, d)) in clause.iter().enumerate() {
                        if v.contains(&(at + i as u32)) {
                            sum.add(*n, *d);
                        }
                    }
                    at += clause.len() as u32;
                    if !sum.at_least_one() {
                        return false;
                    }
                }
                true
            }
        }
    }
}
/// Exact sums of fractions, as big naturals.
pub struct Frac {
    num: Vec<u32>,
    den: Vec<u32>,
}
fn mul(a: &[u32], m: u64) -> Vec<u32> {
    let mut o = Vec::with_capacity(a.len() + 2);
    let mut carry: u128 = 0;
    for x in a {
        carry += *x as u128 * m as u128;
        o.push(carry as u32);
        carry >>= 32;
    }
    while carry > 0 {
        o.push(carry as u32);
        carry >>= 32;
    }
    o
}
fn add(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut o = vec![];
    let mut carry = 0u64;
    for i in 0..a.len().max(b.len()) {
        carry += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        o.push(carry as u32);
        carry >>= 32;
    }
    if carry > 0 {
        o.push(carry as u32);
    }
    o
}
fn trim(a: &[u32]) -> &[u32] {
    let mut n = a.len();
    while n > 0 && a[n - 1] == 0 {
        n -= 1;
    }
    &a[..n]
}
fn ge(a: &[u32], b: &[u32]) -> bool {
    let (a, b) = (trim(a), trim(b));
    if a.len() != b.len() {
        return a.len() > b.len();
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
impl Frac {
    pub fn zero() -> Self {
        Frac { num: vec![0], den: vec![1] }
    }
    pub fn add(&mut self, n: u64, d: u64) {
        let left = mul(&self.num, d);
        let right = mul(&self.den, n);
        self.num = add(&left, &right);
        self.den = mul(&self.den, d);
    }
    pub fn at_least_one(&self) -> bool {
        ge(&self.num, &self.den)
    }
}

/// One moving item of a stream, with what it must be read back as.
#[derive(Clone)]
pub enum Item {
    Matter { kind: usize, code: String, raw: Vec<u8>, text: String, want: Vec<(&'static str, String)> },
    Indexed { kind: usize, code: String, raw: Vec<u8>, index: u32, ondex: u32, text: String },
    Counter { code: String, count: u32, text: String },
    Message { cred: bool, code: String, body: J, text: String },
}
impl Item {
    pub fn text(&self) -> &str {
        match self {
            Item::Matter { text, .. } | Item::Indexed { text, .. } | Item::Counter { text, .. } | Item::Message { text, .. } => text,
        }
    }
    pub fn bytes(&self, binary: bool) -> Vec<u8> {
        match self {
            Item::Message { text, .. } => text.as_bytes().to_vec(),
            _ if binary => refc::binary(self.text()),
            _ => self.text().as_bytes().to_vec(),
        }
    }
    pub fn show(&self) -> String {
        let t = self.text();
        let short: String = t.chars().take(60).collect();
        match self {
            Item::Matter { kind, code, .. } => format!("kind#{kind} {code} {short} ({} chars)", t.len()),
            Item::Indexed { code, index, ondex, .. } => format!("indexed {code} index={index} ondex={ondex} ({} chars)", t.len()),
            Item::Counter { code, count, .. } => format!("counter {code} count={count}"),
            Item::Message { cred, .. } => format!("{} {short} ({} bytes)", if *cred { "credential" } else { "event" }, t.len()),
        }
    }
}

pub fn kind_index(ks: &[Kind], name: &str) -> usize {
    ks.iter().position(|k| k.name == name).unwrap()
}

/// Indices of an indexed code at and around their limits.
pub fn indices(c: &mut Ctx, code: &str) -> (u32, Option<u32>) {
    let z = refc::indexer(code).unwrap();
    let ms = z.ss - z.os;
    let max = (64u64.pow(ms as u32) - 1) as u128;
    let index = c.number(max) as u32;
    if refc::CURRENT_ONLY.contains(&code) {
        return (index, None);
    }
    if z.os == 0 {
        return (index, if c.chance(1, 2) { Some(index) } else { None });
    }
    let omax = (64u64.pow(z.os as u32) - 1) as u128;
    match c.draw(5) {
        0 => (index, Some(index)),
        1 => (index, None),
        2 => (index, Some(related(c, index, omax as u32))),
        _ => (index, Some(c.number(omax) as u32)),
    }
}

/// A number which a mask, a comparison of digits or an off-by-one would take for the given one.
pub fn related(c: &mut Ctx, n: u32, max: u32) -> u32 {
    let (a, b) = (n / 64, n % 64);
    let m = match c.draw(5) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => n ^ (1 << c.draw(12)),
        3 => c.below(64) as u32 * 64 + b,
        _ => b * 64 + a % 64,
    };
    m.min(max)
}

/// An item built by the library from a source value; the construction itself is judged here.
pub fn item(c: &mut Ctx, ks: &[Kind], iks: &[kinds::IKind], style: Style) -> R<Item> {
    let which = match style {
        Style::Any => c.draw(10),
        Style::Numbers => [0, 6, 7, 8, 0, 6, 8, 9][c.below(8)],
        Style::Messages => {
            if c.chance(3, 4) {
                9
            } else {
                c.draw(9)
            }
        }
    };
    match which {
        8 => counter(c),
        6 | 7 => indexed(c, iks),
        9 => message(c),
        _ => primitive(c, ks, style),
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Any,
    Numbers,
    Messages,
}

pub fn counter(c: &mut Ctx) -> R<Item> {
    let z = *c.pick(refc::COUNTER);
    let max = 64u128.pow(z.ss as u32) - 1;
    let count = c.number(max) as u32;
    let text = refc::counter_text(z.code, count as u64).unwrap();
    let made = match c.draw(3) {
        0 => c.call("Counter::new_with_code_and_count", || kinds::counter_new(0, z.code, count))?,
        1 => c.call("Counter::new(count)", || kinds::counter_new(1, z.code, count))?,
        _ => {
            // the count as base64 digits
            let b = refc::num_text(count as u128, z.ss).unwrap();
            c.call("Counter::new(count_b64)", || {
                Counter::new(None, Some(&b), Some(z.code), None, None, None).ok().map(|m| kinds::of_counter(&m))
            })?
        }
    };
    let made = match made {
        Some(m) => m,
        None => return c.fail("refused in range", format!("counter {} with count {count} was refused", z.code)),
    };
    c.ensure(made.qb64.as_deref() == Some(&text) && made.index == count && made.code == z.code, "counter differs from the code table", || {
        format!("counter {} count {count}: library {:?} count {}, tables {text}", z.code, made.qb64, made.index)
    })?;
    c.ensure(made.qb2.as_deref() == Some(&refc::binary(&text)[..]), "binary is not the transcoding of the text", || format!("counter {text}: {:?}", made.qb2))?;
    c.ensure(made.more("count_as_b64") == Some(&text[z.hs..]), "count digits differ", || format!("counter {text}: {:?}", made.more))?;
    Ok(Item::Counter { code: z.code.to_string(), count, text })
}

pub fn indexed(c: &mut Ctx, iks: &[kinds::IKind]) -> R<Item> {
    let kind = if c.chance(1, 3) { 1 } else { 0 };
    let code = match iks[kind].own {
        Some(own) => *c.pick(own),
        None => {
            let all = refc::INDEXER;
            all[c.below(all.len())].code
        }
    };
    let z = refc::indexer(code).unwrap();
    let (mut index, mut ondex) = indices(c, code);
    let n = if z.fs == 0 {
        // variable length: the index counts quadlets
        index %= 50;
        ondex = None;
        index as usize * 3
    } else {
        z.raw()
    };
    let raw = c.bytes(n);
    let route = c.below(2);
    let k = &iks[kind];
    let made = c.call("Indexer from raw", || (k.raw)(route, code, &raw, index, ondex))?;
    let made = match made {
        Some(m) => m,
        None => return c.fail("refused in range", format!("{} {code} index {index} ondex {ondex:?} was refused", k.name)),
    };
    // what is on the wire: no other index given means the same one for codes of both lists
    let wire = if refc::CURRENT_ONLY.contains(&code) { 0 } else if refc::BOTH.contains(&code) { ondex.unwrap_or(index) } else { ondex.unwrap_or(0) };
    let text = refc::indexer_text(code, index, wire, &raw).unwrap();
    c.ensure(made.qb64.as_deref() == Some(&text), "indexed signature differs from the code table", || {
        format!("{code} index {index} ondex {ondex:?}: library {:?}, tables {text}", made.qb64)
    })?;
    c.ensure(made.qb2.as_deref() == Some(&refc::binary(&text)[..]), "binary is not the transcoding of the text", || format!("{text}: {:?}", made.qb2))?;
    let back = if z.os == 0 && !refc::CURRENT_ONLY.contains(&code) { index } else { wire };
    Ok(Item::Indexed { kind, code: code.to_string(), raw, index, ondex: back, text })
}

pub fn dts(c: &mut Ctx) -> String {
    let y = [1970, 1999, 2000, 2019, 2020, 2021, 2024, 2038, 2100, 9999][c.below(10)];
    let sign = ["+", "-"][c.below(2)];
    format!(
        "{y:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}{sign}{:02}:{:02}",
        1 + c.draw(12),
        1 + c.draw(28),
        c.draw(24),
        c.draw(60),
        c.draw(60),
        [0, 1, 10, 999_999, 100_000, 123_456][c.below(6)],
        c.draw(15),
        [0, 30, 45][c.below(3)]
    )
}

/// The code a general variable-length kind ends up with for this material.
pub fn final_code(code: &str, raw: &[u8]) -> String {
    let z = refc::matter(code).unwrap();
    if z.fs != 0 {
        return code.to_string();
    }
    let ls = (3 - raw.len() % 3) % 3;
    let quads = (raw.len() + ls) / 3;
    let kind = code.chars().last().unwrap();
    if z.hs == 2 && quads < 4096 {
        format!("{}{kind}", ["4", "5", "6"][ls])
    } else {
        format!("{}AA{kind}", ["7", "8", "9"][ls])
    }
}

pub fn primitive(c: &mut Ctx, ks: &[Kind], style: Style) -> R<Item> {
    let numbers = style == Style::Numbers;
    let kind = if numbers { kind_index(ks, ["Number", "Seqner"][c.below(2)]) } else { c.below(ks.len()) };
    let k = &ks[kind];
    let mut want: Vec<(&'static str, String)> = vec![];
    let mut expect: Option<(String, Vec<u8>)> = None;
    let source = numbers || c.chance(1, 2);
    let made = match k.name {
        "Number" if source => {
            let (n, h) = hexnum(c);
            want.push(("num", n.to_string()));
            want.push(("numh", h.clone()));
            want.push(("positive", (n > 0).to_string()));
            let b = n.to_be_bytes();
            expect = Some(if n < 1 << 16 {
                ("M".into(), b[14..].to_vec())
            } else if n < 1 << 32 {
                ("0H".into(), b[12..].to_vec())
            } else if n < 1 << 64 {
                ("N".into(), b[8..].to_vec())
            } else {
                ("0A".into(), b.to_vec())
            });
            match c.draw(3) {
                0 => c.call("Number::new_with_num", || Number::new_with_num(n).ok().map(|m| kinds::of_matter(&m)))?,
                1 => c.call("Number::new(num)", || Number::new(Some(n), None, None, None, None, None, None).ok().map(|m| kinds::of_matter(&m)))?,
                _ => c.call("Number::new_with_numh", || Number::new_with_numh(&h).ok().map(|m| kinds::of_matter(&m)))?,
            }
        }
        "Seqner" if source => {
            let (n, h) = hexnum(c);
            want.push(("sn", n.to_string()));
            want.push(("snh", h.clone()));
            expect = Some(("0A".into(), n.to_be_bytes().to_vec()));
            match c.draw(3) {
                0 => c.call("Seqner::new_with_sn", || Seqner::new_with_sn(n).ok().map(|m| kinds::of_matter(&m)))?,
                1 => c.call("Seqner::new(sn)", || Seqner::new(Some(n), None, None, None, None, None, None).ok().map(|m| kinds::of_matter(&m)))?,
                _ => c.call("Seqner::new_with_snh", || Seqner::new_with_snh(&h).ok().map(|m| kinds::of_matter(&m)))?,
            }
        }
        "Dater" if source => {
            let d = dts(c);
            want.push(("dts", d.clone()));
            want.push(("dtsb", d.clone()));
            let t: String = d.chars().map(|x| match x {
                ':' => 'c',
                '.' => 'd',
                '+' => 'p',
                x => x,
            }).collect();
            expect = Some(("1AAG".into(), refc::to_bytes(t.as_bytes()).unwrap()));
            c.call("Dater::new_with_dts", || Dater::new_with_dts(&d, None).ok().map(|m| kinds::of_matter(&m)))?
        }
        "Bexter" if source => {
            let n = if c.chance(1, 60) { 16_380 + c.below(8) } else { c.below(30) };
            let mut b = b64_string(c, n);
            if b.len() % 4 == 0 && b.starts_with('A') {
                // ambiguous by specification: a leading zero sextet is indistinguishable from padding
                b.replace_range(..1, "B");
            }
            want.push(("bext", b.clone()));
            let pad = (4 - b.len() % 4) % 4;
            let full = refc::to_bytes(format!("{}{b}", "A".repeat(pad)).as_bytes()).unwrap();
            let lead = match b.len() % 4 {
                0 => 0,
                2 => 1,
                3 => 0,
                _ => 2,
            };
            // lead bytes which are all pad are dropped
            let lead = if b.len() % 4 == 3 { 0 } else { lead };
            let raw = full[lead..].to_vec();
            expect = Some((final_code("4A", &raw), raw));
            c.call("Bexter::new_with_bext", || Bexter::new_with_bext(&b).ok().map(|m| kinds::of_matter(&m)))?
        }
        "Pather" if source => {
            let n = 1 + c.below(4);
            let parts: Vec<J> = (0..n)
                .map(|_| if c.chance(1, 2) { J::Int(c.draw(20) as i128) } else { let n = 1 + c.below(5); s(b64_string(c, n).replace('-', "x")) })
                .collect();
            let shown: Vec<J> = parts.iter().map(|p| match p {
                J::Int(i) => s(i.to_string()),
                p => p.clone(),
            }).collect();
            let b: String = shown.iter().map(|p| if let J::Str(x) = p { format!("-{x}") } else { unreachable!() }).collect();
            want.push(("bext", b));
            want.push(("path", J::Arr(shown).text()));
            let v = J::Arr(parts).value();
            c.call("Pather::new_with_path", || Pather::new_with_path(&v).ok().map(|m| kinds::of_matter(&m)))?
        }
        _ => {
            let code = match k.own {
                Some(own) => *c.pick(own),
                None => refc::MATTER[c.below(refc::MATTER.len())].code,
            };
            let mut raw = raw_for(c, code);
            if k.name == "Signer" {
                raw = seed_for(c, code);
            }
            if refc::matter(code).unwrap().fs == 0 && c.chance(1, if style == Style::Any { 250 } else { 100 }) {
                // longer than sixteen or eighteen bits count
                c.probe("item of more than 65535 quadlets");
                let quads = if c.chance(1, 8) { 262_143 } else { 65_535 } + c.below(3);
                raw = c.random(quads * 3 - refc::matter(code).unwrap().ls);
            }
            if code.len() == 4 || code.starts_with(['4', '5', '6']) {
                expect = Some((final_code(code, &raw), raw.clone()));
            } else {
                expect = Some((code.to_string(), raw.clone()));
            }
            let route = c.below(2);
            // more material than the code takes is not part of the value
            let mut given = raw.clone();
            if refc::matter(code).unwrap().fs != 0 && c.chance(1, 8) {
                let n = 1 + c.below(4);
                given.extend(c.random(n));
            }
            c.call("Matter from raw", || (k.raw)(route, code, &given))?
        }
    };
    let made = match made {
        Some(m) => m,
        None => return c.fail("refused although representable", format!("{} refused to be built: want {want:?} {expect:?}", k.name)),
    };
    let (code, raw) = expect.unwrap_or((made.code.clone(), made.raw.clone()));
    c.ensure(made.code == code && made.raw == raw, "built with another code or material", || {
        format!("{}: want {code} {}, got {} {}", k.name, kinds::hex(&raw), made.code, kinds::hex(&made.raw))
    })?;
    let text = match refc::matter_text(&code, &raw) {
        Some(t) => t,
        None => return c.fail("code does not fit the material", format!("{}: {code} with {} raw bytes", k.name, raw.len())),
    };
    c.ensure(made.qb64.as_deref() == Some(&text) && made.qb64b.as_deref() == Some(text.as_bytes()), "text differs from the code table", || {
        format!("{} {code}: library {:?}, tables {text}", k.name, made.qb64)
    })?;
    c.ensure(made.qb2.as_deref() == Some(&refc::binary(&text)[..]), "binary is not the transcoding of the text", || {
        format!("{} {text}: library {:?}", k.name, made.qb2.as_ref().map(|b| kinds::hex(b)))
    })?;
    c.ensure(made.full_size == Some(text.len()), "full size is not the size occupied", || format!("{} {text}: {:?}", k.name, made.full_size))?;
    Ok(Item::Matter { kind, code, raw, text, want })
}

/// A private key that is valid on its curve.
pub fn seed_for(c: &mut Ctx, code: &str) -> Vec<u8> {
    let _ = code;
    let mut v = c.random(32);
    v[0] &= 0x7f;
    v[31] |= 1;
    v
}

// ------------------------------------------------------------------ messages

pub fn sith(c: &mut Ctx, keys: usize) -> J {
    match c.draw(6) {
        0 => s("1"),
        1 => s(format!("{:x}", 1 + c.below(keys.max(1)))),
        2 => J::Int(1 + c.below(keys.max(1)) as i128),
        3 => {
            // alone enough, or with others which hardly count
            let d = i32::MAX as usize - c.below(1000);
            let few = (0..keys.clamp(1, 3)).map(|i| if i == 0 { s("1") } else { s(format!("1/{}", d - i)) }).collect();
            J::Arr(vec![J::Arr(few)])
        }
        _ => {
            let w = s(format!("1/{}", keys.max(1)));
            let clause = J::Arr(vec![w; keys.max(1)]);
            if c.chance(1, 2) {
                clause
            } else {
                J::Arr(vec![clause])
            }
        }
    }
}
/// How many of something: mostly a few, now and then a lot.
pub fn several(c: &mut Ctx) -> usize {
    match c.draw(40) {
        0 => c.below(140),
        1 | 2 => c.below(36),
        _ => c.below(3),
    }
}
/// A key event of any type, well formed, its identifier computed by the reference.
pub fn event(c: &mut Ctx, code: &str) -> J {
    let ilk = *c.pick(&["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "vcp", "iss", "rev"]);
    let nk = 1 + several(c);
    let keys: Vec<J> = (0..nk).map(|_| s(key_text(c))).collect();
    let last = c.chance(1, 6);
    let nd = if last { 0 } else { 1 + several(c) };
    let nexts: Vec<J> = (0..nd).map(|_| s(digest_text(c))).collect();
    let nw = several(c);
    let wits: Vec<J> = (0..nw).map(|_| s(key_text(c))).collect();
    let pre = if c.chance(1, 2) { key_text(c) } else { digest_text(c) };
    let n = c.number(u128::MAX);
    let sn = s(format!("{n:x}"));
    let mut e = vec![("v".to_string(), s(refj::version_string("KERI", 0))), ("t".into(), s(ilk)), ("d".into(), s("")), ("i".into(), s(pre)), ("s".into(), sn)];
    let mut put = |k: &str, v: J| e.push((k.to_string(), v));
    match ilk {
        "icp" | "dip" => {
            put("kt", sith(c, nk));
            put("k", J::Arr(keys));
            put("nt", if last { s("0") } else { sith(c, nd) });
            put("n", J::Arr(nexts));
            put("bt", s(format!("{:x}", nw)));
            put("b", J::Arr(wits));
            put("c", J::Arr(vec![]));
            let a = anchors(c);
            put("a", a);
            if ilk == "dip" {
                put("di", s(digest_text(c)));
            }
        }
        "rot" | "drt" => {
            put("p", s(digest_text(c)));
            put("kt", sith(c, nk));
            put("k", J::Arr(keys));
            put("nt", if last { s("0") } else { sith(c, nd) });
            put("n", J::Arr(nexts));
            put("bt", s("0"));
            put("br", J::Arr(vec![]));
            put("ba", J::Arr(wits));
            let a = anchors(c);
            put("a", a);
        }
        "ixn" => {
            put("p", s(digest_text(c)));
            let a = anchors(c);
            put("a", a);
        }
        _ => {
            let n = c.below(3);
            for i in 0..n {
                let k = format!("x{i}{}", b64_string(c, 2));
                let v = json(c, 2);
                put(&k, v);
            }
            if c.chance(1, 4) {
                let f = c.number(u128::MAX);
                let b = f.to_be_bytes();
                put("f", s(refc::matter_text("0A", &b).unwrap()));
            }
        }
    }
    let (_, j) = refj::saidify(&J::Obj(e), code, "d", true, &[]);
    j
}
fn anchors(c: &mut Ctx) -> J {
    let n = c.below(3);
    J::Arr((0..n).map(|_| c.span(|c| json(c, 2))).collect())
}
pub fn credential(c: &mut Ctx, code: &str) -> J {
    let mut e = vec![
        ("v".to_string(), s(refj::version_string("ACDC", 0))),
        ("d".into(), s("")),
        ("i".into(), s(digest_text(c))),
    ];
    if c.chance(1, 2) {
        e.push(("ri".into(), s(digest_text(c))));
    }
    e.push(("s".into(), s(digest_text(c))));
    let mut a = J::Obj(vec![("d".into(), s(digest_text(c))), ("i".into(), s(digest_text(c)))]);
    let n = c.below(4);
    for _ in 0..n {
        c.span(|c| {
            let k = label(c);
            let v = json(c, 2);
            a.set(&k, v);
        });
    }
    e.push(("a".into(), a));
    if c.chance(1, 2) {
        let v = json(c, 2);
        e.push(("e".into(), if matches!(v, J::Obj(_)) { v } else { J::Obj(vec![]) }));
    }
    if c.chance(1, 4) {
        e.push(("r".into(), J::Arr(vec![])));
    }
    let (_, j) = refj::saidify(&J::Obj(e), code, "d", true, &[]);
    j
}

/// Fields missing, repeated, moved, emptied, of another type or in events which usually have none: what a message
/// says is still what everyone must read in it.
fn unusual(c: &mut Ctx, cred: bool, body: J, code: &str) -> J {
    let mut j = body;
    let times = 1 + c.below(3);
    for _ in 0..times {
        c.span(|c| {
            let drop = |c: &mut Ctx, j: &mut J, from: &[&str]| {
                let k = *c.pick(from);
                j.remove(k);
            };
            match c.draw(if cred { 7 } else { 11 }) {
                0 => {
                    // the version string stays first
                    if let J::Obj(m) = &mut j {
                        if m.len() > 2 {
                            let e = m.remove(1 + c.below(m.len() - 1));
                            let at = 1 + c.below(m.len());
                            m.insert(at, e);
                        }
                    }
                }
                1 => {
                    let k = label(c);
                    if !["v", "d"].contains(&k.as_str()) && !(k.len() <= 2 && k.is_ascii()) {
                        let v = json(c, 1);
                        j.set(&k, v);
                    }
                }
                2 if cred => {
                    let v = match c.draw(4) {
                        0 => s(digest_text(c)),
                        1 => s(""),
                        _ => json(c, 2),
                    };
                    j.set("a", v);
                }
                3 if cred => {
                    let v = json(c, 2);
                    j.set("e", v);
                }
                4 if cred => {
                    let v = match c.draw(4) {
                        0 => s(""),
                        1 => json(c, 1),
                        _ => s(text(c, 20)),
                    };
                    j.set("ri", v);
                }
                5 if cred => {
                    let k = *c.pick(&["i", "s"]);
                    let v = match c.draw(4) {
                        0 => s(""),
                        1 => json(c, 1),
                        _ => s(text(c, 20)),
                    };
                    j.set(k, v);
                }
                _ if cred => drop(c, &mut j, &["i", "s", "a", "ri", "e", "r"]),
                2 | 3 => {
                    // a list with repetitions, or with something in it which does not belong
                    let k = *c.pick(&["k", "n", "b"]);
                    let mut a = match j.get(k) {
                        Some(J::Arr(a)) => a.clone(),
                        _ => vec![],
                    };
                    let n = c.below(4);
                    for _ in 0..n {
                        let e = match c.draw(8) {
                            0 => s(""),
                            1 => s(if k == "n" { key_text(c) } else { digest_text(c) }),
                            2 => integer(c),
                            3 => {
                                let mut x = if k == "n" { digest_text(c) } else { key_text(c) };
                                x.pop();
                                s(x)
                            }
                            4 => s(if k == "n" { digest_text(c) } else { key_text(c) }),
                            _ if a.is_empty() => continue,
                            _ => c.pick(&a).clone(),
                        };
                        let at = c.below(a.len() + 1);
                        a.insert(at, e);
                    }
                    j.set(k, J::Arr(a));
                }
                4 => {
                    let k = *c.pick(&["k", "n", "b"]);
                    j.set(k, if k == "n" && c.chance(1, 2) { s("") } else { J::Arr(vec![]) });
                }
                5 => {
                    let v = match c.draw(6) {
                        0 => {
                            let n = c.number(u128::MAX);
                            s(format!("{n:032X}"))
                        }
                        1 => s(format!("{}g", hexnum(c).1)),
                        2 => integer(c),
                        3 => s(format!("-{}", hexnum(c).1)),
                        4 => s(format!("0{:x}", c.number(u64::MAX as u128))),
                        _ => s(format!("1{:032x}", hexnum(c).0)),
                    };
                    j.set("s", v);
                }
                6 => {
                    let n = c.number(u128::MAX);
                    let (code, w) = *c.pick(&[("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)]);
                    let v = match c.draw(6) {
                        0 => s(digest_text(c)),
                        1 => integer(c),
                        _ => s(refc::matter_text(code, &n.to_be_bytes()[16 - w..]).unwrap()),
                    };
                    j.set("f", v);
                }
                7 => {
                    let k = *c.pick(&["kt", "nt"]);
                    let n = 1 + c.below(4);
                    let v = sith(c, n);
                    j.set(k, v);
                }
                8 => {
                    let v = if c.chance(1, 3) { json(c, 1) } else { s(*c.pick(&["icp", "rot", "dip", "drt", "ixn", "ICP", "", "icp ", "ro", "drts", "vcp"])) };
                    j.set("t", v);
                }
                9 => {
                    let v = if c.chance(1, 3) { json(c, 1) } else { s(text(c, 20)) };
                    j.set("i", v);
                }
                _ => drop(c, &mut j, &["kt", "k", "nt", "n", "b", "i", "s", "t", "f", "p", "a"]),
            }
        });
    }
    if j.get("d").is_none() {
        j.set("d", s(""));
    }
    refj::saidify(&j, code, "d", true, &[]).1
}

pub fn message(c: &mut Ctx) -> R<Item> {
    let cred = c.chance(1, 3);
    let code = if c.chance(1, 3) { *c.pick(refj::DIGESTS) } else { "E" };
    let mut body = if cred { credential(c, code) } else { event(c, code) };
    if c.chance(1, 3) {
        body = unusual(c, cred, body, code);
    }
    if c.chance(1, 400) {
        // larger than four digits of size can say
        let n = if c.chance(1, 3) { 1_048_000 + c.below(100_000) } else { 65_400 + c.below(80_000) };
        body.set(if cred { "r" } else { "a" }, J::Arr(vec![s(b64_string(c, n))]));
        body = refj::saidify(&body, code, "d", true, &[]).1;
    }
    compose(c, cred, code, &body)?;
    if c.chance(1, 4) {
        // another message of the same size and mostly the same content, and this one again
        if let Some(other) = nearly(c, &body, code) {
            compose(c, cred, code, &other)?;
            let text = other.text();
            let seen = if cred {
                c.call("Creder from bytes", || Creder::new_with_raw(text.as_bytes()).or_else(|_| Creder::new(Some(code), Some(text.as_bytes()), None, None, None)).ok().map(|m| kinds::inspect_creder(&m)))?
            } else {
                c.call("Serder from bytes", || Serder::new_with_raw(text.as_bytes()).or_else(|_| Serder::new(Some(code), Some(text.as_bytes()), None, None, None)).ok().map(|m| kinds::inspect_serder(&m)))?
            };
            let Some(seen) = seen else { return c.fail("well formed message refused", format!("bytes refused: {text}")) };
            crate::stream::expect_fields(c, cred, &other, &text, &seen)?;
            compose(c, cred, code, &body)?;
            c.probe("nearly equal messages in turns");
        }
    }
    let text = body.text();
    Ok(Item::Message { cred, code: code.to_string(), body, text })
}

/// A message which differs in one character of one field, and therefore in its identifier.
pub fn nearly(c: &mut Ctx, body: &J, code: &str) -> Option<J> {
    let mut j = body.clone();
    let names: Vec<&str> = ["k", "n", "b", "s", "bt", "kt", "nt", "i", "ri", "p", "a", "r"].into_iter().filter(|k| matches!(j.get(k), Some(J::Str(_) | J::Arr(_)))).collect();
    if names.is_empty() {
        return None;
    }
    let name = *c.pick(&names);
    let mut change = |t: &str| -> Option<String> {
        let mut b = t.as_bytes().to_vec();
        let from = if b.len() > 40 { 4 } else { 0 };
        let at: Vec<usize> = (from..b.len()).filter(|i| b[*i].is_ascii_alphanumeric()).collect();
        if at.is_empty() {
            return None;
        }
        let i = *c.pick(&at);
        b[i] = match b[i] {
            x @ b'0'..=b'8' => x + 1,
            b'9' => b'1',
            b'a' => b'b',
            b'b'..=b'f' => b'a',
            b'Q' => b'R',
            _ => b'Q',
        };
        String::from_utf8(b).ok()
    };
    let v = match j.get(name)? {
        J::Str(t) => J::Str(change(t)?),
        // (a weight above one, or out of shape, is no weight)
        J::Arr(_) if name == "kt" || name == "nt" => return None,
        J::Arr(a) => {
            let mut a = a.clone();
            let last = a.iter().rposition(|x| matches!(x, J::Str(_)))?;
            let J::Str(t) = &a[last] else { return None };
            a[last] = J::Str(change(t)?);
            J::Arr(a)
        }
        _ => return None,
    };
    j.set(name, v);
    Some(refj::saidify(&j, code, "d", true, &[]).1)
}

/// The message made from its content by the library, in every way.
fn compose(c: &mut Ctx, cred: bool, code: &str, body: &J) -> R<()> {
    let text = body.text();
    // what is built need not say its size yet, or say another
    let mut draft = body.clone();
    if c.chance(1, 2) {
        let ident = if cred { "ACDC" } else { "KERI" };
        let n = c.number(0xff_ffff) as usize;
        draft.set("v", s(refj::version_string(ident, n)));
    }
    let v = draft.value();
    let route = c.draw(2);
    let given = if code == "E" && c.chance(1, 2) { None } else { Some(code) };
    let kind = if c.chance(1, 2) { None } else { Some("JSON") };
    // made again from itself: taken over whole, copied, or written anew
    fn again<M: cesride::Sadder + PartialEq>(m: &M, how: u64) -> bool {
        let o = match how {
            0 => M::new(None, None, None, None, Some(m)).ok(),
            1 => Some(m.clone()),
            _ => {
                let mut o = m.clone();
                match how {
                    2 => o.populate_from_kind_and_self("JSON").is_ok(),
                    3 => o.populate_from_raw(&m.raw()).is_ok(),
                    _ => o.populate_from_ked(&m.ked(), Some("JSON")).is_ok(),
                }
                .then_some(o)
            }
        };
        o.is_some_and(|o| o == *m && o.raw() == m.raw() && o.ked() == m.ked() && o.size() == m.size() && o.said().ok() == m.said().ok() && o.code() == m.code())
    }
    let how = c.draw(5);
    let made = if cred {
        c.call("Creder from content", || {
            if route == 0 { Creder::new_with_ked(&v, given, kind) } else { Creder::new(given, None, kind, Some(&v), None) }.ok().map(|m| (m.raw(), m.size(), m.said().ok(), refj::same(body, &m.ked()) && again(&m, how), kinds::inspect_creder(&m)))
        })?
    } else {
        c.call("Serder from content", || {
            if route == 0 { Serder::new_with_ked(&v, given, kind) } else { Serder::new(given, None, kind, Some(&v), None) }.ok().map(|m| (m.raw(), m.size(), m.said().ok(), refj::same(body, &m.ked()) && again(&m, how), kinds::inspect_serder(&m)))
        })?
    };
    let (raw, size, said, same, seen) = match made {
        Some(m) => m,
        None => return c.fail("well formed message refused", format!("content refused: {text}")),
    };
    c.ensure(raw == text.as_bytes(), "bytes differ from the content", || format!("built {}\nwant  {text}", String::from_utf8_lossy(&raw)))?;
    c.ensure(size as usize == text.len(), "size is not the size of the bytes", || format!("{size} for {} bytes of {text}", text.len()))?;
    c.ensure(said.as_deref() == Some(body.str("d")), "identifier differs", || format!("{said:?} for {text}"))?;
    c.ensure(same, "content differs from what it was built from", || format!("{text}: {seen}"))?;
    crate::stream::expect_fields(c, cred, body, &text, &seen)
}
