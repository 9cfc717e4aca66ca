//! C02, C03, C16, C17: what survives relaying, storing and crashing.
use crate::gen::{self, Item, Style};
use crate::kinds;
use crate::refc;
use crate::refj::{self, s, J};
use crate::stream::{self, Cfg, Types};
use crate::world::*;
use cesride::data::{dat, Value};
use cesride::*;

pub fn framing(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    stream::simulate(c, &t, &Cfg { style: Style::Any, fragment: true, trailing: 32 })?;
    Ok(())
}
pub fn lossless(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    stream::simulate(c, &t, &Cfg { style: Style::Any, fragment: false, trailing: 4 })?;
    Ok(())
}

// ------------------------------------------------------------------ numbers

/// A value just, or far, beyond `max`.
fn beyond(c: &mut Ctx, max: u32) -> u32 {
    match c.draw(6) {
        0 | 1 => max.saturating_add(1 + c.draw(3) as u32),
        2 => u32::MAX - c.draw(3) as u32,
        3 => {
            // the low digits look innocent
            let k = 1 + c.draw(8) as u64;
            (k * (max as u64 + 1) + c.draw(5)).min(u32::MAX as u64) as u32
        }
        4 => (max as u64 * 64 + c.draw(64)).min(u32::MAX as u64) as u32,
        _ => {
            let v = c.number(u32::MAX as u128) as u32;
            if v > max {
                v
            } else {
                u32::MAX - v
            }
        }
    }
}
fn refused<T: std::fmt::Debug>(c: &mut Ctx, what: &str, got: Option<T>) -> R<()> {
    c.fault(Fault::Forgery);
    c.ensure(got.is_none(), "out of range value accepted", || format!("{what} gave {got:?}"))
}

fn out_of_range(c: &mut Ctx, t: &Types) -> R<()> {
    match c.draw(11) {
        0 => {
            let z = *c.pick(refc::COUNTER);
            let max = 64u32.pow(z.ss as u32) - 1;
            let n = beyond(c, max);
            let route = c.below(2);
            let got = c.call("Counter beyond its range", || kinds::counter_new(route, z.code, n))?;
            refused(c, &format!("counter {} with count {n}", z.code), got)
        }
        1 => {
            let z = *c.pick(refc::COUNTER);
            let extra = 1 + c.below(8);
            // more digits than the code holds, the first of them not zero
            let mut b = gen::b64_string(c, z.ss + extra);
            b.replace_range(..1, c.pick(&["B", "_", "Q", "g", "w"]));
            let got = c.call("Counter from too many digits", || Counter::new(None, Some(&b), Some(z.code), None, None, None).ok().map(|m| m.count()))?;
            refused(c, &format!("counter {} with digits {b}", z.code), got)
        }
        2 => {
            let z = *c.pick(refc::INDEXER);
            if z.fs == 0 {
                return Ok(());
            }
            let kind = if kinds::SIG.contains(&z.code) { c.below(2) } else { 1 };
            let max = 64u32.pow((z.ss - z.os) as u32) - 1;
            let n = beyond(c, max);
            let ondex = match c.draw(3) {
                0 => None,
                1 => Some(n),
                _ => Some(0),
            };
            let raw = c.random(z.raw());
            let route = c.below(2);
            let k = &t.iks[kind];
            let got = c.call("index beyond its range", || (k.raw)(route, z.code, &raw, n, ondex))?;
            refused(c, &format!("{} {} index {n} ondex {ondex:?}", k.name, z.code), got)
        }
        3 => {
            let z = *c.pick(refc::INDEXER);
            if z.fs == 0 || z.code.ends_with('z') {
                return Ok(());
            }
            let kind = if kinds::SIG.contains(&z.code) { c.below(2) } else { 1 };
            let imax = 64u32.pow((z.ss - z.os) as u32) - 1;
            let index = c.number(imax as u128) as u32;
            let ondex = if refc::CURRENT_ONLY.contains(&z.code) {
                // no other index at all; zero is how its absence is written
                1 + c.number(u32::MAX as u128 - 1) as u32
            } else if z.os == 0 {
                // the other index is the index
                let o = c.number(u32::MAX as u128) as u32;
                if o == index {
                    o ^ 1
                } else {
                    o
                }
            } else {
                beyond(c, 64u32.pow(z.os as u32) - 1)
            };
            let raw = c.random(z.raw());
            let route = c.below(2);
            let k = &t.iks[kind];
            let got = c.call("other index beyond its range", || (k.raw)(route, z.code, &raw, index, Some(ondex)))?;
            refused(c, &format!("{} {} index {index} ondex {ondex}", k.name, z.code), got)
        }
        4 => {
            // wider than 128 bits
            let n = c.number(u128::MAX);
            let lead = c.pick(&["1", "f", "8", "10", "100000000"]).to_string();
            let h = format!("{lead}{n:032x}");
            let which = c.draw(2);
            let got = c.call("number wider than 128 bits", || {
                if which == 0 {
                    Number::new_with_numh(&h).ok().and_then(|m| m.numh().ok())
                } else {
                    Seqner::new_with_snh(&h).ok().and_then(|m| m.snh().ok())
                }
            })?;
            refused(c, &format!("hexadecimal {h}"), got)
        }
        5 => {
            let n = c.number(u128::MAX);
            let bad = not_hex(c, n);
            let which = c.draw(2);
            let got = c.call("not a hexadecimal number", || {
                if which == 0 {
                    Number::new_with_numh(&bad).ok().and_then(|m| m.numh().ok())
                } else {
                    Seqner::new_with_snh(&bad).ok().and_then(|m| m.snh().ok())
                }
            })?;
            refused(c, &format!("hexadecimal {bad:?}"), got)
        }
        6 => {
            // an event whose sequence number does not fit, or is no number
            let mut e = gen::event(c, "E");
            let n = c.number(u128::MAX);
            let h = if c.chance(1, 2) { format!("{}{n:032x}", *c.pick(&["1", "a", "ff"])) } else { not_hex(c, n) };
            e.set("s", s(h.clone()));
            let (_, e) = refj::saidify(&e, "E", "d", true, &[]);
            let raw = e.text();
            let got = c.call("event with a sequence number wider than 128 bits", || Serder::new_with_raw(raw.as_bytes()).ok().and_then(|m| m.sn().ok()))?;
            refused(c, &format!("event with sequence number {h}"), got)
        }
        7 => {
            // signing with indices which do not fit
            let seed = c.random(32);
            let only = c.chance(1, 2);
            let big = beyond(c, 4095);
            let fits = c.number(4095) as u32;
            let (index, ondex) = if only {
                (big, None)
            } else {
                match c.draw(3) {
                    0 => (big, None),
                    1 => (fits, Some(big)),
                    _ => (big, Some(fits)),
                }
            };
            let got = c.call("signing with an index out of range", || {
                Signer::new_with_raw(&seed, Some(true), Some("A")).ok().and_then(|g| g.sign_indexed(b"x", only, index, ondex).ok()).map(|g| (g.code(), g.index(), g.ondex()))
            })?;
            refused(c, &format!("signature with index {index} ondex {ondex:?} only={only}"), got)
        }
        8 => {
            let a = [c.draw(256) as u8, c.draw(70) as u8, c.draw(70) as u8];
            let k = c.below(3);
            let v = [a[k % 3], a[(k + 1) % 3], a[(k + 2) % 3]];
            let fits = v.iter().all(|x| *x < 64);
            let text = format!("{}.{}.{}", v[0], v[1], v[2]);
            let (x, y) = c.call("semantic version", || (Counter::sem_ver_to_b64(v[0], v[1], v[2]).ok(), Counter::sem_ver_str_to_b64(&text).ok()))?;
            let want = if fits { Some(v.iter().map(|x| refc::num_text(*x as u128, 1).unwrap()).collect::<String>()) } else { None };
            c.ensure(x == want && y == want, "version number changed", || format!("{text}: {x:?} and {y:?}, must be {want:?}"))?;
            // parts left out are zero; parts which are too many, negative, or no numbers, are no version
            let p: Vec<u8> = (0..c.below(4)).map(|_| c.draw(64) as u8).collect();
            let mut text = p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
            let mut want = Some((0..3).map(|i| refc::num_text(p.get(i).copied().unwrap_or(0) as u128, 1).unwrap()).collect::<String>());
            match c.draw(8) {
                0 => {
                    text = format!("{}.{}.{}.{}", v[0] % 64, v[1] % 64, v[2] % 64, c.pick(&["0", "", "1", "4.5", "x"]));
                    want = None;
                }
                1 => {
                    text = format!("{}.-{}.0", v[0] % 64, 1 + v[1] % 63);
                    want = None;
                }
                2 => {
                    text = format!("{}.{}", v[0] % 64, c.pick(&["x", "1a", "0x1", " 1", "1 ", "127", "128", "256", "1000", "99999999999999999999"]));
                    want = None;
                }
                _ => (),
            }
            let got = c.call("semantic version", || Counter::sem_ver_str_to_b64(&text).ok())?;
            c.ensure(got == want, "version number changed", || format!("{text:?}: {got:?}, must be {want:?}"))
        }
        9 => {
            // what is meant when nothing is given
            let z = *c.pick(refc::COUNTER);
            let got = c.call("numbers left out", || {
                (
                    Number::new(None, None, None, None, None, None, None).ok().and_then(|m| Some((m.num().ok()?, m.qb64().ok()?))),
                    Seqner::new(None, None, None, None, None, None, None).ok().and_then(|m| Some((m.sn().ok()?, m.qb64().ok()?))),
                    Counter::new(None, None, Some(z.code), None, None, None).ok().and_then(|m| Some((m.count() as u128, m.qb64().ok()?))),
                    Counter::new(Some(1), None, None, None, None, None).is_err(),
                )
            })?;
            let one = refc::num_text(1, z.ss).map(|n| (1u128, format!("{}{n}", z.code)));
            let want = (Some((0, "MAAA".to_string())), Some((0, format!("0A{}", "A".repeat(22)))), one, true);
            c.ensure(got == want, "another number than none", || format!("nothing given: {got:?}, must be {want:?}"))
        }
        _ => {
            if !c.chance(1, 200) {
                return Ok(());
            }
            // as much as a length of four sextets can say, and a little more
            let m = 3 * (1usize << 24) - 3;
            let by = *c.pick(&[0usize, 1, 2, 3, 4, 5, 6]);
            let raw = vec![7u8; m - 3 + by];
            let code = *c.pick(&["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"]);
            let got = c.call("the longest material", || Bexter::new_with_raw(&raw, Some(code)).ok().map(|b| (b.code(), b.size(), b.raw().len(), b.full_size().ok())))?;
            let size = raw.len().div_ceil(3);
            if size < 1 << 24 {
                let lead = ["7", "8", "9"][(3 - raw.len() % 3) % 3];
                let kind = &code[code.len() - 1..];
                let want = Some((format!("{lead}AA{kind}"), size as u32, raw.len(), Some(8 + size * 4)));
                c.ensure(got == want, "long material misread", || format!("{} bytes under {code}: {got:?}, must be {want:?}", raw.len()))
            } else {
                refused(c, &format!("{} bytes under {code}", raw.len()), got)
            }
        }
    }
}

pub fn numbers(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    let items = stream::simulate(c, &t, &Cfg { style: Style::Numbers, fragment: false, trailing: 8 })?;
    // replay out of order and more than once: the order of the numbers read is the order of the numbers
    let mut log: Vec<(u128, u128)> = vec![];
    for item in &items {
        if let Item::Matter { kind, want, .. } = item {
            let name = t.ks[*kind].name;
            let key = if name == "Seqner" { "sn" } else { "num" };
            let truth: u128 = match want.iter().find(|(k, _)| *k == key) {
                Some((_, v)) => v.parse().unwrap(),
                None => continue,
            };
            for _ in 0..1 + c.below(2) {
                let binary = c.chance(1, 2);
                let b = item.bytes(binary);
                if let Some(stream::Got::One(p)) = stream::read(c, &t, item, &b, binary)? {
                    let seen: Option<u128> = p.more(key).and_then(|v| v.parse().ok());
                    c.ensure(seen == Some(truth), "number changed", || format!("{name} {truth} read back as {seen:?}"))?;
                    let at = c.below(log.len() + 1);
                    log.insert(at, (seen.unwrap(), truth));
                    c.fault(Fault::StaleReplay);
                }
            }
        }
    }
    let mut a = log.clone();
    a.sort_by_key(|x| x.0);
    let mut b = log;
    b.sort_by_key(|x| x.1);
    c.ensure(a.iter().map(|x| x.1).eq(b.iter().map(|x| x.1)), "order changed", || format!("{a:?}"))?;
    // the same numbers by every way of giving and reading them
    for _ in 0..4 {
        c.span(|c| equivalent(c))?;
    }
    for _ in 0..8 {
        c.span(|c| out_of_range(c, &t))?;
    }
    Ok(())
}

/// One number, in every width it fits and by every route.
fn equivalent(c: &mut Ctx) -> R<()> {
    let n = c.number(u128::MAX);
    let b = n.to_be_bytes();
    for (code, w) in [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)] {
        if w < 16 && n >> (8 * w) != 0 {
            continue;
        }
        let raw = b[16 - w..].to_vec();
        let text = refc::matter_text(code, &raw).unwrap();
        let bin = refc::binary(&text);
        let route = c.draw(4);
        let got = c.call("Number in every width", || {
            let m = match route {
                0 => Number::new_with_raw(&raw, Some(code)),
                1 => Number::new_with_qb64(&text),
                2 => Number::new_with_qb64b(text.as_bytes()),
                _ => Number::new_with_qb2(&bin),
            };
            m.ok().map(|m| (m.num().ok(), m.numh().ok(), m.positive().ok(), m.qb64().ok(), m.qb2().ok()))
        })?;
        c.ensure(got == Some((Some(n), Some(format!("{n:x}")), Some(n > 0), Some(text.clone()), Some(bin.clone()))), "number changed", || format!("{n} as {code} ({text}): {got:?}"))?;
        if code == "0A" {
            let got = c.call("Seqner by every route", || {
                let m = match route {
                    0 => Seqner::new_with_raw(&raw, None),
                    1 => Seqner::new_with_qb64(&text),
                    2 => Seqner::new_with_qb64b(text.as_bytes()),
                    _ => Seqner::new_with_qb2(&bin),
                };
                m.ok().map(|m| (m.sn().ok(), m.snh().ok(), m.qb64().ok(), m.qb2().ok()))
            })?;
            c.ensure(got == Some((Some(n), Some(format!("{n:x}")), Some(text.clone()), Some(bin.clone()))), "number changed", || format!("{n} as sequence number {text}: {got:?}"))?;
        }
    }
    // hexadecimal with leading zeros or capitals is the same number
    let h = match c.draw(3) {
        0 => format!("{n:032x}"),
        1 => format!("{n:X}"),
        _ => format!("0{n:x}"),
    };
    if c.chance(1, 8) {
        // more zeros than any number needs: the same number or none
        let zeros = 1 + c.below(40);
        let long = format!("{}{n:x}", "0".repeat(zeros));
        let got = c.call("long hexadecimal forms", || (Number::new_with_numh(&long).ok().and_then(|m| m.num().ok()), Seqner::new_with_snh(&long).ok().and_then(|m| m.sn().ok())))?;
        let fine = |g: Option<u128>| g.is_none() || g == Some(n);
        c.ensure(fine(got.0) && fine(got.1), "number changed", || format!("{long} was read as {got:?}"))?;
    }
    if h.len() <= 32 {
        let got = c.call("hexadecimal forms", || (Number::new_with_numh(&h).ok().and_then(|m| m.num().ok()), Seqner::new_with_snh(&h).ok().and_then(|m| m.sn().ok())))?;
        c.ensure(got == (Some(n), Some(n)), "number changed", || format!("{h} was read as {got:?}"))?;
    }
    // signing carries the indices it was asked for
    if c.chance(1, 3) {
        let seed = c.random(32);
        let only = c.chance(1, 3);
        let index = c.number(4095) as u32;
        let ondex = if only {
            None
        } else {
            match c.draw(3) {
                0 => None,
                1 => Some(index),
                _ => Some(c.number(4095) as u32),
            }
        };
        let got = c.call("sign_indexed", || {
            let g = Signer::new_with_raw(&seed, Some(true), Some("A")).ok()?.sign_indexed(b"x", only, index, ondex).ok()?;
            let t = g.qb64().ok()?;
            let b = Siger::new_with_qb2(&g.qb2().ok()?, None).ok()?;
            let a = Siger::new_with_qb64(&t, None).ok()?;
            Some((g.index(), g.ondex(), a.index(), a.ondex(), b.index(), b.ondex(), a.code()))
        })?;
        let want = (index, if only { 0 } else { ondex.unwrap_or(index) });
        let ok = got.as_ref().map(|g| (g.0, g.1) == want && (g.2, g.3) == want && (g.4, g.5) == want) == Some(true);
        c.ensure(ok, "index changed", || format!("signed with index {index} ondex {ondex:?} only={only}: {got:?}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ messages

pub fn messages(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    let items = stream::simulate(c, &t, &Cfg { style: Style::Messages, fragment: false, trailing: 24 })?;
    let mut picked: Vec<&Item> = items.iter().filter(|i| matches!(i, Item::Message { .. })).collect();
    picked.truncate(3);
    for item in picked {
        if let Item::Message { cred, code, body, text } = item {
            relay(c, *cred, code, body, text)?;
            for _ in 0..4 {
                c.span(|c| wrong(c, *cred, code, body, text))?;
            }
        }
    }
    for _ in 0..2 {
        c.span(versions)?;
    }
    for _ in 0..3 {
        c.span(content)?;
    }
    Ok(())
}

/// The same content built by any mix of the ways the data model offers.
fn built(c: &mut Ctx, j: &J) -> R<Value> {
    Ok(match j {
        J::Null => {
            if c.chance(1, 2) {
                Value::Null
            } else {
                dat!(null)
            }
        }
        J::Bool(b) => {
            if c.chance(1, 2) {
                Value::Boolean(*b)
            } else if *b {
                dat!(true)
            } else {
                dat!(false)
            }
        }
        J::Int(i) => {
            let i = *i;
            let mut ways: Vec<fn(i128) -> Value> = vec![];
            macro_rules! way {
                ($($t:ty),*) => { $( if <$t>::try_from(i).is_ok() { ways.push(|i| Value::from(i as $t)); ways.push(|i| dat!(i as $t)); } )* };
            }
            way!(i64, i32, i16, i8, u32, u16, u8);
            if u64::try_from(i).is_ok() {
                ways.push(|i| Value::Number(cesride::data::Number::from(i as u64)));
            }
            if i64::try_from(i).is_ok() {
                ways.push(|i| Value::Number(cesride::data::Number::from(i as i64)));
            }
            let f = *c.pick(&ways);
            c.call("value from an integer", || f(i))?
        }
        J::Dec(d) => {
            let f: f64 = d.parse().unwrap();
            let narrow = (f as f32) as f64 == f;
            match c.draw(4) {
                0 if narrow => c.call("value from f32", || Value::from(f as f32))?,
                1 => c.call("value from f64", || dat!(f))?,
                2 => Value::Number(cesride::data::Number::from(f)),
                _ => c.call("value from f64", || Value::from(f))?,
            }
        }
        J::Str(x) => match c.draw(4) {
            0 => Value::String(x.clone()),
            1 => c.call("value from &str", || Value::from(x.as_str()))?,
            2 => c.call("value from &String", || Value::from(x))?,
            _ => c.call("dat! of &str", || dat!(x.as_str()))?,
        },
        J::Arr(a) => {
            let mut v = vec![];
            for e in a {
                v.push(c.span(|c| built(c, e))?);
            }
            let way = c.draw(3);
            c.call("value from a list", || match (way, v.as_slice()) {
                (0, []) => dat!([]),
                (0, [x]) => dat!([x.clone()]),
                (0, [x, y]) => dat!([x.clone(), y.clone()]),
                (0, [x, y, z]) => dat!([x.clone(), y.clone(), z.clone(),]),
                (1, _) => Value::from(v.as_slice()),
                _ => Value::Array(v.clone()),
            })?
        }
        J::Obj(m) => {
            let mut v: Vec<(String, Value)> = vec![];
            for (k, e) in m {
                let e = c.span(|c| built(c, e))?;
                v.push((k.clone(), e));
            }
            let way = c.draw(5);
            c.call("value from a map", || {
                let whole = || v.iter().cloned().collect::<cesride::data::Object>();
                match (way, v.as_slice()) {
                    (0, []) => dat!({}),
                    (0, [(k, x)]) => dat!({ k: x.clone() }),
                    (0, [(k, x), (l, y)]) => dat!({ k: x.clone(), l: y.clone() }),
                    (0, [(k, x), (l, y), (m, z)]) => dat!({ k: x.clone(), l: y.clone(), m: z.clone(), }),
                    (1, [(k, x)]) => Value::from(&std::collections::HashMap::from([(k.clone(), x.clone())])),
                    (2, _) => {
                        let mut o = dat!({});
                        for (k, x) in &v {
                            o[k.as_str()] = x.clone();
                        }
                        o
                    }
                    (3, _) => Value::from(&whole()),
                    _ => Value::Object(whole()),
                }
            })?
        }
    })
}
fn foreign(j: &J) -> serde_json::Value {
    use serde_json::Value as V;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Int(i) => match i64::try_from(*i) {
            Ok(n) => V::from(n),
            Err(_) => V::from(*i as u64),
        },
        J::Dec(d) => V::from(d.parse::<f64>().unwrap()),
        J::Str(x) => V::String(x.clone()),
        J::Arr(a) => V::Array(a.iter().map(foreign).collect()),
        J::Obj(m) => V::Object(m.iter().map(|(k, v)| (k.clone(), foreign(v))).collect()),
    }
}

/// Every way of reading one node agrees with what it holds, and only with that.
fn reads(c: &mut Ctx, j: &J, v: &Value) -> R<()> {
    type Map = cesride::data::Object;
    let b = c.call("Value as boolean", || (v.to_bool().ok(), bool::try_from(v).ok()))?;
    let want = if let J::Bool(b) = j { Some(*b) } else { None };
    c.ensure(b == (want, want), "content misread", || format!("{} as boolean: {b:?}", j.text()))?;
    let t = c.call("Value as text", || (v.to_string().ok(), String::try_from(v).ok()))?;
    let want = if let J::Str(x) = j { Some(x.clone()) } else { None };
    c.ensure(t == (want.clone(), want), "content misread", || format!("{} as text: {t:?}", j.text()))?;
    let n = c.call("Value as integer", || (v.to_i64().ok(), i64::try_from(v).ok()))?;
    let want = if let J::Int(i) = j { i64::try_from(*i).ok() } else { None };
    // a decimal has no one integer
    c.ensure(n.0 == want && (n.1 == want || matches!(j, J::Dec(_))), "content misread", || format!("{} as integer: {n:?}", j.text()))?;
    let f = c.call("Value as decimal", || (v.to_f64().ok(), f64::try_from(v).ok()))?;
    let want = if let J::Dec(d) = j { d.parse::<f64>().ok() } else { None };
    let near = if let J::Int(i) = j { Some(*i as f64) } else { want };
    let bits = |x: Option<f64>| x.map(f64::to_bits);
    c.ensure((bits(f.0), bits(f.1)) == (bits(want), bits(near)), "content misread", || format!("{} as decimal: {f:?}", j.text()))?;
    let a = c.call("Value as list", || (v.to_vec().ok(), Vec::<Value>::try_from(v).ok()))?;
    let ok = match (j, &a) {
        (J::Arr(x), (Some(p), Some(q))) => [p, q].iter().all(|p| p.len() == x.len() && x.iter().zip(p.iter()).all(|(x, p)| refj::same(x, p))),
        (J::Arr(_), _) => false,
        (_, r) => *r == (None, None),
    };
    c.ensure(ok, "content misread", || format!("{} as list: {a:?}", j.text()))?;
    let m = c.call("Value as map", || (v.to_map().ok(), Map::try_from(v).ok()))?;
    let ok = match (j, &m) {
        (J::Obj(x), (Some(p), Some(q))) => [p, q].iter().all(|p| p.len() == x.len() && x.iter().zip(p.iter()).all(|((k, x), (l, p))| k == l && refj::same(x, p))),
        (J::Obj(_), _) => false,
        (_, r) => *r == (None, None),
    };
    c.ensure(ok, "content misread", || format!("{} as map: {m:?}", j.text()))?;
    let text = j.text();
    let got = c.call("Value as JSON", || (v.to_json().ok(), format!("{v}")))?;
    c.ensure(got.0.as_ref() == Some(&text) && got.1 == text, "content misread", || format!("{text} was written {got:?}"))?;
    match j {
        J::Arr(a) => {
            for (i, e) in a.iter().enumerate() {
                let x = c.call("Value by position", || v[i].clone())?;
                c.ensure(refj::same(e, &x), "content misread", || format!("{} at {i}: {x}", j.text()))?;
                c.span(|c| reads(c, e, &v[i]))?;
            }
        }
        J::Obj(m) => {
            for (i, (k, e)) in m.iter().enumerate() {
                let x = c.call("Value by label", || (v[k.as_str()].clone(), v[i].clone()))?;
                c.ensure(refj::same(e, &x.0) && refj::same(e, &x.1), "content misread", || format!("{} at {k:?} and {i}: {} and {}", j.text(), x.0, x.1))?;
                c.span(|c| reads(c, e, &v[i]))?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// The data model holds what it was given, however it was given, and changes only what it is told to.
fn content(c: &mut Ctx) -> R<()> {
    let mut j = if c.chance(1, 3) {
        gen::json(c, 3)
    } else {
        // few fields, or far more than any message has
        let n = if c.chance(1, 12) { 8 + c.below(60) } else { c.below(6) };
        let mut o = J::Obj(vec![]);
        for i in 0..n {
            let k = if i > 5 { format!("{}{i}", gen::label(c)) } else { gen::label(c) };
            let v = gen::json(c, if i > 5 { 1 } else { 2 });
            o.set(&k, v);
        }
        o
    };
    let mut v = built(c, &j)?;
    let told = c.call("value from serde_json", || Value::from(&foreign(&j)))?;
    let (a, b) = (j.value(), j.text());
    c.ensure(refj::same(&j, &v) && v == a && told == a, "content changed", || format!("{b}: {v} and {told}"))?;
    reads(c, &j, &v)?;
    let copy = v.clone();
    for _ in 0..c.below(4) {
        let e = gen::json(c, 1);
        let new = built(c, &e)?;
        match &mut j {
            J::Arr(a) if !a.is_empty() => {
                let i = c.below(a.len());
                a[i] = e;
                c.call("Value set by position", || v[i] = new)?;
            }
            J::Obj(m) if !m.is_empty() && c.chance(1, 3) => {
                let i = c.below(m.len());
                m[i].1 = e;
                c.call("Value set by position", || v[i] = new)?;
            }
            J::Obj(m) => {
                let k = if m.is_empty() || c.chance(1, 2) {
                    gen::label(c)
                } else {
                    c.pick(m).0.clone()
                };
                j.set(&k, e);
                c.call("Value set by label", || v[k.as_str()] = new)?;
            }
            _ => {}
        }
        c.ensure(refj::same(&j, &v), "content changed", || format!("{}, must be {}", v, j.text()))?;
    }
    reads(c, &j, &v)?;
    // what was copied before is not touched; unlike contents are not alike
    let text = j.text();
    c.ensure(copy == a && (v == a) == (text == b), "content changed", || format!("copy of {b} is {copy}, changed to {v}"))
}

/// Any number of rounds of reading and building again give the same bytes and the same values.
fn relay(c: &mut Ctx, cred: bool, code: &str, body: &J, text: &str) -> R<()> {
    let hops = 2 + c.below(4);
    let how: Vec<u64> = (0..hops).map(|_| c.draw(3)).collect();
    macro_rules! go {
        ($t:ident, $inspect:path) => {{
            c.call("relaying a message", || {
                let first = $t::new(Some(code), Some(text.as_bytes()), None, None, None).ok()?;
                let seen = $inspect(&first);
                let mut m = first.clone();
                let mut same = true;
                for h in &how {
                    m = match h {
                        0 => $t::new(Some(code), Some(&m.raw()), None, None, None).ok()?,
                        1 => $t::new(Some(code), None, Some("JSON"), Some(&m.ked()), None).ok()?,
                        _ => $t::new(Some(code), None, None, None, Some(&m)).ok()?,
                    };
                    same &= m == first && m.raw() == text.as_bytes() && $inspect(&m) == seen && crate::refj::same(body, &m.ked());
                }
                Some(same)
            })?
        }};
    }
    let r = if cred { go!(Creder, kinds::inspect_creder) } else { go!(Serder, kinds::inspect_serder) };
    c.probe("message relayed");
    c.ensure(r == Some(true), "message changed by relaying", || format!("after {hops} hops {how:?}: {r:?} for {text}"))
}

/// Messages of the wrong type, version or size.
fn wrong(c: &mut Ctx, cred: bool, code: &str, body: &J, text: &str) -> R<()> {
    c.fault(Fault::LyingHeader);
    let vs = body.str("v").to_string();
    let n = text.len();
    let mut reader_is_cred = cred;
    let mut by_content = c.chance(1, 3);
    let mut follow: Vec<u8> = vec![];
    let mut used = code.to_string();
    let mut spoilt = false;
    let (what, v) = match c.draw(8) {
        0 => {
            // the other type
            reader_is_cred = !cred;
            ("the other type", vs.clone())
        }
        1 => {
            let mut o = vs.clone();
            let (major, minor) = loop_version(c);
            o.replace_range(4..6, &format!("{major:x}{minor:x}"));
            ("another version", o)
        }
        2 => {
            by_content = false;
            let k = 1 + c.below(8).min(n - 1);
            ("a smaller size", format!("{}{:06x}_", &vs[..10], n - k))
        }
        3 => {
            by_content = false;
            // more is announced than there is of it, and something else follows
            let k = 1 + c.below(40);
            let first = *c.pick(&[b'{', b'-', b'A', b'"', b'}', b'0', 0xffu8, 0xc3]);
            follow.push(first);
            let m = k - 1 + c.below(20);
            follow.extend(c.random(m));
            ("a greater size", format!("{}{:06x}_", &vs[..10], n + k))
        }
        4 => {
            by_content = false;
            ("more than has arrived", format!("{}{:06x}_", &vs[..10], [n + 1, n + 1 + c.below(100_000), 0xff_ffff][c.below(3)]))
        }
        5 => {
            let mut o = vs.clone();
            let k = *c.pick(&["CBOR", "MGPK", "JSOM", "AAAA"]);
            o.replace_range(6..10, k);
            ("another kind", o)
        }
        6 => {
            by_content = false;
            spoilt = true;
            ("bytes that are no text", vs.clone())
        }
        _ => {
            // read as if identified with another digest
            let others: Vec<&str> = refj::DIGESTS.iter().copied().filter(|d| *d != code).collect();
            used = c.pick(&others).to_string();
            ("another digest", vs.clone())
        }
    };
    let mut b = body.clone();
    b.set("v", s(v.clone()));
    let mut bytes = b.text().into_bytes();
    if spoilt {
        // a byte of a string or a label that belongs to no character, or may not stand there unescaped
        let at: Vec<usize> = (24..bytes.len()).filter(|&i| bytes[i].is_ascii_alphanumeric() && bytes[i - 1].is_ascii_alphanumeric()).collect();
        if at.is_empty() {
            return Ok(());
        }
        let i = at[c.below(at.len())];
        bytes[i] = *c.pick(&[0xffu8, 0x80, 0xc3, 0xed, 0xf4, 0xc0, 0xfe, 0xe2]);
        c.fault(Fault::NetCorrupt);
    }
    bytes.extend_from_slice(&follow);
    let value = b.value();
    let route = c.draw(2);
    let kind = if c.chance(1, 2) { Some("JSON") } else { None };
    let got = c.call("message which must be refused", || match (reader_is_cred, by_content) {
        (true, true) => Creder::new(Some(&used), None, kind, Some(&value), None).ok().map(|m| m.raw()),
        (true, false) if used == "E" && route == 0 => Creder::new_with_raw(&bytes).ok().map(|m| m.raw()),
        (true, false) => Creder::new(Some(&used), Some(&bytes), kind, None, None).ok().map(|m| m.raw()),
        (false, true) => Serder::new(Some(&used), None, kind, Some(&value), None).ok().map(|m| m.raw()),
        (false, false) if used == "E" && route == 0 => Serder::new_with_raw(&bytes).ok().map(|m| m.raw()),
        (false, false) => Serder::new(Some(&used), Some(&bytes), kind, None, None).ok().map(|m| m.raw()),
    })?;
    c.ensure(got.is_none(), "message accepted which must be refused", || {
        format!("{what} ({v}, content={by_content}, read as {}): accepted {}", if reader_is_cred { "credential" } else { "event" }, String::from_utf8_lossy(&got.clone().unwrap_or_default()))
    })
}
fn loop_version(c: &mut Ctx) -> (u8, u8) {
    let v = (c.draw(16) as u8, c.draw(16) as u8);
    if v == (1, 0) {
        (1, 1)
    } else {
        v
    }
}

/// The version string functions on their own.
fn versions(c: &mut Ctx) -> R<()> {
    let ident = *c.pick(&["KERI", "ACDC"]);
    let (major, minor) = (c.draw(16) as u8, c.draw(16) as u8);
    let size = c.number(0xff_ffff) as u32;
    let want = format!("{ident}{major:x}{minor:x}JSON{size:06x}_");
    let v = common::Version { major, minor };
    let kind = if c.chance(1, 2) { Some("JSON") } else { None };
    let got = c.call("versify", || common::versify(Some(ident), Some(&v), kind, Some(size)).ok())?;
    c.ensure(got.as_deref() == Some(&want), "version string differs", || format!("{got:?}, must be {want}"))?;
    // whatever is not said is what everyone takes it to be
    let said = c.draw(8);
    let usual = format!("{}{}JSON{:06x}_", if said & 1 == 0 { "KERI" } else { ident }, if said & 2 == 0 { "10".to_string() } else { format!("{major:x}{minor:x}") }, if said & 4 == 0 { 0 } else { size });
    let got = c.call("versify", || common::versify((said & 1 > 0).then_some(ident), (said & 2 > 0).then_some(&v), kind, (said & 4 > 0).then_some(size)).ok())?;
    c.ensure(got.as_deref() == Some(&usual), "version string differs", || format!("{got:?}, must be {usual}"))?;
    let got = c.call("deversify", || common::deversify(&want).ok().map(|r| (r.ident, r.kind, r.version.major, r.version.minor, r.size)))?;
    c.ensure(got == Some((ident.into(), "JSON".into(), major, minor, size)), "version string misread", || format!("{want}: {got:?}"))?;
    // found near the start of a message, whatever follows
    let lead = *c.pick(&["{\"v\":\"", "{ \"v\" : \"", "{\"vs\":\"", "{\"v\": \"", "{\n  \"v\" : \"", "{\r\n\t\"v\": \"", "{   \"v\":  \""]);
    let mut b = format!("{lead}{want}\",").into_bytes();
    let n = 12 + c.below(30);
    b.extend(c.bytes(n));
    let got = c.call("sniff", || common::sniff(&b).ok().map(|r| (r.ident, r.kind, r.version.major, r.version.minor, r.size)))?;
    c.ensure(got == Some((ident.into(), "JSON".into(), major, minor, size)), "version string misread", || format!("{}: {got:?}", String::from_utf8_lossy(&b)))?;
    // content of any kind gets its size
    let mut j = J::Obj(vec![("v".into(), s(refj::version_string(ident, size as usize)))]);
    let k = c.below(4);
    for i in 0..k {
        let l = format!("x{i}{}", gen::label(c));
        let v = gen::json(c, 2);
        j.set(&l, v);
    }
    let sized = refj::sized(j.clone());
    let value = j.value();
    let got = c.call("sizeify", || common::sizeify(&value, kind).ok().map(|r| (r.raw, r.ident, r.kind, r.version.major, r.version.minor, crate::refj::same(&sized, &r.ked))))?;
    c.ensure(got == Some((sized.text().into_bytes(), ident.into(), "JSON".into(), 1, 0, true)), "sized content differs", || format!("{}: {:?}", sized.text(), got.map(|g| (String::from_utf8_lossy(&g.0).to_string(), g.5))))
}

/// Text that is almost, but not, a hexadecimal number.
fn not_hex(c: &mut Ctx, n: u128) -> String {
    let h = format!("{n:x}");
    match c.draw(8) {
        0 => format!("-{h}"),
        1 => format!("{h} "),
        2 => format!("0x{h}"),
        3 => format!("{h}g"),
        4 => format!("{h}.0"),
        _ => {
            // something that is no digit, anywhere; a leading plus is read as part of a number
            let junk = *c.pick(&["_", " ", "-", "+", ".", ",", "'", "x", "h", "g", "G", "o", "O", "l", "\0", "\n", "\t", "\u{0661}", "\u{ff11}", "\u{a0}", "\u{200b}", "%", "#", "/", ":", "@", "`", "e+", "__"]);
            let at = c.below(h.len() + 1);
            if at == 0 && junk == "+" {
                return format!("{h}+");
            }
            format!("{}{junk}{}", &h[..at], &h[at..])
        }
    }
}
