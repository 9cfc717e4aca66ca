//! C07 and C08: self-addressing data and identifier prefixes, passed between nodes which trust nothing.
use crate::gen;
use crate::kinds;
use crate::refc;
use crate::refj::{self, s, J};
use crate::world::*;
use cesride::data::Value;
use cesride::{Creder, Diger, Matter, Prefixer, Sadder, Saider, Serder};

/// "v" as every implementation writes it.
pub fn proper_version(v: &str) -> bool {
    let b = v.as_bytes();
    b.len() == 17
        && (v.starts_with("KERI10JSON") || v.starts_with("ACDC10JSON"))
        && b[10..16].iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c))
        && b[16] == b'_'
}
/// Is this content one whose text is unique: numbers in their shortest form, no key twice?
pub fn plain(j: &J) -> bool {
    match j {
        J::Dec(d) => d.parse::<f64>().ok().map(|f| f.is_finite() && serde_json::to_string(&f).ok().as_deref() == Some(d)).unwrap_or(false),
        J::Int(i) => *i >= i64::MIN as i128 && *i <= u64::MAX as i128,
        J::Arr(a) => a.iter().all(plain),
        J::Obj(m) => {
            let mut k: Vec<&str> = m.iter().map(|(k, _)| k.as_str()).collect();
            k.sort();
            let n = k.len();
            k.dedup();
            k.len() == n && m.iter().all(|(_, v)| plain(v))
        }
        _ => true,
    }
}
fn dummied(j: &J, labels: &[&str], code: &str) -> J {
    let mut d = j.clone();
    for l in labels {
        d.set(l, s("#".repeat(refc::matter(code).unwrap().fs)));
    }
    d
}

/// What verification of `said` against this content has to find, by the book.
fn said_holds(j: &J, code: &str, said: &str, label: &str, ignore: &[&str], prefixed: bool, versioned: bool) -> bool {
    let J::Obj(_) = j else { return false };
    let mut d = dummied(j, &[label], code);
    if let Some(v) = d.get("v") {
        let J::Str(v) = v else { return false };
        if !proper_version(v) {
            return false;
        }
        let old = v.clone();
        d = refj::sized(d);
        if versioned && label != "v" && d.str("v") != old {
            return false;
        }
    }
    for i in ignore {
        d.remove(i);
    }
    if refj::digest_text(code, d.text().as_bytes()) != said {
        return false;
    }
    !prefixed || matches!(j.get(label), Some(J::Str(x)) if x == said)
}

/// Structural alterations, from gross to subtle.
pub fn mangle(c: &mut Ctx, j: &J, said: &str) -> J {
    let mut k = j.clone();
    let n = 1 + c.below(2);
    for _ in 0..n {
        k = once(c, &k, said);
    }
    k
}
fn once(c: &mut Ctx, j: &J, said: &str) -> J {
    let mut j = j.clone();
    match &mut j {
        J::Obj(m) if !m.is_empty() => {
            let i = c.below(m.len());
            match c.draw(12) {
                0 => {
                    m.remove(i);
                }
                1 => {
                    let k = c.below(m.len());
                    m.swap(i, k);
                }
                2 => {
                    let k = gen::label(c);
                    if !m.iter().any(|(x, _)| *x == k) {
                        let v = gen::json(c, 1);
                        let at = c.below(m.len() + 1);
                        m.insert(at, (k, v));
                    }
                }
                3 => {
                    let k = format!("{}{}", m[i].0, ["x", " ", "\0", "A"][c.below(4)]);
                    if !m.iter().any(|(x, _)| *x == k) {
                        m[i].0 = k;
                    }
                }
                4 => {
                    // version digits
                    if let Some(x) = m.iter_mut().find(|(k, _)| k == "v") {
                        if let J::Str(v) = &x.1 {
                            let mut b = v.clone().into_bytes();
                            if b.len() == 17 {
                                let at = c.below(17);
                                b[at] = *c.pick(b"0123456789abcdefABCDEFKERIJSON_-CBM");
                            }
                            x.1 = s(String::from_utf8(b).unwrap());
                        }
                    }
                }
                _ => {
                    let v = once(c, &m[i].1, said);
                    m[i].1 = v;
                }
            }
        }
        J::Arr(a) if !a.is_empty() => {
            let i = c.below(a.len());
            match c.draw(6) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let k = c.below(a.len());
                    a.swap(i, k);
                }
                2 => {
                    let v = gen::json(c, 1);
                    a.push(v);
                }
                _ => {
                    let v = once(c, &a[i], said);
                    a[i] = v;
                }
            }
        }
        J::Str(x) => match c.draw(8) {
            0 => x.clear(),
            1 => x.push(*c.pick(&[' ', 'A', '\0', '\u{301}', '\n'])),
            2 => {
                x.pop();
            }
            3 => {
                if let Some(u) = x.chars().next() {
                    let v = if u.is_ascii_lowercase() { u.to_ascii_uppercase() } else { u.to_ascii_lowercase() };
                    x.replace_range(..u.len_utf8(), &v.to_string());
                }
            }
            4 => *x = said.to_string(),
            5 => {
                let t = x.clone();
                return match t.parse::<u32>() {
                    Ok(n) if n.to_string() == t => J::Int(n as i128),
                    _ => s(format!("{t}{t}")),
                };
            }
            _ => {
                // another character somewhere, of the same size
                let n = x.chars().count();
                if n > 0 {
                    let at = c.below(n);
                    let r = *c.pick(&['A', 'B', '0', '_', 'z', '~']);
                    *x = x.chars().enumerate().map(|(i, ch)| if i == at { r } else { ch }).collect();
                }
            }
        },
        J::Int(n) => {
            return match c.draw(4) {
                0 => s(n.to_string()),
                1 => J::Dec(format!("{}.0", *n as i32)),
                2 => J::Int(n.wrapping_neg().clamp(i64::MIN as i128, u64::MAX as i128)),
                _ => J::Int((*n + if c.chance(1, 2) { 1 } else { -1 }).clamp(i64::MIN as i128, u64::MAX as i128)),
            }
        }
        J::Bool(b) => return if c.chance(1, 2) { J::Bool(!*b) } else { s(b.to_string()) },
        J::Null => return [J::Bool(false), s(""), J::Int(0), J::Arr(vec![]), J::Obj(vec![])][c.below(5)].clone(),
        J::Dec(d) => {
            return match c.draw(3) {
                0 => J::Int(d.parse::<f64>().unwrap() as i32 as i128),
                1 => s(d.clone()),
                _ => {
                    if let Some(t) = d.strip_prefix('-') {
                        J::Dec(t.into())
                    } else {
                        J::Dec(format!("-{d}"))
                    }
                }
            }
        }
        J::Arr(_) | J::Obj(_) => {
            let v = gen::json(c, 0);
            return match c.draw(4) {
                0 => s(""),
                1 => J::Null,
                2 => J::Arr(vec![v]),
                _ => J::Obj(vec![("a".into(), v)]),
            };
        }
    }
    j
}

struct Sad {
    j: J,
    code: &'static str,
    said: String,
    label: String,
    ignore: Vec<String>,
}

fn content(c: &mut Ctx) -> (J, String, bool) {
    match c.draw(5) {
        0 => (gen::event(c, "E"), "d".into(), true),
        1 => (gen::credential(c, "E"), "d".into(), true),
        k => {
            let versioned = k == 2;
            let mut o = J::Obj(vec![]);
            if versioned {
                o.set("v", s(refj::version_string(["KERI", "ACDC"][c.below(2)], 0)));
            }
            let label = match c.draw(6) {
                0 | 1 => "d".to_string(),
                2 => "i".into(),
                3 => "$id".into(),
                4 => "dig".into(),
                _ => format!("x{}", gen::b64_string(c, 3)),
            };
            let n = c.below(6);
            let at = c.below(n + 1);
            for i in 0..=n {
                c.span(|c| {
                    if i == at {
                        let v = if c.chance(1, 2) { s("") } else { s(gen::digest_text(c)) };
                        o.set(&label, v);
                    } else {
                        let k = gen::label(c);
                        if k != "v" && k != label {
                            let v = gen::json(c, 3);
                            o.set(&k, v);
                        }
                    }
                });
            }
            if c.chance(1, 6) {
                // elsewhere stands what the label held
                if let Some(v) = o.get(&label).cloned() {
                    let k = if c.chance(1, 2) { "i".to_string() } else { gen::label(c) };
                    if k != "v" && k != label {
                        o.set(&k, v);
                    }
                }
            }
            (o, label, versioned)
        }
    }
}

fn opt<'a>(c: &mut Ctx, x: &'a str, default: &str) -> Option<&'a str> {
    if x == default && c.chance(1, 2) {
        None
    } else {
        Some(x)
    }
}

/// A node makes its data self-addressing, by every route there is.
fn make(c: &mut Ctx) -> R<Sad> {
    let (j, label, _) = content(c);
    let code = if c.chance(1, 3) { "E" } else { *c.pick(refj::DIGESTS) };
    let mut ignore: Vec<String> = vec![];
    if c.chance(1, 4) {
        if let J::Obj(m) = &j {
            for (k, _) in m {
                // (even the version string, or the identifier itself)
                let odds = if k == "v" || *k == label { 8 } else { 3 };
                if c.chance(1, odds) {
                    ignore.push(k.clone());
                }
            }
        }
        if c.chance(1, 4) {
            ignore.push("not there".into());
        }
    }
    let ig: Vec<&str> = ignore.iter().map(|x| x.as_str()).collect();
    let versioned = j.get("v").is_some();
    let (said, want) = refj::saidify(&j, code, &label, versioned, &ig);
    let v = j.value();
    let igo = if ig.is_empty() && c.chance(1, 2) { None } else { Some(&ig[..]) };
    let code_o = opt(c, code, "E");
    let label_o = opt(c, &label, "d");
    let kind_o = if c.chance(1, 2) { None } else { Some("JSON") };
    let got = c.call("Saider::saidify", || Saider::saidify(&v, code_o, kind_o, label_o, igo).ok().and_then(|(m, sad)| Some((m.qb64().ok()?, m.code(), sad))))?;
    let Some((q, mc, sad)) = got else { return c.fail("content refused", format!("saidify {} label {label} code {code}", j.text())) };
    c.ensure(q == said && mc == code, "identifier differs from the digest", || format!("saidify {} label {label} code {code} ignoring {ignore:?}: {q}, want {said}", j.text()))?;
    c.ensure(refj::same(&want, &sad), "content changed by saidify", || format!("{}, want {}", kinds::json(&sad), want.text()))?;
    // computed again over the finished data, with and without being told the algorithm
    let wv = want.value();
    let given = if c.chance(1, 2) { Some(code) } else { None };
    let wide = c.chance(1, 2);
    let again = c.call("Saider from data", || if wide { Saider::new(Some(&wv), label_o, kind_o, igo, given, None, None, None, None) } else { Saider::new_with_sad(&wv, label_o, kind_o, igo, given) }.ok().and_then(|m| m.qb64().ok()))?;
    c.ensure(again.as_deref() == Some(&said), "identifier differs from the digest", || format!("new from {} label {label} code {given:?}: {again:?}, want {said}", want.text()))?;
    Ok(Sad { j: want, code, said, label, ignore })
}

pub fn saider_from(c: &mut Ctx, said: &str) -> R<Option<Saider>> {
    let f = c.draw(3);
    let wide = c.chance(1, 2);
    let b = refc::binary(said);
    c.call("Saider from stored form", || {
        match (f, wide) {
            (0, false) => Saider::new_with_qb64(said),
            (0, true) => Saider::new(None, None, None, None, None, None, None, Some(said), None),
            (1, false) => Saider::new_with_qb64b(said.as_bytes()),
            (1, true) => Saider::new(None, None, None, None, None, None, Some(said.as_bytes()), None, None),
            (_, false) => Saider::new_with_qb2(&b),
            (_, true) => Saider::new(None, None, None, None, None, None, None, None, Some(&b)),
        }
        .ok()
    })
}

fn check_said(c: &mut Ctx, sad: &Sad, j: &J, said: &str, code: &str) -> R<()> {
    let Some(m) = saider_from(c, said)? else { return c.fail("identifier refused", said.to_string()) };
    let prefixed = [None, Some(false), Some(true), Some(true)][c.below(4)];
    let versioned = [None, Some(true), Some(true), Some(false)][c.below(4)];
    let ig: Vec<&str> = sad.ignore.iter().map(|x| x.as_str()).collect();
    let igo = if ig.is_empty() && c.chance(1, 2) { None } else { Some(&ig[..]) };
    let label_o = opt(c, &sad.label, "d");
    let kind_o = if c.chance(1, 2) { None } else { Some("JSON") };
    let v = j.value();
    let got = c.call("Saider.verify", || m.verify(&v, prefixed, versioned, kind_o, label_o, igo))?;
    let want = said_holds(j, code, said, &sad.label, &ig, prefixed.unwrap_or(false), versioned.unwrap_or(true));
    let yes = matches!(got, Ok(true));
    let behind = matches!(j, J::Obj(m) if m.iter().position(|(k, _)| k == "v").unwrap_or(0) > 0);
    if want && !yes && behind {
        // a version string anywhere but in front is outside the protocol
        return Ok(());
    }
    c.probe(if want { "identifier holds" } else { "alteration exposed" });
    c.ensure(yes == want, if want { "intact data does not verify" } else { "altered data verifies" }, || {
        format!("{said} against {} label {} ignoring {ig:?} prefixed {prefixed:?} versioned {versioned:?}: {got:?}", j.text(), sad.label)
    })
}

pub fn data(c: &mut Ctx) -> R<()> {
    let net = NetCfg::draw(c, true);
    let rot = [0, 32, 128][c.below(3)];
    let n = 1 + c.below(5);
    let mut sads: Vec<Sad> = vec![];
    for _ in 0..n {
        let m = c.span(make)?;
        c.mark_bytes(m.said.as_bytes());
        sads.push(m);
    }
    let mut q: Queue<(usize, String, Vec<u8>)> = Queue::new();
    for i in 0..n {
        c.span(|c| {
            let at = c.draw(20) * 1_000_000;
            let text = sads[i].j.text();
            for (d, p) in net.transmit(c, text.as_bytes()) {
                q.push(at + d, (i, sads[i].said.clone(), p));
            }
            // and what a liar sends in its place
            for _ in 0..c.below(4) {
                c.fault(Fault::Forgery);
                let k = c.below(n);
                let m = mangle(c, &sads[i].j, &sads[k].said);
                let said = if c.chance(1, 6) { sads[k].said.clone() } else { sads[i].said.clone() };
                q.push(at + c.draw(9) * 100_000, (i, said, m.text().into_bytes()));
            }
        });
    }
    let mut disk = Disk { rot, ..Default::default() };
    let mut log: Vec<(usize, String, usize)> = vec![];
    while let Some((at, (i, said, b))) = q.pop() {
        c.now = at;
        c.mark_bytes(&b);
        c.note(|| format!("node receives {} for {said}", String::from_utf8_lossy(&b)));
        arrive(c, &sads, i, &said, &b)?;
        if disk.append(c, &b).is_ok() {
            log.push((i, said, b.len()));
        }
        c.state(crate::tape::hash_bytes(&b) & 0xffff);
    }
    if c.chance(1, 2) {
        c.fault(Fault::NodeCrash);
        c.fault(Fault::NodeRestart);
        let mut all = disk.read(c);
        for (i, said, len) in log {
            let b: Vec<u8> = all.drain(..len.min(all.len())).collect();
            arrive(c, &sads, i, &said, &b)?;
        }
    }
    for _ in 0..1 + c.below(3) {
        c.span(digests)?;
    }
    Ok(())
}
fn arrive(c: &mut Ctx, sads: &[Sad], i: usize, said: &str, b: &[u8]) -> R<()> {
    let Ok(t) = std::str::from_utf8(b) else { return Ok(()) };
    let Some(j) = refj::parse(t) else { return Ok(()) };
    if !plain(&j) {
        return Ok(());
    }
    let J::Obj(_) = j else { return Ok(()) };
    let code = sads.iter().find(|s| s.said == said).map(|s| s.code).unwrap();
    check_said(c, &sads[i], &j, said, code)?;
    // messages check themselves by the identifier they carry
    if let (Some(J::Str(v)), true) = (j.get("v"), sads[i].label == "d" && sads[i].ignore.is_empty()) {
        if !proper_version(v) {
            return Ok(());
        }
        let cred = v.starts_with("ACDC");
        let text = j.text();
        let got = c.call("message verifies itself", || -> Option<(Value, Saider)> {
            if cred {
                let m = Creder::new_with_raw(text.as_bytes()).ok()?;
                Some((m.ked(), m.saider()))
            } else {
                let m = Serder::new_with_raw(text.as_bytes()).ok()?;
                Some((m.ked(), m.saider()))
            }
        })?;
        if let Some((ked, m)) = got {
            let ok = c.call("Saider.verify", || m.verify(&ked, Some(true), None, None, None, None))?;
            let (q, mc) = c.call("Saider accessors", || (m.qb64().unwrap_or_default(), m.code()))?;
            let want = refj::DIGESTS.contains(&mc.as_str()) && said_holds(&j, &mc, &q, "d", &[], true, true);
            c.ensure(matches!(ok, Ok(true)) == want, if want { "intact data does not verify" } else { "altered data verifies" }, || format!("message {text}: its own identifier {q} gives {ok:?}"))?;
        }
    }
    Ok(())
}

fn digests(c: &mut Ctx) -> R<()> {
    let n = match c.draw(6) {
        0 => 0,
        1 => c.below(4),
        2 => [55, 56, 63, 64, 65, 71, 72, 73, 103, 104, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 1023, 1024, 1025, 2048, 3073][c.below(25)],
        3 if c.chance(1, 60) => [65_535, 65_536, 131_071, 1 << 20][c.below(4)] + c.below(3),
        3 => c.below(20_000),
        _ => c.below(300),
    };
    let mut data = if c.chance(1, 4) { c.bytes(n) } else { c.random(n) };
    if c.chance(1, 8) {
        super::sign::edges(c, &mut data);
    }
    let code = *c.pick(refj::DIGESTS);
    let want = refj::digest_text(code, &data);
    let code_o = opt(c, code, "E");
    let wide = c.chance(1, 2);
    let m = c.call("Diger over data", || if wide { Diger::new(Some(&data), code_o, None, None, None, None) } else { Diger::new_with_ser(&data, code_o) }.ok())?;
    let Some(m) = m else { return c.fail("data refused", format!("{code} over {n} bytes")) };
    let q = c.call("Diger accessors", || m.qb64().unwrap_or_default())?;
    c.ensure(q == want, "digest differs from the algorithm's", || format!("{code} over {n} bytes {}: {q}, want {want}", kinds::hex(&data[..n.min(64)])))?;
    // the receiver has the digest and, perhaps, the data
    let f = super::sign::form(c, &want);
    let m = c.call("Diger from wire", || {
        match f.0 {
            0 => Diger::new_with_qb64(&want),
            1 => Diger::new_with_qb64b(&f.1),
            _ => Diger::new_with_qb2(&f.1),
        }
        .ok()
    })?;
    let Some(m) = m else { return c.fail("digest refused", want) };
    let ok = c.call("Diger.verify", || m.verify(&data))?;
    c.ensure(matches!(ok, Ok(true)), "intact data does not verify", || format!("{want} over {n} bytes: {ok:?}"))?;
    for _ in 0..1 + c.below(3) {
        let mut bad = data.clone();
        match c.draw(4) {
            0 | 1 if !bad.is_empty() => {
                let i = c.below(bad.len());
                bad[i] ^= 1 << c.draw(8);
            }
            2 => super::sign::edges(c, &mut bad),
            _ => {
                c.corrupt(&mut bad);
            }
        }
        c.fault(Fault::NetCorrupt);
        let ok = c.call("Diger.verify", || m.verify(&bad))?;
        let same = refj::digest(code, &bad) == refj::digest(code, &data);
        c.ensure(matches!(ok, Ok(true)) == same, "altered data verifies", || format!("{want} over {} bytes: {ok:?}", bad.len()))?;
    }
    // an altered digest
    let mut raw = refj::digest(code, &data);
    let i = c.below(raw.len());
    raw[i] ^= 1 << c.draw(8);
    let bad = refc::matter_text(code, &raw).unwrap();
    let ok = c.call("Diger.verify", || Diger::new_with_qb64(&bad).ok().map(|m| m.verify(&data)))?;
    c.ensure(matches!(ok, Some(Ok(false))), "altered digest verifies", || format!("{bad} instead of {want}: {ok:?}"))?;
    // compared with another digest of the same or other data
    let code2 = *c.pick(refj::DIGESTS);
    let data2 = if c.chance(1, 2) {
        data.clone()
    } else {
        let mut d = data.clone();
        if c.chance(1, 2) {
            d.push(1);
        } else {
            super::sign::edges(c, &mut d);
        }
        d
    };
    let other = if c.chance(1, 6) { bad } else { refj::digest_text(code2, &data2) };
    let ocode = if other.starts_with('0') { other[..2].to_string() } else { other[..1].to_string() };
    let ser = if c.chance(3, 4) { &data } else { &data2 };
    let want2 = other == want || (ocode != code && refj::digest_text(&ocode, ser) == other && refj::digest_text(code, ser) == want);
    let by = c.chance(1, 2);
    let got = c.call("Diger.compare", || {
        if by {
            m.compare(ser, Some(other.as_bytes()), None)
        } else {
            let o = Diger::new_with_qb64(&other)?;
            m.compare(ser, None, Some(&o))
        }
    })?;
    c.ensure(matches!(got, Ok(true)) == want2, "digests compared wrongly", || format!("{want} with {other} over {} bytes: {got:?}", ser.len()))?;
    // compared with what is left of one after the network has been at it
    let whole = if c.chance(1, 2) { want.clone() } else { other };
    let mut bytes = whole.clone().into_bytes();
    match c.below(5) {
        0 => bytes.drain(..1 + c.below(bytes.len())).for_each(drop),
        1 => bytes.truncate(c.below(bytes.len())),
        2 => {
            let i = c.below(bytes.len());
            bytes[i] ^= 1 << c.draw(7)
        }
        3 => bytes = refc::binary(&whole),
        _ => bytes.swap(0, 1),
    }
    if bytes == whole.as_bytes() || bytes == want.as_bytes() {
        return Ok(());
    }
    c.fault(Fault::NetTruncate);
    let got = c.call("Diger.compare", || m.compare(ser, Some(&bytes), None))?;
    c.ensure(!matches!(got, Ok(true)), "digests compared wrongly", || format!("{want} with {:?} over {} bytes: {got:?}", String::from_utf8_lossy(&bytes), ser.len()))
}

// ------------------------------------------------------------------ C08

const ILKS: &[&str] = &["icp", "dip", "vcp"];
const OTHER_ILKS: &[&str] = &[
    "rot", "ixn", "drt", "rct", "iss", "rev", "bis", "brv", "vrt", "vcp", "ksn", "qry", "rpy", "exn", "exp", "pro", "bar", "fwd", "icp", "dip", "icq", "ICP", "Icp", "", " ", "icpx", "xicp", "ic", "di", "dipp", "vc", "kel", "inc", "vicp",
];
const BASIC: &[&str] = &["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ"];

fn blank(v: Option<&J>) -> Option<bool> {
    match v {
        None => Some(true),
        Some(J::Str(x)) => Some(x.is_empty()),
        Some(J::Arr(a)) => Some(a.is_empty()),
        _ => None,
    }
}
fn only_key(j: &J) -> Option<&str> {
    match j.get("k") {
        Some(J::Arr(a)) if a.len() == 1 => match &a[0] {
            J::Str(x) => Some(x),
            _ => None,
        },
        _ => None,
    }
}
fn key_code(t: &str) -> Option<String> {
    let q = refc::matter_read(t.as_bytes()).ok()?;
    (q.fs == t.len() && kinds::VER.contains(&q.code.as_str())).then_some(q.code)
}
fn digest_prefix(j: &J, code: &str) -> Option<String> {
    match j.get("v") {
        Some(J::Str(v)) if proper_version(v) => {}
        _ => return None,
    }
    let d = refj::sized(dummied(j, &["i", "d"], code));
    Some(refj::digest_text(code, d.text().as_bytes()))
}
/// The prefix this event derives to under a code; None: it derives to nothing.
fn derives(j: &J, code: &str) -> Option<String> {
    if !ILKS.contains(&j.str("t")) || !matches!(j.get("t"), Some(J::Str(_))) {
        return None;
    }
    if BASIC.contains(&code) {
        let k = only_key(j)?;
        if key_code(k)? != code {
            return None;
        }
        if super::codes::TRANSFERABLE_NOT.contains(&code) {
            for f in ["n", "b", "a"] {
                if !blank(j.get(f))? {
                    return None;
                }
            }
        }
        return Some(k.to_string());
    }
    digest_prefix(j, code)
}
/// Whether a prefix holds for an event; None: left open.
fn holds(j: &J, pre: &str, code: &str, prefixed: bool) -> Option<bool> {
    if !matches!(j.get("t"), Some(J::Str(t)) if ILKS.contains(&t.as_str())) {
        return Some(false);
    }
    if prefixed && !matches!(j.get("i"), Some(J::Str(x)) if x == pre) {
        return Some(false);
    }
    if BASIC.contains(&code) {
        if only_key(j) != Some(pre) {
            return Some(false);
        }
        if super::codes::TRANSFERABLE_NOT.contains(&code) {
            match blank(j.get("n")) {
                Some(false) => return Some(false),
                None => return None,
                _ => {}
            }
            if blank(j.get("b")) != Some(true) || blank(j.get("a")) != Some(true) {
                return None;
            }
        }
        return Some(true);
    }
    Some(digest_prefix(j, code).as_deref() == Some(pre))
}

struct Inception {
    j: J,
    code: &'static str,
    pre: String,
}
/// An inception event with its prefix, by the reference.
fn inception(c: &mut Ctx) -> Inception {
    let digest = c.chance(1, 2);
    let code: &'static str = if digest { *c.pick(refj::DIGESTS) } else { *c.pick(BASIC) };
    let fixed = super::codes::TRANSFERABLE_NOT.contains(&code);
    let nk = if digest { 1 + c.below(3) } else { 1 };
    let keys: Vec<J> = (0..nk)
        .map(|i| {
            let kc = if !digest && i == 0 { code } else { *c.pick(kinds::VER) };
            let raw = gen::raw_for(c, kc);
            s(refc::matter_text(kc, &raw).unwrap())
        })
        .collect();
    let nn = if fixed { 0 } else { c.below(3) };
    let nexts: Vec<J> = (0..nn).map(|_| s(gen::digest_text(c))).collect();
    let nb = if fixed { 0 } else { c.below(3) };
    let wits: Vec<J> = (0..nb).map(|_| s(gen::key_text(c))).collect();
    let na = if fixed { 0 } else { c.below(2) };
    let anchors: Vec<J> = (0..na).map(|_| gen::json(c, 2)).collect();
    let ilk = ["icp", "icp", "dip", "vcp"][c.below(4)];
    let list = |c: &mut Ctx, a: Vec<J>| if a.is_empty() && c.chance(1, 3) { s("") } else { J::Arr(a) };
    let mut e = vec![("v".to_string(), s(refj::version_string("KERI", 0))), ("t".into(), s(ilk)), ("d".into(), s("")), ("i".into(), s("")), ("s".into(), s("0"))];
    e.push(("kt".into(), s("1")));
    e.push(("k".into(), J::Arr(keys.clone())));
    e.push(("nt".into(), s(nn.to_string())));
    if !fixed || c.chance(1, 2) {
        let n = list(c, nexts);
        e.push(("n".into(), n));
    }
    e.push(("bt".into(), s("0")));
    if !fixed || c.chance(1, 2) {
        let b = list(c, wits);
        e.push(("b".into(), b));
    }
    e.push(("c".into(), J::Arr(vec![])));
    if !fixed || c.chance(1, 2) {
        let a = list(c, anchors);
        e.push(("a".into(), a));
    }
    if ilk == "dip" {
        e.push(("di".into(), s(gen::digest_text(c))));
    }
    let j = J::Obj(e);
    if digest {
        let (pre, j) = refj::self_addressing(&j, code);
        Inception { j, code, pre }
    } else {
        let mut j = j;
        let pre = match &keys[0] {
            J::Str(x) => x.clone(),
            _ => unreachable!(),
        };
        j.set("i", s(pre.clone()));
        let dc = if c.chance(1, 2) { "E" } else { *c.pick(refj::DIGESTS) };
        let (_, j) = refj::saidify(&j, dc, "d", true, &[]);
        Inception { j, code, pre }
    }
}

fn derive(c: &mut Ctx, j: &J, code: &str, from_i: bool) -> R<()> {
    let v = j.value();
    let allows: Vec<&str> = match c.draw(4) {
        0 => vec![code],
        1 => {
            let a = kinds::PRE[c.below(kinds::PRE.len())];
            let b = kinds::PRE[c.below(kinds::PRE.len())];
            vec![a, b]
        }
        _ => vec![],
    };
    let allowed = allows.is_empty() || allows.contains(&code);
    let ao = if allows.is_empty() && c.chance(1, 2) { None } else { Some(&allows[..]) };
    let co = if from_i { None } else { Some(code) };
    let wide = c.chance(1, 2);
    let got = c.call("Prefixer from event", || if wide { Prefixer::new(Some(&v), ao, co, None, None, None, None) } else { Prefixer::new_with_ked(&v, ao, co) }.ok().and_then(|p| Some((p.qb64().ok()?, p.code()))))?;
    let want = if allowed { derives(j, code).map(|p| (p, code.to_string())) } else { None };
    c.probe(if want.is_some() { "derived" } else { "derivation refused" });
    c.ensure(got == want, if want.is_some() { "derived another prefix" } else { "derived from what derives to nothing" }, || {
        format!("code {code} (given: {}) allows {allows:?} from {}: {got:?}, want {want:?}", !from_i, j.text())
    })
}

fn check_prefix(c: &mut Ctx, j: &J, pre: &str, code: &str) -> R<()> {
    let f = super::sign::form(c, pre);
    let wide = c.chance(1, 2);
    let p = c.call("Prefixer from stored form", || {
        let b = &f.1[..];
        match (f.0, wide) {
            (0, false) => Prefixer::new_with_qb64(pre),
            (0, true) => Prefixer::new(None, None, None, None, None, Some(pre), None),
            (1, false) => Prefixer::new_with_qb64b(b),
            (1, true) => Prefixer::new(None, None, None, None, Some(b), None, None),
            (_, false) => Prefixer::new_with_qb2(b),
            (_, true) => Prefixer::new(None, None, None, None, None, None, Some(b)),
        }
        .ok()
    })?;
    let Some(p) = p else { return c.fail("prefix refused", pre.to_string()) };
    let v = j.value();
    let prefixed = [None, Some(false), Some(true), Some(true)][c.below(4)];
    let got = c.call("Prefixer.verify", || p.verify(&v, prefixed))?;
    let Some(want) = holds(j, pre, code, prefixed.unwrap_or(false)) else { return Ok(()) };
    c.probe(if want { "prefix holds" } else { "prefix refuted" });
    c.ensure(matches!(got, Ok(true)) == want, if want { "prefix does not verify against its event" } else { "prefix verifies against another event" }, || {
        format!("{pre} against {} prefixed {prefixed:?}: {got:?}", j.text())
    })
}

pub fn prefixes(c: &mut Ctx) -> R<()> {
    let net = NetCfg::draw(c, true);
    let n = 1 + c.below(4);
    let mut all: Vec<Inception> = vec![];
    for _ in 0..n {
        let i = c.span(inception);
        c.mark_bytes(i.j.text().as_bytes());
        // the controller, starting with no prefix or with its own in place
        let mut start = i.j.clone();
        let from_i = c.chance(1, 2);
        if !from_i && c.chance(1, 2) {
            start.set("i", s(""));
        }
        if !from_i && c.chance(1, 8) {
            // not there at all: it derives as if they came last
            start.remove("i");
            if c.chance(1, 2) {
                start.remove("d");
            }
        }
        if c.chance(1, 4) {
            if start.get("d").is_some() {
                start.set("d", s(""));
            }
            start.set("v", s(refj::version_string("KERI", c.below(4000))));
        }
        derive(c, &start, i.code, from_i)?;
        c.ensure(derives(&i.j, i.code).as_deref() == Some(&i.pre), "simulator error", || i.pre.clone())?;
        all.push(i);
    }
    let mut q: Queue<(usize, String, &'static str, Vec<u8>)> = Queue::new();
    for i in 0..n {
        c.span(|c| {
            let at = c.draw(20) * 1_000_000;
            let (pre, code) = (all[i].pre.clone(), all[i].code);
            for (d, p) in net.transmit(c, all[i].j.text().as_bytes()) {
                q.push(at + d, (i, pre.clone(), code, p));
            }
            for _ in 0..1 + c.below(4) {
                c.fault(Fault::Forgery);
                let k = c.below(n);
                let mut j = all[i].j.clone();
                let (mut pre, mut code) = (pre.clone(), code);
                match c.draw(9) {
                    0 => {
                        // another event in its place
                        j = all[k].j.clone();
                    }
                    1 => {
                        pre = all[k].pre.clone();
                        code = all[k].code;
                    }
                    2 => j.set("t", s(*c.pick(OTHER_ILKS))),
                    3 => {
                        // a different key
                        let kc = *c.pick(kinds::VER);
                        let raw = gen::raw_for(c, kc);
                        let t = refc::matter_text(kc, &raw).unwrap();
                        j.set("k", J::Arr(vec![s(t)]));
                    }
                    4 => {
                        // one key more, or none
                        let t = s(gen::key_text(c));
                        if let Some(J::Arr(a)) = j.get("k").cloned() {
                            let mut a = a;
                            if c.chance(1, 3) {
                                a.clear();
                            } else {
                                let at = c.below(a.len() + 1);
                                a.insert(at, t);
                            }
                            j.set("k", J::Arr(a));
                        }
                    }
                    5 => {
                        let t = gen::digest_text(c);
                        j.set(["n", "b", "a"][c.below(3)], J::Arr(vec![s(t)]));
                    }
                    6 => {
                        let t = if c.chance(1, 2) { all[k].pre.clone() } else { gen::key_text(c) };
                        j.set("i", s(t));
                    }
                    7 => {
                        // the same key under the code of another kind
                        if let Some(kt) = only_key(&j).map(|x| x.to_string()) {
                            if let Ok(q) = refc::matter_read(kt.as_bytes()) {
                                let alike: Vec<&str> = kinds::VER.iter().copied().filter(|v| refc::matter(v).unwrap().raw() == q.raw.len()).collect();
                                let vc = *c.pick(&alike);
                                j.set("k", J::Arr(vec![s(refc::matter_text(vc, &q.raw).unwrap())]));
                            }
                        }
                    }
                    _ => j = mangle(c, &j, &all[k].pre),
                }
                // the forger makes the prefix fit what is being passed off as an inception
                let front = matches!(&j, J::Obj(m) if m.first().map(|(k, v)| k == "v" && matches!(v, J::Str(x) if proper_version(x))).unwrap_or(false));
                if c.chance(1, 3) && refj::DIGESTS.contains(&code) && plain(&j) && front {
                    let (fit, made) = refj::self_addressing(&j, code);
                    pre = fit;
                    j = made;
                }
                // or leaves out what names the prefix
                if c.chance(1, 6) && refj::DIGESTS.contains(&code) && plain(&j) && front {
                    match c.draw(3) {
                        0 => j.remove("i"),
                        1 => j.remove("d"),
                        _ => {
                            j.remove("i");
                            j.remove("d");
                        }
                    }
                    if let Some(fit) = digest_prefix(&j, code) {
                        pre = fit;
                    }
                }
                q.push(at + c.draw(9) * 100_000, (i, pre, code, j.text().into_bytes()));
            }
        });
    }
    while let Some((at, (_, pre, code, b))) = q.pop() {
        c.now = at;
        c.mark_bytes(&b);
        let Some(j) = std::str::from_utf8(&b).ok().and_then(refj::parse) else { continue };
        if !plain(&j) || !matches!(j, J::Obj(_)) {
            continue;
        }
        c.note(|| format!("node receives {} for {pre}", String::from_utf8_lossy(&b)));
        if c.chance(1, 4) {
            c.fault(Fault::NodeCrash);
            c.fault(Fault::NodeRestart);
        }
        check_prefix(c, &j, &pre, code)?;
        // what it derives to on this node
        let dc = if c.chance(1, 2) { code } else { *c.pick(kinds::PRE) };
        let keyed = only_key(&j).map(|k| key_code(k).is_some() || refc::matter_read(k.as_bytes()).is_err()).unwrap_or(true);
        // a version string anywhere but in front is outside the protocol
        let front = matches!(&j, J::Obj(m) if m.first().map(|(k, _)| k == "v").unwrap_or(false));
        if keyed && front {
            derive(c, &j, dc, false)?;
        }
        c.state(crate::tape::hash_bytes(code.as_bytes()) ^ (b.len() as u64));
    }
    Ok(())
}
