//! C01: a node fed by a hostile network and a rotting disk.
use crate::gen::{self, Style};
use crate::kinds;
use crate::refc;
use crate::refj::{self, s, J};
use crate::stream::Types;
use crate::world::*;
use cesride::data::Value;
use cesride::*;

pub const FIELDS: &[&str] = &["v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "b", "br", "ba", "c", "a", "di", "ri", "e", "r", "f", "u", "rd", "q"];

/// Text nobody expects.
pub fn nasty(c: &mut Ctx) -> String {
    match c.draw(12) {
        0 => String::new(),
        1 => gen::text(c, 24),
        2 => {
            let mut b = gen::key_text(c).into_bytes();
            c.corrupt(&mut b);
            String::from_utf8_lossy(&b).to_string()
        }
        3 => {
            let mut b = gen::digest_text(c).into_bytes();
            c.corrupt(&mut b);
            String::from_utf8_lossy(&b).to_string()
        }
        4 => gen::key_text(c),
        5 => gen::digest_text(c),
        6 => {
            // starts like a code, goes on with something else
            let code = refc::MATTER[c.below(refc::MATTER.len())].code;
            let n = c.below(12);
            let tail = gen::text(c, n);
            format!("{code}{tail}")
        }
        7 => {
            let n = c.below(90);
            gen::b64_string(c, n)
        }
        8 => {
            let n = c.number(u128::MAX);
            match c.draw(4) {
                0 => format!("{n:x}"),
                1 => format!("-{n:x}"),
                2 => n.to_string(),
                _ => format!("{n:x}0"),
            }
        }
        9 => c.pick(&["1/2", "1/0", "0/0", "-1/2", "2147483648/2147483648", "1/2147483647", "2/1", "/", "1/", "[", "[\"1/2\"]", "[[]]", "0", "1", "[1]", "[\"1/2\",[\"1\"]]", "{}", "null", "[[[]]]", "1/2/3"]).to_string(),
        10 => {
            let ident = *c.pick(&["KERI", "ACDC", "KERX", "keri", "ÄÖ"]);
            let z = c.number(0xff_ffff) as u32;
            let v = *c.pick(&["10", "11", "00", "ff", "g0", "1"]);
            let k = *c.pick(&["JSON", "CBOR", "MGPK", "json"]);
            let mut vs = format!("{ident}{v}{k}{z:06x}_");
            if c.chance(1, 3) {
                vs = format!("{}{vs}{}", gen::text(c, 6), gen::text(c, 6));
            }
            if c.chance(1, 3) {
                // more than one, the same or not
                let other = match c.draw(3) {
                    0 => vs.clone(),
                    1 => format!("KERI10JSON{:06x}_", c.number(0xff_ffff)),
                    _ => format!("{ident}10{k}{:06x}_", c.number(0xff_ffff)),
                };
                let mid = if c.chance(1, 2) { String::new() } else { gen::text(c, 4) };
                for _ in 0..1 + c.below(3) {
                    vs = format!("{vs}{mid}{other}");
                }
            }
            vs
        }
        _ => {
            let i = *c.pick(&["2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921Z", "2020-02-30T25:61:61.9+99:99", "+292277026596-12-04T15:30:08Z", "2020-08-22 17:50:09", "2020-08-22T17:50:09.98892112345678+00:00", "2020-08-22T17:50:09.9889212345678+01", "１２-08-22"]);
            i.to_string()
        }
    }
}
pub fn nasty_json(c: &mut Ctx, depth: usize) -> J {
    match c.draw(if depth == 0 { 4 } else { 6 }) {
        0 => s(nasty(c)),
        1 => gen::integer(c),
        2 => gen::decimal(c),
        3 => [J::Null, J::Bool(true), J::Arr(vec![]), J::Obj(vec![])][c.below(4)].clone(),
        4 => {
            let n = c.below(4);
            J::Arr((0..n).map(|_| nasty_json(c, depth - 1)).collect())
        }
        _ => {
            let mut o = J::Obj(vec![]);
            for _ in 0..c.below(4) {
                let k = if c.chance(1, 2) { c.pick(FIELDS).to_string() } else { gen::label(c) };
                let v = nasty_json(c, depth - 1);
                o.set(&k, v);
            }
            o
        }
    }
}
/// Damage the structure, not the bytes.
pub fn mangle(c: &mut Ctx, j: &mut J) {
    // deeper, sometimes
    match j {
        J::Arr(a) if !a.is_empty() && c.chance(2, 3) => {
            let i = c.below(a.len());
            return mangle(c, &mut a[i]);
        }
        J::Obj(m) if !m.is_empty() => {
            let i = c.below(m.len());
            let n = m.len();
            match c.draw(8) {
                0 => {
                    m.remove(i);
                }
                1 | 2 => m[i].1 = nasty_json(c, 2),
                3 => {
                    let k = c.below(n);
                    m[i].1 = m[k].1.clone();
                }
                4 => {
                    let k = c.pick(FIELDS).to_string();
                    let v = nasty_json(c, 2);
                    J::set(j, &k, v);
                }
                5 => {
                    let k = c.below(n);
                    m.swap(i, k);
                }
                6 => m[i].0 = if c.chance(1, 2) { c.pick(FIELDS).to_string() + "" } else { gen::label(c) },
                _ => mangle(c, &mut m[i].1),
            }
            if let J::Obj(m) = j {
                // names stay unique
                let mut seen = vec![];
                m.retain(|(k, _)| {
                    let new = !seen.contains(k);
                    seen.push(k.clone());
                    new
                });
            }
        }
        _ => *j = nasty_json(c, 2),
    }
}
/// A message that says about itself what its sender wants.
pub fn hostile_message(c: &mut Ctx) -> J {
    let code = *c.pick(refj::DIGESTS);
    let code = if c.chance(2, 3) { "E" } else { code };
    let mut j = if c.chance(1, 3) { gen::credential(c, code) } else { gen::event(c, code) };
    for _ in 0..c.below(4) {
        c.span(|c| mangle(c, &mut j));
    }
    j
}
/// Announce a size: right, wrong, or absurd.
fn announce(c: &mut Ctx, j: &J) -> Vec<u8> {
    let mut j = j.clone();
    let mut text = j.text();
    if let Some(J::Str(v)) = j.get("v") {
        if v.is_char_boundary(4) && v.len() >= 17 {
            let ident = v[..4].to_string();
            let n = text.len() + 17 - v.len().min(17);
            let z = match c.draw(6) {
                0 => c.number(0xff_ffff) as usize,
                1 => n.saturating_sub(1 + c.below(30)),
                2 => n + 1 + c.below(30),
                _ => n,
            };
            j.set("v", s(refj::version_string(&ident, z & 0xff_ffff)));
            if z != n {
                c.fault(Fault::LyingHeader);
            }
            text = j.text();
        }
    }
    text.into_bytes()
}

/// Everything that can be asked of structured data from outside.
pub fn digest_json(c: &mut Ctx, j: &J) -> R<()> {
    let v = j.value();
    let code = *c.pick(refj::DIGESTS);
    let odd = nasty(c);
    let code: &str = if c.chance(1, 12) { &odd } else { code };
    let label = match c.draw(4) {
        0 => Some(gen::label(c)),
        1 => Some(c.pick(FIELDS).to_string()),
        _ => None,
    };
    let label = label.as_deref();
    let flags = c.draw(64);
    let flag = |k: u64| match flags >> (2 * k) & 3 {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let ignore: Vec<&str> = (0..c.below(3)).map(|_| *c.pick(FIELDS)).collect();
    let ignore = if flags & 1 == 0 { None } else { Some(&ignore[..]) };
    let kind = [None, None, Some("JSON"), Some("CBOR"), Some("")][c.below(5)];
    // the same, but for one field: what is checked last is reached only by what is right until then
    let mut near = j.clone();
    if let J::Obj(m) = &mut near {
        let f = if c.chance(1, 2) { label.unwrap_or("d").to_string() } else { c.pick(&["i", "n", "k", "b", "a", "t", "v", "d"]).to_string() };
        if c.chance(1, 4) {
            m.retain(|(k, _)| *k != f);
        } else {
            let x = [J::Null, J::Bool(true), J::Int(5), J::Arr(vec![]), J::Obj(vec![]), s(""), J::Arr(vec![J::Int(1)]), J::Arr(vec![s("")])][c.below(8)].clone();
            near.set(&f, x);
        }
    }
    let near = near.value();
    match c.draw(9) {
        0 => c.call("Serder::new_with_ked", || {
            let _ = Serder::new_with_ked(&v, Some(code), kind).map(|m| kinds::inspect_serder(&m));
            let _ = Serder::new_with_ked(&v, None, None).map(|m| kinds::inspect_serder(&m));
        })?,
        1 => c.call("Creder::new_with_ked", || {
            let _ = Creder::new_with_ked(&v, Some(code), kind).map(|m| kinds::inspect_creder(&m));
            let _ = Creder::new_with_ked(&v, None, None).map(|m| kinds::inspect_creder(&m));
        })?,
        2 => c.call("Saider::saidify", || {
            if let Ok((sd, sad)) = Saider::saidify(&v, Some(code), kind, label, ignore) {
                let _ = sd.verify(&sad, flag(1), flag(2), kind, label, ignore);
                let _ = sd.verify(&v, flag(1), flag(2), None, None, None);
                let _ = sd.verify(&near, Some(true), flag(2), kind, label, ignore);
                let _ = sd.verify(&near, flag(1), flag(2), None, label, None);
                let _ = sad.to_json();
            }
        })?,
        3 => c.call("Saider::new_with_sad", || {
            for code in [Some(code), None] {
                if let Ok(sd) = Saider::new_with_sad(&v, label, kind, ignore, code) {
                    let _ = sd.verify(&v, flag(1), flag(2), kind, label, ignore);
                    let _ = kinds::of_matter(&sd);
                }
            }
        })?,
        4 => {
            let pc = if c.chance(1, 12) { odd.clone() } else { c.pick(kinds::PRE).to_string() };
            let allows: Vec<&str> = (0..c.below(3)).map(|_| *c.pick(kinds::PRE)).collect();
            c.call("Prefixer::new_with_ked", || {
                for a in [None, Some(&allows[..])] {
                    for code in [None, Some(&pc[..])] {
                        if let Ok(p) = Prefixer::new_with_ked(&v, a, code) {
                            let _ = p.verify(&v, flag(1));
                            let _ = p.verify(&near, Some(true));
                            let _ = kinds::of_matter(&p);
                        }
                    }
                }
            })?
        }
        5 => {
            let pre = c.pick(kinds::PRE);
            let raw = gen::raw_for(c, pre);
            // an inception it nearly is the prefix of
            let key = refc::matter_text(pre, &raw).unwrap();
            let mut own = J::Obj(vec![]);
            for (f, x) in [("v", s("KERI10JSON000000_")), ("t", s("icp")), ("d", s("")), ("i", s(&key)), ("k", J::Arr(vec![s(&key)])), ("n", J::Arr(vec![])), ("b", J::Arr(vec![])), ("a", J::Arr(vec![]))] {
                if !c.chance(1, 20) {
                    own.set(f, x);
                }
            }
            if c.chance(3, 4) {
                let f = *c.pick(&["v", "t", "d", "i", "k", "n", "b", "a"]);
                let x = nasty_json(c, 1);
                own.set(f, x);
            }
            let own = own.value();
            c.call("Prefixer::verify", || {
                if let Ok(p) = Prefixer::new_with_raw(&raw, Some(pre)) {
                    let _ = p.verify(&own, flag(1));
                    let _ = p.verify(&own, Some(true));
                    let _ = p.verify(&v, flag(1));
                    let _ = p.verify(&v, Some(true));
                }
            })?
        }
        6 => {
            let idx: Vec<u32> = (0..c.below(6)).map(|_| if c.chance(1, 8) { c.number(u32::MAX as u128) as u32 } else { c.below(6) as u32 }).collect();
            c.call("Tholder::new", || {
                for (t, s) in [(Some(&v), None), (None, Some(&v)), (Some(&v), Some(&v))] {
                    if let Ok(t) = Tholder::new(t, None, s) {
                        let _ = kinds::inspect_tholder(&t);
                        let _ = t.satisfy(&idx);
                        let _ = t.satisfy(&[]);
                    }
                }
            })?
        }
        7 => {
            let b: String = if c.chance(1, 3) {
                nasty(c)
            } else {
                (0..c.below(4)).map(|_| format!("-{}", if c.chance(1, 2) { c.draw(6).to_string() } else { c.pick(FIELDS).to_string() })).collect()
            };
            let b2: String = if c.chance(1, 3) { nasty(c) } else { (0..c.below(3)).map(|_| format!("-{}", c.draw(4))).collect() };
            c.call("Pather", || {
                if let Ok(p) = Pather::new_with_bext(&b) {
                    let _ = p.resolve(&v).map(|x| x.to_json());
                    let _ = p.path();
                    if let Ok(q) = Pather::new_with_bext(&b2) {
                        let _ = p.root(&q).map(|x| x.qb64());
                        let _ = p.strip(&q).map(|x| x.qb64());
                        let _ = q.strip(&p).map(|x| x.qb64());
                        let _ = p.starts_with(&q);
                    }
                    if let Ok(m) = Serder::new_with_ked(&v, None, None) {
                        let _ = p.tail(&m);
                    }
                }
                let _ = Pather::new_with_path(&v).map(|p| (kinds::of_matter(&p), p.path()));
            })?
        }
        _ => c.call("Value", || {
            let _ = v.to_json();
            let _ = (v.to_bool(), v.to_string(), v.to_i64(), v.to_f64(), v.to_vec(), v.to_map());
            let _ = common::sizeify(&v, kind).map(|r| r.raw);
            let _ = format!("{v:?} {v}");
            if let Ok(t) = v.to_json() {
                if let Ok(j) = serde_json::from_str::<serde_json::Value>(&t) {
                    let _ = Value::from(&j).to_json();
                }
            }
        })?,
    }
    Ok(())
}

/// Everything that takes text from outside.
fn digest_text(c: &mut Ctx) -> R<()> {
    let x = nasty(c);
    let y = nasty(c);
    let n = c.draw(300) as usize;
    match c.draw(12) {
        0 => c.call("Number::new_with_numh", || {
            let _ = Number::new_with_numh(&x).map(|m| (kinds::of_matter(&m), m.num(), m.numh(), m.positive()));
        }),
        1 => c.call("Seqner::new_with_snh", || {
            let _ = Seqner::new_with_snh(&x).map(|m| (kinds::of_matter(&m), m.sn(), m.snh()));
        }),
        2 => c.call("Dater::new_with_dts", || {
            let _ = Dater::new_with_dts(&x, None).map(|m| (kinds::of_matter(&m), m.dts(), m.dtsb()));
            let _ = Dater::new_with_dts(&x, Some(&y)).map(|m| (kinds::of_matter(&m), m.dts(), m.dtsb()));
        }),
        3 => c.call("Bexter::new_with_bext", || {
            let _ = Bexter::new_with_bext(&x).map(|m| (kinds::of_matter(&m), m.bext()));
            let _ = Bexter::new(Some(&x), Some(&y), None, None, None, None).map(|m| (kinds::of_matter(&m), m.bext()));
        }),
        4 => c.call("common", || {
            let _ = common::deversify(&x);
            let _ = common::versify(Some(&x), None, None, Some(n as u32));
            let _ = common::versify(None, None, Some(&x), None);
            let _ = common::sniff(x.as_bytes());
        }),
        5 => c.call("Counter::sem_ver_str_to_b64", || {
            let _ = Counter::sem_ver_str_to_b64(&x);
            let _ = Counter::sem_ver_str_to_b64(&x.replace(['-', 'a', 'c', '/'], "."));
            let _ = Counter::new(None, Some(&x), Some("-A"), None, None, None).map(|m| kinds::of_counter(&m));
            let _ = Counter::new(None, Some(&x), Some(&y), None, None, None).map(|m| kinds::of_counter(&m));
        }),
        6 => {
            let code = c.pick(refc::COUNTER).code;
            let z = c.number(u32::MAX as u128) as u32;
            c.call("Counter", || {
                let _ = Counter::new_with_code_and_count(&x, z).map(|m| kinds::of_counter(&m));
                let _ = Counter::new_with_code_and_count(code, z).map(|m| (kinds::of_counter(&m), m.count_as_b64(n)));
            })
        }
        7 => c.call("Tholder from text", || {
            let v = Value::from(&x[..]);
            let _ = Tholder::new_with_sith(&v).map(|t| (kinds::inspect_tholder(&t), t.satisfy(&[0, 1, 2])));
            let _ = Tholder::new_with_limen(x.as_bytes()).map(|t| (kinds::inspect_tholder(&t), t.satisfy(&[0, 1, 2])));
            let _ = Tholder::new_with_thold(&v).map(|t| (kinds::inspect_tholder(&t), t.satisfy(&[0, 1, 2])));
        }),
        8 => {
            // a threshold as it travels: base64 text of weights
            let w = *c.pick(&["1s2c1s2", "1", "0", "1s2c1s2a1", "s", "a", "c", "1s0", "1sA", "acs", "1s2s3", "", "2s1", "1c", "1s4294967296", "99999999999s1"]);
            let w = if c.chance(1, 2) { w.to_string() } else { x.clone() };
            c.call("Tholder from limen", || {
                if let Ok(b) = Bexter::new_with_bext(&w) {
                    if let Ok(q) = b.qb64b() {
                        let _ = Tholder::new_with_limen(&q).map(|t| (kinds::inspect_tholder(&t), t.satisfy(&[0, 1, 2, 3]), t.satisfy(&[u32::MAX])));
                    }
                }
            })
        }
        9 => {
            let raw = c.random(16);
            let code = if c.chance(1, 4) { y.clone() } else { c.pick(kinds::SEED).to_string() };
            let tier = if c.chance(1, 4) { Some(x.clone()) } else { None };
            c.call("Salter", || {
                if let Ok(s) = Salter::new_with_raw(&raw, None, Some("low")) {
                    let _ = s.signer(Some(&code), None, Some(&x), tier.as_deref(), Some(true));
                    let _ = s.stretch(Some(32), Some(&x), tier.as_deref(), Some(true));
                    let _ = s.stretch(Some(n), Some(&x), None, Some(true));
                    let _ = s.signers(Some(1), Some(n), Some(&x), Some(&code), None, tier.as_deref(), Some(true)).map(|v| v.len());
                }
                let _ = Salter::new_with_raw(&raw, Some(&x), Some(&y));
                let _ = Salter::new_with_qb64(&x, Some(&y));
            })
        }
        10 => {
            let sig = c.bytes(n.min(90));
            let raw = c.random(33);
            let ver = *c.pick(kinds::VER);
            let z = refc::matter(ver).unwrap().raw();
            c.call("Verfer::verify", || {
                if let Ok(v) = Verfer::new_with_raw(&raw[..z.min(33)], Some(ver)) {
                    let _ = v.verify(&sig, x.as_bytes());
                    let _ = v.verify(&[], &[]);
                    let _ = Cigar::new_with_qb64(&x, Some(&v)).map(|m| kinds::of_matter(&m));
                    let _ = Siger::new_with_qb64(&x, Some(&v)).map(|m| kinds::of_indexer(&m));
                }
            })
        }
        _ => {
            let dig = *c.pick(refj::DIGESTS);
            c.call("Diger::compare", || {
                if let Ok(d) = Diger::new_with_ser(y.as_bytes(), Some(dig)) {
                    let _ = d.compare(y.as_bytes(), Some(x.as_bytes()), None);
                    let _ = d.compare(x.as_bytes(), Some(y.as_bytes()), None);
                    let _ = d.compare(x.as_bytes(), None, None);
                    let _ = Diger::new_with_qb64(&x).map(|e| d.compare(y.as_bytes(), None, Some(&e)));
                }
                let _ = Diger::new_with_ser(y.as_bytes(), Some(&x));
            })
        }
    }
}

/// Give bytes to the readers: the right one, and wrong ones.
pub fn feed(c: &mut Ctx, t: &Types, b: &[u8], message: bool) -> R<()> {
    let text = String::from_utf8_lossy(b).to_string();
    let r = c.below(2);
    kinds::company(c.below(4));
    if message {
        c.call("Serder from bytes", || {
            let _ = Serder::new_with_raw(b).map(|m| kinds::inspect_serder(&m));
            let _ = Serder::new(Some("H"), Some(b), None, None, None).map(|m| kinds::inspect_serder(&m));
        })?;
        c.call("Creder from bytes", || {
            let _ = Creder::new_with_raw(b).map(|m| kinds::inspect_creder(&m));
        })?;
        c.call("sniff", || {
            let _ = common::sniff(b);
        })?;
    }
    let n = if message { 2 } else { 3 };
    for _ in 0..n {
        let k = &t.ks[c.below(t.ks.len())];
        let dom = c.draw(3);
        c.call("Matter readers", || {
            match dom {
                0 => (k.qb64)(r, &text),
                1 => (k.qb64b)(r, b),
                _ => (k.qb2)(r, b),
            };
        })?;
    }
    let k = &t.iks[c.below(t.iks.len())];
    let dom = c.draw(3);
    c.call("Indexer and Counter readers", || match dom {
        0 => {
            (k.qb64)(r, &text);
            kinds::counter_qb64(r, &text);
        }
        1 => {
            (k.qb64b)(r, b);
            kinds::counter_qb64b(r, b);
        }
        _ => {
            (k.qb2)(r, b);
            kinds::counter_qb2(r, b);
        }
    })?;
    if c.chance(1, 4) {
        c.call("limen", || {
            let _ = Tholder::new_with_limen(b).map(|t| (kinds::inspect_tholder(&t), t.satisfy(&[0, 5])));
        })?;
    }
    Ok(())
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    let net = NetCfg::draw(c, true);
    let mut disk = Disk { rot: 64, ..Default::default() };
    let mut q: Queue<(Vec<u8>, bool)> = Queue::new();
    let n = 2 + c.below(10);
    for _ in 0..n {
        c.span(|c| -> R<()> {
            match c.draw(8) {
                0 | 1 => {
                    // a peer sends a primitive
                    let style = if c.chance(1, 4) { Style::Numbers } else { Style::Any };
                    let i = gen::item(c, &t.ks, &t.iks, style)?;
                    let binary = c.chance(1, 3);
                    let b = i.bytes(binary);
                    for (d, p) in net.transmit(c, &b) {
                        let at = c.now + d;
                        q.push(at, (p, matches!(i, gen::Item::Message { .. })));
                    }
                }
                2 => {
                    // a code, and something else than it promises
                    let code = match c.draw(3) {
                        0 => refc::MATTER[c.below(refc::MATTER.len())].code,
                        1 => refc::INDEXER[c.below(refc::INDEXER.len())].code,
                        _ => refc::COUNTER[c.below(refc::COUNTER.len())].code,
                    };
                    let k = c.below(100);
                    let tail = if c.chance(1, 2) { gen::b64_string(c, k).into_bytes() } else { c.random(k) };
                    let mut b = code.as_bytes().to_vec();
                    b.extend(tail);
                    if c.chance(1, 3) {
                        // in binary
                        let n = b.len() / 4 * 4;
                        if let Some(two) = refc::to_bytes(&b[..n]) {
                            b = two;
                        }
                    }
                    c.fault(Fault::Forgery);
                    let at = c.now;
                    q.push(at, (b, false));
                }
                3 | 4 => {
                    let j = hostile_message(c);
                    let b = announce(c, &j);
                    c.fault(Fault::Forgery);
                    if c.chance(1, 2) {
                        let at = c.now;
                        q.push(at, (b, true));
                    } else {
                        for (d, p) in net.transmit(c, &b) {
                            let at = c.now + d;
                            q.push(at, (p, true));
                        }
                    }
                }
                5 => {
                    let j = if c.chance(1, 4) { nasty_json(c, 3) } else { hostile_message(c) };
                    c.mark_bytes(j.text().as_bytes());
                    digest_json(c, &j)?;
                }
                6 => {
                    // thresholds as their declarer writes them
                    let j = match c.draw(4) {
                        0 => nasty_json(c, 2),
                        1 => {
                            let n = 1 + c.below(2);
                            J::Arr((0..n).map(|_| J::Arr(super::thresholds::clause(c).iter().map(|(n, d)| s(format!("{n}/{d}"))).collect())).collect())
                        }
                        _ => { let n = c.below(4); gen::sith(c, n) }
                    };
                    let mut j = j;
                    if c.chance(1, 2) {
                        mangle(c, &mut j);
                    }
                    let v = j.value();
                    let idx: Vec<u32> = (0..c.below(5)).map(|_| c.below(8) as u32).collect();
                    c.mark_bytes(j.text().as_bytes());
                    c.call("Tholder from sith", || {
                        let _ = Tholder::new_with_sith(&v).map(|t| {
                            let _ = kinds::inspect_tholder(&t);
                            let _ = t.satisfy(&idx);
                            let _ = t.limen().map(|l| Tholder::new_with_limen(&l).map(|t| t.satisfy(&idx)));
                            let _ = Tholder::new_with_thold(&t.thold()).map(|t| t.satisfy(&idx));
                        });
                    })?;
                }
                _ => digest_text(c)?,
            }
            Ok(())
        })?;
        c.now += 1_000_000;
    }
    while let Some((at, (b, message))) = q.pop() {
        c.now = c.now.max(at);
        c.mark_bytes(&b);
        c.checks += 1;
        c.note(|| format!("delivered {} bytes: {}", b.len(), String::from_utf8_lossy(&b).chars().take(160).collect::<String>()));
        feed(c, &t, &b, message)?;
        if c.chance(1, 8) {
            let _ = disk.append(c, &b);
            if c.chance(1, 2) {
                disk.crash(c);
                let b = disk.read(c);
                c.fault(Fault::NodeRestart);
                feed(c, &t, &b, message)?;
            }
        }
    }
    Ok(())
}
