//! C04 and C05: what may be accepted at all, and by whom.
use crate::gen;
use crate::kinds::{self, Probe};
use crate::refc::{self, No};
use crate::stream::Types;
use crate::world::*;

/// Any reader of primitives.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Reader {
    Kind(usize),
    Indexed(usize),
    Counter,
}
impl Reader {
    pub fn name(&self, t: &Types) -> &'static str {
        match self {
            Reader::Kind(k) => t.ks[*k].name,
            Reader::Indexed(k) => t.iks[*k].name,
            Reader::Counter => "Counter",
        }
    }
    pub fn reference(&self, b: &[u8], binary: bool) -> Result<refc::Item, No> {
        let f = match self {
            Reader::Kind(_) => refc::matter_read,
            Reader::Indexed(_) => refc::indexer_read,
            Reader::Counter => refc::counter_read,
        };
        if binary {
            refc::from_binary(b, f)
        } else {
            f(b)
        }
    }
    /// Is this one of the reader's own codes (and, for private keys, a possible key)?
    pub fn own(&self, t: &Types, code: &str, raw: &[u8]) -> bool {
        match self {
            Reader::Kind(k) => {
                let own = t.ks[*k].own.map(|o| o.contains(&code)).unwrap_or(true);
                own && (t.ks[*k].name != "Signer" || possible_key(code, raw))
            }
            Reader::Indexed(k) => t.iks[*k].own.map(|o| o.contains(&code)).unwrap_or(true),
            Reader::Counter => true,
        }
    }
    pub fn any(c: &mut Ctx, t: &Types) -> Reader {
        let n = t.ks.len() + t.iks.len() + 1;
        let k = c.below(n);
        if k < t.ks.len() {
            Reader::Kind(k)
        } else if k < n - 1 {
            Reader::Indexed(k - t.ks.len())
        } else {
            Reader::Counter
        }
    }
    /// Reads by one of the routes: 0,1 text, 2,3 bytes, 4,5 binary.
    pub fn read(&self, c: &mut Ctx, t: &Types, b: &[u8], binary: bool) -> R<Option<Probe>> {
        let text = if binary { None } else { std::str::from_utf8(b).ok() };
        let route = c.below(2);
        kinds::company(c.below(4));
        let as_text = c.chance(1, 2);
        match (self, binary, text) {
            (Reader::Kind(k), true, _) => c.call("Matter from qb2", || (t.ks[*k].qb2)(route, b)),
            (Reader::Kind(k), false, Some(x)) if as_text => c.call("Matter from qb64", || (t.ks[*k].qb64)(route, x)),
            (Reader::Kind(k), false, _) => c.call("Matter from qb64b", || (t.ks[*k].qb64b)(route, b)),
            (Reader::Indexed(k), true, _) => c.call("Indexer from qb2", || (t.iks[*k].qb2)(route, b)),
            (Reader::Indexed(k), false, Some(x)) if as_text => c.call("Indexer from qb64", || (t.iks[*k].qb64)(route, x)),
            (Reader::Indexed(k), false, _) => c.call("Indexer from qb64b", || (t.iks[*k].qb64b)(route, b)),
            (Reader::Counter, true, _) => c.call("Counter from qb2", || kinds::counter_qb2(route, b)),
            (Reader::Counter, false, Some(x)) if as_text => c.call("Counter from qb64", || kinds::counter_qb64(route, x)),
            (Reader::Counter, false, _) => c.call("Counter from qb64b", || kinds::counter_qb64b(route, b)),
        }
    }
}
pub fn possible_key(code: &str, raw: &[u8]) -> bool {
    match code {
        "J" => k256::SecretKey::from_slice(raw).is_ok(),
        "Q" => p256::SecretKey::from_slice(raw).is_ok(),
        _ => true,
    }
}

fn show(b: &[u8], binary: bool) -> String {
    let b = &b[..b.len().min(200)];
    if binary {
        kinds::hex(b)
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}

/// Whatever is accepted is the one encoding of the value it is taken for.
fn canonical(c: &mut Ctx, t: &Types, r: Reader, b: &[u8], binary: bool) -> R<Option<usize>> {
    let got = r.read(c, t, b, binary)?;
    let p = match got {
        None => {
            c.checks += 1;
            return Ok(None);
        }
        Some(p) => p,
    };
    c.probe("damaged item accepted or intact");
    let q = match r.reference(b, binary) {
        Ok(q) => q,
        Err(why) => {
            let why = match why {
                No::Short => "an incomplete item",
                No::Bad => "not an encoding of anything",
            };
            return c.fail("non-canonical encoding accepted", format!("{} accepted {} ({why}) as {} {}", r.name(t), show(b, binary), p.code, kinds::hex(&p.raw)));
        }
    };
    let head = if binary { q.fs * 3 / 4 } else { q.fs };
    let same = if binary { p.qb2.as_deref() == Some(&b[..head]) } else { p.qb64b.as_deref() == Some(&b[..head]) };
    let other = if binary {
        p.qb64b.as_deref() == Some(refc::to_text(&b[..head]).as_bytes())
    } else {
        p.qb2.as_deref() == refc::to_bytes(&b[..head]).as_deref()
    };
    c.ensure(same && other, "accepted material encodes differently", || {
        format!("{} accepted {} and writes it as {:?} / {:?}", r.name(t), show(&b[..head], binary), p.qb64, p.qb2.as_ref().map(|b| kinds::hex(b)))
    })?;
    let index_ok = matches!(r, Reader::Kind(_)) || (p.index == q.index && (q.code.ends_with('z') || p.ondex == q.ondex));
    c.ensure(p.code == q.code && p.raw == q.raw && index_ok, "accepted material misread", || {
        format!("{} read {} as {} {} {}/{}, tables say {} {} {}/{}", r.name(t), show(&b[..head], binary), p.code, kinds::hex(&p.raw), p.index, p.ondex, q.code, kinds::hex(&q.raw), q.index, q.ondex)
    })?;
    c.ensure(r.own(t, &q.code, &q.raw), "foreign material accepted", || format!("{} accepted {}", r.name(t), show(&b[..head], binary)))?;
    Ok(Some(head))
}

/// An encoded item of any kind, made by the reference, and who should read it.
fn encoded(c: &mut Ctx, t: &Types) -> (Reader, String) {
    match c.draw(6) {
        0 => {
            let z = *c.pick(refc::COUNTER);
            let n = c.number(64u128.pow(z.ss as u32) - 1) as u64;
            (Reader::Counter, refc::counter_text(z.code, n).unwrap())
        }
        1 => {
            let kind = c.below(t.iks.len());
            let code = match t.iks[kind].own {
                Some(own) => *c.pick(own),
                None => refc::INDEXER[c.below(refc::INDEXER.len())].code,
            };
            let z = refc::indexer(code).unwrap();
            let (mut i, o) = gen::indices(c, code);
            let n = if z.fs == 0 {
                i %= 20;
                i as usize * 3
            } else {
                z.raw()
            };
            let raw = c.bytes(n);
            let o = if z.os == 0 || refc::CURRENT_ONLY.contains(&code) { 0 } else { o.unwrap_or(i) };
            let o = if z.os > 0 { o % 64u32.pow(z.os as u32) } else { 0 };
            (Reader::Indexed(kind), refc::indexer_text(code, i, o, &raw).unwrap())
        }
        _ => {
            let kind = c.below(t.ks.len());
            let code = match t.ks[kind].own {
                Some(own) => *c.pick(own),
                None => refc::MATTER[c.below(refc::MATTER.len())].code,
            };
            let mut raw = gen::raw_for(c, code);
            raw.truncate(400);
            let z = refc::matter(code).unwrap();
            if z.fs == 0 {
                while (raw.len() + z.ls) % 3 != 0 {
                    raw.pop();
                }
            }
            (Reader::Kind(kind), refc::matter_text(code, &raw).unwrap())
        }
    }
}

/// Damage aimed at what is easiest to overlook: pad bits, lead bytes, sizes, alphabets.
fn aimed(c: &mut Ctx, b: &mut Vec<u8>, binary: bool) {
    c.fault(Fault::Forgery);
    if b.is_empty() {
        return;
    }
    let i = c.below(b.len().min(10));
    if binary {
        match c.draw(3) {
            0 => b[i] ^= 1 << c.draw(8),
            1 => b[i] = c.draw(256) as u8,
            _ => b[i] = [0, 1, 0x80, 0xff][c.below(4)],
        }
        return;
    }
    match c.draw(5) {
        0 | 1 => b[i] = refc::ALPHA[c.below(64)],
        2 => {
            // one bit of one sextet
            if let Some(x) = refc::sextet(b[i]) {
                b[i] = refc::ALPHA[(x ^ (1 << c.draw(6))) as usize];
            }
        }
        3 => {
            let i = if c.chance(1, 2) { b.len() - 1 - c.below(b.len().min(4)) } else { c.below(b.len()) };
            b[i] = *c.pick(b"=+/ \n\0.,:~@\x7f\x80\xff\xc3");
        }
        _ => {
            // a character of another alphabet, of two or three bytes, in place of as many
            let m: &[u8] = *c.pick(&[&b"\xc3\xa9"[..], b"\xe2\x82\xac", b"\xc2\xa0", b"\xf0\x9f\x92\xa9", b"==", b"\xef\xbc\xa1"]);
            let at = c.below(b.len());
            let end = (at + m.len()).min(b.len());
            b.splice(at..end, m.iter().copied());
        }
    }
}

pub fn canonical_only(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    let net = NetCfg::draw(c, true);
    let rot = [0, 64, 200][c.below(3)];
    let n = 1 + c.below(10);
    let mut q: Queue<(Vec<(Reader, usize)>, Vec<u8>, bool)> = Queue::new();
    for _ in 0..n {
        c.span(|c| -> R<()> {
            let binary = c.chance(1, 2);
            let k = 1 + c.below(3);
            let mut wire = vec![];
            let mut plan = vec![];
            for _ in 0..k {
                let (r, text) = encoded(c, &t);
                let b = if binary { refc::binary(&text) } else { text.into_bytes() };
                plan.push((r, b.len()));
                wire.extend_from_slice(&b);
                if c.chance(1, 16) {
                    sweep(c, &t, r, &b, binary)?;
                }
            }
            c.mark_bytes(&wire);
            let at = c.draw(20) * 1_000_000;
            for (d, p) in net.transmit(c, &wire) {
                q.push(at + d, (plan.clone(), p, binary));
            }
            Ok(())
        })?;
    }
    let mut disk = Disk { rot, ..Default::default() };
    let mut log = vec![];
    while let Some((at, (plan, mut b, binary))) = q.pop() {
        c.now = at;
        if c.chance(1, 2) {
            let at = if plan.len() > 1 && c.chance(1, 2) { plan[0].1.min(b.len()) } else { 0 };
            let mut tail = b.split_off(at);
            aimed(c, &mut tail, binary);
            b.extend(tail);
        }
        c.mark_bytes(&b);
        c.note(|| format!("delivered {}", show(&b, binary)));
        deliver(c, &t, &plan, &b, binary)?;
        if disk.append(c, &b).is_ok() {
            log.push((plan, b.len(), binary));
        }
        c.state(b.len() as u64 ^ (binary as u64) << 40);
    }
    // what was stored is read again after a crash, from a disk which may have rotted
    let _ = disk.sync(c);
    c.fault(Fault::NodeCrash);
    c.fault(Fault::NodeRestart);
    let mut all = disk.read(c);
    for (plan, len, binary) in log {
        let b: Vec<u8> = all.drain(..len.min(all.len())).collect();
        deliver(c, &t, &plan, &b, binary)?;
    }
    Ok(())
}
fn deliver(c: &mut Ctx, t: &Types, plan: &[(Reader, usize)], b: &[u8], binary: bool) -> R<()> {
    let mut at = 0;
    for (r, len) in plan {
        if at >= b.len() {
            break;
        }
        let ends = canonical(c, t, *r, &b[at..], binary)?;
        if c.chance(1, 4) {
            c.fault(Fault::NetMisroute);
            let o = Reader::any(c, t);
            canonical(c, t, o, &b[at..], binary)?;
        }
        at += ends.unwrap_or(*len);
    }
    Ok(())
}

/// Every small alteration of the part of an item where codes, sizes, pads and leads are.
fn sweep(c: &mut Ctx, t: &Types, r: Reader, b: &[u8], binary: bool) -> R<()> {
    c.probe("every small alteration of an item");
    let mut v = b.to_vec();
    if binary {
        for i in 0..b.len().min(9) {
            for bit in 0..8 {
                v[i] = b[i] ^ 1 << bit;
                canonical(c, t, r, &v, binary)?;
            }
            v[i] = b[i];
        }
    } else {
        for i in 0..b.len().min(9) {
            for x in refc::ALPHA.iter().chain(b"=+/ \n.\0") {
                v[i] = *x;
                canonical(c, t, r, &v, binary)?;
            }
            v[i] = b[i];
        }
        for i in 9.min(b.len())..b.len().min(170) {
            v[i] = b"=+/ \n."[i % 6];
            canonical(c, t, r, &v, binary)?;
            v[i] = b[i];
        }
    }
    for n in 0..b.len().min(48) {
        canonical(c, t, r, &b[..n], binary)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

pub const TRANSFERABLE_NOT: &[&str] = &["B", "1AAA", "1AAC", "1AAI"];

/// Exactly a reader's own material is accepted, and classified by its code.
fn typed(c: &mut Ctx, t: &Types, r: Reader, got: &Option<Probe>, want: Result<refc::Item, No>, how: &str) -> R<()> {
    let fits = match &want {
        Ok(q) => r.own(t, &q.code, &q.raw),
        Err(_) => false,
    };
    match (got, fits) {
        (None, false) => {
            c.checks += 1;
            Ok(())
        }
        (None, true) => {
            let q = want.unwrap();
            c.fail("own code refused", format!("{} refused {} {} {how}", r.name(t), q.code, kinds::hex(&q.raw)))
        }
        (Some(p), false) => c.fail("foreign code accepted", format!("{} accepted {} {} {how} (from {want:?})", r.name(t), p.code, kinds::hex(&p.raw))),
        (Some(p), true) => {
            let q = want.unwrap();
            c.ensure(p.code == q.code && p.raw == q.raw, "carries another code or material", || format!("{} {how}: delivered {} {}, holds {} {}", r.name(t), q.code, kinds::hex(&q.raw), p.code, kinds::hex(&p.raw)))?;
            if let Reader::Kind(_) = r {
                let z = refc::matter(&q.code).unwrap();
                c.ensure(z.fs == 0 || p.raw.len() == z.raw(), "material of another size", || format!("{} {} holds {} bytes", r.name(t), p.code, p.raw.len()))?;
                c.ensure(p.digestive == kinds::DIG.contains(&q.code.as_str()), "misclassified as digest", || format!("{} {} digestive={}", r.name(t), p.code, p.digestive))?;
                c.ensure(p.transferable == !TRANSFERABLE_NOT.contains(&q.code.as_str()), "transferability misclassified", || format!("{} {} transferable={}", r.name(t), p.code, p.transferable))?;
                if r.name(t) == "Signer" {
                    let k = p.more("verfer").unwrap_or("").to_string();
                    let fixed = kinds::transferable() == Some(false);
                    let want = match (q.code.as_str(), fixed) {
                        ("A", false) => "D",
                        ("A", true) => "B",
                        ("J", false) => "1AAB",
                        ("J", true) => "1AAA",
                        (_, false) => "1AAJ",
                        (_, true) => "1AAI",
                    };
                    c.ensure(k.starts_with(want), "key of another suite", || format!("signer {} has key {k}", p.code))?;
                }
            }
            Ok(())
        }
    }
}
fn truth(code: &str, raw: &[u8]) -> Result<refc::Item, No> {
    let t = refc::matter_text(code, raw).ok_or(No::Bad)?;
    refc::matter_read(t.as_bytes())
}

pub fn typed_only(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    let net = NetCfg::draw(c, false);
    let n = 4 + c.below(24);
    let mut q: Queue<(Reader, Vec<u8>, bool)> = Queue::new();
    for _ in 0..n {
        c.span(|c| {
            let (r, text) = encoded(c, &t);
            let binary = c.chance(1, 2);
            let mut text = text.into_bytes();
            // another code of the same shape, as a flipped character would make it
            if c.chance(1, 3) {
                let mut alt: Vec<&str> = vec![];
                match r {
                    Reader::Kind(_) => {
                        if let Ok(it) = refc::matter_read(&text) {
                            let z = refc::matter(&it.code).unwrap();
                            alt.extend(refc::MATTER.iter().filter(|y| y.hs == z.hs && y.fs == z.fs && y.ss == z.ss).map(|y| y.code));
                        }
                    }
                    Reader::Indexed(_) => {
                        if let Ok(it) = refc::indexer_read(&text) {
                            let z = refc::indexer(&it.code).unwrap();
                            alt.extend(refc::INDEXER.iter().filter(|y| y.hs == z.hs && y.fs == z.fs).map(|y| y.code));
                        }
                    }
                    _ => {}
                }
                if !alt.is_empty() {
                    let a = *c.pick(&alt);
                    text[..a.len()].copy_from_slice(a.as_bytes());
                    c.fault(Fault::NetCorrupt);
                }
            }
            let to = match c.draw(3) {
                0 => r,
                _ => {
                    c.fault(Fault::NetMisroute);
                    Reader::any(c, &t)
                }
            };
            let b = if binary { refc::to_bytes(&text).unwrap() } else { text };
            c.mark_bytes(&b);
            let at = c.draw(30) * 1_000_000;
            for (d, p) in net.transmit(c, &b) {
                q.push(at + d, (to, p, binary));
            }
        });
    }
    while let Some((at, (r, b, binary))) = q.pop() {
        c.now = at;
        c.state(match r {
            Reader::Kind(k) => k as u64,
            Reader::Indexed(k) => 100 + k as u64,
            Reader::Counter => 200,
        } << 8 | b.first().copied().unwrap_or(0) as u64);
        c.note(|| format!("{} receives {}", r.name(&t), show(&b, binary)));
        c.mark_bytes(&b);
        let want = r.reference(&b, binary);
        let got = r.read(c, &t, &b, binary)?;
        typed(c, &t, r, &got, want, if binary { "in binary" } else { "in text" })?;
        if let (Reader::Kind(k), Some(_)) = (r, &got) {
            // alongside a code which may be another
            let how = if binary { 2 } else { c.below(2) };
            let code = match t.ks[k].own {
                Some(own) if c.chance(2, 3) => *c.pick(own),
                _ => refc::MATTER[c.below(refc::MATTER.len())].code,
            };
            let mixed = c.call("Matter with a code and an encoding", || (t.ks[k].mixed)(how, code, &b))?;
            if mixed.is_some() {
                let want = r.reference(&b, binary);
                typed(c, &t, r, &mixed, want, "alongside a code")?;
            }
        }
    }
    // raw material under every label
    let m = 4 + c.below(12);
    for _ in 0..m {
        c.span(|c| raw_material(c, &t))?;
    }
    Ok(())
}

fn raw_material(c: &mut Ctx, t: &Types) -> R<()> {
    let k = c.below(t.ks.len());
    let r = Reader::Kind(k);
    let own = t.ks[k].own;
    let code: String = match own {
        Some(own) if c.chance(1, 2) => c.pick(own).to_string(),
        _ => match c.draw(12) {
            0 => refc::INDEXER[c.below(refc::INDEXER.len())].code.to_string(),
            1 => refc::COUNTER[c.below(refc::COUNTER.len())].code.to_string(),
            2 => {
                let n = c.below(5);
                gen::b64_string(c, n)
            }
            _ => refc::MATTER[c.below(refc::MATTER.len())].code.to_string(),
        },
    };
    let route = c.below(2);
    kinds::company(c.below(4));
    let size = match refc::matter(&code) {
        Some(z) if z.fs != 0 => z.raw(),
        Some(_) => c.below(60),
        None => [32, 64, 16, 2, 0][c.below(5)],
    };
    let given = match c.draw(5) {
        0 if size > 0 => size - 1 - c.below(size.min(3)),
        1 => size + 1 + c.below(4),
        _ => size,
    };
    let raw = c.bytes(given);
    let got = c.call("Matter from raw", || (t.ks[k].raw)(route, &code, &raw))?;
    c.mark_bytes(code.as_bytes());
    let z = match refc::matter(&code) {
        // what an unknown code means to an application's own kind is the application's business
        None if own.is_none() => return Ok(()),
        None => {
            // what follows the hard part of a variable length code is ignored: the value is of the kind its hard part names
            let cut = match (code.as_bytes().first(), code.len()) {
                (Some(b'4'..=b'6'), 3..) => &code[..2],
                (Some(b'7'..=b'9'), 5..) => &code[..4],
                _ => "",
            };
            let fin = if refc::matter(cut).is_some() { gen::final_code(cut, &raw) } else { String::new() };
            let own = own.unwrap();
            let fine = got.as_ref().is_none_or(|p| own.contains(&cut) && own.contains(&fin.as_str()) && p.code == fin && p.raw == raw);
            return c.ensure(fine, "foreign code accepted", || format!("{} accepted raw material under {code:?}: {got:?}", r.name(t)));
        }
        Some(z) => z,
    };
    let want = if z.fs == 0 {
        let fin = gen::final_code(&code, &raw);
        truth(&fin, &raw)
    } else if raw.len() < size {
        Err(No::Short)
    } else {
        truth(&code, &raw[..size])
    };
    // the label given must itself be one of ours; the code follows the material
    let mut want = want;
    if let Ok(q) = &want {
        let labelled = own.map(|o| o.contains(&code.as_str())).unwrap_or(true);
        if !labelled && own.map(|o| o.contains(&q.code.as_str())).unwrap_or(true) {
            want = Err(No::Bad);
        }
    }
    typed(c, t, r, &got, want, &format!("from {} raw bytes under {code}", raw.len()))?;
    if c.chance(1, 4) {
        let got = c.call("Matter from raw, no code given", || (t.ks[k].plain)(&raw))?;
        if let (Some(p), Some(own)) = (got, own) {
            c.ensure(own.contains(&p.code.as_str()), "foreign code accepted", || format!("{} without a code holds {}", r.name(t), p.code))?;
            let z = refc::matter(&p.code).unwrap();
            c.ensure(z.fs == 0 || p.raw.len() == z.raw(), "material of another size", || format!("{} {} holds {} bytes", r.name(t), p.code, p.raw.len()))?;
        }
    }
    // indexed signatures from raw material
    if c.chance(1, 3) {
        let code = match c.draw(4) {
            0 => refc::MATTER[c.below(refc::MATTER.len())].code.to_string(),
            1 => c.pick(kinds::SIG).to_string(),
            _ => refc::INDEXER[c.below(refc::INDEXER.len())].code.to_string(),
        };
        let size = refc::indexer(&code).map(|z| if z.fs == 0 { 0 } else { z.raw() }).unwrap_or(64);
        let given = match c.draw(4) {
            0 if size > 0 => size - 1,
            1 => size + 2,
            _ => size,
        };
        let raw = c.bytes(given);
        let got = c.call("Siger from raw", || (t.iks[0].raw)(route, &code, &raw, 0, None))?;
        let fits = kinds::SIG.contains(&code.as_str()) && raw.len() >= size;
        c.ensure(got.is_some() == fits, if fits { "own code refused" } else { "foreign code accepted" }, || format!("Siger from {} raw bytes under {code}: {got:?}", raw.len()))?;
        if let Some(p) = got {
            c.ensure(p.code == code && p.raw == raw[..size], "carries another code or material", || format!("Siger {code}: holds {} {}", p.code, kinds::hex(&p.raw)))?;
        }
    }
    Ok(())
}
