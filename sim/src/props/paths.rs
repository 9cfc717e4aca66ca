//! C19: paths into data which is put into envelope after envelope on its way, damaged, duplicated, stored and
//! reread, and taken out again at the other end.
use crate::gen;
use crate::kinds;
use crate::refc;
use crate::refj::{self, s, J};
use crate::world::*;
use cesride::{Bext, Matter, Pather, Serder};

/// The parts of a path whose meaning is beyond doubt.
fn parts(t: &str) -> Option<Vec<String>> {
    let t = t.strip_prefix('-')?;
    if t.is_empty() {
        return Some(vec![]);
    }
    let p: Vec<String> = t.split('-').map(|x| x.to_string()).collect();
    if p.iter().any(|x| x.is_empty() || (x.bytes().all(|b| b.is_ascii_digit()) && x.len() > 18)) {
        return None;
    }
    Some(p)
}
fn join(p: &[String]) -> String {
    format!("-{}", p.join("-"))
}
fn position(p: &str) -> Option<usize> {
    if p.bytes().all(|b| b.is_ascii_digit()) {
        p.parse().ok()
    } else {
        None
    }
}
/// What a path leads to.
fn find<'a>(j: &'a J, p: &[String]) -> Option<&'a J> {
    let Some((head, rest)) = p.split_first() else { return Some(j) };
    let next = match (j, position(head)) {
        (J::Obj(m), Some(i)) => m.get(i).map(|(_, v)| v)?,
        (J::Obj(_), None) => j.get(head)?,
        (J::Arr(a), Some(i)) => a.get(i)?,
        _ => return None,
    };
    find(next, rest)
}

/// A field name which can be part of a path.
fn name(c: &mut Ctx) -> String {
    match c.draw(8) {
        0 => c.below(12).to_string(),
        1 => format!("0{}", c.below(4)),
        2 => ["_", "a", "A", "e", "d", "z_", "10x", "x10"][c.below(8)].to_string(),
        _ => {
            if c.chance(1, 400) {
                let n = 5_400 + c.below(120);
                return format!("x{}", gen::b64_string(c, n).replace('-', "_"));
            }
            let n = 1 + c.below(7);
            gen::b64_string(c, n).replace('-', "_")
        }
    }
}
fn document(c: &mut Ctx, depth: usize) -> J {
    let n = match depth {
        0 => c.below(2),
        4 => 1 + c.below(6),
        3 if c.chance(1, 30) => 9 + c.below(100),
        3 if c.chance(1, 400) => [99, 255, 999, 1023][c.below(4)] + c.below(4),
        _ => c.below(6),
    };
    let depth = if n > 6 { 1 } else { depth };
    match if depth == 4 { 1 + c.draw(4) } else { c.draw(if depth == 0 { 1 } else { 5 }) } {
        0 => gen::json(c, 0),
        1 | 2 => J::Arr((0..n).map(|_| c.span(|c| document(c, depth - 1))).collect()),
        _ => {
            let mut o = J::Obj(vec![]);
            for _ in 0..n {
                c.span(|c| {
                    let k = if c.chance(1, 8) { gen::label(c) } else { name(c) };
                    let v = document(c, depth - 1);
                    o.set(&k, v);
                });
            }
            o
        }
    }
}
/// A walk down to some element; now and then to nowhere.
fn walk(c: &mut Ctx, j: &J) -> Vec<String> {
    let mut p = vec![];
    let mut at = j;
    while c.chance(7, 8) {
        match at {
            J::Obj(m) if !m.is_empty() => {
                let i = c.below(m.len());
                let k = &m[i].0;
                let nameable = !k.is_empty() && !k.contains('-') && k.bytes().all(|b| refc::sextet(b).is_some()) && position(k).is_none();
                if nameable && c.chance(2, 3) {
                    p.push(k.clone());
                } else {
                    p.push(i.to_string());
                }
                at = &m[i].1;
            }
            J::Arr(a) if !a.is_empty() => {
                let i = c.below(a.len());
                p.push(if c.chance(1, 10) { format!("0{i}") } else { i.to_string() });
                at = &a[i];
            }
            _ => break,
        }
    }
    if c.chance(1, 5) {
        match c.draw(7) {
            0 => p.push(name(c)),
            6 if !p.is_empty() => {
                // no name, though nearly one
                let i = c.below(p.len());
                let x = p[i].clone();
                p[i] = match c.draw(5) {
                    0 => x.to_ascii_uppercase(),
                    1 => x.to_ascii_lowercase(),
                    2 if x.len() > 1 => x[1..].to_string(),
                    3 if x.len() > 1 => x[..x.len() - 1].to_string(),
                    _ => format!("{x}{}", c.pick(&["a", "_", "0", "s"])),
                };
            }
            5 if !p.is_empty() => {
                // no number, though nearly one
                let i = c.below(p.len());
                p[i] = [format!("_{}", p[i]), format!("{}_", p[i]), format!("0x{}", p[i]), format!("{}e0", p[i]), format!("{}u", p[i])][c.below(5)].clone();
            }
            1 => p.push(at.len().to_string()),
            2 if !p.is_empty() => {
                let i = c.below(p.len());
                p[i] = name(c);
            }
            3 if !p.is_empty() => {
                let i = c.below(p.len());
                p.insert(i, p[i].clone());
            }
            _ => p.push(((at.len() as u64).wrapping_add(c.draw(3))).to_string()),
        }
    }
    p
}
fn encoded(t: &str) -> String {
    let pad = (4 - t.len() % 4) % 4;
    let full = refc::to_bytes(format!("{}{t}", "A".repeat(pad)).as_bytes()).unwrap();
    let lead = [0, 2, 1, 0][t.len() % 4];
    let raw = &full[lead..];
    refc::matter_text(&refc::variable_code('A', raw.len()).0, raw).unwrap()
}

fn built(c: &mut Ctx, p: &[String]) -> R<Pather> {
    let t = join(p);
    let way = c.draw(5);
    let numeric = c.chance(1, 2);
    let list = J::Arr(p.iter().map(|x| match position(x) {
        Some(i) if numeric && i.to_string() == *x => J::Int(i as i128),
        _ => s(x.clone()),
    }).collect()).value();
    let q = encoded(&t);
    let m = c.call("Pather", || match way {
        0 => Pather::new_with_bext(&t),
        1 => Pather::new_with_qb64(&q),
        2 => Pather::new_with_qb2(&refc::binary(&q)),
        _ => Pather::new_with_path(&list),
    })?;
    let Ok(m) = m else { return c.fail("a path was refused", format!("{t} by way {way}: {m:?}")) };
    let got = c.call("Pather accessors", || (m.bext().ok(), m.qb64().ok(), m.qb2().ok(), m.path().ok()))?;
    c.ensure(got.0.as_ref() == Some(&t) && got.1.as_ref() == Some(&q) && got.2 == Some(refc::binary(&q)), "a path is not what was asked for", || format!("{t} by way {way} is {got:?}, its encoding {q}"))?;
    let want = J::Arr(p.iter().map(|x| s(x.clone())).collect());
    let parts = got.3.unwrap_or(cesride::data::Value::Null);
    c.ensure(refj::same(&want, &parts), "a path is not what was asked for", || format!("{t} has parts {parts:?}"))?;
    Ok(m)
}
/// The element a path leads to, in the library's opinion and in ours.
fn resolves(c: &mut Ctx, m: &Pather, p: &[String], doc: &J) -> R<()> {
    let v = doc.value();
    let got = c.call("Pather.resolve", || m.resolve(&v).ok())?;
    let want = find(doc, p);
    match (&got, want) {
        (Some(g), Some(w)) => {
            c.ensure(refj::same(w, g), "a path led to something else", || format!("{} in {} gave {g:?}, not {}", join(p), doc.text(), w.text()))?;
            let t = c.call("Value.to_json", || g.to_json().ok())?;
            c.ensure(t.as_deref() == Some(&w.text()[..]), "a path led to something else", || format!("{} in {} gave {t:?}, not {}", join(p), doc.text(), w.text()))?;
            c.probe("paths resolved");
        }
        (None, None) => c.probe("paths to nowhere"),
        (None, Some(w)) => c.fail("a path did not resolve", format!("{} in {} should give {}", join(p), doc.text(), w.text()))?,
        (Some(g), None) => c.fail("a path to nowhere resolved", format!("{} in {} gave {g:?}", join(p), doc.text()))?,
    }
    Ok(())
}
fn shows(c: &mut Ctx, m: &Pather, what: &str, want: &[String]) -> R<()> {
    let t = c.call("Pather.bext", || m.bext().ok())?;
    c.ensure(t.as_deref() == Some(&join(want)[..]), "paths do not compose", || format!("{what} gave {t:?}, not {}", join(want)))?;
    let q = c.call("Pather.qb64", || m.qb64().ok())?;
    c.ensure(q.as_deref() == Some(&encoded(&join(want))[..]), "paths do not compose", || format!("{what} gave {q:?}, not {}", encoded(&join(want))))
}
/// Rooting and stripping, and what is no ancestor.
fn algebra(c: &mut Ctx, m: &Pather, p: &[String], root: &Pather, r: &[String]) -> R<Pather> {
    let up = c.call("Pather.root", || m.root(root))?;
    let Ok(up) = up else { return c.fail("paths do not compose", format!("{} under {}: {up:?}", join(p), join(r))) };
    let whole: Vec<String> = r.iter().chain(p).cloned().collect();
    shows(c, &up, &format!("{} under {}", join(p), join(r)), &whole)?;
    let down = c.call("Pather.strip", || up.strip(root))?;
    let Ok(down) = down else { return c.fail("paths do not compose", format!("{} without {}: {down:?}", join(&whole), join(r))) };
    shows(c, &down, &format!("{} without {}", join(&whole), join(r)), p)?;
    let under = c.call("Pather.starts_with", || up.starts_with(root).ok())?;
    c.ensure(under == Some(true), "paths do not compose", || format!("{} starts with {}: {under:?}", join(&whole), join(r)))?;
    // an unrelated root takes nothing away
    let (a, b) = if c.chance(1, 2) { (m, root) } else { (root, m) };
    let (pa, pb) = if std::ptr::eq(a, m) { (p, r) } else { (r, p) };
    if pb.len() > pa.len() || pb.iter().any(|x| !pa.contains(x)) {
        let same = c.call("Pather.strip", || a.strip(b))?;
        let Ok(same) = same else { return c.fail("paths do not compose", format!("{} without {}: {same:?}", join(pa), join(pb))) };
        shows(c, &same, &format!("{} without the unrelated {}", join(pa), join(pb)), pa)?;
        if !join(pa).starts_with(&join(pb)) {
            let under = c.call("Pather.starts_with", || a.starts_with(b).ok())?;
            c.ensure(under == Some(false), "paths do not compose", || format!("{} starts with {}: {under:?}", join(pa), join(pb)))?;
        }
    } else if pa.starts_with(pb) {
        let rest = c.call("Pather.strip", || a.strip(b).ok())?;
        let Some(rest) = rest else { return c.fail("paths do not compose", format!("{} without {} is refused", join(pa), join(pb))) };
        shows(c, &rest, &format!("{} without {}", join(pa), join(pb)), &pa[pb.len()..])?;
    }
    Ok(up)
}

/// What one node sends to the next: the data, then the paths into it.
struct Parcel {
    doc: J,
    paths: Vec<(Pather, Vec<String>)>,
}
impl Parcel {
    fn bytes(&self, binary: bool) -> Vec<u8> {
        let mut b = self.doc.text().into_bytes();
        b.push(b'\n');
        for (_, p) in &self.paths {
            let q = encoded(&join(p));
            b.extend(if binary { refc::binary(&q) } else { q.into_bytes() });
        }
        b
    }
}
/// Reads what has arrived, judges each path against the data it came with, and says whether it is what was sent.
fn receive(c: &mut Ctx, sent: &Parcel, b: &[u8], binary: bool) -> R<Option<Parcel>> {
    c.mark_bytes(b);
    let Some(cut) = b.iter().position(|x| *x == b'\n') else { return Ok(None) };
    let doc = std::str::from_utf8(&b[..cut]).ok().and_then(refj::parse).filter(super::saids::plain);
    let mut rest = &b[cut + 1..];
    let mut paths = vec![];
    while !rest.is_empty() {
        let how = c.draw(1);
        let m = c.call("Pather", || match (binary, how, std::str::from_utf8(rest)) {
            (true, _, _) => Pather::new_with_qb2(rest),
            (false, 0, Ok(t)) => Pather::new_with_qb64(t),
            _ => Pather::new_with_qb64b(rest),
        })?;
        let Ok(m) = m else { break };
        let read = if binary { refc::from_binary(rest, refc::matter_read) } else { refc::matter_read(rest) };
        let Ok(item) = read else { break };
        let (t, list) = c.call("Pather accessors", || (m.bext(), m.path()))?;
        let Ok(t) = t else { break };
        match parts(&t) {
            Some(p) => {
                let want = J::Arr(p.iter().map(|x| s(x.clone())).collect());
                c.ensure(list.as_ref().map(|l| refj::same(&want, l)).unwrap_or(false), "a path is not what was sent", || format!("{t} has parts {list:?}"))?;
                if let Some(doc) = &doc {
                    resolves(c, &m, &p, doc)?;
                }
                paths.push((m, p));
            }
            None if !t.starts_with('-') => {
                let v = doc.as_ref().map(|d| d.value()).unwrap_or(cesride::data::Value::Null);
                let r = c.call("Pather.resolve", || m.resolve(&v).ok())?;
                c.ensure(list.is_err() && r.is_none(), "what is no path was followed", || format!("{t} gave {list:?} and {r:?}"))?;
                c.probe("no path");
            }
            None => c.probe("path beyond judgement"),
        }
        let size = if binary { item.fs * 3 / 4 } else { item.fs };
        rest = &rest[size..];
    }
    let whole = b == sent.bytes(binary);
    if !whole {
        c.probe("damaged parcels");
        return Ok(None);
    }
    c.ensure(paths.len() == sent.paths.len() && paths.iter().zip(&sent.paths).all(|(a, b)| a.1 == b.1), "paths were lost on the way", || {
        format!("sent {:?}, read {:?}", sent.paths.iter().map(|x| join(&x.1)).collect::<Vec<_>>(), paths.iter().map(|x| join(&x.1)).collect::<Vec<_>>())
    })?;
    Ok(doc.map(|doc| Parcel { doc, paths }))
}
/// Over one link and through the disk of the node behind it, until it is there.
fn hop(c: &mut Ctx, net: &NetCfg, rot: u64, mut parcel: Parcel) -> R<Parcel> {
    let binary = c.chance(1, 2);
    let b = parcel.bytes(binary);
    for attempt in 0.. {
        let quiet = NetCfg::quiet();
        let net = if attempt < 4 { net } else { &quiet };
        let mut q: Queue<Vec<u8>> = Queue::new();
        for (d, p) in net.transmit(c, &b) {
            q.push(c.now + d, p);
        }
        let mut got = None;
        while let Some((at, p)) = q.pop() {
            c.now = at;
            if let Some(x) = receive(c, &parcel, &p, binary)? {
                got = Some((x, p));
            }
        }
        c.now += 1_000_000;
        let Some((x, p)) = got else { continue };
        c.state(crate::tape::hash_bytes(format!("{} {} {}", attempt, x.paths.len(), x.doc.text().len()).as_bytes()));
        if !c.chance(1, 3) {
            return Ok(x);
        }
        // the node goes down with what it has, and reads it back from its disk
        let mut disk = Disk { rot: if attempt < 4 { rot } else { 0 }, ..Default::default() };
        if disk.append(c, &p).is_ok() && c.chance(3, 4) {
            let _ = disk.sync(c);
        }
        disk.crash(c);
        c.fault(Fault::NodeRestart);
        let stored = disk.read(c);
        match receive(c, &parcel, &stored, binary)? {
            Some(x) => return Ok(x),
            None => {
                // sent again
                parcel = Parcel { doc: parcel.doc.clone(), paths: parcel.paths.clone() };
            }
        }
    }
    unreachable!()
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    let net = NetCfg::draw(c, true);
    let rot = [0, 32, 128][c.below(3)];
    let mut doc = document(c, 4);
    if !super::saids::plain(&doc) {
        c.probe("no plain document");
        doc = J::Obj(vec![("a".into(), s("b"))]);
    }
    let n = 1 + c.below(4);
    let mut paths = vec![];
    for _ in 0..n {
        let p = walk(c, &doc);
        let m = built(c, &p)?;
        resolves(c, &m, &p, &doc)?;
        paths.push((m, p));
    }
    c.note(|| format!("{} with {:?}", doc.text(), paths.iter().map(|x| join(&x.1)).collect::<Vec<_>>()));
    let mut parcel = Parcel { doc, paths };
    let mut layers = vec![];
    let hops = 1 + c.below(4);
    for _ in 0..hops {
        parcel = c.span(|c| -> R<Parcel> {
            // into an envelope
            let mut root = vec![];
            let mut doc = parcel.doc.clone();
            for _ in 0..1 + c.below(2) {
                let k = c.below(3);
                if c.chance(1, 3) {
                    let mut a: Vec<J> = (0..k).map(|_| document(c, 0)).collect();
                    let at = c.below(a.len() + 1);
                    a.insert(at, doc);
                    doc = J::Arr(a);
                    root.insert(0, at.to_string());
                } else {
                    let mut o = J::Obj(vec![]);
                    for _ in 0..k {
                        let (k, v) = (name(c), document(c, 0));
                        o.set(&k, v);
                    }
                    let mut tries = 0;
                    let k = loop {
                        tries += 1;
                        if tries > 8 {
                            break format!("k{}", "_".repeat(o.len()));
                        }
                        let k = if c.chance(1, 3) && !parcel.paths[0].1.is_empty() { parcel.paths[0].1[0].clone() } else { name(c) };
                        if position(&k).is_none() && o.get(&k).is_none() {
                            break k;
                        }
                    };
                    let at = o.len();
                    o.set(&k, doc);
                    doc = o;
                    root.insert(0, if c.chance(1, 4) { at.to_string() } else { k });
                }
            }
            if !super::saids::plain(&doc) {
                return Ok(Parcel { doc: parcel.doc.clone(), paths: parcel.paths.clone() });
            }
            let rm = built(c, &root)?;
            resolves(c, &rm, &root, &doc)?;
            let mut up = vec![];
            for (m, p) in &parcel.paths {
                let x = algebra(c, m, p, &rm, &root)?;
                let whole: Vec<String> = root.iter().chain(p).cloned().collect();
                resolves(c, &x, &whole, &doc)?;
                up.push((x, whole));
            }
            layers.push((rm, root, parcel.doc.clone()));
            let next = Parcel { doc, paths: up };
            hop(c, &net, rot, next)
        })?;
    }
    // and out of all of them again
    while let Some((rm, root, inner)) = layers.pop() {
        let mut down = vec![];
        for (m, p) in &parcel.paths {
            let x = c.call("Pather.strip", || m.strip(&rm).ok())?;
            let Some(x) = x else { return c.fail("paths do not compose", format!("{} without {} is refused", join(p), join(&root))) };
            let want = p[root.len()..].to_vec();
            shows(c, &x, &format!("{} without {}", join(p), join(&root)), &want)?;
            resolves(c, &x, &want, &inner)?;
            down.push((x, want));
        }
        parcel = Parcel { doc: inner, paths: down };
    }
    if c.chance(1, 2) {
        c.span(tail)?;
    }
    if c.chance(1, 3) {
        c.span(no_path)?;
    }
    Ok(())
}
/// The end of a path in a message: an identifier, or data.
fn tail(c: &mut Ctx) -> R<()> {
    let mut j = gen::event(c, "E");
    let extra = document(c, 2);
    let said = gen::digest_text(c);
    j.set("x", if c.chance(1, 3) { s(said) } else { extra });
    if !super::saids::plain(&j) {
        return Ok(());
    }
    let (_, j) = refj::saidify(&j, "E", "d", true, &[]);
    let text = j.text();
    let m = c.call("Serder::new_with_raw", || Serder::new_with_raw(text.as_bytes()).ok())?;
    let Some(m) = m else {
        c.probe("no message");
        return Ok(());
    };
    let p = walk(c, &j);
    let pather = built(c, &p)?;
    let got = c.call("Pather.tail", || pather.tail(&m).ok())?;
    match find(&j, &p) {
        Some(J::Str(x)) => match refc::matter_read(x.as_bytes()) {
            Ok(i) if refj::DIGESTS.contains(&&i.code[..]) && i.fs == x.len() => {
                c.ensure(got.as_ref() == Some(x), "the end of a path is something else", || format!("{} gave {got:?}, not {x}", join(&p)))?;
                c.probe("identifiers at the end of a path");
            }
            Ok(i) if refj::DIGESTS.contains(&&i.code[..]) => {}
            _ => c.ensure(got.is_none(), "the end of a path is something else", || format!("{} gave {got:?} for {x:?}, which is no identifier", join(&p)))?,
        },
        Some(w @ (J::Arr(_) | J::Obj(_))) => c.ensure(got.as_deref() == Some(&w.text()[..]), "the end of a path is something else", || format!("{} gave {got:?}, not {}", join(&p), w.text()))?,
        _ => c.ensure(got.is_none(), "the end of a path is something else", || format!("{} gave {got:?}", join(&p)))?,
    }
    Ok(())
}
/// Names no path can spell.
fn no_path(c: &mut Ctx) -> R<()> {
    let mut p: Vec<J> = (0..c.below(4)).map(|_| s(name(c))).collect();
    let at = c.below(p.len() + 1);
    let bad = match c.draw(8) {
        0 => s("a\n"),
        1 => s("\u{e9}"),
        2 => s(format!("{}{}", name(c), ["$", " ", "+", "/", "=", ".", "\0", "\u{2028}"][c.below(8)])),
        3 => J::Null,
        4 => J::Bool(true),
        5 => J::Obj(vec![]),
        6 => J::Arr(vec![s("a")]),
        _ => s(format!("{}{}", ["$", " ", "+", "/", "=", "\n"][c.below(6)], name(c))),
    };
    p.insert(at, bad);
    let list = J::Arr(p);
    let v = list.value();
    let got = c.call("Pather::new_with_path", || Pather::new_with_path(&v).ok().map(|m| kinds::of_matter(&m)))?;
    c.ensure(got.is_none(), "an impossible path was made", || format!("{} gave {got:?}", list.text()))
}
