//! C14: every block of heap memory the library gives back is searched, at that moment, for every secret of the run.
use crate::kinds::hex;
use crate::props::sign::{Suite, SUITES};
use crate::refc;
use crate::world::*;
use cesride::{Indexer, Matter, Salter, Signer};
use std::sync::atomic::Ordering::Relaxed;

enum Held {
    Salter(Salter),
    Signer(Signer, Suite),
}
struct Known {
    raw: Vec<u8>,
    first: usize,
    names: Vec<String>,
}
struct Vault {
    secrets: Vec<Known>,
    held: Vec<(Held, Vec<u8>)>,
}

/// 12-byte pieces by which a copy of the secret is known, in raw, Base64 (any alignment) and hexadecimal form.
fn pieces(raw: &[u8]) -> Vec<([u8; seam::NEEDLE], String)> {
    let mut out = vec![];
    let mut add = |b: &[u8], at: usize, what: &str| {
        if let Some(w) = b.get(at..at + seam::NEEDLE) {
            // nothing to be mistaken for something else
            let mut kinds: Vec<u8> = w.to_vec();
            kinds.sort_unstable();
            kinds.dedup();
            if kinds.len() >= 6 {
                out.push((w.try_into().unwrap(), format!("{what} at {at}")));
            }
        }
    };
    for at in if raw.len() == 16 { vec![0, 4] } else { vec![0, 10, 20] } {
        add(raw, at, "raw");
    }
    for pad in 0..3 {
        let mut b = vec![0u8; pad];
        b.extend_from_slice(raw);
        b.resize(b.len().div_ceil(3) * 3, 0);
        let t = refc::to_text(&b);
        for at in if raw.len() == 16 { vec![3, 10] } else { vec![3, 16, 29] } {
            add(t.as_bytes(), at, ["text, alignment 0", "text, alignment 1", "text, alignment 2"][pad]);
        }
    }
    let h = hex(raw);
    add(h.as_bytes(), h.len() / 2 - 6, "hexadecimal");
    out
}

impl Vault {
    fn learn(&mut self, raw: &[u8]) -> bool {
        if self.secrets.iter().any(|k| k.raw == raw) {
            return true;
        }
        let p = pieces(raw);
        let v: Vec<[u8; seam::NEEDLE]> = p.iter().map(|x| x.0).collect();
        match seam::scan_add(&v) {
            Some(first) => {
                self.secrets.push(Known { raw: raw.to_vec(), first, names: p.into_iter().map(|x| x.1).collect() });
                true
            }
            None => false,
        }
    }
    fn capture(&self, c: &mut Ctx, what: &str) -> R<()> {
        c.fault(Fault::MemoryCaptured);
        let leaks = seam::LEAKS.load(Relaxed);
        c.ensure(leaks == 0, "a secret was left in released memory", || {
            let w = seam::LEAK_WHICH.load(Relaxed);
            let k = self.secrets.iter().rev().find(|k| k.first <= w).unwrap();
            format!("{what}: {leaks} released blocks, the first of {} bytes, held {} ({})", seam::LEAK_SIZE.load(Relaxed), hex(&k.raw), k.names[w - k.first])
        })
    }
}

fn salt(c: &mut Ctx) -> Vec<u8> {
    c.random(16)
}
fn seed(c: &mut Ctx) -> Vec<u8> {
    let mut s = c.random(32);
    s[0] &= 0x7f;
    s
}

// the entropy source: a script of bytes, and where it breaks
static mut SCRIPT: [u8; 64] = [0; 64];
static mut AT: usize = 0;
static mut CHUNK: usize = 0;
static mut BREAK: usize = usize::MAX;
fn source(buf: *mut u8, len: usize, dev: bool) -> i64 {
    if dev && buf.is_null() {
        return 0;
    }
    unsafe {
        if AT >= BREAK {
            return -5;
        }
        let n = len.min(CHUNK).min(BREAK - AT);
        for i in 0..n {
            *buf.add(i) = SCRIPT[(AT + i) % 64];
        }
        AT += n;
        n as i64
    }
}
fn script(c: &mut Ctx, secret: &[u8], may_break: bool) -> bool {
    unsafe {
        for (i, b) in c.random(64).into_iter().enumerate() {
            SCRIPT[i] = b;
        }
        SCRIPT[..secret.len()].copy_from_slice(secret);
        AT = 0;
        CHUNK = if c.chance(1, 3) { 1 + c.below(secret.len().max(2)) } else { usize::MAX };
        BREAK = if may_break && c.chance(1, 4) { c.below(secret.len() + 1) } else { usize::MAX };
        let broken = BREAK != usize::MAX;
        if broken {
            c.fault(Fault::EntropyFailed);
        } else if CHUNK != usize::MAX {
            c.fault(Fault::EntropyShort);
        }
        seam::set_entropy(Some(source));
        broken
    }
}

/// Something which goes wrong with an encoding before it is read; true: nothing does.
fn spoil(c: &mut Ctx, text: &mut String, binary: &mut Vec<u8>, others: &[&str]) -> bool {
    match c.draw(11) {
        0 => {
            let n = c.below(text.len() + 1);
            text.truncate(n);
            let n = c.below(binary.len() + 1);
            binary.truncate(n);
            c.fault(Fault::NetTruncate);
        }
        1 => {
            let i = c.below(text.len());
            let ch = ["=", "+", "/", "\n", "*", "\u{e9}", " "][c.below(7)];
            text.replace_range(i..i + 1, ch);
            let i = c.below(binary.len());
            binary[i] ^= 1 << c.draw(8);
            c.fault(Fault::NetCorrupt);
        }
        2 => {
            // read, and then refused for its code
            let k = *c.pick(others);
            text.replace_range(..k.len(), k);
            *binary = refc::binary(text);
            c.fault(Fault::NetMisroute);
        }
        3 => {
            // bits where there must be none
            let cs = text.find(|x: char| !"AJQ0".contains(x)).unwrap_or(1).min(2);
            text.replace_range(cs..cs + 1, "_");
            *binary = refc::binary(text);
            c.fault(Fault::NetCorrupt);
        }
        4 => {
            // junk, or another item, follows
            let n = c.below(40);
            let junk = crate::gen::b64_string(c, n);
            text.push_str(&junk);
            let junk = c.bytes(n);
            binary.extend(junk);
            c.fault(Fault::NetTrailing);
            return true;
        }
        5 => {
            c.corrupt(binary);
            let mut b = std::mem::take(text).into_bytes();
            c.corrupt(&mut b);
            *text = String::from_utf8_lossy(&b).into_owned();
        }
        _ => return true,
    }
    false
}

fn import_salt(c: &mut Ctx, v: &mut Vault) -> R<()> {
    let raw = if c.chance(1, 4) && !v.secrets.is_empty() {
        let k = c.below(v.secrets.len());
        v.secrets[k].raw[..16].to_vec()
    } else {
        salt(c)
    };
    if raw.len() != 16 || !v.learn(&raw) {
        return Ok(());
    }
    let tier = [None, Some("low"), Some("min"), Some("nonsense")][c.below(4)];
    let wide = c.chance(1, 2);
    let got = match c.draw(6) {
        0 => {
            let broken = script(c, &raw, true);
            let r = c.attempt("Salter fresh", || if wide { Salter::new(tier, None, None, None, None, None) } else { Salter::new_with_defaults(tier) }.ok());
            if broken {
                c.fault(Fault::CallFailed);
            }
            r.ok().flatten()
        }
        1 => {
            // short, exact or long material, under its own or another code
            let n = [0, 12, 15, 16, 16, 16, 16, 17, 40][c.below(9)];
            let code = [None, Some("0A"), Some("0A"), Some("A"), Some("E"), Some("0B"), Some(""), Some("zz")][c.below(8)];
            let mut b = raw.clone();
            b.resize(n.max(16), 7);
            let b = &b[..n];
            c.call("Salter from raw", || if wide { Salter::new(tier, code, Some(b), None, None, None) } else { Salter::new_with_raw(b, code, tier) }.ok())?
        }
        _ => {
            let mut t = refc::matter_text("0A", &raw).unwrap();
            let mut b2 = refc::binary(&t);
            let fine = spoil(c, &mut t, &mut b2, &["0B", "AA", "EA", "1AAG", "4B", "0G"]);
            let form = c.draw(3);
            let code = [None, Some("0A"), Some("E")][c.below(3)];
            let r = c.call("Salter from stored form", || {
                match (form, wide) {
                    (0, false) => Salter::new_with_qb64(&t, tier),
                    (0, true) => Salter::new(tier, code, None, None, Some(&t), None),
                    (1, false) => Salter::new_with_qb64b(t.as_bytes(), tier),
                    (1, true) => Salter::new(tier, code, None, Some(t.as_bytes()), None, None),
                    (_, false) => Salter::new_with_qb2(&b2, tier),
                    (_, true) => Salter::new(tier, code, None, None, None, Some(&b2)),
                }
                .ok()
            })?;
            if fine && r.is_some() {
                c.probe("salt imported");
            }
            r
        }
    };
    match got {
        Some(s) => v.held.push((Held::Salter(s), raw)),
        None => c.fault(Fault::CallFailed),
    }
    v.capture(c, "after making a salt")
}

fn import_key(c: &mut Ctx, v: &mut Vault) -> R<()> {
    let (suite, code) = *c.pick(SUITES);
    let mut raw = seed(c);
    let impossible = suite != Suite::Ed && c.chance(1, 6);
    if impossible {
        raw[..16].fill(0xff);
    }
    if !v.learn(&raw) {
        return Ok(());
    }
    let t = [None, Some(true), Some(false)][c.below(3)];
    let wide = c.chance(1, 2);
    let got = match c.draw(6) {
        0 if !impossible => {
            let broken = script(c, &raw, true);
            let ca = if code == "A" && c.chance(1, 2) { None } else { Some(code) };
            let r = c.attempt("Signer fresh", || if wide { Signer::new(t, ca, None, None, None, None) } else { Signer::new_with_defaults(t, ca) }.ok());
            if broken {
                c.fault(Fault::CallFailed);
            }
            r.ok().flatten()
        }
        1 => {
            let n = [0, 12, 24, 31, 32, 32, 32, 32, 33, 64][c.below(10)];
            let code = [code, code, code, "0A", "E", "zz", "", "B"][c.below(8)];
            let mut b = raw.clone();
            b.resize(n.max(32), 7);
            let b = &b[..n];
            c.call("Signer from raw", || if wide { Signer::new(t, Some(code), Some(b), None, None, None) } else { Signer::new_with_raw(b, t, Some(code)) }.ok())?
        }
        _ => {
            let mut x = refc::matter_text(code, &raw).unwrap();
            let mut b2 = refc::binary(&x);
            let fine = spoil(c, &mut x, &mut b2, &["B", "C", "D", "E", "K", "0A", "1AAG", "4B"]);
            let form = c.draw(3);
            let ca = [None, Some(code), Some("E")][c.below(3)];
            let r = c.call("Signer from stored form", || {
                match (form, wide) {
                    (0, false) => Signer::new_with_qb64(&x, t),
                    (0, true) => Signer::new(t, ca, None, None, Some(&x), None),
                    (1, false) => Signer::new_with_qb64b(x.as_bytes(), t),
                    (1, true) => Signer::new(t, ca, None, Some(x.as_bytes()), None, None),
                    (_, false) => Signer::new_with_qb2(&b2, t),
                    (_, true) => Signer::new(t, ca, None, None, None, Some(&b2)),
                }
                .ok()
            })?;
            if fine && r.is_some() {
                c.probe("key imported");
            }
            r
        }
    };
    match got {
        Some(s) => {
            let code = c.call("Signer.code", || s.code())?;
            let suite = SUITES.iter().find(|x| x.1 == code).map(|x| x.0).unwrap_or(suite);
            v.held.push((Held::Signer(s, suite), raw));
        }
        None => c.fault(Fault::CallFailed),
    }
    v.capture(c, "after making a key")
}

fn argon(salt: &[u8], path: &str, size: usize) -> Vec<u8> {
    use argon2::{Algorithm, Argon2, Params, Version};
    let mut out = vec![0u8; size];
    let _ = Argon2::new(Algorithm::Argon2id, Version::V0x13, Params::new(8, 1, 1, Some(size)).unwrap()).hash_password_into(path.as_bytes(), salt, &mut out);
    out
}

fn derive(c: &mut Ctx, v: &mut Vault) -> R<()> {
    let at: Vec<usize> = (0..v.held.len()).filter(|i| matches!(v.held[*i].0, Held::Salter(_))).collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *c.pick(&at);
    let code = *c.pick(&["A", "J", "Q", "A", "J", "Q", "E", "0A", "B", "zz", "0B"]);
    let suite = SUITES.iter().find(|x| x.1 == code).map(|x| x.0);
    let size = match code {
        "0A" => 16,
        "0B" => 64,
        _ => 32,
    };
    let path = crate::gen::text(c, 6);
    let t = [None, Some(true), Some(false)][c.below(3)];
    // a tier which does not exist fails after the salt was taken
    let (tier, temp) = if c.chance(1, 8) { (Some("nonsense"), None) } else { (None, Some(true)) };
    let ca = if code == "A" && c.chance(1, 2) { None } else { Some(code) };
    let salt = v.held[i].1.clone();
    let n = if c.chance(1, 2) { 1 } else { c.below(7) };
    let start = c.below(20);
    let single = n == 1 && c.chance(1, 2);
    let want: Vec<Vec<u8>> = if single { vec![argon(&salt, &path, size)] } else { (0..n).map(|k| argon(&salt, &format!("{path}{:x}", start + k), size)).collect() };
    for w in &want {
        if !v.learn(w) {
            return Ok(());
        }
    }
    let mut got: Vec<Signer> = vec![];
    let Held::Salter(s) = &v.held[i].0 else { return Ok(()) };
    if single {
        got.extend(c.call("Salter.signer", || s.signer(ca, t, Some(&path), tier, temp).ok())?);
    } else {
        let all = c.call("Salter.signers", || s.signers(Some(n), Some(start), Some(&path), ca, t, tier, temp).ok())?;
        match all {
            Some(mut all) => {
                // some are kept, the others dropped with their list
                while got.len() < 2 && !all.is_empty() {
                    let k = c.below(all.len());
                    got.push(all.swap_remove(k));
                }
                c.call("drop of a list of keys", || drop(all))?;
            }
            None => c.fault(Fault::CallFailed),
        }
    }
    c.probe(if got.is_empty() { "derivation failed" } else { "key derived" });
    for g in got {
        let raw = c.call("Signer.raw", || g.raw())?;
        if let Some(suite) = suite {
            v.held.push((Held::Signer(g, suite), raw));
        }
    }
    v.capture(c, "after deriving keys")
}

fn employ(c: &mut Ctx, v: &mut Vault) -> R<()> {
    if v.held.is_empty() {
        return Ok(());
    }
    let i = c.below(v.held.len());
    let what;
    let mut new = None;
    let raw = v.held[i].1.clone();
    let (mut size, mut path) = (0, String::new());
    if let Held::Salter(_) = &v.held[i].0 {
        size = [0, 3, 16, 32, 32, 64, 100, 600][c.below(8)];
        path = crate::gen::text(c, 6);
        // what may be stretched from it is a secret too
        if size >= 16 && c.chance(1, 2) {
            v.learn(&argon(&raw, &path, size));
        }
    }
    match &v.held[i].0 {
        Held::Signer(s, suite) => {
            let n = match c.draw(8) {
                0 => c.below(70_000),
                1 | 2 => c.below(3000),
                _ => c.below(160),
            };
            let msg = c.bytes(n);
            match c.draw(8) {
                0 | 1 => {
                    what = "signing";
                    let broken = script(c, &[], false);
                    let _ = broken;
                    let r = c.attempt("Signer.sign_unindexed", || s.sign_unindexed(&msg).map(|x| x.raw()).ok());
                    c.mark(r.map(|x| x.map_or(0, |x| x.len())).unwrap_or(1) as u64);
                }
                2 | 3 => {
                    what = "signing with an index";
                    let index = [0, 1, 63, 64, 4095, 4096, u32::MAX][c.below(7)];
                    let ondex = [None, Some(index), Some(0), Some(4096), Some(u32::MAX)][c.below(5)];
                    let only = c.chance(1, 3);
                    script(c, &[], false);
                    let r = c.attempt("Signer.sign_indexed", || s.sign_indexed(&msg, only, index, ondex).map(|x| x.raw()).ok());
                    if !matches!(r, Ok(Some(_))) {
                        c.fault(Fault::CallFailed);
                    }
                }
                4 => {
                    what = "signing without entropy";
                    c.fault(Fault::EntropyFailed);
                    unsafe {
                        BREAK = 0;
                        AT = 0;
                    }
                    seam::set_entropy(Some(source));
                    if c.attempt("Signer.sign_unindexed", || s.sign_unindexed(&msg).is_ok()) != Ok(true) {
                        c.fault(Fault::CallFailed);
                    }
                }
                5 => {
                    what = "cloning a key";
                    new = Some((Held::Signer(c.call("Signer.clone", || s.clone())?, *suite), raw));
                }
                6 => {
                    what = "comparing and naming a key";
                    let o = v.held.iter().rev().find_map(|h| if let Held::Signer(o, _) = &h.0 { Some(o) } else { None }).unwrap();
                    c.call("Signer comparison", || (s == o, s.verfer().raw(), s.code(), s.size()))?;
                }
                _ => {
                    what = "exporting a key";
                    exports(c, s)?;
                }
            }
        }
        Held::Salter(s) => match c.draw(6) {
            0 | 1 => {
                what = "stretching";
                let tier = [Some("min"), Some("nonsense"), Some("min"), Some("")][c.below(4)];
                let r = c.call("Salter.stretch", || s.stretch(Some(size), Some(&path), tier, [None, Some(false)][path.len() % 2]).ok())?;
                if r.is_none() {
                    c.fault(Fault::CallFailed);
                }
            }
            2 => {
                what = "cloning a salt";
                new = Some((Held::Salter(c.call("Salter.clone", || s.clone())?), raw));
            }
            3 => {
                what = "comparing a salt";
                let o = v.held.iter().rev().find_map(|h| if let Held::Salter(o) = &h.0 { Some(o) } else { None }).unwrap();
                c.call("Salter comparison", || (s == o, s.tier(), s.code(), s.size()))?;
            }
            _ => {
                what = "exporting a salt";
                exports(c, s)?;
            }
        },
    }
    if let Some(n) = new {
        v.held.push(n);
    }
    v.capture(c, &format!("after {what}"))
}
/// What the caller explicitly asks for is the caller's to wipe: it is given back outside the library.
fn exports(c: &mut Ctx, m: &impl Matter) -> R<()> {
    match c.draw(5) {
        0 => c.call("raw", || Some(m.raw()))?,
        1 => c.call("qb64", || m.qb64().ok().map(|t| t.into_bytes()))?,
        2 => c.call("qb64b", || m.qb64b().ok())?,
        3 => c.call("qb2", || m.qb2().ok())?,
        _ => c.call("other accessors", || Some(vec![m.transferable() as u8, m.digestive() as u8]))?,
    };
    Ok(())
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    let mut v = Vault { secrets: vec![], held: vec![] };
    seam::scan_start();
    c.wipe = true;
    let r = story(c, &mut v);
    // whatever is left is dropped even if the run failed
    for (h, raw) in std::mem::take(&mut v.held) {
        let prev = seam::enter();
        drop(h);
        seam::leave(prev);
        drop(raw);
    }
    let r = r.and_then(|_| v.capture(c, "after dropping everything")).and_then(|_| {
        let n = seam::scan_live();
        c.mark(n as u64);
        c.probe("memory still held searched");
        let leaks = seam::LEAKS.load(Relaxed);
        c.ensure(leaks == 0 && seam::LIVE_LOST.load(Relaxed) == 0, "a copy of a secret outlives everything", || format!("{leaks} of the {n} blocks the library still holds"))
    });
    seam::scan_off();
    r
}
fn story(c: &mut Ctx, v: &mut Vault) -> R<()> {
    let n = 2 + c.below(10);
    for _ in 0..n {
        c.span(|c| -> R<()> {
            match c.draw(10) {
                0 | 1 => import_salt(c, v)?,
                2 | 3 => import_key(c, v)?,
                4 | 5 => derive(c, v)?,
                6 => {
                    if !v.held.is_empty() {
                        let i = c.below(v.held.len());
                        let h = v.held.swap_remove(i);
                        c.call("drop of a secret", || drop(h.0))?;
                        v.capture(c, "after dropping a secret")?;
                    }
                }
                7 => {
                    if v.held.len() >= 2 {
                        // one value takes the place of another
                        let h = v.held.pop().unwrap();
                        let i = c.below(v.held.len());
                        let old = std::mem::replace(&mut v.held[i], h);
                        c.call("replacing a secret", || drop(old.0))?;
                        v.capture(c, "after replacing a secret")?;
                    }
                }
                _ => employ(c, v)?,
            }
            let kinds: Vec<u8> = v.held.iter().map(|h| if matches!(h.0, Held::Salter(_)) { 0 } else { 1 }).collect();
            c.mark_bytes(&kinds);
            c.state(crate::tape::hash_bytes(format!("{kinds:?} {} {}", v.secrets.len(), c.last_call).as_bytes()));
            Ok(())
        })?;
    }
    c.mark(seam::SCANNED.load(Relaxed));
    Ok(())
}
