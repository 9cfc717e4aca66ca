//! C10, C11, C12: what a node takes from its machine — its stored salt, entropy, the clock — while the
//! machine fails, restarts and jumps.
use crate::kinds;
use crate::props::sign::{form, judge_signer, Suite, SUITES};
use crate::refc;
use crate::world::*;
use argon2::{Algorithm, Argon2, Params, Version};
use cesride::{Dater, Matter, Salter, Signer};
use std::collections::HashMap;

// ------------------------------------------------------------------ C10

const TIERS: &[(&str, u32, u32)] = &[("min", 8, 1), ("low", 65536, 2), ("med", 262_144, 3), ("high", 1_048_576, 4)];

fn argon(salt: &[u8], path: &str, size: usize, tier: &str) -> Option<Vec<u8>> {
    let (_, m, t) = TIERS.iter().find(|x| x.0 == tier)?;
    let mut out = vec![0u8; size];
    Argon2::new(Algorithm::Argon2id, Version::V0x13, Params::new(*m, *t, 1, Some(size)).ok()?)
        .hash_password_into(path.as_bytes(), salt, &mut out)
        .ok()?;
    Some(out)
}

struct Wallet {
    salt: Vec<u8>,
    tier: &'static str,
    salter: Salter,
    form: u64,
    stored: Vec<u8>,
    crashes: u64,
}

fn read_salter(c: &mut Ctx, f: u64, b: &[u8], tier: Option<&str>) -> R<Option<Salter>> {
    let wide = c.chance(1, 2);
    c.call("Salter from stored form", || {
        match (f, wide) {
            (0, false) => Salter::new_with_qb64(std::str::from_utf8(b).ok()?, tier),
            (0, true) => Salter::new(tier, None, None, None, Some(std::str::from_utf8(b).ok()?), None),
            (1, false) => Salter::new_with_qb64b(b, tier),
            (1, true) => Salter::new(tier, None, None, Some(b), None, None),
            (_, false) => Salter::new_with_qb2(b, tier),
            (_, true) => Salter::new(tier, None, None, None, None, Some(b)),
        }
        .ok()
    })
}

fn path(c: &mut Ctx) -> String {
    match c.draw(8) {
        0 => String::new(),
        1 => format!("{:x}", c.draw(300)),
        2 => format!("signify:controller{:02x}", c.draw(40)),
        3 => format!("{}{}", ["icp", "rot-0", "wit-0", "/a/", "0", "1f"][c.below(6)], c.draw(20)),
        4 => crate::gen::text(c, 24),
        5 => {
            // long, and different from a neighbour only at its end
            let n = [63, 64, 65, 127, 128, 200, 1000][c.below(7)];
            let t = c.draw(3);
            format!("{}{t}", "p".repeat(n))
        }
        _ => crate::gen::b64_string(c, 6),
    }
}

/// One key of one wallet: where it comes from.
type Slot = (Vec<u8>, String, &'static str);

struct Bank {
    /// what the reference derives, so that nothing is stretched twice
    known: HashMap<(Slot, usize), Vec<u8>>,
    owners: HashMap<Vec<u8>, Slot>,
    slow: u64,
}
impl Bank {
    fn seed(&mut self, slot: &Slot, size: usize) -> Option<Vec<u8>> {
        if let Some(v) = self.known.get(&(slot.clone(), size)) {
            return Some(v.clone());
        }
        let v = argon(&slot.0, &slot.1, size, slot.2)?;
        self.known.insert((slot.clone(), size), v.clone());
        Some(v)
    }
}

fn dead_entropy(_: *mut u8, _: usize, _: bool) -> i64 {
    -5
}
fn constant_entropy(buf: *mut u8, len: usize, dev: bool) -> i64 {
    if !(dev && buf.is_null()) {
        unsafe { std::ptr::write_bytes(buf, 0x41, len) };
    }
    len as i64
}
/// The machine the derivation happens on: any time, any state of the entropy source.
fn weather(c: &mut Ctx) {
    match c.draw(5) {
        0 => {}
        1 => {
            c.fault(Fault::EntropyFailed);
            seam::set_entropy(Some(dead_entropy));
        }
        2 => {
            c.fault(Fault::EntropyUnseeded);
            seam::set_entropy(Some(constant_entropy));
        }
        3 => {
            let s = c.draw(u64::MAX);
            crate::run::quiet_machine(s);
        }
        _ => {
            c.fault(Fault::ClockJump);
            let s = c.draw(4_000_000_000) as i64;
            seam::set_clock(Some((s, 0)));
        }
    }
}

pub fn derivation(c: &mut Ctx) -> R<()> {
    let mut bank = Bank { known: HashMap::new(), owners: HashMap::new(), slow: 0 };
    // the expensive tiers are rationed by run number
    let dear: Option<&'static str> = match c.idx {
        11 => Some("high"),
        5 => Some("med"),
        i if i % 512 == 7 => Some("low"),
        i if i % 16384 == 9 => Some("med"),
        _ => None,
    };
    bank.slow = match dear {
        Some("high") => 1,
        Some(_) => 3,
        None => 0,
    };
    let n = 1 + c.below(3);
    let mut ws: Vec<Wallet> = vec![];
    for _ in 0..n {
        let w = c.span(|c| open(c, &ws, dear))?;
        ws.push(w);
    }
    let mut pool: Vec<String> = vec![];
    let ops = 3 + c.below(14);
    for _ in 0..ops {
        c.span(|c| -> R<()> {
            let k = c.below(ws.len());
            c.now += c.draw(1_000_000_000);
            weather(c);
            match c.draw(10) {
                0 | 1 => reopen(c, &mut ws[k])?,
                2 => {
                    let size = [1, 4, 5, 16, 31, 32, 33, 64, 65, 96, 256][c.below(11)];
                    stretch(c, &ws[k], &mut bank, &mut pool, size, dear)?
                }
                3..=5 => batch(c, &ws[k], &mut bank, &mut pool, dear)?,
                9 if c.chance(1, 3) => unknown(c, &ws[k], &mut pool)?,
                _ => single(c, &ws[k], &mut bank, &mut pool, dear)?,
            }
            let s = c.draw(u64::MAX);
            crate::run::quiet_machine(s);
            c.state(crate::tape::hash_bytes(format!("{k} {} {} {}", ws[k].crashes, bank.known.len(), ws[k].form).as_bytes()));
            Ok(())
        })?;
    }
    Ok(())
}

fn open(c: &mut Ctx, others: &[Wallet], dear: Option<&'static str>) -> R<Wallet> {
    let tier = match dear {
        Some(t) if c.chance(1, 2) => t,
        _ => ["low", "min", "med", "high"][c.below(4)],
    };
    let t = if tier == "low" && c.chance(1, 2) { None } else { Some(tier) };
    let mut want = None;
    let salter = match c.draw(4) {
        0 => c.call("Salter fresh", || Salter::new_with_defaults(t).ok())?,
        k => {
            let s = match others.last() {
                // the neighbour's salt, one bit apart
                Some(o) if c.chance(1, 3) => {
                    let mut s = o.salt.clone();
                    s[c.below(16)] ^= 1 << c.draw(8);
                    s
                }
                _ => c.bytes(16),
            };
            want = Some(s.clone());
            if k == 1 {
                let wide = c.chance(1, 2);
                c.call("Salter from raw", || if wide { Salter::new(t, Some("0A"), Some(&s), None, None, None) } else { Salter::new_with_raw(&s, None, t) }.ok())?
            } else {
                let (f, b) = form(c, &refc::matter_text("0A", &s).unwrap());
                read_salter(c, f, &b, t)?
            }
        }
    };
    let Some(salter) = salter else { return c.fail("salt refused", format!("{want:?} {tier}")) };
    let raw = c.call("Salter.raw", || salter.raw())?;
    let salt = want.unwrap_or_else(|| raw.clone());
    let mut w = Wallet { salt, tier, salter, form: c.draw(3), stored: vec![], crashes: 0 };
    judge_salter(c, &w, "opened")?;
    let (f, s) = (w.form, &w.salter);
    let stored = c.call("Salter to stored form", || match f {
        0 => s.qb64().unwrap_or_default().into_bytes(),
        1 => s.qb64b().unwrap_or_default(),
        _ => s.qb2().unwrap_or_default(),
    })?;
    let text = refc::matter_text("0A", &w.salt).unwrap();
    let want = if f == 2 { refc::binary(&text) } else { text.into_bytes() };
    c.ensure(stored == want, "stored salt differs from the code table", || format!("{:?}", String::from_utf8_lossy(&stored)))?;
    w.stored = stored;
    Ok(w)
}
fn judge_salter(c: &mut Ctx, w: &Wallet, how: &str) -> R<()> {
    let s = &w.salter;
    let (raw, code, tier) = c.call("Salter accessors", || (s.raw(), s.code(), s.tier()))?;
    c.ensure(raw == w.salt && code == "0A" && tier == w.tier, "salter holds another salt or tier", || {
        format!("{how}: {code} {} {tier}, want {} {}", kinds::hex(&raw), kinds::hex(&w.salt), w.tier)
    })
}
fn reopen(c: &mut Ctx, w: &mut Wallet) -> R<()> {
    c.fault(Fault::NodeCrash);
    c.fault(Fault::NodeRestart);
    w.crashes += 1;
    let t = if w.tier == "low" && c.chance(1, 2) { None } else { Some(w.tier) };
    let b = w.stored.clone();
    let Some(s) = read_salter(c, w.form, &b, t)? else { return c.fail("stored salt refused", kinds::hex(&b)) };
    w.salter = if c.chance(1, 4) { c.call("Salter.clone", || s.clone())? } else { s };
    judge_salter(c, w, "restarted")
}

/// How the tier is chosen: (argument tier, argument temp, the tier that results).
fn tier(c: &mut Ctx, w: &Wallet, bank: &mut Bank, dear: Option<&'static str>) -> (Option<&'static str>, Option<bool>, &'static str) {
    if let Some(d) = dear {
        if bank.slow > 0 {
            bank.slow -= 1;
            c.probe("expensive tier");
            if w.tier == d && c.chance(1, 2) {
                return (None, [None, Some(false)][c.below(2)], d);
            }
            return (Some(d), [None, Some(false)][c.below(2)], d);
        }
    }
    match c.draw(4) {
        0 => (Some("min"), None, "min"),
        1 => (Some("min"), Some(false), "min"),
        2 => (Some(["low", "med", "high", "nonsense"][c.below(4)]), Some(true), "min"),
        _ if w.tier == "min" => (None, None, "min"),
        _ => (None, Some(true), "min"),
    }
}
/// A tier that does not exist, or a kind that is no seed, gives nothing at all.
fn unknown(c: &mut Ctx, w: &Wallet, pool: &mut Vec<String>) -> R<()> {
    let p = pooled(c, pool);
    let s = &w.salter;
    let temp = [None, Some(false)][c.below(2)];
    let odd = *c.pick(&["", "nonsense", "MIN", "Low", "low ", " min", "medium", "mi", "lowe", "0", "default", "temp", "hi"]);
    if c.chance(1, 2) {
        let n = c.below(3) + 1;
        let start = c.below(20);
        let (x, y, z) = if c.chance(1, 2) {
            c.call("derivation at an unknown tier", || (s.stretch(None, Some(&p), Some(odd), temp).is_ok(), s.signer(None, None, Some(&p), Some(odd), temp).is_ok(), s.signers(Some(n), Some(start), Some(&p), None, None, Some(odd), temp).is_ok()))?
        } else {
            let salt = w.salt.clone();
            let r = c.call("derivation by a salter of an unknown tier", || Salter::new_with_raw(&salt, None, Some(odd)).ok().map(|s| (s.stretch(None, Some(&p), None, temp).is_ok(), s.signer(None, None, Some(&p), None, temp).is_ok(), s.signers(Some(n), Some(start), Some(&p), None, None, None, temp).is_ok())))?;
            r.unwrap_or((false, false, false))
        };
        c.ensure(!x && !y && !z, "derived at a tier that does not exist", || format!("tier {odd:?} path {p:?}: stretch {x} signer {y} signers {z}"))
    } else {
        let code = *c.pick(&["", "B", "D", "C", "E", "0A", "0B", "0C", "1AAA", "1AAI", "K", "L", "O", "P", "4A", "zz"]);
        let (x, y) = c.call("derivation of what is no key", || (s.signer(Some(code), None, Some(&p), Some("min"), temp).is_ok(), s.signers(Some(1), None, Some(&p), Some(code), None, Some("min"), temp).is_ok()))?;
        c.ensure(!x && !y, "derived a key of a kind that is none", || format!("code {code:?} path {p:?}: signer {x} signers {y}"))
    }
}
fn pooled(c: &mut Ctx, pool: &mut Vec<String>) -> String {
    if !pool.is_empty() && c.chance(1, 2) {
        return c.pick(&pool.clone()).clone();
    }
    let p = path(c);
    pool.push(p.clone());
    p
}

fn stretch(c: &mut Ctx, w: &Wallet, bank: &mut Bank, pool: &mut Vec<String>, size: usize, dear: Option<&'static str>) -> R<()> {
    let p = pooled(c, pool);
    let (at, temp, t) = tier(c, w, bank, dear);
    let pa = if p.is_empty() && c.chance(1, 2) { None } else { Some(p.as_str()) };
    let sa = if size == 32 && c.chance(1, 2) { None } else { Some(size) };
    let s = &w.salter;
    let got = c.call("Salter.stretch", || s.stretch(sa, pa, at, temp).ok())?;
    let want = bank.seed(&(w.salt.clone(), p.clone(), t), size);
    c.mark_bytes(got.as_deref().unwrap_or(b"none"));
    c.ensure(got == want, "stretched key differs from Argon2id", || {
        format!("salt {} path {p:?} size {size} tier argument {at:?} temp {temp:?} salter tier {}: {:?}, want {:?}", kinds::hex(&w.salt), w.tier, got.as_deref().map(kinds::hex), want.as_deref().map(kinds::hex))
    })
}

fn judge(c: &mut Ctx, w: &Wallet, bank: &mut Bank, got: &Signer, p: &str, suite: Suite, transferable: bool, t: &'static str, how: &str) -> R<()> {
    let slot = (w.salt.clone(), p.to_string(), t);
    let seed = bank.seed(&slot, 32).unwrap();
    let raw = c.call("Signer.raw", || got.raw())?;
    c.mark_bytes(&raw);
    c.ensure(raw == seed, "derived key differs from Argon2id", || {
        format!("{how}: salt {} path {p:?} tier {t} after {} restarts: {}, want {}", kinds::hex(&w.salt), w.crashes, kinds::hex(&raw), kinds::hex(&seed))
    })?;
    judge_signer(c, got, suite, transferable, &seed, how)?;
    let o = bank.owners.entry(raw).or_insert_with(|| slot.clone()).clone();
    c.ensure(o == slot, "different paths gave the same key", || format!("{o:?} and {slot:?}"))
}

fn single(c: &mut Ctx, w: &Wallet, bank: &mut Bank, pool: &mut Vec<String>, dear: Option<&'static str>) -> R<()> {
    let p = pooled(c, pool);
    let (at, temp, t) = tier(c, w, bank, dear);
    let (suite, code) = *c.pick(SUITES);
    let transferable = !c.chance(1, 3);
    let ta = if transferable && c.chance(1, 2) { None } else { Some(transferable) };
    let ca = if code == "A" && c.chance(1, 2) { None } else { Some(code) };
    let pa = if p.is_empty() && c.chance(1, 2) { None } else { Some(p.as_str()) };
    let s = &w.salter;
    let got = c.call("Salter.signer", || s.signer(ca, ta, pa, at, temp).ok())?;
    let seed = bank.seed(&(w.salt.clone(), p.clone(), t), 32).unwrap();
    if !crate::props::codes::possible_key(code, &seed) {
        return c.ensure(got.is_none(), "impossible key accepted", || kinds::hex(&seed));
    }
    let Some(got) = got else { return c.fail("derivation refused", format!("path {p:?} tier {at:?} temp {temp:?} code {code}")) };
    judge(c, w, bank, &got, &p, suite, transferable, t, "single")
}

fn batch(c: &mut Ctx, w: &Wallet, bank: &mut Bank, pool: &mut Vec<String>, dear: Option<&'static str>) -> R<()> {
    let stem = pooled(c, pool);
    let (at, temp, t) = tier(c, w, bank, dear);
    let dear = t != "min";
    let (suite, code) = *c.pick(SUITES);
    let transferable = !c.chance(1, 3);
    let ta = if transferable && c.chance(1, 2) { None } else { Some(transferable) };
    let ca = if code == "A" && c.chance(1, 2) { None } else { Some(code) };
    let count = if t == "high" { 1 } else if dear { 1 + c.below(2) } else { [0, 1, 2, 3, 4, 7, 18, 40][c.below(8)] };
    let start = match c.draw(7) {
        0 => 0,
        1 => c.below(20),
        2 => [9, 10, 15, 16, 255, 256, 4095, 65535][c.below(8)] - c.below(3),
        3 => usize::MAX - count - c.below(3),
        4 => (u32::MAX as usize) - c.below(4),
        5 => 1 << c.draw(60),
        _ => c.below(1000),
    };
    let sa = if start == 0 && c.chance(1, 2) { None } else { Some(start) };
    let na = if count == 1 && c.chance(1, 2) { None } else { Some(count) };
    let pa = if stem.is_empty() && c.chance(1, 2) { None } else { Some(stem.as_str()) };
    let s = &w.salter;
    let got = c.call("Salter.signers", || s.signers(na, sa, pa, ca, ta, at, temp).ok())?;
    let want: Vec<String> = (0..count).map(|i| format!("{stem}{:x}", start + i)).collect();
    let mut possible = true;
    for p in &want {
        let seed = bank.seed(&(w.salt.clone(), p.clone(), t), 32).unwrap();
        possible &= crate::props::codes::possible_key(code, &seed);
    }
    if !possible {
        return c.ensure(got.is_none(), "impossible key accepted", || format!("{want:?}"));
    }
    let Some(got) = got else { return c.fail("derivation refused", format!("batch of {count} at {start}, path {stem:?} tier {at:?} temp {temp:?} code {code}")) };
    c.ensure(got.len() == count, "batch of another size", || format!("{count} wanted, {} made", got.len()))?;
    for (p, g) in want.iter().zip(&got) {
        judge(c, w, bank, g, p, suite, transferable, t, "batch")?;
    }
    // one of them again, alone
    if count > 0 && !dear {
        let k = c.below(count);
        let p = want[k].clone();
        let one = c.call("Salter.signer", || s.signer(ca, ta, Some(&p), at, temp).ok())?;
        match one {
            Some(o) => judge(c, w, bank, &o, &p, suite, transferable, t, "batch member alone")?,
            None => return c.fail("derivation refused", format!("path {p:?}")),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Full,
    Short(usize),
    Errno(i64),
    Nothing,
    Zeros,
    Ones,
    Late,
    /// the system call does not exist on this machine: the device has to serve
    Missing,
}
struct Script {
    acts: Vec<Act>,
    at: usize,
    rng: u64,
    delivered: Vec<u8>,
    requests: u64,
    used: Vec<Act>,
}
static mut SCRIPT: Script = Script { acts: vec![], at: 0, rng: 0, delivered: vec![], requests: 0, used: vec![] };

#[allow(static_mut_refs)]
fn scripted(buf: *mut u8, len: usize, dev: bool) -> i64 {
    let s = unsafe { &mut SCRIPT };
    s.requests += 1;
    let mut act = s.acts.get(s.at).copied().unwrap_or(Act::Full);
    s.at += 1;
    if len == 0 && !(dev && buf.is_null()) {
        // asked whether the call exists at all
        return match act {
            Act::Errno(e) => {
                s.used.push(if e == 38 || e == 1 { Act::Missing } else { act });
                -e
            }
            _ => 0,
        };
    }
    if dev && buf.is_null() {
        return match act {
            Act::Errno(e) => {
                s.used.push(act);
                -e
            }
            _ => 0,
        };
    }
    if let Act::Short(n) = act {
        if n >= len {
            act = Act::Full;
        }
    }
    s.used.push(act);
    let give = match act {
        Act::Errno(e) => return -e,
        Act::Nothing => 0,
        Act::Short(n) => n,
        _ => len,
    };
    if act == Act::Late {
        seam::set_clock(Some((1_800_000_000 + s.at as i64, 5)));
    }
    for i in 0..give {
        s.rng = s.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let b = match act {
            Act::Zeros => 0,
            Act::Ones => 0xff,
            _ => crate::tape::mix(s.rng) as u8,
        };
        unsafe { *buf.add(i) = b };
        s.delivered.push(b);
    }
    give as i64
}

const EINTR: i64 = 4;

fn script(c: &mut Ctx, first: bool) -> Vec<Act> {
    let style = c.draw(8);
    let mut v = vec![];
    let n = match style {
        0 => 0,
        1 => 1,
        _ => 1 + c.below(10),
    };
    if first && c.chance(1, 6) {
        // the system call is missing: the device has to serve
        v.push(Act::Errno([38, 1][c.below(2)]));
    }
    for _ in 0..n {
        v.push(match style {
            2 | 3 => [Act::Errno(EINTR), Act::Short(1 + c.below(20)), Act::Late, Act::Full][c.below(4)],
            4 => Act::Errno(EINTR),
            5 => Act::Short(1 + c.below(5)),
            6 => [Act::Zeros, Act::Ones, Act::Short(1 + c.below(31)), Act::Full][c.below(4)],
            _ => match c.draw(7) {
                0 => Act::Errno([5, 38, 1, 11, 14, 22, 4, 24, 2][c.below(9)]),
                1 => Act::Nothing,
                2 => Act::Errno(EINTR),
                3 => Act::Short(1 + c.below(31)),
                4 => Act::Errno(5),
                _ => Act::Full,
            },
        });
    }
    v
}

fn window(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

#[allow(static_mut_refs)]
pub fn entropy(c: &mut Ctx) -> R<()> {
    let s = unsafe { &mut SCRIPT };
    *s = Script { acts: vec![], at: 0, rng: c.draw(u64::MAX), delivered: vec![], requests: 0, used: vec![] };
    seam::set_entropy(Some(scripted));
    let mut secrets: Vec<Vec<u8>> = vec![];
    let mut kept: Option<Signer> = None;
    let ops = 2 + c.below(9);
    let mut unhealed = false;
    for k in 0..ops {
        c.span(|c| -> R<()> {
            // a last generation with every fault healed, always
            let heal = k + 1 == ops;
            let acts = if heal { vec![] } else { script(c, k == 0) };
            let s = unsafe { &mut SCRIPT };
            s.acts = acts;
            s.at = 0;
            s.used.clear();
            s.delivered.clear();
            if c.chance(1, 6) {
                // something else which takes entropy comes in between
                let other = c.draw(3);
                let k = kept.clone();
                let _ = c.attempt("other work", || match (other, &k) {
                    (0, Some(k)) => drop(k.sign_unindexed(b"abc")),
                    (1, Some(k)) => drop(k.sign_indexed(b"abc", false, 0, None)),
                    _ => drop(cesride::Diger::new_with_ser(b"abc", None)),
                });
                let s = unsafe { &mut SCRIPT };
                s.delivered.clear();
                s.used.clear();
            }
            let which = c.below(4);
            let wide = c.chance(1, 2);
            let t = [None, Some(true), Some(false)][c.below(3)];
            let tier = [None, Some("low"), Some("min"), Some("high")][c.below(4)];
            let got: Result<Option<(Vec<u8>, Vec<u8>)>, _> = if which == 0 {
                let r = c.attempt("Salter fresh", || if wide { Salter::new(tier, None, None, None, None, None).ok() } else { Salter::new_with_defaults(tier).ok() });
                r.map(|o| o.map(|s| (s.raw(), vec![])))
            } else {
                let (_, code) = SUITES[which - 1];
                let ca = if code == "A" && c.chance(1, 2) { None } else { Some(code) };
                let r = c.attempt("Signer fresh", || if wide { Signer::new(t, ca, None, None, None, None).ok() } else { Signer::new_with_defaults(t, ca).ok() });
                r.map(|o| {
                    o.map(|s| {
                        let v = (s.raw(), s.verfer().raw());
                        kept = Some(s);
                        v
                    })
                })
            };
            let s = unsafe { &mut SCRIPT };
            let mut fatal = false;
            for a in s.used.iter() {
                c.fault(match a {
                    Act::Errno(EINTR) => Fault::EntropyInterrupted,
                    Act::Missing => Fault::EntropyUnavailable,
                    Act::Errno(_) | Act::Nothing => Fault::EntropyFailed,
                    Act::Short(_) => Fault::EntropyShort,
                    Act::Late => Fault::EntropyDelayed,
                    Act::Zeros | Act::Ones => Fault::EntropyUnseeded,
                    Act::Full => continue,
                });
                fatal |= match a {
                    Act::Errno(EINTR) => false,
                    Act::Errno(_) | Act::Nothing => true,
                    _ => false,
                };
            }
            let what = ["salt", "Ed25519 key", "secp256k1 key", "secp256r1 key"][which];
            let shown = format!("{what} number {k}, the entropy source did {:?} and delivered {}", s.used, kinds::hex(&s.delivered));
            c.note(|| shown.clone());
            c.mark_bytes(shown.as_bytes());
            c.state(crate::tape::hash_bytes(format!("{which} {:?}", s.used).as_bytes()));
            match got {
                Ok(Some((raw, public))) => {
                    let want = if which == 0 { 16 } else { 32 };
                    c.ensure(raw.len() == want, "secret of another length", || format!("{}: {}", shown, kinds::hex(&raw)))?;
                    c.ensure(window(&s.delivered, &raw).is_some(), "secret not drawn whole from the entropy source", || format!("{shown}, but the secret is {}", kinds::hex(&raw)))?;
                    if which > 0 {
                        let (suite, _) = SUITES[which - 1];
                        c.ensure(suite.public(&raw) == public, "published key is not the key's", || shown.clone())?;
                    }
                    let plain = s.used.iter().any(|a| matches!(a, Act::Zeros | Act::Ones));
                    c.ensure(plain || !secrets.contains(&raw), "two secrets are the same", || shown.clone())?;
                    secrets.push(raw);
                    if unhealed {
                        c.probe("secret after a failed attempt");
                        unhealed = false;
                    }
                    c.probe(if s.used.iter().all(|a| *a == Act::Full) { "secret, entropy in order" } else { "secret despite faults" });
                }
                Ok(None) | Err(_) => {
                    c.probe("no secret made");
                    unhealed = true;
                    c.ensure(fatal, "generation failed though the entropy source recovered", || {
                        format!("{shown}, and the call {}", match &got {
                            Err((l, m)) => format!("panicked at {l}: {m}"),
                            _ => "returned an error".into(),
                        })
                    })?;
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

/// Calendar of a day since 1970-01-01 (proleptic Gregorian), counted off year by year.
fn civil(mut days: i64) -> (i64, u32, u32) {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    // whole 400-year cycles first
    y += days.div_euclid(146_097) * 400;
    days = days.rem_euclid(146_097);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if days < n {
            break;
        }
        days -= n;
        y += 1;
    }
    let len = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while days >= len[m] {
        days -= len[m];
        m += 1;
    }
    (y, m as u32 + 1, days as u32 + 1)
}
fn text_of(s: i64, ns: i64) -> String {
    let (y, m, d) = civil(s.div_euclid(86_400));
    let t = s.rem_euclid(86_400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}.{:06}+00:00", t / 3600, t / 60 % 60, t % 60, ns / 1000)
}
/// Seconds since 1970 of the first instant of a year and month.
fn start_of(y: i64, m: i64) -> i64 {
    let mut days = 0;
    for k in 1970..y {
        days += if (k % 4 == 0 && k % 100 != 0) || k % 400 == 0 { 366 } else { 365 };
    }
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    days += len[..(m - 1) as usize].iter().sum::<i64>();
    days * 86_400
}
const LAST: i64 = 253_402_300_799;

fn instant(c: &mut Ctx) -> (i64, i64) {
    let near = |c: &mut Ctx, t: i64| t + [-1, 0, 1, -2, 59, 3599, 86_399, -86_400][c.below(8)];
    let s = match c.draw(8) {
        0 => c.draw(5) as i64,
        1 => {
            let y = [1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2038, 2039, 2099, 2100, 2101, 2400, 4000, 9999][c.below(17)];
            let m = [1, 2, 3, 12][c.below(4)];
            let t = start_of(y, m);
            near(c, t)
        }
        2 => {
            // the end of February
            let y = 1970 + c.draw(8000) as i64;
            let t = start_of(y, 3);
            near(c, t)
        }
        3 => LAST - c.draw(3) as i64 * 40_000,
        4 => {
            let p = [i32::MAX as i64, u32::MAX as i64, 1_000_000_000, 999_999_999, 1 << 33][c.below(5)];
            near(c, p)
        }
        5 => c.draw(LAST as u64) as i64,
        _ => 1_600_000_000 + c.draw(600_000_000) as i64,
    };
    let n = match c.draw(5) {
        0 => [0, 1, 999, 1000, 1001, 500, 499_999_999, 500_000_000][c.below(8)],
        1 => [999_999_999, 999_999_000, 999_998_999, 999_999_500, 999_999_499, 100_000_000, 99_999_999, 10_000][c.below(8)],
        2 => c.draw(1_000_000) as i64 * 1000 + [0, 1, 499, 500, 501, 999][c.below(6)],
        _ => c.draw(1_000_000_000) as i64,
    };
    (s.clamp(0, LAST), n)
}

/// An ISO-8601 text of the supported width.
fn iso(c: &mut Ctx) -> String {
    let (y, m) = (1970 + c.draw(8030) as i64, 1 + c.draw(12) as i64);
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
    let d = if c.chance(1, 3) { len } else { 1 + c.draw(len as u64) };
    let y = if c.chance(1, 20) { [0, 1, 999][c.below(3)] } else { y };
    let t = ["T", "T", "T", "T", "t", "-"][c.below(6)];
    let head = format!("{y:04}-{m:02}-{d:02}{t}{:02}:{:02}:{:02}", c.draw(24), c.draw(60), [c.draw(60), 59, 60, 0][c.below(4)]);
    let us = [0, 1, 10, 999_999, 100_000, 123_456, c.draw(1_000_000)][c.below(7)];
    let sign = ["+", "-"][c.below(2)];
    let (oh, om) = ([0, 1, 8, 14, 23, c.draw(24)][c.below(6)], [0, 30, 45, 59][c.below(4)]);
    match c.draw(8) {
        0 => format!("{head}.{us:06}{:05}{}", c.draw(100_000), ["Z", "z"][c.below(2)]),
        1 => format!("{head}.{us:06}{}{sign}{oh:02}{om:02}", c.draw(10)),
        2 => format!("{head}.{us:06}{:03}{sign}{oh:02}", c.draw(1000)),
        _ => format!("{head}.{us:06}{sign}{oh:02}:{om:02}"),
    }
}

fn sextets(dts: &str) -> String {
    dts.chars()
        .map(|c| match c {
            ':' => 'c',
            '.' => 'd',
            '+' => 'p',
            c => c,
        })
        .collect()
}

fn read_dater(c: &mut Ctx, f: u64, b: &[u8]) -> R<Option<Dater>> {
    let wide = c.draw(3);
    c.call("Dater from wire", || {
        let code = if wide == 2 { Some("1AAG") } else { None };
        match (f, wide > 0) {
            (0, false) => Dater::new_with_qb64(std::str::from_utf8(b).ok()?),
            (0, true) => Dater::new(None, code, None, None, Some(std::str::from_utf8(b).ok()?), None),
            (1, false) => Dater::new_with_qb64b(b),
            (1, true) => Dater::new(None, code, None, Some(b), None, None),
            (_, false) => Dater::new_with_qb2(b),
            (_, true) => Dater::new(None, code, None, None, None, Some(b)),
        }
        .ok()
    })
}
fn judge_dater(c: &mut Ctx, d: &Dater, want: &str, how: &str) -> R<()> {
    let text = format!("1AAG{}", sextets(want));
    let got = c.call("Dater accessors", || (d.dts().ok(), d.dtsb().ok(), d.qb64().ok(), d.qb64b().ok(), d.qb2().ok(), d.raw(), d.code()))?;
    c.ensure(got.0.as_deref() == Some(want) && got.1.as_deref() == Some(want.as_bytes()), "timestamp read back differently", || format!("{how}: {want} became {:?}", got.0))?;
    let bin = refc::binary(&text);
    c.ensure(
        got.2.as_deref() == Some(text.as_str()) && got.3.as_deref() == Some(text.as_bytes()) && got.4.as_deref() == Some(&bin[..]) && got.5 == bin[3..] && got.6 == "1AAG",
        "timestamp encoded differently",
        || format!("{how}: {want} became {:?}", got.2),
    )
}
fn relay(c: &mut Ctx, d: Dater, want: &str) -> R<()> {
    let mut d = d;
    judge_dater(c, &d, want, "made")?;
    let net = NetCfg::draw(c, false);
    for hop in 0..c.below(4) {
        let f = c.draw(4);
        if f == 3 {
            // rebuilt from the text or the raw material
            let (dts, raw) = c.call("Dater parts", || (d.dts().unwrap_or_default(), d.raw()))?;
            let by = c.draw(4);
            let got = c.call("Dater rebuilt", || {
                match by {
                    0 => Dater::new_with_dts(&dts, None),
                    1 => Dater::new_with_raw(&raw, None),
                    2 => Dater::new(None, Some("1AAG"), Some(&raw), None, None, None),
                    _ => Dater::new(Some(&dts), Some("1AAG"), None, None, None, None),
                }
                .ok()
            })?;
            match got {
                Some(g) => d = g,
                None => return c.fail("timestamp refused", format!("{dts} at hop {hop}")),
            }
        } else {
            let b = c.call("Dater to wire", || match f {
                0 => d.qb64().unwrap_or_default().into_bytes(),
                1 => d.qb64b().unwrap_or_default(),
                _ => d.qb2().unwrap_or_default(),
            })?;
            if c.chance(1, 3) {
                c.fault(Fault::NodeCrash);
                c.fault(Fault::NodeRestart);
            }
            let Some((_, mut b)) = net.transmit(c, &b).pop() else { continue };
            if c.chance(1, 3) {
                c.fault(Fault::NetTrailing);
                let t = c.bytes(8);
                if f == 2 {
                    b.extend(t);
                } else {
                    b.extend(b"-AAB");
                }
            }
            match read_dater(c, f, &b)? {
                Some(g) => d = g,
                None => return c.fail("timestamp refused", format!("{want} at hop {hop}")),
            }
        }
        // the time it is now is none of its business
        let (s, n) = instant(c);
        seam::set_clock(Some((s, n)));
        judge_dater(c, &d, want, "relayed")?;
    }
    Ok(())
}

pub fn time(c: &mut Ctx) -> R<()> {
    let mut at = instant(c);
    for _ in 0..1 + c.below(8) {
        c.span(|c| -> R<()> {
            match c.draw(4) {
                0 | 1 => {
                    // a timestamp of now
                    at = match c.draw(5) {
                        0 => {
                            c.fault(Fault::ClockJump);
                            instant(c)
                        }
                        1 => {
                            // backwards
                            c.fault(Fault::ClockSkew);
                            ((at.0 - c.draw(200_000) as i64).max(0), at.1)
                        }
                        2 => {
                            c.fault(Fault::ClockStall);
                            at
                        }
                        _ => {
                            let n = at.1 + c.draw(2_000_000_000) as i64;
                            ((at.0 + n / 1_000_000_000).min(LAST), n % 1_000_000_000)
                        }
                    };
                    seam::set_clock(Some(at));
                    c.now += 1_000_000_000 + c.draw(3_600_000_000_000);
                    if at.0 > 10 && at.0 < LAST - 10 && c.chance(1, 2) {
                        c.fault(Fault::ClockSkew);
                        let d = [1, 999, 1000, 1_000_000, 1_000_000_000, -1, -1000, -1_000_000_000][c.below(8)];
                        seam::clock_step(d);
                    }
                    let wide = c.draw(3);
                    let got = c.call("Dater now", || match wide {
                        0 => Dater::new(None, None, None, None, None, None).ok(),
                        1 => Dater::new(None, Some("1AAG"), None, None, None, None).ok(),
                        _ => Dater::new(None, None, None, None, None, None).ok().map(|d| d.clone()),
                    })?;
                    let seen = seam::clock_seen();
                    seam::clock_step(0);
                    let Some(d) = got else { return c.fail("no timestamp of now", format!("clock {at:?}")) };
                    let dts = c.call("Dater.dts", || d.dts().unwrap_or_default())?;
                    c.ensure(!seen.is_empty(), "timestamp of now without reading the clock", || format!("{dts}, clock {at:?}"))?;
                    let want: Vec<String> = seen.iter().map(|s| text_of(s.0, s.1)).collect();
                    c.mark_bytes(dts.as_bytes());
                    c.state(crate::tape::hash_bytes(dts[..10.min(dts.len())].as_bytes()));
                    c.ensure(want.contains(&dts), "timestamp is not the clock's", || format!("{dts}, but the clock said {seen:?}, which is {want:?}"))?;
                    relay(c, d, &dts)
                }
                2 => {
                    let t = iso(c);
                    c.mark_bytes(t.as_bytes());
                    let wide = c.draw(3);
                    let got = c.call("Dater given", || match wide {
                        0 => Dater::new_with_dts(&t, None).ok(),
                        1 => Dater::new_with_dts(&t, Some("1AAG")).ok(),
                        _ => Dater::new(Some(&t), None, None, None, None, None).ok(),
                    })?;
                    match got {
                        Some(d) => relay(c, d, &t),
                        None => c.fail("timestamp refused", t),
                    }
                }
                _ => {
                    // what cannot be represented
                    let mut t = iso(c);
                    match c.draw(8) {
                        0 => t.truncate(c.below(32)),
                        1 => t.push(['0', ' ', ':', 'Z', 'A'][c.below(5)]),
                        2 => {
                            for _ in 0..[4, 8, 12, 96][c.below(4)] {
                                t.push('0');
                            }
                        }
                        3 => t = t.replacen('T', " ", 1).replacen('t', " ", 1),
                        4 => {
                            let k = c.below(32);
                            let x = ["/", "=", "\u{e9}", " ", "\n", ",", "\0", "\u{2212}", "*", "~", "!"][c.below(11)];
                            t.replace_range(k..k + 1, x);
                        }
                        5 => {
                            // the right number of bytes, fewer characters
                            t.replace_range(30..32, "\u{e9}");
                        }
                        6 => t = t[..19].to_string() + &t[26..],
                        _ => t.replace_range(29..32, "\u{20ac}"),
                    }
                    let ok = t.len() == 32 && t.bytes().all(|b| b.is_ascii_alphanumeric() || b":.+-_".contains(&b));
                    c.mark_bytes(t.as_bytes());
                    let wide = c.chance(1, 2);
                    let got = c.call("Dater given", || if wide { Dater::new_with_dts(&t, None) } else { Dater::new(Some(&t), None, None, None, None, None) }.ok())?;
                    match (got, ok) {
                        (Some(d), true) => judge_dater(c, &d, &t, "odd but representable"),
                        (Some(d), false) => {
                            let back = c.call("Dater.dts", || d.dts().unwrap_or_default())?;
                            c.fail("a timestamp which cannot be represented was accepted", format!("{t:?} became {back:?}"))
                        }
                        (None, _) => c.ensure(true, "", String::new),
                    }
                }
            }
        })?;
    }
    Ok(())
}
