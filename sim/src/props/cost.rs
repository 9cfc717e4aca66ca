//! C15: what every reader spends — executed basic blocks, bytes allocated in all and at once — against the bytes
//! it was given, while sizes, counts and lengths lie, connections deliver a little at a time, and memory runs short.
use crate::gen;
use crate::kinds;
use crate::props::hostile;
use crate::refc;
use crate::refj::{self, s, J};
use crate::stream::Types;
use crate::world::*;
use cesride::data::Value;
use cesride::*;
use std::sync::atomic::Ordering::Relaxed;

/// At most `fixed + each * bytes` of each; about four times the most that the readers are seen to spend.
struct Bound {
    name: &'static str,
    steps: (u64, u64),
    total: (u64, u64),
    peak: (u64, u64),
}
const ITEM: Bound = Bound { name: "item", steps: (4_000, 120), total: (10_000, 150), peak: (4_000, 60) };
/// A path is returned as one value for each of its parts, and a part may be as short as its dash.
const PATH: Bound = Bound { name: "path", steps: (8_000, 1_500), total: (12_000, 1_200), peak: (8_000, 800) };
const MESSAGE: Bound = Bound { name: "message", steps: (4_000, 80), total: (12_000, 500), peak: (6_000, 400) };
const ACCESS: Bound = Bound { name: "accessors", steps: (8_000, 1_500), total: (40_000, 5_000), peak: (8_000, 350) };
const TEXT: Bound = Bound { name: "text", steps: (4_000, 60), total: (80_000, 200), peak: (36_000, 60) };
const RULE: Bound = Bound { name: "rule", steps: (8_000, 600), total: (40_000, 4_000), peak: (8_000, 2_000) };
const JUDGE: Bound = Bound { name: "verify", steps: (8_000, 400), total: (40_000, 2_000), peak: (8_000, 700) };

static mut WORST: [[f64; 3]; 7] = [[0.0; 3]; 7];
fn record(b: &Bound, name: &str, len: usize, got: [u64; 3]) {
    let k = ["item", "message", "accessors", "text", "rule", "verify", "path"].iter().position(|n| *n == b.name).unwrap();
    for (i, (f, e)) in [b.steps, b.total, b.peak].into_iter().enumerate() {
        let r = got[i] as f64 / (f + e * len as u64) as f64;
        unsafe {
            if r > WORST[k][i] * 1.02 {
                WORST[k][i] = r;
                eprintln!("COST {} {} {r:.3} of the bound: {} for {len} bytes in {name}", b.name, ["steps", "total", "peak"][i], got[i]);
            }
        }
    }
}

/// One call, judged by what it spent. Its outcome is other properties' matter.
fn spend<T>(c: &mut Ctx, b: &Bound, len: usize, name: &'static str, f: impl Fn() -> T) -> R<Option<T>> {
    let measure = |c: &mut Ctx| {
        seam::mem_reset();
        let before = seam::steps();
        let r = c.attempt(name, &f);
        (r, seam::steps() - before, seam::MEM_TOTAL.load(Relaxed), seam::MEM_PEAK.load(Relaxed).max(0) as u64)
    };
    let lim = |x: (u64, u64)| x.0 + x.1 * len as u64;
    let (mut r, mut steps, mut total, mut peak) = measure(c);
    if steps > lim(b.steps) || total > lim(b.total) || peak > lim(b.peak) {
        // what is made once and kept (compiled expressions) is nobody's message's fault
        (r, steps, total, peak) = measure(c);
        c.probe("measured again");
    }
    if std::env::var_os("SIM_COST").is_some() {
        record(b, name, len, [steps, total, peak]);
    }
    let strict = std::env::var_os("SIM_COST").is_none();
    c.ensure(!strict || steps <= lim(b.steps), "work out of proportion", || format!("{name}: {steps} basic blocks for {len} bytes, allowed {}", lim(b.steps)))?;
    c.ensure(!strict || peak <= lim(b.peak), "memory out of proportion", || format!("{name}: {peak} bytes at once for {len} bytes, allowed {}", lim(b.peak)))?;
    c.ensure(!strict || total <= lim(b.total), "allocation out of proportion", || format!("{name}: {total} bytes allocated in all for {len} bytes, allowed {}", lim(b.total)))?;
    if strict && r.is_ok() && c.chance(1, 8) {
        // the same with no more memory than that: a refusal would end the process
        c.fault(Fault::MemoryPressure);
        seam::mem_reset();
        seam::mem_budget(lim(b.peak) as i64);
        let again = c.attempt(name, &f);
        seam::mem_budget(i64::MAX);
        c.ensure(again.is_ok(), "a reader failed under memory pressure", || name.to_string())?;
    }
    match r {
        Ok(v) => Ok(Some(v)),
        Err(_) => {
            c.probe("a reader panicked (C01's matter)");
            Ok(None)
        }
    }
}

// ------------------------------------------------------------------ what is sent

/// A code that claims much, and little behind it.
fn liar(c: &mut Ctx) -> Vec<u8> {
    let tail = match c.draw(6) {
        0 => 0,
        1 => c.below(8),
        2 => 20 + c.below(60),
        3 => c.below(400),
        _ => c.below(40),
    };
    let mut text: String = match c.draw(4) {
        0 => {
            // variable length: up to 64^4 quadlets claimed
            let z: Vec<_> = refc::MATTER.iter().filter(|z| z.fs == 0).collect();
            let z = *c.pick(&z);
            let max = 64u128.pow(z.ss as u32) - 1;
            let n = match c.draw(4) {
                0 => max,
                1 => max / 2,
                2 => (tail as u128 / 4 + 1).min(max),
                _ => c.number(max),
            };
            format!("{}{}", z.code, refc::num_text(n, z.ss).unwrap())
        }
        1 => {
            let z = c.pick(refc::COUNTER);
            let max = 64u128.pow(z.ss as u32) - 1;
            let n = if c.chance(1, 2) { max } else { c.number(max) };
            format!("{}{}", z.code, refc::num_text(n, z.ss).unwrap())
        }
        2 => {
            let z = c.pick(refc::INDEXER);
            let w = z.ss;
            let t: String = (0..w).map(|_| ['_', '9', 'A', 'z'][c.below(4)]).collect();
            format!("{}{t}", z.code)
        }
        _ => refc::MATTER[c.below(refc::MATTER.len())].code.to_string(),
    };
    text.push_str(&gen::b64_string(c, tail));
    c.fault(Fault::LyingHeader);
    if c.chance(1, 3) {
        while text.len() % 4 != 0 {
            text.push('A');
        }
        refc::binary(&text)
    } else {
        text.into_bytes()
    }
}
fn big(c: &mut Ctx) -> usize {
    match c.draw(8) {
        0 => c.below(40_000),
        1 | 2 => c.below(4_000),
        _ => c.below(300),
    }
}
/// An honest item of some weight.
fn heavy(c: &mut Ctx) -> Vec<u8> {
    let n = big(c);
    let raw = match c.draw(4) {
        // dashes, and dashes between: the shortest parts of paths
        0 => [0xfb, 0xef, 0xbe].repeat(n / 3 + 1),
        1 => [0xf9, 0xaf, 0x9a].repeat(n / 3 + 1),
        _ => c.random(n),
    };
    let (code, _) = refc::variable_code(if c.chance(1, 2) { 'B' } else { 'A' }, raw.len());
    let t = refc::matter_text(&code, &raw).unwrap_or_default();
    if c.chance(1, 3) {
        refc::binary(&t)
    } else {
        t.into_bytes()
    }
}
fn grow(c: &mut Ctx, j: &mut J) {
    let n = big(c);
    let v = match c.draw(6) {
        0 => s("x".repeat(n)),
        1 => J::Arr((0..n / 4).map(|i| s(format!("{i}"))).collect()),
        2 => J::Arr((0..n / 8).map(|i| J::Arr(vec![s(format!("1/{i}"))])).collect()),
        3 => {
            let mut v = s("deep");
            for k in 0..c.below(110) {
                v = if k % 2 == 0 { J::Arr(vec![v]) } else { J::Obj(vec![("k".into(), v)]) };
            }
            v
        }
        4 => J::Obj((0..n / 10).map(|i| (format!("k{i}"), s(""))).collect()),
        _ => s("\u{1}\"\\\u{20ac}".repeat(n / 6)),
    };
    let k = c.pick(hostile::FIELDS).to_string();
    if k != "v" {
        j.set(&k, v);
    }
}
fn message(c: &mut Ctx) -> Vec<u8> {
    let mut j = hostile::hostile_message(c);
    if c.chance(1, 2) {
        grow(c, &mut j);
    }
    let ident = if c.chance(1, 2) { "KERI" } else { "ACDC" };
    j.set("v", s(refj::version_string(ident, 0)));
    let n = j.text().len();
    let z = match c.draw(6) {
        0 => 0xff_ffff,
        1 => c.number(0xff_ffff) as usize,
        2 => n * 16,
        3 => n.saturating_sub(c.below(30)),
        _ => n,
    };
    if z != n {
        c.fault(Fault::LyingHeader);
    }
    j.set("v", s(refj::version_string(ident, z & 0xff_ffff)));
    let mut b = j.text().into_bytes();
    if c.chance(1, 4) {
        // more of the stream is already here
        let k = big(c);
        b.extend(c.random(k.min(2_000)));
        c.fault(Fault::NetTrailing);
    }
    b
}

// ------------------------------------------------------------------ who reads it

fn read_item(c: &mut Ctx, t: &Types, b: &[u8]) -> R<()> {
    let r = c.below(2);
    let text = std::str::from_utf8(b).ok();
    let dom = if text.is_some() { c.draw(3) } else { 2 + c.draw(1) };
    match c.draw(5) {
        0..=2 => {
            let k = &t.ks[c.below(t.ks.len())];
            let bound = if k.name == "Pather" { &PATH } else { &ITEM };
            spend(c, bound, b.len(), k.name, || {
                match dom {
                    0 => (k.qb64)(r, text.unwrap_or("")),
                    1 => (k.qb64b)(r, b),
                    _ => (k.qb2)(r, b),
                };
            })?;
        }
        3 => {
            let k = &t.iks[c.below(t.iks.len())];
            spend(c, &ITEM, b.len(), k.name, || {
                match dom {
                    0 => (k.qb64)(r, text.unwrap_or("")),
                    1 => (k.qb64b)(r, b),
                    _ => (k.qb2)(r, b),
                };
            })?;
        }
        _ => {
            spend(c, &ITEM, b.len(), "Counter", || {
                match dom {
                    0 => kinds::counter_qb64(r, text.unwrap_or("")),
                    1 => kinds::counter_qb64b(r, b),
                    _ => kinds::counter_qb2(r, b),
                };
            })?;
        }
    }
    Ok(())
}
/// Nested data is written anew for every level (at most 128) around it: what is deep may cost more.
fn weight(b: &[u8]) -> usize {
    let (mut d, mut max) = (0usize, 0);
    for x in b {
        match x {
            b'[' | b'{' => d += 1,
            b']' | b'}' => d = d.saturating_sub(1),
            _ => {}
        }
        max = max.max(d);
    }
    b.len() * (1 + max / 4)
}
fn read_message(c: &mut Ctx, b: &[u8]) -> R<()> {
    let w = weight(b);
    match c.draw(4) {
        0 => {
            spend(c, &MESSAGE, w, "sniff", || common::sniff(b).is_ok())?;
        }
        1 => {
            if let Some(Some(m)) = spend(c, &MESSAGE, w, "Serder::new_with_raw", || Serder::new_with_raw(b).ok())? {
                spend(c, &ACCESS, w, "Serder accessors", || {
                    kinds::inspect_serder(&m);
                })?;
            }
        }
        2 => {
            if let Some(Some(m)) = spend(c, &MESSAGE, w, "Creder::new_with_raw", || Creder::new_with_raw(b).ok())? {
                spend(c, &ACCESS, w, "Creder accessors", || {
                    kinds::inspect_creder(&m);
                })?;
            }
        }
        _ => {
            spend(c, &MESSAGE, w, "Serder::new", || Serder::new(None, Some(b), None, None, None).is_ok())?;
        }
    }
    Ok(())
}
/// What was read is checked: identifiers, prefixes, sizes.
fn check_data(c: &mut Ctx, j: &J) -> R<()> {
    let text = j.text();
    let v = j.value();
    let n = weight(text.as_bytes());
    let code = *c.pick(refj::DIGESTS);
    match c.draw(5) {
        0 => {
            if let Ok(m) = Saider::new_with_qb64(&refj::digest_text(code, b"x")) {
                spend(c, &JUDGE, n, "Saider.verify", || m.verify(&v, Some(true), Some(true), None, None, None).ok())?;
            }
        }
        1 => {
            spend(c, &JUDGE, n, "Saider::saidify", || Saider::saidify(&v, Some(code), None, None, None).is_ok())?;
        }
        2 => {
            if let Ok(m) = Prefixer::new_with_qb64(&refj::digest_text("E", b"x")) {
                spend(c, &JUDGE, n, "Prefixer.verify", || m.verify(&v, Some(true)).ok())?;
            }
        }
        3 => {
            spend(c, &JUDGE, n, "sizeify", || common::sizeify(&v, None).is_ok())?;
        }
        _ => {
            spend(c, &JUDGE, n, "Prefixer::new_with_ked", || Prefixer::new_with_ked(&v, None, Some("E")).is_ok())?;
        }
    }
    Ok(())
}
fn read_text(c: &mut Ctx) -> R<()> {
    let n = big(c);
    let x = match c.draw(6) {
        0 => "f".repeat(n),
        1 => format!("{}1", "0".repeat(n)),
        2 => gen::b64_string(c, n),
        3 => "-0".repeat(n / 2),
        4 => (0..n / 8).map(|_| *c.pick(&["1/2,", "1/2&", "1/2147483647,", "4294967295&", "2147483647/2147483647,"])).collect(),
        _ => hostile::nasty(c),
    };
    let z = x.len();
    match c.draw(10) {
        0 => spend(c, &TEXT, z, "Number::new_with_numh", || Number::new_with_numh(&x).map(|m| (m.num().ok(), m.numh().ok())).ok()).map(|_| ()),
        1 => spend(c, &TEXT, z, "Seqner::new_with_snh", || Seqner::new_with_snh(&x).map(|m| (m.sn().ok(), m.snh().ok())).ok()).map(|_| ()),
        2 => spend(c, &TEXT, z, "Dater::new_with_dts", || Dater::new_with_dts(&x, None).map(|m| m.dts().ok()).ok()).map(|_| ()),
        3 => spend(c, &TEXT, z, "Bexter::new_with_bext", || Bexter::new_with_bext(&x).map(|m| m.bext().ok()).ok()).map(|_| ()),
        4 => spend(c, &TEXT, z, "Pather::new_with_bext", || Pather::new_with_bext(&x).map(|m| m.bext().ok()).ok()).map(|_| ()),
        5 => spend(c, &TEXT, z, "deversify", || common::deversify(&x).is_ok()).map(|_| ()),
        6 => spend(c, &TEXT, z, "Counter::sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&x).is_ok()).map(|_| ()),
        7 => {
            let t = if c.chance(1, 2) { refc::matter_text(&refc::variable_code('A', x.len() / 4 * 3).0, &refc::to_bytes(&x.as_bytes()[..x.len() / 4 * 4]).unwrap_or_default()).unwrap_or_default() } else { x.clone() };
            spend(c, &RULE, t.len(), "Tholder::new_with_limen", || Tholder::new_with_limen(t.as_bytes()).map(|t| (t.size(), t.weighted())).ok()).map(|_| ())
        }
        8 => {
            let v = Value::from(&x[..]);
            spend(c, &RULE, z, "Tholder::new_with_sith", || Tholder::new_with_sith(&v).map(|t| (t.size(), t.weighted())).ok()).map(|_| ())
        }
        _ => spend(c, &TEXT, z, "versify", || common::versify(Some(&x), None, Some(&x), Some(5)).is_ok()).map(|_| ()),
    }
}
/// A threshold from outside, and indices from outside.
fn rule(c: &mut Ctx) -> R<()> {
    let n = match c.draw(4) {
        0 => c.below(600),
        1 => c.below(60),
        _ => c.below(6),
    };
    let j = match c.draw(5) {
        0 => s(format!("{:x}", c.number(u32::MAX as u128))),
        1 => J::Arr((0..n).map(|_| s(*c.pick(&["1/2", "1/3", "1", "0", "1/2147483647", "2147483646/2147483647", "1/65536"]))).collect()),
        2 => J::Arr((0..n / 4 + 1).map(|_| J::Arr((0..1 + c.below(4)).map(|_| s(*c.pick(&["1/2", "1", "1/4294967296", "1/7"]))).collect())).collect()),
        3 => gen::sith(c, n.min(40)),
        _ => hostile::nasty_json(c, 2),
    };
    let v = j.value();
    let z = j.text().len();
    let how = c.draw(2);
    let m = spend(c, &RULE, z, "Tholder", || if how == 0 { Tholder::new_with_sith(&v).ok() } else { Tholder::new_with_thold(&v).ok() })?.flatten();
    let Some(m) = m else { return Ok(()) };
    let idx: Vec<u32> = (0..c.below(40)).map(|k| [u32::MAX, u32::MAX - 1, 1 << 31, 1 << 24, k as u32, 0, 65_535][c.below(7)]).collect();
    c.fault(Fault::LyingHeader);
    spend(c, &RULE, z + 4 * idx.len(), "Tholder.satisfy", || m.satisfy(&idx).ok())?;
    spend(c, &RULE, z, "Tholder accessors", || {
        kinds::inspect_tholder(&m);
    })?;
    Ok(())
}
/// All items of a stream are taken from its front, one after another: the whole is paid for once, not once per item.
fn stream(c: &mut Ctx, t: &Types) -> R<()> {
    let n = if c.chance(1, 4) { 100 + c.below(300) } else { 4 + c.below(60) };
    let binary = c.chance(1, 2);
    let k = &t.ks[c.below(t.ks.len())];
    let all: Vec<&str> = refc::MATTER.iter().map(|z| z.code).collect();
    let mut b: Vec<u8> = vec![];
    let mut cuts = vec![];
    for _ in 0..n {
        let code = *c.pick(k.own.unwrap_or(&all));
        let raw = if kinds::SEED.contains(&code) { gen::seed_for(c, code) } else { gen::raw_for(c, code) };
        let Some(x) = refc::matter_text(code, &raw) else { continue };
        let x = if binary { refc::binary(&x) } else { x.into_bytes() };
        cuts.push(b.len());
        b.extend(x);
    }
    let text = String::from_utf8(b.clone()).unwrap_or_default();
    let bytes = c.chance(1, 2);
    let of = if k.name == "Pather" { &PATH } else { &ITEM };
    let n = cuts.len() as u64;
    let bound = Bound { name: of.name, steps: (of.steps.0 * n, of.steps.1), total: (of.total.0 * n, of.total.1), peak: of.peak };
    spend(c, &bound, b.len(), "a whole stream", || {
        for at in &cuts {
            let _ = match (binary, bytes) {
                (true, _) => (k.qb2)(0, &b[*at..]),
                (false, true) => (k.qb64b)(0, &b[*at..]),
                (false, false) => (k.qb64)(0, &text[*at..]),
            };
        }
    })?;
    c.probe("whole streams read");
    Ok(())
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    let t = Types::new();
    let n = 2 + c.below(8);
    for _ in 0..n {
        c.span(|c| -> R<()> {
            match c.draw(10) {
                0..=3 => {
                    let b = if c.chance(2, 3) { liar(c) } else { heavy(c) };
                    c.mark_bytes(&b);
                    c.note(|| format!("{} bytes: {}", b.len(), String::from_utf8_lossy(&b).chars().take(100).collect::<String>()));
                    deliver(c, &b, |c, p| read_item(c, &t, p))?;
                }
                4..=6 => {
                    let b = message(c);
                    c.mark_bytes(&b);
                    c.note(|| format!("{} bytes: {}", b.len(), String::from_utf8_lossy(&b).chars().take(100).collect::<String>()));
                    deliver(c, &b, read_message)?;
                }
                7 => {
                    let mut j = if c.chance(1, 2) { hostile::hostile_message(c) } else { gen::event(c, "E") };
                    if c.chance(1, 2) {
                        grow(c, &mut j);
                    }
                    c.mark_bytes(j.text().as_bytes());
                    check_data(c, &j)?;
                }
                8 => match c.draw(3) {
                    0 => stream(c, &t)?,
                    _ => rule(c)?,
                },
                _ => read_text(c)?,
            }
            Ok(())
        })?;
    }
    Ok(())
}
/// A little at a time: whatever has arrived so far is read.
fn deliver(c: &mut Ctx, b: &[u8], read: impl Fn(&mut Ctx, &[u8]) -> R<()>) -> R<()> {
    let mut at = 0;
    for _ in 0..c.below(4) {
        if at < b.len() {
            c.fault(Fault::NetFragment);
            at += 1 + c.below((b.len() - at).min(64));
            read(c, &b[..at])?;
        }
    }
    c.state(crate::tape::hash_bytes(format!("{} {:?}", b.len().ilog2_or_zero(), b.get(..2)).as_bytes()));
    read(c, b)
}
trait Log {
    fn ilog2_or_zero(self) -> u32;
}
impl Log for usize {
    fn ilog2_or_zero(self) -> u32 {
        self.checked_ilog2().unwrap_or(0)
    }
}
