//! C13: threads under a scheduler of ours, which may take the processor away at every basic block,
//! allocation, lock and system call; against the same calls made alone in a process which did nothing else.
use crate::gen;
use crate::kinds::{self, hex};
use crate::props::sign::{Suite, SUITES};
use crate::refc;
use crate::refj::{self, J};
use crate::world::*;
use cesride::common;
use cesride::data::Value;
use cesride::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

#[derive(Clone, Debug)]
enum Spec {
    Verfer { text: String, form: u64, sig: Vec<u8>, msg: Vec<u8> },
    Signer { suite: Suite, seed: Vec<u8>, transferable: bool, form: u64 },
    Salter { salt: Vec<u8>, path: String, form: u64 },
    Serder { bytes: Vec<u8> },
    SerderOf { j: J, code: String },
    Creder { bytes: Vec<u8> },
    Tholder { text: String, route: u64, sets: Vec<Vec<u32>> },
    Saider { j: J, code: String, label: String, damage: bool },
    Prefixer { j: J, code: String },
    Diger { code: String, data: Vec<u8>, other: Vec<u8> },
    Siger { suite: Suite, seed: Vec<u8>, index: u32, ondex: u32, msg: Vec<u8>, form: u64 },
    Pather { bext: String, root: String, doc: J },
    Bexter { bext: String },
    Number { n: u128 },
    Seqner { n: u128 },
    Dater { dts: String, form: u64 },
    Counter { code: String, n: u32, form: u64 },
    Value { j: J },
    Version { text: String, bytes: Vec<u8>, size: u32 },
}
#[derive(Clone, Debug)]
enum Op {
    Make(Spec),
    Shared(usize),
    Read { kind: usize, route: usize, form: u64, bytes: Vec<u8> },
    ReadI { kind: usize, route: usize, form: u64, bytes: Vec<u8> },
    ReadC { route: usize, form: u64, bytes: Vec<u8> },
    Raw { kind: usize, route: usize, code: String, raw: Vec<u8> },
    Now,
    Fresh(usize),
    /// a call which fails by panicking or with an error
    Fail(u64),
}
enum Val {
    Verfer(Verfer),
    Signer(Signer),
    Salter(Salter),
    Serder(Serder),
    Creder(Creder),
    Tholder(Tholder),
    Saider(Saider, Value),
    Prefixer(Prefixer, Value),
    Diger(Diger),
    Siger(Siger),
    Pather(Pather, Pather, Value),
    Bexter(Bexter),
    Number(Number),
    Seqner(Seqner),
    Dater(Dater),
    Counter(Counter),
    Value(Value),
    Version,
}
/// Values shared between threads: read only, whatever they do inside.
struct Bundle(Vec<Option<Val>>);
unsafe impl Sync for Bundle {}
unsafe impl Send for Bundle {}

struct World {
    kinds: Vec<kinds::Kind>,
    ikinds: Vec<kinds::IKind>,
    specs: Vec<Spec>,
    shared: Bundle,
    plans: Vec<Vec<Op>>,
}
unsafe impl Sync for World {}

macro_rules! by_form {
    ($t:ident, $form:expr, $text:expr $(, $more:expr)*) => {{
        let b = if $form == 2 { refc::binary($text) } else { $text.as_bytes().to_vec() };
        match $form {
            0 => $t::new_with_qb64($text $(, $more)*),
            1 => $t::new_with_qb64b(&b $(, $more)*),
            _ => $t::new_with_qb2(&b $(, $more)*),
        }
    }};
}

fn make(s: &Spec) -> Option<Val> {
    Some(match s {
        Spec::Verfer { text, form, .. } => Val::Verfer(by_form!(Verfer, *form, text).ok()?),
        Spec::Signer { suite, seed, transferable, form } => {
            let t = refc::matter_text(suite.seed_code(), seed)?;
            Val::Signer(if *form == 3 { Signer::new_with_raw(seed, Some(*transferable), Some(suite.seed_code())) } else { by_form!(Signer, *form, &t, Some(*transferable)) }.ok()?)
        }
        Spec::Salter { salt, form, .. } => {
            let t = refc::matter_text("0A", salt)?;
            Val::Salter(if *form == 3 { Salter::new_with_raw(salt, None, None) } else { by_form!(Salter, *form, &t, None) }.ok()?)
        }
        Spec::Serder { bytes } => Val::Serder(Serder::new_with_raw(bytes).ok()?),
        Spec::SerderOf { j, code } => Val::Serder(Serder::new_with_ked(&j.value(), Some(code), None).ok()?),
        Spec::Creder { bytes } => Val::Creder(Creder::new_with_raw(bytes).ok()?),
        Spec::Tholder { text, route, .. } => {
            let j = refj::parse(text)?;
            Val::Tholder(if *route == 0 { Tholder::new_with_sith(&j.value()) } else { Tholder::new_with_thold(&j.value()) }.ok()?)
        }
        Spec::Saider { j, code, label, damage } => {
            let (s, mut v) = Saider::saidify(&j.value(), Some(code), None, Some(label), None).ok()?;
            if *damage {
                v["extra"] = Value::from("x");
            }
            Val::Saider(s, v)
        }
        Spec::Prefixer { j, code } => {
            let v = j.value();
            Val::Prefixer(Prefixer::new_with_ked(&v, None, Some(code)).ok()?, v)
        }
        Spec::Diger { code, data, .. } => Val::Diger(Diger::new_with_ser(data, Some(code)).ok()?),
        Spec::Siger { suite, seed, index, ondex, msg, form } => {
            let sig = suite.sign(seed, msg);
            let code = suite.indexed_code(false, *index, Some(*ondex));
            let t = refc::indexer_text(code, *index, *ondex, &sig)?;
            Val::Siger(if *form == 3 { Siger::new_with_raw(&sig, None, Some(*index), Some(*ondex), Some(code)) } else { by_form!(Siger, *form, &t, None) }.ok()?)
        }
        Spec::Pather { bext, root, doc } => Val::Pather(Pather::new_with_bext(bext).ok()?, Pather::new_with_bext(root).ok()?, doc.value()),
        Spec::Bexter { bext } => Val::Bexter(Bexter::new_with_bext(bext).ok()?),
        Spec::Number { n } => Val::Number(Number::new_with_num(*n).ok()?),
        Spec::Seqner { n } => Val::Seqner(Seqner::new_with_sn(*n).ok()?),
        Spec::Dater { dts, form } => Val::Dater(if *form == 3 {
            Dater::new_with_dts(dts, None).ok()?
        } else {
            let t = format!("1AAG{}", dts.replace(':', "c").replace('.', "d").replace('+', "p"));
            by_form!(Dater, *form, &t).ok()?
        }),
        Spec::Counter { code, n, form } => Val::Counter(if *form == 3 {
            Counter::new_with_code_and_count(code, *n).ok()?
        } else {
            let t = refc::counter_text(code, *n as u64)?;
            by_form!(Counter, *form, &t).ok()?
        }),
        Spec::Value { j } => Val::Value(j.value()),
        Spec::Version { .. } => Val::Version,
    })
}
fn show(p: &kinds::Probe) -> String {
    format!("{p:?}")
}
fn employ(v: &Val, s: &Spec) -> String {
    match (v, s) {
        (Val::Verfer(m), Spec::Verfer { sig, msg, .. }) => {
            let mut longer = msg.clone();
            longer.push(1);
            let mut other = msg.clone();
            if let Some(b) = other.last_mut() {
                *b ^= 1;
            }
            format!("{} {:?} {:?} {:?}", show(&kinds::of_matter(m)), m.verify(sig, msg).ok(), m.verify(sig, &longer).ok(), m.verify(sig, &other).ok())
        }
        (Val::Signer(m), Spec::Signer { suite, seed, .. }) => {
            let msg = &seed[..7];
            let c = m.sign_unindexed(msg).ok();
            let i = m.sign_indexed(msg, false, 70, Some(3)).ok();
            let vf = m.verfer();
            match suite {
                Suite::Ed => format!(
                    "{} {} {:?} {:?}",
                    show(&kinds::of_matter(m)),
                    show(&kinds::of_matter(&vf)),
                    c.map(|c| (kinds::of_matter(&c), kinds::of_matter(&c.verfer()))),
                    i.map(|i| kinds::of_indexer(&i))
                ),
                // a new signature every time, always a good one
                _ => format!(
                    "{} {} {:?} {:?}",
                    show(&kinds::of_matter(m)),
                    show(&kinds::of_matter(&vf)),
                    c.map(|c| (c.code(), vf.verify(&c.raw(), msg).ok(), suite.verify(&vf.raw(), &c.raw(), msg))),
                    i.map(|i| (i.code(), i.index(), i.ondex(), vf.verify(&i.raw(), msg).ok()))
                ),
            }
        }
        (Val::Salter(m), Spec::Salter { path, .. }) => {
            let a = m.stretch(None, Some(path), None, Some(true)).ok();
            let b = m.signer(None, None, Some(path), None, Some(true)).ok().map(|s| (s.raw(), s.verfer().raw()));
            let k = m.signers(Some(2), Some(9), Some(path), None, Some(false), None, Some(true)).ok().map(|v| v.iter().map(|s| s.verfer().qb64().ok()).collect::<Vec<_>>());
            format!("{} {} {a:?} {b:?} {k:?}", show(&kinds::of_matter(m)), m.tier())
        }
        (Val::Serder(m), _) => kinds::inspect_serder(m),
        (Val::Creder(m), _) => kinds::inspect_creder(m),
        (Val::Tholder(m), Spec::Tholder { sets, .. }) => {
            let d: Vec<_> = sets.iter().map(|s| m.satisfy(s).ok()).collect();
            format!("{} {d:?}", kinds::inspect_tholder(m))
        }
        (Val::Saider(m, j), Spec::Saider { label, .. }) => {
            let v: Vec<_> = [(Some(true), None), (None, Some(true)), (Some(false), Some(false)), (Some(true), Some(false))].iter().map(|(p, q)| m.verify(j, *p, *q, None, Some(label), None).ok()).collect();
            format!("{} {:?} {v:?}", show(&kinds::of_matter(m)), j.to_json().ok())
        }
        (Val::Prefixer(m, j), _) => format!("{} {:?} {:?}", show(&kinds::of_matter(m)), m.verify(j, None).ok(), m.verify(j, Some(true)).ok()),
        (Val::Diger(m), Spec::Diger { data, other, code }) => {
            let o = Diger::new_with_ser(other, Some(code)).ok();
            format!("{} {:?} {:?} {:?}", show(&kinds::of_matter(m)), m.verify(data).ok(), m.verify(other).ok(), o.map(|o| (o.raw(), m.compare(data, None, Some(&o)).ok())))
        }
        (Val::Siger(m), Spec::Siger { suite, seed, msg, .. }) => {
            let vf = Verfer::new_with_raw(&suite.public(seed), Some(suite.key_code(true))).ok();
            format!("{} {:?}", show(&kinds::of_indexer(m)), vf.map(|v| v.verify(&m.raw(), msg).ok()))
        }
        (Val::Pather(m, r, d), _) => {
            let f = |p: Option<Pather>| p.map(|p| (p.bext().ok(), p.path().ok().and_then(|v| v.to_json().ok())));
            format!(
                "{} {:?} {:?} {:?} {:?} {:?}",
                show(&kinds::of_matter(m)),
                m.path().ok().and_then(|v| v.to_json().ok()),
                m.resolve(d).ok().and_then(|v| v.to_json().ok()),
                f(m.root(r).ok()),
                f(m.strip(r).ok()),
                m.starts_with(r).ok()
            )
        }
        (Val::Bexter(m), _) => format!("{} {:?}", show(&kinds::of_matter(m)), m.bext().ok()),
        (Val::Number(m), _) => format!("{} {:?} {:?} {:?}", show(&kinds::of_matter(m)), m.num().ok(), m.numh().ok(), m.positive().ok()),
        (Val::Seqner(m), _) => format!("{} {:?} {:?}", show(&kinds::of_matter(m)), m.sn().ok(), m.snh().ok()),
        (Val::Dater(m), _) => format!("{} {:?} {:?}", show(&kinds::of_matter(m)), m.dts().ok(), m.dtsb().ok()),
        (Val::Counter(m), _) => show(&kinds::of_counter(m)),
        (Val::Value(m), _) => {
            let z = common::sizeify(m, None).ok().map(|r| (r.raw, r.kind, r.ident, r.ked.to_json().ok()));
            format!("{:?} {:?} {z:?}", m.to_json().ok(), m.clone().to_json().ok())
        }
        (Val::Version, Spec::Version { text, bytes, size }) => {
            let d = common::deversify(text).ok().map(|d| format!("{} {} {:?} {}", d.ident, d.kind, d.version, d.size));
            let n = common::sniff(bytes).ok().map(|d| format!("{} {} {:?} {}", d.ident, d.kind, d.version, d.size));
            let v = common::versify(None, None, None, Some(*size)).ok();
            let w = Counter::sem_ver_str_to_b64("1.2.3").ok();
            format!("{d:?} {n:?} {v:?} {w:?}")
        }
        _ => "mismatched".into(),
    }
}

thread_local! {
    static STARVED: Cell<bool> = const { Cell::new(false) };
}
static mut RNG: u64 = 0;
fn source(buf: *mut u8, len: usize, dev: bool) -> i64 {
    if STARVED.with(|s| s.get()) {
        return -5;
    }
    if dev && buf.is_null() {
        return 0;
    }
    for i in 0..len {
        unsafe {
            RNG = RNG.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *buf.add(i) = crate::tape::mix(RNG) as u8;
        }
    }
    len as i64
}

fn read<T>(form: u64, b: &[u8], t: impl Fn(&str) -> T, tb: impl Fn(&[u8]) -> T, two: impl Fn(&[u8]) -> T) -> Option<T> {
    Some(match form {
        0 => t(std::str::from_utf8(b).ok()?),
        1 => tb(b),
        _ => two(b),
    })
}

/// One call; the text of everything observable about what it returned, and a fresh secret if it made one.
fn exec(w: &World, op: &Op) -> (String, Vec<u8>) {
    let mut secret = vec![];
    let prev = seam::enter();
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::Make(s) => make(s).map(|v| employ(&v, s)).unwrap_or("refused".into()),
        Op::Shared(i) => w.shared.0.get(*i).and_then(|v| v.as_ref()).map(|v| employ(v, &w.specs[*i])).unwrap_or("none".into()),
        Op::Read { kind, route, form, bytes } => {
            let k = &w.kinds[*kind];
            format!("{:?}", read(*form, bytes, |x| (k.qb64)(*route, x), |x| (k.qb64b)(*route, x), |x| (k.qb2)(*route, x)))
        }
        Op::ReadI { kind, route, form, bytes } => {
            let k = &w.ikinds[*kind];
            format!("{:?}", read(*form, bytes, |x| (k.qb64)(*route, x), |x| (k.qb64b)(*route, x), |x| (k.qb2)(*route, x)))
        }
        Op::ReadC { route, form, bytes } => {
            format!("{:?}", read(*form, bytes, |x| kinds::counter_qb64(*route, x), |x| kinds::counter_qb64b(*route, x), |x| kinds::counter_qb2(*route, x)))
        }
        Op::Raw { kind, route, code, raw } => format!("{:?}", (w.kinds[*kind].raw)(*route, code, raw)),
        Op::Now => format!("{:?}", Dater::new(None, None, None, None, None, None).ok().and_then(|d| d.dts().ok())),
        Op::Fresh(k) => {
            let (raw, public) = if *k == 0 {
                (Salter::new_with_defaults(None).map(|s| s.raw()).unwrap_or_default(), None)
            } else {
                let (suite, code) = SUITES[*k - 1];
                match Signer::new_with_defaults(None, Some(code)) {
                    Ok(s) => (s.raw(), Some(s.verfer().raw() == suite.public(&s.raw()))),
                    Err(_) => (vec![], None),
                }
            };
            let t = format!("{} {public:?}", raw.len());
            secret = raw;
            t
        }
        Op::Fail(how) => {
            STARVED.with(|s| s.set(true));
            match how {
                0 => format!("{}", Salter::new_with_defaults(None).is_ok()),
                1 => format!("{}", Signer::new_with_defaults(None, None).is_ok()),
                2 => format!("{}", Signer::new_with_defaults(None, Some("Q")).is_ok()),
                3 => match w.shared.0.iter().flatten().find(|v| matches!(v, Val::Value(_) | Val::Serder(_))) {
                    Some(Val::Value(v)) => format!("{:?}", v["no such field"].to_string().is_ok()),
                    Some(Val::Serder(s)) => format!("{:?}", s.ked()["no such field"].to_string().is_ok()),
                    _ => String::new(),
                },
                4 => match w.shared.0.iter().flatten().find(|v| matches!(v, Val::Signer(_))) {
                    Some(Val::Signer(s)) => format!("{}", s.sign_unindexed(b"abc").is_ok()),
                    _ => String::new(),
                },
                _ => format!("{}", Verfer::new_with_qb64("").is_ok()),
            }
        }
    }));
    STARVED.with(|s| s.set(false));
    seam::leave(prev);
    match r {
        Ok(t) => (t, secret),
        Err(_) => {
            let (l, m) = PANIC.with(|p| p.borrow().clone());
            (format!("panicked at {l}: {m}"), vec![])
        }
    }
}

// ------------------------------------------------------------------ plans

/// Made without a single call of the library, so that the threads make the first.
fn spec(c: &mut Ctx, family: u64) -> Spec {
    let (suite, _) = *c.pick(SUITES);
    match family {
        0 => {
            let seed = crate::props::sign::seed(c, suite);
            let msg = crate::props::sign::message(c);
            let sig = suite.sign(&seed, &msg);
            let t = c.chance(1, 2);
            Spec::Verfer { text: refc::matter_text(suite.key_code(t), &suite.public(&seed)).unwrap(), form: c.draw(3), sig, msg }
        }
        1 => Spec::Signer { suite: if c.chance(1, 2) { Suite::Ed } else { suite }, seed: crate::props::sign::seed(c, Suite::R1), transferable: c.chance(1, 2), form: c.draw(4) },
        2 => Spec::Salter { salt: c.bytes(16), path: gen::b64_string(c, 4), form: c.draw(4) },
        3 => {
            let code = *c.pick(refj::DIGESTS);
            let mut b = gen::event(c, code).text().into_bytes();
            if c.chance(1, 3) {
                c.corrupt(&mut b);
            }
            Spec::Serder { bytes: b }
        }
        4 => {
            let code = c.pick(refj::DIGESTS).to_string();
            Spec::SerderOf { j: gen::event(c, &code), code }
        }
        5 => {
            let code = *c.pick(refj::DIGESTS);
            let mut b = gen::credential(c, code).text().into_bytes();
            if c.chance(1, 3) {
                c.corrupt(&mut b);
            }
            Spec::Creder { bytes: b }
        }
        6 => {
            let n = if c.chance(1, 4) { 6 + c.below(40) } else { 1 + c.below(5) };
            let j = gen::sith(c, n);
            let sets = (0..1 + c.below(4)).map(|_| (0..c.below(n + 1)).map(|_| c.below(n + 1) as u32).collect()).collect();
            Spec::Tholder { text: j.text(), route: c.draw(2), sets }
        }
        7 => {
            let code = c.pick(refj::DIGESTS).to_string();
            let label = ["d", "d", "$id"][c.below(3)].to_string();
            let mut j = gen::credential(c, "E");
            j.set(&label, refj::s(""));
            Spec::Saider { j, code, label, damage: c.chance(1, 3) }
        }
        8 => {
            let code = c.pick(kinds::PRE).to_string();
            Spec::Prefixer { j: gen::event(c, "E"), code }
        }
        9 => {
            let code = c.pick(refj::DIGESTS).to_string();
            let data = if c.chance(1, 4) {
                let n = 400 + c.below(3000);
                c.random(n)
            } else {
                crate::props::sign::message(c)
            };
            let other = if c.chance(1, 2) {
                let mut o = data.clone();
                bend(c, &mut o);
                o
            } else {
                crate::props::sign::message(c)
            };
            Spec::Diger { code, data, other }
        }
        10 => {
            let seed = crate::props::sign::seed(c, suite);
            let index = if c.chance(1, 2) { c.draw(64) as u32 } else { c.draw(4096) as u32 };
            let ondex = if c.chance(1, 2) { index } else { c.draw(4096) as u32 };
            Spec::Siger { suite, seed, index, ondex, msg: crate::props::sign::message(c), form: c.draw(4) }
        }
        11 => {
            let doc = gen::credential(c, "E");
            let seg = |c: &mut Ctx| {
                if c.chance(1, 2) {
                    format!("-{}", c.draw(8))
                } else {
                    format!("-{}", ["v", "d", "i", "ri", "s", "a", "e", "r", "zz"][c.below(9)])
                }
            };
            let root: String = (0..c.below(3)).map(|_| seg(c)).collect();
            let rest: String = (0..c.below(3)).map(|_| seg(c)).collect();
            let dash = |x: String| if x.is_empty() { "-".to_string() } else { x };
            Spec::Pather { bext: dash(if c.chance(1, 2) { format!("{root}{rest}") } else { rest }), root: dash(root), doc }
        }
        12 => Spec::Bexter { bext: gen::b64_string(c, 12) },
        13 => Spec::Number { n: c.number(u128::MAX) },
        14 => Spec::Seqner { n: c.number(u128::MAX) },
        15 => Spec::Dater { dts: gen::dts(c), form: c.draw(4) },
        16 => {
            let z = c.pick(refc::COUNTER);
            let max = 64u128.pow(z.ss as u32) - 1;
            Spec::Counter { code: z.code.to_string(), n: c.number(max.min(u32::MAX as u128)) as u32, form: c.draw(4) }
        }
        17 => Spec::Value { j: if c.chance(1, 2) { gen::json(c, 3) } else { gen::event(c, "E") } },
        _ => {
            let size = c.draw(0x100_0000) as u32;
            let ident = ["KERI", "ACDC", "XXXX"][c.below(3)];
            let text = refj::version_string(ident, size as usize);
            let mut bytes = format!("{{\"v\":\"{text}\",\"t\":\"icp\"}}").into_bytes();
            if c.chance(1, 3) {
                c.corrupt(&mut bytes);
            }
            Spec::Version { text, bytes, size }
        }
    }
}
const FAMILIES: u64 = 19;

/// One byte of it another value.
fn bend(c: &mut Ctx, b: &mut [u8]) {
    if !b.is_empty() {
        let i = match c.draw(4) {
            0 => 0,
            1 => b.len() - 1,
            _ => c.below(b.len()),
        };
        b[i] ^= 1 << c.draw(8);
    }
}
fn letter(c: &mut Ctx, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    if !v.is_empty() {
        let i = c.below(v.len());
        v[i] = if v[i] == 'Q' { 'R' } else { 'Q' };
    }
    v.into_iter().collect()
}
/// The same code, key, label or length, and one thing different: what a call must not remember from the other.
fn vary(c: &mut Ctx, s: &Spec) -> Spec {
    let mut s = s.clone();
    match &mut s {
        Spec::Verfer { text, form, sig, msg } => match c.draw(5) {
            0 | 1 => bend(c, msg),
            2 => bend(c, sig),
            3 => *form = c.draw(3),
            _ => {
                // the same key, not transferable
                let other = match &text[..1] {
                    "D" => format!("B{}", &text[1..]),
                    "B" => format!("D{}", &text[1..]),
                    _ => match &text[..4] {
                        "1AAA" => format!("1AAB{}", &text[4..]),
                        "1AAB" => format!("1AAA{}", &text[4..]),
                        "1AAI" => format!("1AAJ{}", &text[4..]),
                        "1AAJ" => format!("1AAI{}", &text[4..]),
                        _ => text.clone(),
                    },
                };
                *text = other;
            }
        },
        Spec::Signer { suite, seed, transferable, form } => match c.draw(4) {
            0 => *transferable = !*transferable,
            1 => *suite = c.pick(SUITES).0,
            2 => *form = c.draw(4),
            _ => {
                // late in the seed, so that it stays in range
                let n = seed.len();
                let i = n - 1 - c.below(n.min(16));
                seed[i] ^= 1 << c.draw(7);
            }
        },
        Spec::Salter { salt, path, form } => match c.draw(3) {
            0 => bend(c, salt),
            1 => *path = letter(c, path),
            _ => *form = c.draw(4),
        },
        Spec::Serder { bytes } | Spec::Creder { bytes } => {
            // a letter inside a value, often: the same length, the same version string
            let quoted: Vec<usize> = (30.min(bytes.len())..bytes.len()).filter(|i| bytes[*i].is_ascii_alphanumeric()).collect();
            if quoted.is_empty() {
                bend(c, bytes);
            } else {
                let i = *c.pick(&quoted);
                bytes[i] = if bytes[i] == b'1' { b'2' } else { b'1' };
            }
        }
        Spec::SerderOf { j, code } => {
            match c.draw(3) {
                0 => *code = c.pick(refj::DIGESTS).to_string(),
                1 => {
                    let n = c.draw(10).to_string();
                    j.set("s", refj::s(&n));
                }
                _ => {
                    if let Some(twin) = gen::nearly(c, j, code) {
                        *j = twin;
                    }
                }
            }
        }
        Spec::Tholder { text, route, sets } => match c.draw(3) {
            0 => *route ^= 1,
            1 => {
                if let Some(x) = sets.last_mut() {
                    x.pop();
                }
            }
            _ => {
                let digits: Vec<usize> = text.bytes().enumerate().filter(|(_, b)| (b'1'..=b'8').contains(b)).map(|(i, _)| i).collect();
                if !digits.is_empty() {
                    let i = if c.chance(1, 3) { digits[digits.len() - 1] } else { *c.pick(&digits) };
                    let mut b = text.clone().into_bytes();
                    b[i] += 1;
                    *text = String::from_utf8(b).unwrap();
                }
            }
        },
        Spec::Saider { j, code, damage, .. } => match c.draw(4) {
            0 => *code = c.pick(refj::DIGESTS).to_string(),
            1 => *damage = !*damage,
            2 => {
                // the same size
                let t = j.get("i").map(|i| i.text()).unwrap_or_default();
                let t = letter(c, t.trim_matches('"'));
                if t.is_ascii() && !t.contains('\\') {
                    j.set("i", refj::s(&t));
                }
            }
            _ => j.set("i", refj::s("another")),
        },
        Spec::Prefixer { j, code } => {
            if c.chance(1, 2) {
                *code = c.pick(kinds::PRE).to_string();
            } else {
                let n = c.draw(10).to_string();
                j.set("bt", refj::s(&n));
            }
        }
        Spec::Diger { code, data, other } => match c.draw(3) {
            0 => *code = c.pick(refj::DIGESTS).to_string(),
            1 => bend(c, data),
            _ => bend(c, other),
        },
        Spec::Siger { index, ondex, msg, form, .. } => match c.draw(3) {
            0 => bend(c, msg),
            1 => {
                *index = (*index + 1) % 64;
                *ondex = *index;
            }
            _ => *form = c.draw(4),
        },
        Spec::Pather { bext, root, .. } => {
            if c.chance(1, 2) {
                *bext = letter(c, bext);
            } else {
                *root = letter(c, root);
            }
        }
        Spec::Bexter { bext } => *bext = letter(c, bext),
        Spec::Number { n } | Spec::Seqner { n } => *n ^= 1 << c.draw(128),
        Spec::Dater { dts, form } => {
            if c.chance(1, 2) {
                let mut b = dts.clone().into_bytes();
                b[18] = if b[18] == b'1' { b'2' } else { b'1' };
                *dts = String::from_utf8(b).unwrap();
            } else {
                *form = c.draw(4);
            }
        }
        Spec::Counter { code, n, .. } => {
            if c.chance(1, 2) {
                *n ^= 1 << c.draw(12);
            } else {
                *code = c.pick(refc::COUNTER).code.to_string();
            }
        }
        Spec::Value { j } => *j = gen::json(c, 3),
        Spec::Version { text, bytes, size } => match c.draw(3) {
            0 => *size ^= 1 << c.draw(24),
            1 => *text = letter(c, text),
            _ => bend(c, bytes),
        },
    }
    s
}
fn variant(c: &mut Ctx, o: &Op) -> Op {
    let mut o = o.clone();
    match &mut o {
        Op::Make(s) => *s = vary(c, s),
        Op::Read { bytes, form, .. } | Op::ReadI { bytes, form, .. } | Op::ReadC { bytes, form, .. } => {
            if *form != 2 && !bytes.is_empty() {
                // another letter: still text
                let i = bytes.len() - 1 - c.below(bytes.len().min(40));
                bytes[i] = if bytes[i] == b'A' { b'B' } else { b'A' };
            } else {
                bend(c, bytes)
            }
        }
        Op::Raw { raw, .. } => {
            let n = raw.len();
            if n > 0 {
                let i = n - 1 - c.below(n.min(16));
                raw[i] ^= 1 << c.draw(7);
            }
        }
        _ => (),
    }
    o
}

fn op(c: &mut Ctx, theme: &[u64], w: &World) -> Op {
    let f = *c.pick(theme);
    let wire = |c: &mut Ctx, text: &str| {
        let f = c.draw(3);
        let mut b = if f == 2 { refc::binary(text) } else { text.as_bytes().to_vec() };
        if c.chance(1, 4) {
            c.corrupt(&mut b);
        }
        (f, b)
    };
    match f {
        x if x < FAMILIES => Op::Make(spec(c, x)),
        x if x < FAMILIES + 3 => {
            let kind = c.below(w.kinds.len());
            let all: Vec<&str> = refc::MATTER.iter().map(|z| z.code).collect();
            let code = match w.kinds[kind].own {
                Some(own) if !c.chance(1, 6) => *c.pick(own),
                _ => *c.pick(&all),
            };
            let raw = if kinds::SEED.contains(&code) { gen::seed_for(c, code) } else { gen::raw_for(c, code) };
            let route = c.below(2);
            if x == FAMILIES {
                return Op::Raw { kind, route, code: code.to_string(), raw };
            }
            let Some(text) = refc::matter_text(code, &raw) else { return Op::Now };
            let (form, bytes) = wire(c, &text);
            Op::Read { kind, route, form, bytes }
        }
        22 => {
            let kind = c.below(w.ikinds.len());
            let all: Vec<&str> = refc::INDEXER.iter().map(|z| z.code).collect();
            let code = *c.pick(&all);
            let (i, o) = gen::indices(c, code);
            let raw = c.bytes(64);
            let Some(text) = refc::indexer_text(code, i, o.unwrap_or(i), &raw) else { return Op::Now };
            let (form, bytes) = wire(c, &text);
            Op::ReadI { kind, route: c.below(2), form, bytes }
        }
        23 => {
            let z = c.pick(refc::COUNTER);
            let n = c.draw(64u64.pow(z.ss as u32));
            let text = refc::counter_text(z.code, n).unwrap();
            let (form, bytes) = wire(c, &text);
            Op::ReadC { route: c.below(2), form, bytes }
        }
        24 => Op::Now,
        25 => Op::Fresh(c.below(4)),
        26 => Op::Fail(c.draw(6)),
        _ => Op::Shared(c.below(w.specs.len().max(1))),
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
static mut STYLE: u64 = 0;
static mut DECISIONS: u64 = 0;
fn decide(runnable: &[usize], me: usize) -> (usize, u64) {
    unsafe {
        DECISIONS += 1;
        let n = DECISIONS;
        if n > 6000 {
            // enough variety: take turns until all are done
            let k = runnable.iter().position(|t| *t > me).unwrap_or(0);
            return (k, 4000);
        }
        let c = &mut *CTX;
        let k = if runnable.len() > 1 { c.draw(runnable.len() as u64) as usize } else { 0 };
        let q = match STYLE {
            0 => 1 + c.draw(4),
            1 => 1 + c.draw(40),
            2 => 1 + c.draw(400),
            3 => 1 + c.draw(5000),
            // mostly long, sometimes very short
            4 => {
                if c.chance(1, 2) {
                    1 + c.draw(6)
                } else {
                    1 + c.draw(3000)
                }
            }
            _ => 1 + (1u64 << c.draw(14)) + c.draw(16),
        };
        (k, q)
    }
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    unsafe { RNG = c.draw(u64::MAX) }
    seam::set_entropy(Some(source));
    let mut w = World { kinds: kinds::kinds(), ikinds: kinds::ikinds(), specs: vec![], shared: Bundle(vec![]), plans: vec![] };
    // a few families, so that threads meet in the same code
    let theme: Vec<u64> = (0..1 + c.below(4)).map(|_| c.draw(FAMILIES + 8)).collect();
    let warm = c.chance(1, 2) || theme.contains(&(FAMILIES + 8));
    let n = 2 + c.below(4);
    let mut theme = theme;
    if warm {
        for _ in 0..1 + c.below(4) {
            let f = theme.iter().copied().find(|f| *f < FAMILIES).unwrap_or_else(|| c.draw(FAMILIES));
            let f = if c.chance(1, 2) { f } else { c.draw(FAMILIES) };
            let s = c.span(|c| spec(c, f));
            w.specs.push(s);
        }
        theme.push(FAMILIES + 8);
    }
    let mut common: Vec<Op> = vec![];
    // in some runs hardly anything but nearly the same call
    let twins = if c.chance(1, 3) { 5 } else { 2 };
    for _ in 0..n {
        let mut plan: Vec<Op> = vec![];
        for _ in 0..1 + c.below(6) {
            let o = if !common.is_empty() && c.chance(twins, 6) {
                // the very call another thread makes, or nearly
                let o = c.pick(&common.clone()).clone();
                if c.chance(1, 2) {
                    c.span(|c| variant(c, &o))
                } else {
                    o
                }
            } else {
                c.span(|c| op(c, &theme, &w))
            };
            common.push(o.clone());
            plan.push(o);
        }
        w.plans.push(plan);
    }
    c.mark_bytes(format!("{:?}", w.plans).as_bytes());
    for (i, p) in w.plans.iter().enumerate() {
        c.note(|| format!("thread {i}: {}", format!("{p:?}").chars().take(1500).collect::<String>()));
    }
    // alone: every call once, in another order, in a process of its own
    let mut order: Vec<(usize, usize)> = w.plans.iter().enumerate().flat_map(|(t, p)| (0..p.len()).map(move |k| (t, k))).collect();
    for i in (1..order.len()).rev() {
        let k = c.below(i + 1);
        order.swap(i, k);
    }
    let build = |w: &mut World| {
        let prev = seam::enter();
        w.shared.0 = w.specs.iter().map(|s| catch_unwind(AssertUnwindSafe(|| make(s))).ok().flatten()).collect();
        seam::leave(prev);
    };
    // or even in a process for each of them, so that nothing can have been left by another
    let apart = if c.chance(1, 2) { 1 } else { order.len() };
    let mut alone: Vec<Vec<(String, Vec<u8>)>> = w.plans.iter().map(|p| vec![Default::default(); p.len()]).collect();
    for some in order.chunks(apart) {
        let part = crate::run::forked(
            || {
                build(&mut w);
                let out: Vec<(String, Vec<u8>)> = some.iter().map(|(t, k)| exec(&w, &w.plans[*t][*k])).collect();
                serde_json::to_vec(&out).unwrap()
            },
            Duration::from_secs(60),
        );
        let Ok(part) = part else {
            // it does not work alone either: that is C01's matter
            c.probe("calls fail alone");
            return Ok(());
        };
        let part: Vec<(String, Vec<u8>)> = serde_json::from_slice(&part).unwrap();
        for ((t, k), o) in some.iter().zip(part) {
            alone[*t][*k] = o;
        }
    }
    c.probe(if apart == 1 { "every call in a process of its own" } else { "all calls one by one in another process" });

    if warm {
        build(&mut w);
    }
    unsafe {
        CTX = c;
        STYLE = c.draw(6);
        DECISIONS = 0;
    }
    c.calls += order.len() as u64;
    seam::limit_steps(STEP_LIMIT);
    seam::sched_init(n, decide);
    let wr = &w;
    let together: Vec<Vec<(String, Vec<u8>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(s, move || {
                        seam::sched_thread_start(t);
                        let r: Vec<(String, Vec<u8>)> = wr.plans[t].iter().map(|o| exec(wr, o)).collect();
                        seam::sched_thread_end();
                        r
                    })
                    .unwrap()
            })
            .collect();
        seam::sched_run();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    seam::limit_steps(u64::MAX);
    use std::sync::atomic::Ordering::Relaxed;
    let (switches, hash) = (seam::SWITCHES.load(Relaxed), seam::SCHED_HASH.load(Relaxed));
    for _ in 0..switches.min(100_000) {
        c.faults[Fault::Preemption as usize] += 1;
    }
    if seam::BLOCKS.load(Relaxed) > 0 {
        c.probe("a thread waited for another");
    }
    c.probe(if warm { "warm process with shared values" } else { "first calls of the process" });
    c.mark(hash);
    c.state(hash);
    let mut secrets: Vec<&Vec<u8>> = vec![];
    for t in 0..n {
        for k in 0..w.plans[t].len() {
            let (a, b) = (&alone[t][k], &together[t][k]);
            if b.0.starts_with("panicked") {
                c.fault(Fault::ThreadPanicked);
            }
            if matches!(w.plans[t][k], Op::Fail(_)) {
                c.fault(Fault::CallFailed);
            }
            compare(c, &w, t, k, &a.0, &b.0, "among other threads")?;
            if !b.1.is_empty() {
                c.ensure(!secrets.contains(&&b.1), "two threads got the same secret", || hex(&b.1))?;
                secrets.push(&b.1);
            }
        }
    }
    // and nothing was left behind
    for t in 0..n {
        for k in 0..w.plans[t].len() {
            let r = exec(&w, &w.plans[t][k]);
            compare(c, &w, t, k, &alone[t][k].0, &r.0, "after the threads ended")?;
        }
    }
    Ok(())
}
fn compare(c: &mut Ctx, w: &World, t: usize, k: usize, alone: &str, got: &str, when: &str) -> R<()> {
    // without the bundle there is nothing shared to compare
    let shared = matches!(w.plans[t][k], Op::Shared(_) | Op::Fail(3 | 4));
    if shared && w.shared.0.is_empty() {
        return Ok(());
    }
    c.ensure(alone == got, "a call returned something else", || {
        let at = alone.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(alone.len().min(got.len()));
        let cut = |x: &str| x.chars().skip(at.saturating_sub(60)).take(200).collect::<String>();
        format!("thread {t} call {k} {when}: {:?}\nalone: ...{}\nhere:  ...{}", format!("{:?}", w.plans[t][k]).chars().take(300).collect::<String>(), cut(alone), cut(got))
    })
}
