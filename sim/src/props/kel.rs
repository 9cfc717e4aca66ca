//! C18: controllers, witnesses and watchers keep key event logs over a bad network and bad disks, and a forger takes part.
use crate::gen::Rule;
use crate::props::sign::{self, Suite};
use crate::refc;
use crate::refj::{self, s, J};
use crate::tape::{hash_bytes, mix};
use crate::world::*;
use cesride::data::Value;
use cesride::{Cigar, Counter, Dater, Diger, Indexer, Matter, Prefixer, Sadder, Saider, Seqner, Serder, Siger, Signer, Tholder, Verfer};
use std::collections::BTreeMap;
use std::rc::Rc;

const MS: u64 = 1_000_000;

// ------------------------------------------------------------------ what is true, known by construction

struct Key {
    suite: Suite,
    seed: Vec<u8>,
    signer: Signer,
    stored: Vec<u8>,
    form: u64,
    /// as published
    text: String,
}
struct Event {
    ctl: usize,
    pre: String,
    sn: u128,
    est: bool,
    keys: Vec<usize>,
    kt: Rule,
    /// the keys whose digests are committed to, by position
    next: Vec<usize>,
    nt: Rule,
    prior: String,
    said: String,
    /// its identifier, and prefix if it is an inception, are those of its content
    sound: bool,
    witnesses: Vec<usize>,
    body: J,
    raw: Vec<u8>,
}
#[derive(Clone, PartialEq, Debug)]
struct Wire {
    code: String,
    index: u32,
    ondex: Option<u32>,
    raw: Vec<u8>,
    text: String,
}
#[derive(Clone, Default)]
struct Part {
    ev: usize,
    sigs: Vec<Wire>,
    wsigs: Vec<Wire>,
    couples: Vec<(String, String)>,
}
struct Packet {
    bytes: Vec<u8>,
    parts: Vec<Part>,
}

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    /// not the next of its log
    Skip,
    Bad,
    /// which signatures count: position, place among the current keys, place among those committed to before
    Partial(Vec<(usize, u32, Option<u32>)>),
    Accept(Vec<(usize, u32, Option<u32>)>),
}

// ------------------------------------------------------------------ what a node does with the library

#[derive(Clone)]
struct KeyState {
    sn: u128,
    said: String,
    keys: Vec<Verfer>,
    rule: Tholder,
    next: Vec<Diger>,
    next_rule: Option<Tholder>,
    witnesses: Vec<Verfer>,
}
struct Parsed {
    serder: Serder,
    sigs: Vec<Siger>,
    wsigs: Vec<Siger>,
    couples: Vec<(Verfer, Cigar)>,
    seen: Option<(Seqner, Dater)>,
    size: usize,
}

fn text_of(v: &Value, k: &str) -> Option<String> {
    v.to_map().ok()?.get(k)?.to_string().ok()
}
/// A signature made with "both" codes speaks for the current key and for the one committed to before.
fn both(code: &str) -> bool {
    matches!(code, "A" | "C" | "E" | "2A" | "2C" | "2E")
}
fn wire(x: &Siger) -> Option<Wire> {
    let code = x.code();
    let ondex = if both(&code) { Some(x.ondex()) } else { None };
    Some(Wire { index: x.index(), ondex, raw: x.raw(), text: x.qb64().ok()?, code })
}

/// As far as it is text: what follows may have been torn in the middle of a character.
fn readable(b: &[u8]) -> &str {
    match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(e) => std::str::from_utf8(&b[..e.valid_up_to()]).unwrap(),
    }
}

/// Everything which can be taken off the front of a delivery.
fn parse(b: &[u8], code: &str, salt: u64) -> Vec<Parsed> {
    let mut out = vec![];
    let mut at = 0;
    while let Some(p) = parse_one(&b[at..], code, salt) {
        at += p.size;
        out.push(p);
        if at >= b.len() {
            break;
        }
    }
    out
}
fn parse_one(b: &[u8], code: &str, salt: u64) -> Option<Parsed> {
    let serder = if code == "E" && salt & 1 == 0 { Serder::new_with_raw(b) } else { Serder::new(Some(code), Some(b), None, None, None) }.ok()?;
    let mut at = serder.raw().len();
    let mut p = Parsed { serder, sigs: vec![], wsigs: vec![], couples: vec![], seen: None, size: 0 };
    while at < b.len() && b[at] != b'{' {
        let rest = &b[at..];
        let binary = rest[0] >= 0xf8;
        let counter = if binary {
            Counter::new_with_qb2(rest)
        } else if salt & 2 == 0 {
            Counter::new_with_qb64b(rest)
        } else {
            Counter::new_with_qb64(readable(rest))
        }
        .ok()?;
        at += counter.full_size().ok()? / 4 * if binary { 3 } else { 4 };
        for _ in 0..counter.count() {
            let rest = b.get(at..)?;
            let siger = |rest: &[u8]| -> Option<(Siger, usize)> {
                let x = if binary {
                    Siger::new_with_qb2(rest, None)
                } else if salt & 4 == 0 {
                    Siger::new_with_qb64b(rest, None)
                } else {
                    Siger::new_with_qb64(readable(rest), None)
                }
                .ok()?;
                let n = x.full_size().ok()? / 4 * if binary { 3 } else { 4 };
                Some((x, n))
            };
            match counter.code().as_str() {
                "-A" => {
                    let (x, n) = siger(rest)?;
                    p.sigs.push(x);
                    at += n;
                }
                "-B" => {
                    let (x, n) = siger(rest)?;
                    p.wsigs.push(x);
                    at += n;
                }
                "-C" => {
                    let v = if binary { Verfer::new_with_qb2(rest) } else { Verfer::new_with_qb64b(rest) }.ok()?;
                    at += v.full_size().ok()? / 4 * if binary { 3 } else { 4 };
                    let rest = b.get(at..)?;
                    let g = if binary { Cigar::new_with_qb2(rest, Some(&v)) } else { Cigar::new_with_qb64b(rest, Some(&v)) }.ok()?;
                    at += g.full_size().ok()? / 4 * if binary { 3 } else { 4 };
                    p.couples.push((v, g));
                }
                "-E" => {
                    let q = if binary { Seqner::new_with_qb2(rest) } else { Seqner::new_with_qb64b(rest) }.ok()?;
                    at += q.full_size().ok()? / 4 * if binary { 3 } else { 4 };
                    let rest = b.get(at..)?;
                    let d = if binary { Dater::new_with_qb2(rest) } else { Dater::new_with_qb64b(rest) }.ok()?;
                    at += d.full_size().ok()? / 4 * if binary { 3 } else { 4 };
                    p.seen = Some((q, d));
                }
                _ => return None,
            }
        }
    }
    p.size = at;
    Some(p)
}

/// Whether the event is what its identifier, and its log's prefix, say it is.
fn sound(x: &Serder, incepts: bool) -> Option<bool> {
    let ked = x.ked();
    let d = text_of(&ked, "d")?;
    if incepts {
        let pre = Prefixer::new_with_qb64(&x.pre().ok()?).ok()?;
        if !pre.verify(&ked, Some(true)).ok()? {
            return Some(false);
        }
        if pre.digestive() {
            return Some(d == pre.qb64().ok()?);
        }
    }
    Saider::new_with_qb64(&d).ok()?.verify(&ked, Some(true), None, None, None, None).ok()
}

/// A node's judgement of an event and the signatures at hand, and the state it leads to.
fn judge(state: Option<&KeyState>, x: &Serder, sigs: &[Siger]) -> (Verdict, Option<KeyState>) {
    let Some((v, st)) = try_judge(state, x, sigs) else { return (Verdict::Bad, None) };
    (v, st)
}
fn try_judge(state: Option<&KeyState>, x: &Serder, sigs: &[Siger]) -> Option<(Verdict, Option<KeyState>)> {
    let sn = x.sn().ok()?;
    if x.sner().ok()?.num().ok()? != sn {
        return None;
    }
    if sn != state.map_or(0, |st| st.sn + 1) {
        return Some((Verdict::Skip, None));
    }
    let ked = x.ked();
    let ilk = text_of(&ked, "t")?;
    let est = x.est().ok()?;
    let incepts = matches!(ilk.as_str(), "icp" | "dip");
    if incepts != state.is_none() || est != (ilk != "ixn") || !sound(x, incepts)? {
        return None;
    }
    if let Some(st) = state {
        if text_of(&ked, "p")? != st.said {
            return None;
        }
    }
    let (keys, rule) = if est { (x.verfers().ok()?, x.tholder().ok()??) } else { (state?.keys.clone(), state?.rule.clone()) };
    let raw = x.raw();
    let mut good = vec![];
    for (at, g) in sigs.iter().enumerate() {
        let i = g.index() as usize;
        let Some(k) = keys.get(i) else { continue };
        if !matches!(k.verify(&g.raw(), &raw), Ok(true)) {
            continue;
        }
        let mut next = None;
        if est && both(&g.code()) {
            if let Some(d) = state.and_then(|st| st.next.get(g.ondex() as usize)) {
                if d.verify(&k.qb64b().ok()?).ok()? {
                    next = Some(g.ondex());
                }
            }
        }
        good.push((at, g.index(), next));
    }
    let now: Vec<u32> = good.iter().map(|g| g.1).collect();
    let mut enough = rule.satisfy(&now).ok()?;
    if let (true, Some(st)) = (est, state) {
        let before: Vec<u32> = good.iter().filter_map(|g| g.2).collect();
        enough &= st.next_rule.as_ref()?.satisfy(&before).ok()?;
    }
    if !enough {
        return Some((Verdict::Partial(good), None));
    }
    let witnesses = if incepts { x.werfers().ok()? } else { state?.witnesses.clone() };
    let (next, next_rule) = if est { (x.digers().ok()?, x.ntholder().ok()?) } else { (state?.next.clone(), state?.next_rule.clone()) };
    Some((Verdict::Accept(good), Some(KeyState { sn, said: text_of(&ked, "d")?, keys, rule, next, next_rule, witnesses })))
}

// ------------------------------------------------------------------ the world

struct Record {
    ev: usize,
    end: usize,
    dts: String,
    sigs: Vec<Wire>,
}
struct Node {
    up: bool,
    epoch: u64,
    disk: Disk,
    /// everything accepted, in order; the first `synced` of them for good
    log: Vec<Record>,
    synced: usize,
    states: BTreeMap<String, KeyState>,
    escrow: BTreeMap<Vec<u8>, Vec<Siger>>,
    /// (event, node): proof that it was seen there
    receipts: BTreeMap<(usize, usize), (bool, Wire)>,
    /// (log, place): what was receipted there, ever
    witnessed: BTreeMap<(String, u128), usize>,
    key: usize,
    skew: i64,
    binary: bool,
}
struct Controller {
    history: Vec<usize>,
    published: usize,
    keys: Vec<usize>,
    fork: Option<u128>,
}
enum Ev {
    Publish(usize),
    Timer(usize, u64),
    Flush(usize, u64),
    Deliver { to: usize, bytes: Vec<u8>, sent: Rc<Packet> },
    Summary { to: usize, from: usize, bytes: Vec<u8> },
    Crash(usize),
    Restart(usize),
    Partition(usize, bool),
    Forge,
    Calm,
}
struct World {
    /// the digest these nodes agreed on
    code: &'static str,
    keys: Vec<Key>,
    events: Vec<Event>,
    by_raw: BTreeMap<Vec<u8>, usize>,
    /// every signature ever made: who by, over which event
    made: BTreeMap<Vec<u8>, (usize, usize)>,
    ctls: Vec<Controller>,
    nodes: Vec<Node>,
    q: Queue<Ev>,
    net: NetCfg,
    cut: Vec<bool>,
    calm: bool,
    accepted: u64,
}

fn new_key(c: &mut Ctx, w: &mut World, transferable: bool) -> R<usize> {
    let (suite, code) = sign::SUITES[[0, 0, 1, 2][c.below(4)]];
    let suite = if transferable { suite } else { Suite::Ed };
    let code = if transferable { code } else { "A" };
    let mut seed = crate::gen::seed_for(c, code);
    // no two alike, however simple the run
    seed[1] = w.keys.len() as u8;
    seed[2] = (w.keys.len() >> 8) as u8;
    let signer = c.call("Signer from raw", || Signer::new_with_raw(&seed, Some(transferable), Some(code)).ok())?;
    let Some(signer) = signer else { return c.fail("key refused", format!("{suite:?} {}", crate::kinds::hex(&seed))) };
    let v = c.call("Verfer.qb64", || signer.verfer().qb64().ok())?;
    let text = refc::matter_text(suite.key_code(transferable), &suite.public(&seed)).unwrap();
    c.ensure(v.as_deref() == Some(&text), "published key is not the key's", || format!("{v:?}, want {text}"))?;
    let (form, stored) = sign::form(c, &refc::matter_text(code, &seed).unwrap());
    w.keys.push(Key { suite, seed, signer, stored, form, text });
    Ok(w.keys.len() - 1)
}

fn rule(c: &mut Ctx, n: usize) -> (Rule, J) {
    if c.chance(1, 2) {
        let k = 1 + c.below(n.min(4)) as u64;
        let j = if c.chance(1, 3) { J::Int(k as i128) } else { s(format!("{k:x}")) };
        return (Rule::Count(k), j);
    }
    let split = if n >= 2 && c.chance(1, 3) { 1 + c.below(n - 1) } else { n };
    let mut all = vec![];
    for m in [split, n - split] {
        if m == 0 {
            continue;
        }
        let m64 = m as u64;
        let clause: Vec<(u64, u64)> = match c.draw(5) {
            0 => vec![(1, m64); m],
            1 => vec![(1, m64.div_ceil(2)); m],
            2 => {
                let mut v = vec![(1, 2); m];
                v[0] = (1, 1);
                v
            }
            3 => {
                // the last is in reserve
                let mut v = vec![(1, (m64 - 1).max(1)); m];
                v[m - 1] = if m > 1 { (0, 1) } else { (1, 1) };
                v
            }
            _ => {
                let mut v = vec![(1, 3); m];
                v[0] = if m > 1 { (2, 3) } else { (1, 1) };
                v
            }
        };
        all.push(clause);
    }
    let show = |(n, d): &(u64, u64)| if *d == 1 { s(n.to_string()) } else { s(format!("{n}/{d}")) };
    let mut j: Vec<J> = all.iter().map(|cl| J::Arr(cl.iter().map(show).collect())).collect();
    let j = if j.len() == 1 && c.chance(1, 2) { j.remove(0) } else { J::Arr(j) };
    (Rule::Weights(all), j)
}

/// The text of an event, put together by the library and by the reference.
fn compose(c: &mut Ctx, fields: Vec<(String, J)>, code: &str, digest_prefix: bool) -> R<(J, String)> {
    let (_, body) = if digest_prefix { refj::self_addressing(&J::Obj(fields.clone()), code) } else { refj::saidify(&J::Obj(fields.clone()), code, "d", true, &[]) };
    let sad = J::Obj(fields).value();
    let raw = c.call("event from content", || -> Option<Vec<u8>> {
        let ked = if digest_prefix {
            let pre = Prefixer::new_with_ked(&sad, None, Some(code)).ok()?.qb64().ok()?;
            let mut ked = sad.clone();
            ked["i"] = cesride::dat!(&pre);
            ked["d"] = cesride::dat!(&pre);
            ked
        } else {
            Saider::saidify(&sad, Some(code), None, None, None).ok()?.1
        };
        Some(Serder::new_with_ked(&ked, Some(code), None).ok()?.raw())
    })?;
    let want = body.text();
    c.ensure(raw.as_deref() == Some(want.as_bytes()), "event is not its content's", || format!("{:?}, want {want}", raw.map(|r| String::from_utf8_lossy(&r).into_owned())))?;
    let said = body.str("d").to_string();
    Ok((body, said))
}

fn digests(c: &mut Ctx, w: &World, keys: &[usize]) -> R<Vec<J>> {
    let mut out = vec![];
    for k in keys {
        let code = if c.chance(1, 4) { *c.pick(refj::DIGESTS) } else { "E" };
        let t = w.keys[*k].text.clone();
        let d = c.call("Diger from key", || Diger::new_with_ser(t.as_bytes(), Some(code)).ok().and_then(|d| d.qb64().ok()))?;
        let want = refj::digest_text(code, t.as_bytes());
        c.ensure(d.as_deref() == Some(&want), "digest is not the key's", || format!("{code} of {t}: {d:?}, want {want}"))?;
        out.push(s(want));
    }
    Ok(out)
}
fn anchors(c: &mut Ctx) -> J {
    let n = c.below(3);
    J::Arr((0..n).map(|_| c.span(|c| crate::gen::json(c, 2))).collect())
}
fn key_list(w: &World, keys: &[usize]) -> J {
    J::Arr(keys.iter().map(|k| s(w.keys[*k].text.clone())).collect())
}
fn some_keys(c: &mut Ctx, w: &mut World, ctl: usize, n: usize) -> R<Vec<usize>> {
    let mut v = vec![];
    for _ in 0..n {
        let k = c.span(|c| new_key(c, w, true))?;
        v.push(k);
        w.ctls[ctl].keys.push(k);
    }
    Ok(v)
}
fn crowd(c: &mut Ctx) -> usize {
    if c.chance(1, 80) {
        c.probe("more keys than a small index reaches");
        65 + c.below(4)
    } else {
        1 + c.below(4)
    }
}

/// The next event of a controller's history, `other` being what it is made to differ by.
fn make(c: &mut Ctx, w: &mut World, ctl: usize, ilk: &str) -> R<usize> {
    let last = w.ctls[ctl].history.last().copied();
    let code = w.code;
    let mut f: Vec<(String, J)> = vec![("v".into(), s(refj::version_string("KERI", 0))), ("t".into(), s(ilk)), ("d".into(), s(""))];
    let sn = last.map_or(0, |l| w.events[l].sn + 1);
    let mut basic = false;
    let (keys, kt, next, nt, witnesses);
    let mut prior = String::new();
    match last {
        None => {
            basic = c.chance(1, 3);
            let n = if basic { 1 } else { crowd(c) };
            keys = some_keys(c, w, ctl, n)?;
            let n = if n > 60 { n } else { crowd(c) };
            next = some_keys(c, w, ctl, n)?;
            let (r, rj) = rule(c, keys.len());
            let (q, qj) = rule(c, next.len());
            (kt, nt) = (r, q);
            let n = w.nodes.len();
            witnesses = (0..n).filter(|_| c.chance(1, 2)).collect::<Vec<_>>();
            f.push(("i".into(), s(if basic { w.keys[keys[0]].text.clone() } else { String::new() })));
            f.push(("s".into(), s("0")));
            f.push(("kt".into(), rj));
            f.push(("k".into(), key_list(w, &keys)));
            f.push(("nt".into(), qj));
            let d = digests(c, w, &next)?;
            f.push(("n".into(), J::Arr(d)));
            f.push(("bt".into(), s(format!("{:x}", witnesses.len()))));
            let wk: Vec<usize> = witnesses.iter().map(|n| w.nodes[*n].key).collect();
            f.push(("b".into(), key_list(w, &wk)));
            f.push(("c".into(), J::Arr(vec![])));
            let a = anchors(c);
            f.push(("a".into(), a));
            if ilk == "dip" {
                let d = crate::gen::digest_text(c);
                f.push(("di".into(), s(d)));
            }
        }
        Some(l) => {
            prior = w.events[l].said.clone();
            let pre = w.events[l].pre.clone();
            witnesses = w.events[l].witnesses.clone();
            f.push(("i".into(), s(pre)));
            f.push(("s".into(), s(format!("{sn:x}"))));
            f.push(("p".into(), s(prior.clone())));
            if ilk == "ixn" {
                keys = w.events[l].keys.clone();
                kt = w.events[l].kt.clone();
                next = w.events[l].next.clone();
                nt = w.events[l].nt.clone();
            } else {
                // enough of the keys committed to, perhaps not all, perhaps others with them, in any order
                let (before, rule_before) = (w.events[l].next.clone(), w.events[l].nt.clone());
                let mut shown: Vec<u32> = (0..before.len() as u32).collect();
                if before.len() < 10 {
                    for j in (0..before.len() as u32).rev() {
                        if c.chance(1, 3) {
                            let less: Vec<u32> = shown.iter().copied().filter(|x| *x != j).collect();
                            if rule_before.satisfied(&less) {
                                shown = less;
                            }
                        }
                    }
                }
                let mut ks: Vec<usize> = shown.iter().map(|j| before[*j as usize]).collect();
                if c.chance(1, 3) {
                    let n = 1 + c.below(2);
                    let more = some_keys(c, w, ctl, n)?;
                    ks.extend(more);
                }
                for i in 0..ks.len().min(6) {
                    if c.chance(1, 3) {
                        let j = c.below(ks.len());
                        ks.swap(i, j);
                    }
                }
                keys = ks;
                let n = if before.len() > 60 { 2 } else { crowd(c) };
                next = some_keys(c, w, ctl, n)?;
                let (r, rj) = rule(c, keys.len());
                let (q, qj) = rule(c, next.len());
                (kt, nt) = (r, q);
                f.push(("kt".into(), rj));
                f.push(("k".into(), key_list(w, &keys)));
                f.push(("nt".into(), qj));
                let d = digests(c, w, &next)?;
                f.push(("n".into(), J::Arr(d)));
                f.push(("bt".into(), s(format!("{:x}", witnesses.len()))));
                f.push(("br".into(), J::Arr(vec![])));
                f.push(("ba".into(), J::Arr(vec![])));
            }
            let a = anchors(c);
            f.push(("a".into(), a));
        }
    }
    let (body, said) = compose(c, f, code, last.is_none() && !basic)?;
    let pre = body.str("i").to_string();
    let raw = body.text().into_bytes();
    let e = Event { ctl, pre, sn, est: ilk != "ixn", keys, kt, next, nt, prior, said, sound: true, witnesses, body, raw };
    Ok(w.register(e))
}

impl World {
    fn register(&mut self, e: Event) -> usize {
        if let Some(i) = self.by_raw.get(&e.raw) {
            return *i;
        }
        let i = self.events.len();
        self.by_raw.insert(e.raw.clone(), i);
        self.events.push(e);
        i
    }
    /// What the library's signer makes of it.
    fn sign(&mut self, c: &mut Ctx, key: usize, ev: usize, index: u32, ondex: Option<u32>, only: bool) -> R<Option<Wire>> {
        let raw = self.events[ev].raw.clone();
        let k = &self.keys[key].signer;
        let g = c.call("Signer.sign_indexed", || k.sign_indexed(&raw, only, index, if only { None } else { ondex }).ok().and_then(|g| wire(&g)))?;
        let Some(g) = g else { return c.fail("signing failed", format!("index {index} ondex {ondex:?} only {only}")) };
        let suite = self.keys[key].suite;
        c.ensure(g.code == suite.indexed_code(only, index, ondex) && g.index == index && (only || g.ondex == Some(ondex.unwrap_or(index))), "signature carries another place", || {
            format!("{suite:?} index {index} ondex {ondex:?} only {only}: {g:?}")
        })?;
        self.made.insert(g.raw.clone(), (key, ev));
        Ok(Some(g))
    }
    /// The places a key's signature of an event is for: its own, and the one it was committed to at.
    fn places(&self, ev: usize, i: usize) -> (Option<u32>, bool) {
        let e = &self.events[ev];
        if e.est && e.sn > 0 {
            let before = self.events.iter().find(|p| p.said == e.prior && p.pre == e.pre).map(|p| &p.next);
            match before.and_then(|b| b.iter().position(|k| *k == e.keys[i])) {
                Some(j) => (Some(j as u32), false),
                None => (None, true),
            }
        } else {
            (None, false)
        }
    }
    fn before(&self, ev: usize) -> Option<&Event> {
        let e = &self.events[ev];
        self.events.iter().find(|p| p.said == e.prior && p.pre == e.pre && p.sn + 1 == e.sn)
    }
    /// Whether signatures by these positions suffice.
    fn enough(&self, ev: usize, at: &[usize]) -> bool {
        let e = &self.events[ev];
        let now: Vec<u32> = at.iter().map(|i| *i as u32).collect();
        if !e.kt.satisfied(&now) {
            return false;
        }
        match self.before(ev) {
            Some(b) if e.est => {
                let j: Vec<u32> = at.iter().filter_map(|i| b.next.iter().position(|k| *k == e.keys[*i]).map(|x| x as u32)).collect();
                b.nt.satisfied(&j)
            }
            _ => true,
        }
    }
    /// A log as a node holds it.
    fn chain(&self, n: usize, pre: &str) -> Vec<usize> {
        self.nodes[n].log.iter().map(|r| r.ev).filter(|e| self.events[*e].pre == pre).collect()
    }
    /// What is right, from who signed what.
    fn truth(&self, n: usize, ev: usize, sigs: &[Wire]) -> Verdict {
        let e = &self.events[ev];
        let chain = self.chain(n, &e.pre);
        if e.sn != chain.len() as u128 {
            return Verdict::Skip;
        }
        let last = chain.last().map(|l| &self.events[*l]);
        if !e.sound || last.is_some_and(|l| l.said != e.prior) {
            return Verdict::Bad;
        }
        let (keys, kt) = match last {
            Some(l) if !e.est => (&l.keys, &l.kt),
            _ => (&e.keys, &e.kt),
        };
        let mut good = vec![];
        for (at, g) in sigs.iter().enumerate() {
            let Some(k) = keys.get(g.index as usize) else { continue };
            let Some((by, over)) = self.made.get(&g.raw) else { continue };
            if by != k || *over != ev {
                continue;
            }
            let mut next = None;
            if let (true, Some(l), Some(j)) = (e.est, last, g.ondex) {
                if l.next.get(j as usize) == Some(k) {
                    next = Some(j);
                }
            }
            good.push((at, g.index, next));
        }
        let now: Vec<u32> = good.iter().map(|g| g.1).collect();
        let mut enough = kt.satisfied(&now);
        if let (true, Some(l)) = (e.est, last) {
            let j: Vec<u32> = good.iter().filter_map(|g| g.2).collect();
            enough &= l.nt.satisfied(&j);
        }
        if enough {
            Verdict::Accept(good)
        } else {
            Verdict::Partial(good)
        }
    }
    fn pack(&self, c: &mut Ctx, parts: Vec<Part>, binary: bool) -> R<Rc<Packet>> {
        let mut bytes = vec![];
        for p in &parts {
            bytes.extend_from_slice(&self.events[p.ev].raw);
            for (code, texts) in [
                ("-A", p.sigs.iter().map(|g| g.text.clone()).collect::<Vec<_>>()),
                ("-B", p.wsigs.iter().map(|g| g.text.clone()).collect()),
                ("-C", p.couples.iter().map(|(v, g)| format!("{v}{g}")).collect()),
            ] {
                if texts.is_empty() {
                    continue;
                }
                let n = texts.len() as u32;
                let head = c.call("Counter", || Counter::new_with_code_and_count(code, n).ok().and_then(|x| if binary { x.qb2().ok() } else { x.qb64b().ok() }))?;
                let want = refc::counter_text(code, n as u64).unwrap();
                let want = if binary { refc::binary(&want) } else { want.into_bytes() };
                c.ensure(head.as_deref() == Some(&want[..]), "count is not what was counted", || format!("{code} {n}: {head:?}"))?;
                bytes.extend_from_slice(&want);
                let t = texts.concat();
                bytes.extend(if binary { refc::binary(&t) } else { t.into_bytes() });
            }
        }
        Ok(Rc::new(Packet { bytes, parts }))
    }
    fn link(&self, a: usize, b: usize) -> usize {
        a * self.nodes.len() + b
    }
    fn send(&mut self, c: &mut Ctx, from: usize, to: usize, p: &Rc<Packet>) {
        if self.cut[self.link(from, to)] {
            c.fault(Fault::NetPartition);
            return;
        }
        for (d, b) in self.net.transmit(c, &p.bytes) {
            self.q.push(c.now + d, Ev::Deliver { to, bytes: b, sent: p.clone() });
        }
    }

    /// Take a delivery apart, and each event in it.
    fn receive(&mut self, c: &mut Ctx, n: usize, bytes: &[u8], sent: Option<&Packet>) -> R<()> {
        let salt = c.draw(8);
        let code = self.code;
        let got = c.call("parsing a delivery", || parse(bytes, code, salt))?;
        c.mark_bytes(bytes);
        let mut listed = vec![];
        for p in &got {
            let l = |v: &[Siger]| v.iter().map(wire).collect::<Option<Vec<_>>>().unwrap_or_default();
            let one = c.call("signature accessors", || (p.serder.raw(), l(&p.sigs), l(&p.wsigs), p.couples.iter().map(|(v, g)| (v.qb64().unwrap_or_default(), g.qb64().unwrap_or_default())).collect::<Vec<_>>()))?;
            listed.push(one);
        }
        if let Some(sent) = sent {
            let same = listed.len() == sent.parts.len() && listed.iter().zip(&sent.parts).all(|(l, p)| l.0 == self.events[p.ev].raw && l.1 == p.sigs && l.2 == p.wsigs && l.3 == p.couples);
            c.ensure(same, "delivery misread", || {
                format!(
                    "{} events were sent, {} read; {:?} were sent as {:?}",
                    sent.parts.len(),
                    listed.len(),
                    listed.iter().map(|l| (l.1.len(), l.2.len(), l.3.len())).collect::<Vec<_>>(),
                    sent.parts.iter().map(|p| (p.sigs.len(), p.wsigs.len(), p.couples.len())).collect::<Vec<_>>()
                )
            })?;
        }
        for (p, l) in got.into_iter().zip(listed) {
            self.consider(c, n, p, l.1, l.2)?;
        }
        Ok(())
    }
    fn consider(&mut self, c: &mut Ctx, n: usize, p: Parsed, mut sigs: Vec<Wire>, wsigs: Vec<Wire>) -> R<()> {
        let (raw, pre) = c.call("Serder accessors", || (p.serder.raw(), p.serder.pre().unwrap_or_default()))?;
        let known = self.by_raw.get(&raw).copied();
        // signatures which came before count too
        let mut sigers = p.sigs;
        if let Some(more) = self.nodes[n].escrow.get(&raw) {
            for m in c.call("Siger.clone", || more.clone())? {
                let w = c.call("signature accessors", || wire(&m))?.unwrap();
                if !sigs.contains(&w) {
                    sigs.push(w);
                    sigers.push(m);
                }
            }
        }
        let state = self.nodes[n].states.get(&pre).cloned();
        let (got, st) = c.call("judging an event", || judge(state.as_ref(), &p.serder, &sigers))?;
        match known {
            None => {
                c.probe("altered event judged");
                let bad = matches!(got, Verdict::Accept(_)) || matches!(&got, Verdict::Partial(g) if !g.is_empty());
                c.ensure(!bad, "event nobody made is vouched for", || format!("node {n}: {} was found {got:?}", String::from_utf8_lossy(&raw)))?;
                return Ok(());
            }
            Some(ev) => {
                let want = self.truth(n, ev, &sigs);
                let class = match (&got, &want) {
                    (Verdict::Accept(_), Verdict::Accept(_)) => "signatures misjudged",
                    (Verdict::Accept(_), _) => "event accepted wrongly",
                    (_, Verdict::Accept(_)) => "event refused wrongly",
                    _ => "event misjudged",
                };
                c.ensure(got == want, class, || {
                    let e = &self.events[ev];
                    format!("node {n} with {} events of the log: event {ev} ({} of controller {}) was found {got:?}, is {want:?}: {}", self.chain(n, &e.pre).len(), e.sn, e.ctl, String::from_utf8_lossy(&e.raw))
                })?;
                match got {
                    Verdict::Skip => {}
                    Verdict::Bad => c.probe("bad event refused"),
                    Verdict::Partial(good) => {
                        c.probe("event held back for want of signatures");
                        // only what verifies is kept
                        let keep: Vec<Siger> = sigers.into_iter().enumerate().filter(|(i, _)| good.iter().any(|x| x.0 == *i)).map(|x| x.1).collect();
                        self.nodes[n].escrow.insert(raw.clone(), keep);
                    }
                    Verdict::Accept(good) => {
                        let keep: Vec<Wire> = good.iter().map(|x| sigs[x.0].clone()).collect();
                        self.admit(c, n, ev, keep, st.unwrap())?;
                    }
                }
                self.receipts(c, n, ev, &p.wsigs, &wsigs, &p.couples)?;
            }
        }
        Ok(())
    }
    /// Accept: into memory and onto the disk, which keeps it only once flushed.
    fn admit(&mut self, c: &mut Ctx, n: usize, ev: usize, sigs: Vec<Wire>, st: KeyState) -> R<()> {
        let skew = self.nodes[n].skew;
        seam::set_clock(Some((1_700_000_000 + skew + (c.now / 1_000_000_000) as i64, (c.now % 1_000_000_000) as i64)));
        let binary = self.nodes[n].binary;
        let place = self.nodes[n].log.len() as u128;
        let tail = c.call("first seen couple", || {
            let d = Dater::new(None, None, None, None, None, None).ok()?;
            let (k, q) = (Counter::new_with_code_and_count("-E", 1).ok()?, Seqner::new_with_sn(place).ok()?);
            let b = if binary { [k.qb2().ok()?, q.qb2().ok()?, d.qb2().ok()?] } else { [k.qb64b().ok()?, q.qb64b().ok()?, d.qb64b().ok()?] };
            Some((b.concat(), d.dts().ok()?))
        })?;
        let Some((tail, dts)) = tail else { return c.fail("no first seen couple", format!("{place}")) };
        let p = self.pack(c, vec![Part { ev, sigs: sigs.clone(), ..Default::default() }], binary)?;
        let mut rec = p.bytes.clone();
        rec.extend(tail);
        let node = &mut self.nodes[n];
        let len = node.disk.len();
        if node.disk.append(c, &rec).is_err() {
            node.disk.truncate(len);
            c.probe("disk refused an event");
            return Ok(());
        }
        let e = &self.events[ev];
        node.escrow.remove(&e.raw);
        node.log.push(Record { ev, end: len + rec.len(), dts, sigs });
        node.states.insert(e.pre.clone(), st);
        self.accepted += 1;
        c.probe("event accepted");
        let (pre, at) = (e.pre.clone(), e.sn);
        c.note(|| format!("node {n} accepts event {ev}: {at} of {}", &pre[..8.min(pre.len())]));
        c.mark((n as u64) << 40 | ev as u64);
        let epoch = self.nodes[n].epoch;
        let d = if c.chance(1, 3) { c.draw(120) } else { c.draw(20) } * MS;
        self.q.push(c.now + d, Ev::Flush(n, epoch));
        Ok(())
    }
    /// Witnesses' indexed signatures and watchers' couples.
    fn receipts(&mut self, c: &mut Ctx, n: usize, ev: usize, sigers: &[Siger], sigs: &[Wire], couples: &[(Verfer, Cigar)]) -> R<()> {
        let e = &self.events[ev];
        if !self.nodes[n].log.iter().any(|r| r.ev == ev) {
            return Ok(());
        }
        let Some(st) = self.nodes[n].states.get(&e.pre).cloned() else { return Ok(()) };
        let raw = &e.raw;
        for (g, w) in sigers.iter().zip(sigs) {
            // what is held is not looked at again
            if self.nodes[n].receipts.range((ev, 0)..=(ev, usize::MAX)).any(|x| x.1 .0 && x.1 .1 == *w) {
                continue;
            }
            let ok = c.call("witness signature", || st.witnesses.get(g.index() as usize).is_some_and(|v| matches!(v.verify(&g.raw(), raw), Ok(true))))?;
            let by = e.witnesses.get(w.index as usize).map(|x| (*x, self.nodes[*x].key));
            let made = self.made.get(&w.raw);
            let want = by.is_some_and(|(_, k)| made == Some(&(k, ev)));
            c.ensure(ok == want, if want { "receipt refused" } else { "forged receipt counted" }, || format!("node {n}, event {ev}: witness {} {}", w.index, w.text))?;
            if ok {
                self.nodes[n].receipts.insert((ev, by.unwrap().0), (true, w.clone()));
                c.probe("witness signature counted");
            }
        }
        for (v, g) in couples {
            let t = c.call("receipt couple", || (v.qb64().unwrap_or_default(), g.qb64().unwrap_or_default()))?;
            if self.nodes[n].receipts.range((ev, 0)..=(ev, usize::MAX)).any(|x| !x.1 .0 && x.1 .1.text == t.1 && self.keys[self.nodes[x.0 .1].key].text == t.0) {
                continue;
            }
            let (ok, vt, code, gr, text, own) = c.call("receipt couple", || (matches!(v.verify(&g.raw(), raw), Ok(true)) && !v.transferable(), v.qb64().unwrap_or_default(), g.code(), g.raw(), g.qb64().unwrap_or_default(), g.verfer() == *v))?;
            c.ensure(own, "signature lost its key", || text.clone())?;
            let by = (0..self.nodes.len()).find(|i| self.keys[self.nodes[*i].key].text == vt);
            let made = self.made.get(&gr);
            let want = by.is_some_and(|x| made == Some(&(self.nodes[x].key, ev)));
            // any non-transferable key may vouch for itself; only the nodes' count here
            if by.is_none() {
                let maker = made.map(|m| self.keys[m.0].text.clone());
                c.ensure(!ok || maker == Some(vt.clone()), "forged receipt counted", || format!("node {n}, event {ev}: {vt} {text}"))?;
                continue;
            }
            c.ensure(ok == want, if want { "receipt refused" } else { "forged receipt counted" }, || format!("node {n}, event {ev}: {vt} {text}"))?;
            if ok {
                self.nodes[n].receipts.insert((ev, by.unwrap()), (false, Wire { code, index: 0, ondex: None, raw: gr, text }));
                c.probe("receipt couple counted");
            }
        }
        Ok(())
    }
    /// What was flushed is vouched for.
    fn flush(&mut self, c: &mut Ctx, n: usize) -> R<()> {
        if self.nodes[n].disk.sync(c).is_err() {
            let epoch = self.nodes[n].epoch;
            self.q.push(c.now + 3 * MS, Ev::Flush(n, epoch));
            return Ok(());
        }
        let from = self.nodes[n].synced;
        for k in from..self.nodes[n].log.len() {
            self.vouch(c, n, k)?;
        }
        self.nodes[n].synced = self.nodes[n].log.len();
        Ok(())
    }
    fn vouch(&mut self, c: &mut Ctx, n: usize, k: usize) -> R<()> {
        let ev = self.nodes[n].log[k].ev;
        let place = (self.events[ev].pre.clone(), self.events[ev].sn);
        let before = *self.nodes[n].witnessed.entry(place).or_insert(ev);
        c.ensure(before == ev, "two events at one place", || format!("node {n} vouched for event {before} and now holds event {ev}"))?;
        let key = self.nodes[n].key;
        let w = self.events[ev].witnesses.iter().position(|x| *x == n);
        let g = match w {
            Some(i) => self.sign(c, key, ev, i as u32, None, c.idx & 1 == 1)?.map(|g| (true, g)),
            None => {
                let raw = self.events[ev].raw.clone();
                let k = &self.keys[key].signer;
                let g = c.call("Signer.sign_unindexed", || k.sign_unindexed(&raw).ok().and_then(|g| Some((g.code(), g.raw(), g.qb64().ok()?))))?;
                let Some((code, raw, text)) = g else { return c.fail("signing failed", "receipt".into()) };
                self.made.insert(raw.clone(), (key, ev));
                Some((false, Wire { code, index: 0, ondex: None, raw, text }))
            }
        };
        if let Some(g) = g {
            self.nodes[n].receipts.insert((ev, n), g);
        }
        Ok(())
    }
    /// An event as a node passes it on, with what it knows of it.
    fn part(&self, n: usize, k: usize) -> Part {
        let r = &self.nodes[n].log[k];
        let mut p = Part { ev: r.ev, sigs: r.sigs.clone(), ..Default::default() };
        for ((_, by), (indexed, w)) in self.nodes[n].receipts.range((r.ev, 0)..=(r.ev, usize::MAX)) {
            if *indexed {
                p.wsigs.push(w.clone());
            } else {
                p.couples.push((self.keys[self.nodes[*by].key].text.clone(), w.text.clone()));
            }
        }
        p
    }
    fn summary(&self, c: &mut Ctx, n: usize) -> R<Vec<u8>> {
        let mut out = vec![];
        for (pre, st) in &self.nodes[n].states {
            let sn = st.sn;
            let t = c.call("summary", || Some((Prefixer::new_with_qb64(pre).ok()?.qb64().ok()?, Seqner::new_with_sn(sn).ok()?.qb64().ok()?)))?;
            let Some((a, b)) = t else { return c.fail("no summary", pre.clone()) };
            out.extend_from_slice(a.as_bytes());
            out.extend_from_slice(b.as_bytes());
        }
        Ok(out)
    }
    fn answer(&mut self, c: &mut Ctx, n: usize, to: usize, bytes: &[u8]) -> R<()> {
        let theirs = c.call("reading a summary", || {
            let mut at = 0;
            let mut m = BTreeMap::new();
            while at < bytes.len() {
                let Ok(p) = Prefixer::new_with_qb64b(&bytes[at..]) else { break };
                at += p.full_size().unwrap_or(4);
                let Some(rest) = bytes.get(at..) else { break };
                let Ok(q) = Seqner::new_with_qb64b(rest) else { break };
                at += q.full_size().unwrap_or(4);
                if let (Ok(p), Ok(q)) = (p.qb64(), q.sn()) {
                    m.insert(p, q);
                }
            }
            m
        })?;
        let mut parts = vec![];
        let most = if self.calm { usize::MAX } else { 1 + c.below(4) };
        for k in 0..self.nodes[n].log.len() {
            let e = &self.events[self.nodes[n].log[k].ev];
            if self.calm || theirs.get(&e.pre).is_none_or(|sn| e.sn > *sn) {
                parts.push(self.part(n, k));
            }
        }
        if parts.is_empty() && !self.nodes[n].log.is_empty() {
            // nothing new: news of an old one
            let k = c.below(self.nodes[n].log.len());
            parts.push(self.part(n, k));
        }
        parts.truncate(most);
        if parts.len() > 1 && !self.calm && c.chance(1, 8) {
            let (i, j) = (c.below(parts.len()), c.below(parts.len()));
            parts.swap(i, j);
            c.fault(Fault::NetReorder);
        }
        if !parts.is_empty() {
            let p = self.pack(c, parts, self.nodes[n].binary)?;
            self.send(c, n, to, &p);
        }
        Ok(())
    }
    /// After a crash only the disk is left.
    fn recover(&mut self, c: &mut Ctx, n: usize) -> R<()> {
        let rot = self.nodes[n].disk.rot;
        let b = self.nodes[n].disk.read(c);
        let rotten = rot > 0 && b != self.nodes[n].disk.durable;
        let old = std::mem::take(&mut self.nodes[n].log);
        let whole = old.iter().take_while(|r| r.end <= b.len()).count();
        self.nodes[n].states.clear();
        let mut at = 0;
        let mut k = 0;
        let mut log = vec![];
        let mut seen: BTreeMap<String, u128> = BTreeMap::new();
        while at < b.len() {
            let rest = &b[at..];
            let salt = c.draw(8);
            let code = self.code;
            let states = &self.nodes[n].states;
            let got = c.call("reading a record", || {
                let mut p = parse_one(rest, code, salt)?;
                let (q, d) = p.seen.take()?;
                if q.sn().ok()? != k as u128 {
                    return None;
                }
                let st = states.get(&p.serder.pre().ok()?);
                let (v, st) = judge(st, &p.serder, &p.sigs);
                Some((p.serder.raw(), d.dts().ok()?, p.sigs.iter().map(wire).collect::<Option<Vec<_>>>()?, v, st, p.size))
            })?;
            let Some((raw, dts, sigs, Verdict::Accept(_), Some(st), size)) = got else { break };
            let known = self.by_raw.get(&raw).copied();
            let Some(ev) = known else { return c.fail("event nobody made is vouched for", format!("node {n} reread {}", String::from_utf8_lossy(&raw))) };
            let e = &self.events[ev];
            let next = seen.get(&e.pre).map_or(0, |x| x + 1);
            c.ensure(k < old.len() && old[k].ev == ev && e.sn == next, "log reread differs", || format!("node {n}, record {k}: event {ev}, was {:?}", old.get(k).map(|r| r.ev)))?;
            seen.insert(e.pre.clone(), e.sn);
            if !rotten {
                c.ensure(dts == old[k].dts && sigs == old[k].sigs && at + size == old[k].end, "log reread differs", || format!("node {n}, record {k}: {dts} {} signatures, ends at {}; was {} {} {}", sigs.len(), at + size, old[k].dts, old[k].sigs.len(), old[k].end))?;
            }
            self.nodes[n].states.insert(e.pre.clone(), st);
            at += size;
            log.push(Record { ev, end: at, dts: old[k].dts.clone(), sigs: old[k].sigs.clone() });
            k += 1;
        }
        if !rotten {
            c.ensure(k == whole, "stored event lost", || format!("node {n}: {whole} whole records on disk, {k} reread"))?;
            let synced = self.nodes[n].synced;
            c.ensure(k >= synced, "stored event lost", || format!("node {n}: {synced} records were flushed, {k} reread"))?;
        }
        self.nodes[n].disk.truncate(at);
        self.nodes[n].log = log;
        self.nodes[n].synced = k;
        if rotten {
            // what the disk lost is lost
            let held: Vec<usize> = self.nodes[n].log.iter().map(|r| r.ev).collect();
            self.nodes[n].witnessed.retain(|_, e| held.contains(e));
        }
        c.probe("log replayed");
        for k in 0..k {
            self.vouch(c, n, k)?;
        }
        // controllers on this node reread their keys
        for ctl in 0..self.ctls.len() {
            if ctl != n {
                continue;
            }
            let ks = self.ctls[ctl].keys.clone();
            for k in ks.into_iter().rev().take(8) {
                let (f, b) = (self.keys[k].form, self.keys[k].stored.clone());
                match sign::read_signer(c, f, &b, Some(true))? {
                    Some(x) => {
                        let (suite, seed) = (self.keys[k].suite, self.keys[k].seed.clone());
                        sign::judge_signer(c, &x, suite, true, &seed, "controller restarted")?;
                        self.keys[k].signer = x;
                    }
                    None => return c.fail("stored key refused", format!("{}", crate::kinds::hex(&b))),
                }
            }
        }
        Ok(())
    }
    /// A controller signs its next event, writes it down, then tells the others.
    fn publish(&mut self, c: &mut Ctx, ctl: usize) -> R<()> {
        let n = ctl;
        // the history is written down; how far it was published is seen from the log
        let at = self.chain(n, &self.events[self.ctls[ctl].history[0]].pre).len();
        if at >= self.ctls[ctl].history.len() || !self.nodes[n].up {
            return Ok(());
        }
        let ev = self.ctls[ctl].history[at];
        // enough of the keys, not always all
        let total = self.events[ev].keys.len();
        let mut signers: Vec<usize> = (0..total).collect();
        let drop: Vec<usize> = if total > 10 { (0..total - 1 - c.below(3)).collect() } else { (0..total).filter(|_| c.chance(1, 2)).collect() };
        for i in drop {
            let less: Vec<usize> = signers.iter().copied().filter(|x| *x != i).collect();
            if self.enough(ev, &less) {
                signers = less;
            }
        }
        let mut sigs = vec![];
        for i in signers {
            let (ondex, only) = self.places(ev, i);
            let only = only || (!self.events[ev].est || self.events[ev].sn == 0) && c.chance(1, 8);
            let key = self.events[ev].keys[i];
            sigs.extend(self.sign(c, key, ev, i as u32, ondex, only)?);
        }
        let own = self.pack(c, vec![Part { ev, sigs: sigs.clone(), ..Default::default() }], self.nodes[n].binary)?;
        self.receive(c, n, &own.bytes.clone(), Some(&own))?;
        if !self.nodes[n].log.iter().any(|r| r.ev == ev) {
            return Ok(());
        }
        if self.nodes[n].disk.sync(c).is_err() {
            return Ok(());
        }
        self.flush(c, n)?;
        self.ctls[ctl].published = self.ctls[ctl].published.max(at + 1);
        c.note(|| format!("controller {ctl} publishes event {ev} with {} signatures", sigs.len()));
        for to in 0..self.nodes.len() {
            if to == n {
                continue;
            }
            // together, or as they come from the keepers of the keys
            let pieces = if sigs.len() > 1 { 1 + c.below(3.min(sigs.len())) } else { 1 };
            let mut split: Vec<Vec<Wire>> = vec![vec![]; pieces];
            for g in &sigs {
                split[c.below(pieces)].push(g.clone());
            }
            for sigs in split {
                if !sigs.is_empty() {
                    let binary = c.chance(1, 2);
                    let p = self.pack(c, vec![Part { ev, sigs, ..Default::default() }], binary)?;
                    self.send(c, n, to, &p);
                }
            }
        }
        Ok(())
    }
    fn altered(&self, c: &mut Ctx, body: &J) -> J {
        let mut b = body.clone();
        let mut a = match b.get("a") {
            Some(J::Arr(a)) => a.clone(),
            _ => vec![],
        };
        let x = crate::gen::json(c, 1);
        a.push(J::Obj(vec![("x".into(), x)]));
        b.set("a", J::Arr(a));
        b
    }
    /// Someone who hears everything, holds keys which no longer count and too few which do.
    fn forge(&mut self, c: &mut Ctx) -> R<()> {
        c.fault(Fault::Forgery);
        let ctl = c.below(self.ctls.len());
        let published = self.ctls[ctl].published;
        if published == 0 {
            return Ok(());
        }
        let h = &self.ctls[ctl].history;
        let base = h[c.below(published)];
        let (to, from) = (c.below(self.nodes.len()), c.below(self.nodes.len()));
        let kind = c.draw(14);
        let mut ev = base;
        let mut sigs: Vec<Wire> = vec![];
        // all the signatures the event itself came with
        let genuine = |w: &World, ev: usize| w.nodes.iter().find_map(|n| n.log.iter().find(|r| r.ev == ev).map(|r| r.sigs.clone())).unwrap_or_default();
        match kind {
            0 | 1 => {
                // altered, its identifier made to fit or not, under the signatures of the original
                let body = self.altered(c, &self.events[base].body);
                let code = self.code;
                let (body, sound) = if kind == 0 && self.events[base].sn > 0 {
                    (refj::saidify(&body, code, "d", true, &[]).1, true)
                } else {
                    (refj::sized(body), false)
                };
                ev = self.variant(base, body, sound);
                sigs = genuine(self, base);
                c.note(|| "forger alters an event".into());
            }
            2 => {
                // too few signatures, repeated, moved to other places, under other codes
                let few = self.too_few(base);
                for i in few {
                    let (ondex, only) = self.places(base, i);
                    let key = self.events[base].keys[i];
                    let g = self.sign(c, key, base, i as u32, ondex, only)?.unwrap();
                    for k in 0..self.events[base].keys.len().min(5) {
                        let mut m = g.clone();
                        if k != i {
                            m.index = k as u32;
                            m.ondex = g.ondex.map(|_| k as u32);
                        }
                        sigs.extend(self.place(&m));
                        sigs.push(g.clone());
                    }
                }
                c.note(|| "forger repeats signatures".into());
            }
            3 => {
                // a new event signed by too few of the current keys, and by keys of its own
                let Some(e) = self.next_event(c, ctl)? else { return Ok(()) };
                ev = e;
                let few = self.too_few(ev);
                for i in 0..self.events[ev].keys.len().min(6) {
                    let (ondex, only) = self.places(ev, i);
                    let key = if few.contains(&i) { self.events[ev].keys[i] } else { self.stranger(c)? };
                    sigs.extend(self.sign(c, key, ev, i as u32, ondex, only)?);
                }
                c.note(|| "forger signs a new event with too few keys".into());
            }
            4 => {
                // a new event signed with keys which were rotated out
                let Some(e) = self.next_event(c, ctl)? else { return Ok(()) };
                let last = self.ctls[ctl].history[published - 1];
                let old: Vec<usize> = self.ctls[ctl].history[..published].iter().flat_map(|h| self.events[*h].keys.clone()).filter(|k| !self.events[last].keys.contains(k)).collect();
                if old.is_empty() || self.events[e].est {
                    return Ok(());
                }
                ev = e;
                for i in 0..self.events[ev].keys.len().min(4) {
                    let key = old[c.below(old.len())];
                    sigs.extend(self.sign(c, key, ev, i as u32, None, false)?);
                }
                c.note(|| "forger signs with keys rotated out".into());
            }
            5 => {
                // a rotation to keys of the forger's, signed by them and by every current key
                let last = self.ctls[ctl].history[published - 1];
                let n = 1 + c.below(3);
                let mut keys = vec![];
                for _ in 0..n {
                    keys.push(self.stranger(c)?);
                }
                // perhaps with some, but too few, of the keys committed to
                let b = &self.events[last];
                let shown: Vec<usize> = b.next.iter().copied().filter(|_| c.chance(1, 2)).collect();
                let at: Vec<u32> = shown.iter().map(|k| b.next.iter().position(|x| x == k).unwrap() as u32).collect();
                if !b.nt.satisfied(&at) && shown.len() < 5 {
                    keys.extend(shown);
                }
                let mut f: Vec<(String, J)> = vec![("v".into(), s(refj::version_string("KERI", 0))), ("t".into(), s("rot")), ("d".into(), s("")), ("i".into(), s(b.pre.clone())), ("s".into(), s(format!("{:x}", b.sn + 1))), ("p".into(), s(b.said.clone()))];
                let d: Vec<J> = keys.iter().map(|k| s(refj::digest_text("E", self.keys[*k].text.as_bytes()))).collect();
                let (sn, pre, prior, witnesses) = (b.sn + 1, b.pre.clone(), b.said.clone(), b.witnesses.clone());
                f.push(("kt".into(), s("1")));
                f.push(("k".into(), key_list(self, &keys)));
                f.push(("nt".into(), s("1")));
                f.push(("n".into(), J::Arr(d)));
                f.push(("bt".into(), s("0")));
                f.push(("br".into(), J::Arr(vec![])));
                f.push(("ba".into(), J::Arr(vec![])));
                f.push(("a".into(), J::Arr(vec![])));
                let body = refj::saidify(&J::Obj(f), self.code, "d", true, &[]).1;
                let said = body.str("d").to_string();
                let raw = body.text().into_bytes();
                ev = self.register(Event { ctl, pre, sn, est: true, keys: keys.clone(), kt: Rule::Count(1), next: keys.clone(), nt: Rule::Count(1), prior, said, sound: true, witnesses, body, raw });
                for (i, k) in keys.iter().enumerate() {
                    let ondex = match self.places(ev, i).0 {
                        Some(j) => j,
                        None => c.below(4) as u32,
                    };
                    sigs.extend(self.sign(c, *k, ev, i as u32, Some(ondex), false)?);
                }
                c.note(|| "forger rotates to its own keys".into());
            }
            6 => {
                // an inception of the forger's under the victim's prefix
                let first = self.ctls[ctl].history[0];
                let k = self.stranger(c)?;
                let mut body = self.events[first].body.clone();
                body.set("k", key_list(self, &[k]));
                body.set("kt", s("1"));
                let body = if c.chance(1, 2) { refj::saidify(&body, self.code, "d", true, &[]).1 } else { refj::sized(body) };
                ev = self.variant(first, body, false);
                self.events[ev].keys = vec![k];
                self.events[ev].kt = Rule::Count(1);
                sigs.extend(self.sign(c, k, ev, 0, None, false)?);
                c.note(|| "forger takes a prefix".into());
            }
            7 => {
                // fully signed, but not what its identifier says
                let Some(e) = self.next_event(c, ctl)? else { return Ok(()) };
                let mut body = self.events[e].body.clone();
                match c.draw(3) {
                    0 => body.set("d", s(self.events[base].said.clone())),
                    1 => body.set("d", s(refj::digest_text(self.code, b"x"))),
                    _ => {
                        let b = self.altered(c, &body);
                        body = refj::sized(b);
                    }
                }
                let body = refj::sized(body);
                ev = self.variant(e, body, false);
                sigs = self.all(c, ev)?;
                c.note(|| "an event which is not what it says it is".into());
            }
            8 => {
                // fully signed, but following something else
                let Some(e) = self.next_event(c, ctl)? else { return Ok(()) };
                let mut body = self.events[e].body.clone();
                let p = match c.draw(3) {
                    0 => refj::digest_text(self.code, b"x"),
                    1 => self.events[base].said.clone(),
                    _ => self.events[self.ctls[ctl].history[0]].prior.clone(),
                };
                if p == self.events[e].prior {
                    return Ok(());
                }
                body.set("p", s(p.clone()));
                let body = refj::saidify(&body, self.code, "d", true, &[]).1;
                let keys = self.events[e].keys.clone();
                ev = self.variant(e, body, true);
                self.events[ev].prior = p;
                for (i, k) in keys.iter().enumerate().take(5) {
                    sigs.extend(self.sign(c, *k, ev, i as u32, self.places(e, i).0, self.places(e, i).1)?);
                }
                c.note(|| "an event which follows something else".into());
            }
            9 | 10 => {
                // what was said before, in full or in part, with noise around it
                c.fault(Fault::StaleReplay);
                let all = genuine(self, base);
                for g in all {
                    if c.chance(1, 2) {
                        sigs.push(g.clone());
                    }
                    if c.chance(1, 2) {
                        let mut m = g.clone();
                        match c.draw(5) {
                            0 => m.index = [c.below(6) as u32, 63, 0][c.below(3)],
                            1 => m.ondex = m.ondex.map(|_| c.below(6) as u32),
                            2 => m.raw = c.random(64),
                            3 => {
                                let i = c.below(64);
                                m.raw[i] ^= 1 << c.draw(8);
                            }
                            _ => {
                                // the same signature as one of another kind
                                m.code = c.pick(crate::kinds::SIG).to_string();
                                m.ondex = if both(&m.code) { Some(m.index) } else { None };
                            }
                        }
                        if kind == 10 || c.chance(1, 2) {
                            let at = c.below(sigs.len() + 1);
                            if let Some(m) = self.place(&m) {
                                sigs.insert(at, m);
                            }
                        }
                    }
                }
                c.note(|| "an event is repeated with noise".into());
            }
            11 => {
                // signatures of one event on another
                let other = self.ctls[ctl].history[c.below(published)];
                sigs = genuine(self, other);
                c.note(|| "an event under another one's signatures".into());
            }
            12 => {
                // receipts nobody gave
                let mut p = Part { ev: base, sigs: genuine(self, base), ..Default::default() };
                let x = self.stranger(c)?;
                let g = self.sign(c, x, base, 0, None, false)?.unwrap();
                for i in 0..3 {
                    let mut m = g.clone();
                    m.index = i;
                    m.ondex = m.ondex.map(|_| i);
                    p.wsigs.extend(self.place(&m));
                }
                let n = c.below(self.nodes.len());
                let v = self.keys[self.nodes[n].key].text.clone();
                // another node's, another event's, or made up
                let raw = match c.draw(3) {
                    0 => g.raw.clone(),
                    1 => self.made.iter().find(|(_, m)| m.0 == self.nodes[n].key && m.1 != base).map(|m| m.0.clone()).unwrap_or(c.random(64)),
                    _ => self.made.iter().find(|(_, m)| m.0 != self.nodes[n].key && m.1 == base).map(|m| m.0.clone()).unwrap_or(c.random(64)),
                };
                p.couples.push((v, refc::matter_text("0B", &raw).unwrap()));
                let binary = c.chance(1, 2);
                let p = self.pack(c, vec![p], binary)?;
                c.note(|| "forged receipts".into());
                self.send(c, from, to, &p);
                return Ok(());
            }
            _ => {
                // a controller which says two things
                if self.ctls[ctl].fork.is_some() || published >= self.ctls[ctl].history.len() || !c.chance(1, 2) {
                    return Ok(());
                }
                let Some(e) = self.next_event(c, ctl)? else { return Ok(()) };
                ev = e;
                self.ctls[ctl].fork = Some(self.events[ev].sn);
                c.fault(Fault::Equivocation);
                sigs = self.all(c, ev)?;
                c.note(|| "a controller equivocates".into());
            }
        }
        if sigs.is_empty() && c.chance(1, 2) {
            return Ok(());
        }
        let binary = c.chance(1, 2);
        let mut parts = vec![Part { ev, sigs, ..Default::default() }];
        if c.chance(1, 4) && base != ev {
            parts.insert(c.below(2), Part { ev: base, sigs: genuine(self, base), ..Default::default() });
        }
        let p = self.pack(c, parts, binary)?;
        for t in 0..self.nodes.len() {
            if t == to || c.chance(1, 2) {
                self.send(c, from, t, &p);
            }
        }
        Ok(())
    }
    /// Every signature an event needs.
    fn all(&mut self, c: &mut Ctx, ev: usize) -> R<Vec<Wire>> {
        let mut sigs = vec![];
        for i in 0..self.events[ev].keys.len() {
            let (ondex, only) = self.places(ev, i);
            let key = self.events[ev].keys[i];
            sigs.extend(self.sign(c, key, ev, i as u32, ondex, only)?);
        }
        Ok(sigs)
    }
    /// An event like another, but for its text.
    fn variant(&mut self, of: usize, body: J, sound: bool) -> usize {
        let e = &self.events[of];
        let raw = body.text().into_bytes();
        let said = body.str("d").to_string();
        let n = Event { ctl: e.ctl, pre: e.pre.clone(), sn: e.sn, est: e.est, keys: e.keys.clone(), kt: e.kt.clone(), next: e.next.clone(), nt: e.nt.clone(), prior: e.prior.clone(), said, sound, witnesses: e.witnesses.clone(), body, raw };
        self.register(n)
    }
    /// What the controller might say next, and does not.
    fn next_event(&mut self, c: &mut Ctx, ctl: usize) -> R<Option<usize>> {
        let published = self.ctls[ctl].published;
        let later = self.ctls[ctl].history.split_off(published);
        let ilk = if c.chance(1, 2) { "ixn" } else { "rot" };
        let r = make(c, self, ctl, ilk);
        self.ctls[ctl].history.extend(later.iter().copied());
        let ev = r?;
        Ok(if later.contains(&ev) || self.ctls[ctl].history.contains(&ev) { None } else { Some(ev) })
    }
    fn stranger(&mut self, c: &mut Ctx) -> R<usize> {
        c.span(|c| new_key(c, self, true))
    }
    /// As many signers as do not suffice.
    fn too_few(&self, ev: usize) -> Vec<usize> {
        let mut some: Vec<usize> = vec![];
        for i in 0..self.events[ev].keys.len().min(6) {
            some.push(i);
            if self.enough(ev, &some) {
                some.pop();
            }
        }
        some
    }
    /// A signature written for another place, if it can be.
    fn place(&self, m: &Wire) -> Option<Wire> {
        let z = refc::indexer(&m.code)?;
        if m.raw.len() != z.raw() {
            return None;
        }
        let (ondex, ok) = if m.code.len() == 1 {
            // one place serves for both
            (m.index, m.index < 64)
        } else {
            (m.ondex.unwrap_or(0), m.index < 4096)
        };
        if !ok {
            return None;
        }
        let text = refc::indexer_text(&m.code, m.index, ondex, &m.raw)?;
        Some(Wire { ondex: if both(&m.code) { Some(ondex) } else { None }, text, ..m.clone() })
    }
    fn step(&mut self, c: &mut Ctx, e: Ev) -> R<()> {
        match e {
            Ev::Publish(ctl) => {
                self.publish(c, ctl)?;
                if !self.calm && self.chain(ctl, &self.events[self.ctls[ctl].history[0]].pre).len() < self.ctls[ctl].history.len() {
                    let d = (1 + c.draw(30)) * MS;
                    self.q.push(c.now + d, Ev::Publish(ctl));
                }
            }
            Ev::Timer(n, epoch) => {
                if self.nodes[n].epoch != epoch || !self.nodes[n].up {
                    return Ok(());
                }
                let d = if self.calm { 50 * MS } else { (20 + c.draw(40)) * MS };
                self.q.push(c.now + d, Ev::Timer(n, epoch));
                let b = self.summary(c, n)?;
                for to in 0..self.nodes.len() {
                    if to == n || !self.calm && c.chance(1, 2) {
                        continue;
                    }
                    if self.cut[self.link(n, to)] {
                        c.fault(Fault::NetPartition);
                        continue;
                    }
                    for (d, b) in self.net.transmit(c, &b) {
                        self.q.push(c.now + d, Ev::Summary { to, from: n, bytes: b });
                    }
                }
            }
            Ev::Flush(n, epoch) => {
                if self.nodes[n].epoch == epoch && self.nodes[n].up {
                    self.flush(c, n)?;
                }
            }
            Ev::Deliver { to, bytes, sent } => {
                if self.nodes[to].up {
                    let whole = bytes == sent.bytes;
                    self.receive(c, to, &bytes, if whole { Some(&sent) } else { None })?;
                }
            }
            Ev::Summary { to, from, bytes } => {
                if self.nodes[to].up {
                    self.answer(c, to, from, &bytes)?;
                }
            }
            Ev::Crash(n) => {
                if self.nodes[n].up {
                    self.nodes[n].disk.crash(c);
                    self.nodes[n].up = false;
                    self.nodes[n].epoch += 1;
                    self.nodes[n].escrow.clear();
                    self.nodes[n].receipts.clear();
                    c.note(|| format!("node {n} crashes"));
                    let d = c.draw(80) * MS;
                    self.q.push(c.now + d, Ev::Restart(n));
                }
            }
            Ev::Restart(n) => {
                if !self.nodes[n].up {
                    c.fault(Fault::NodeRestart);
                    c.note(|| format!("node {n} restarts"));
                    self.nodes[n].up = true;
                    if c.chance(1, 3) {
                        c.fault(Fault::ClockJump);
                        self.nodes[n].skew += c.range(0, 200_000) as i64 - 100_000;
                    }
                    self.recover(c, n)?;
                    let e = self.nodes[n].epoch;
                    self.q.push(c.now + MS, Ev::Timer(n, e));
                }
            }
            Ev::Partition(l, on) => {
                self.cut[l] = on && !self.calm;
                if !on {
                    c.fault(Fault::NetHeal);
                }
            }
            Ev::Forge => self.forge(c)?,
            Ev::Calm => {
                c.note(|| "faults stop".into());
                self.calm = true;
                self.net = NetCfg::quiet();
                self.cut.iter_mut().for_each(|x| *x = false);
                for n in 0..self.nodes.len() {
                    self.nodes[n].disk.faulty = 0;
                    self.nodes[n].disk.rot = 0;
                    if !self.nodes[n].up {
                        self.step(c, Ev::Restart(n))?;
                    }
                }
                for ctl in 0..self.ctls.len() {
                    for _ in 0..self.ctls[ctl].history.len() {
                        self.publish(c, ctl)?;
                    }
                }
                for n in 0..self.nodes.len() {
                    self.flush(c, n)?;
                }
            }
        }
        Ok(())
    }
}
pub fn scenario(c: &mut Ctx) -> R<()> {
    let r = story(c);
    seam::set_clock(Some((1_700_000_000, 123_456_000)));
    r
}
fn story(c: &mut Ctx) -> R<()> {
    let n = 2 + c.below(3);
    let ctls = 1 + c.below(2);
    let corrupting = c.chance(1, 2);
    let net = NetCfg::draw(c, corrupting);
    let code = if c.chance(1, 3) { *c.pick(refj::DIGESTS) } else { "E" };
    let mut w = World {
        code,
        keys: vec![],
        events: vec![],
        by_raw: BTreeMap::new(),
        made: BTreeMap::new(),
        ctls: vec![],
        nodes: vec![],
        q: Queue::new(),
        net,
        cut: vec![false; n * n],
        calm: false,
        accepted: 0,
    };
    for _ in 0..n {
        let key = new_key(c, &mut w, false)?;
        let skew = if c.chance(1, 2) { 0 } else { c.range(0, 100_000) as i64 - 50_000 };
        if skew != 0 {
            c.fault(Fault::ClockSkew);
        }
        let mut disk = Disk::default();
        disk.faulty = [0, 0, 8, 32][c.below(4)];
        disk.rot = [0, 0, 64][c.below(3)];
        let binary = c.chance(1, 2);
        w.nodes.push(Node { up: true, epoch: 0, disk, log: vec![], synced: 0, states: BTreeMap::new(), escrow: BTreeMap::new(), receipts: BTreeMap::new(), witnessed: BTreeMap::new(), key, skew, binary });
    }
    for ctl in 0..ctls {
        w.ctls.push(Controller { history: vec![], published: 0, keys: vec![], fork: None });
        let ilk = if c.chance(1, 6) { "dip" } else { "icp" };
        let e = c.span(|c| make(c, &mut w, ctl, ilk))?;
        w.ctls[ctl].history.push(e);
        // now and then one which takes more than one digit to number
        let more = if c.chance(1, 20) { 10 + c.below(if c.thorough { 60 } else { 16 }) } else { c.below(if c.thorough { 10 } else { 6 }) };
        for _ in 0..more {
            let ilk = if c.chance(1, 2) { if w.events[e].body.str("t") == "dip" { "drt" } else { "rot" } } else { "ixn" };
            let e = c.span(|c| make(c, &mut w, ctl, ilk))?;
            w.ctls[ctl].history.push(e);
        }
        w.q.push(c.draw(10) * MS, Ev::Publish(ctl));
    }
    for k in 0..n {
        w.q.push((5 + k as u64) * MS, Ev::Timer(k, 0));
    }
    let end = 100 + c.draw(300);
    let crashes = c.below(5);
    for _ in 0..crashes {
        let (at, k) = (c.draw(end), c.below(n));
        w.q.push(at * MS, Ev::Crash(k));
    }
    let cuts = c.below(4);
    for _ in 0..cuts {
        let (at, l, d) = (c.draw(end), c.below(n * n), c.draw(200));
        w.q.push(at * MS, Ev::Partition(l, true));
        w.q.push((at + d) * MS, Ev::Partition(l, false));
    }
    let forgeries = c.below(if c.thorough { 12 } else { 8 });
    for _ in 0..forgeries {
        let at = c.draw(end);
        w.q.push(at * MS, Ev::Forge);
    }
    w.q.push(end * MS, Ev::Calm);
    // every tick of the calm each node asks every other: two rounds for the events, two for the receipts
    let rounds = n as u64 + 4;
    let deadline = (end + rounds * 50) * MS;
    while let Some((at, e)) = w.q.pop() {
        if at > deadline {
            break;
        }
        c.now = c.now.max(at);
        c.span(|c| w.step(c, e))?;
        let h = w.nodes.iter().fold(0, |h, n| mix(h ^ (n.up as u64) << 60 ^ (n.log.len() as u64) << 32 ^ (n.escrow.len() as u64) << 16 ^ n.receipts.len() as u64));
        c.state(h);
        if w.calm && w.nodes.iter().all(|x| x.synced == x.log.len()) && c.now > (end + 50) * MS && settled(&w) {
            break;
        }
    }
    // and then everyone agrees
    agreement(c, &w)?;
    c.mark(hash_bytes(format!("{} {}", w.accepted, w.made.len()).as_bytes()));
    Ok(())
}

fn agreement(c: &mut Ctx, w: &World) -> R<()> {
    let n = w.nodes.len();
    for k in 0..n {
        for (i, ctl) in w.ctls.iter().enumerate() {
            let pre = &w.events[ctl.history[0]].pre;
            let got = w.chain(k, pre);
            for (sn, e) in got.iter().enumerate() {
                let e = &w.events[*e];
                c.ensure(e.sound && e.sn == sn as u128 && (sn == 0 || e.prior == w.events[got[sn - 1]].said), "log is not a chain", || format!("node {k}, controller {i}: {got:?}"))?;
            }
            let agreed = ctl.fork.map_or(ctl.history.len(), |f| f as usize);
            if ctl.fork.is_none() {
                c.ensure(got == ctl.history, "logs have not converged", || format!("node {k} holds {got:?} of controller {i}, which published {:?}", ctl.history))?;
                for e in &ctl.history {
                    let have: Vec<usize> = w.nodes[k].receipts.range((*e, 0)..=(*e, usize::MAX)).map(|x| x.0 .1).collect();
                    c.ensure(have.len() == n, "receipts have not converged", || format!("node {k} holds receipts of event {e} from {have:?} of {n} nodes"))?;
                }
            } else {
                c.ensure(got.len() >= agreed && got[..agreed] == ctl.history[..agreed], "logs have not converged", || format!("node {k} holds {got:?} of controller {i}, which published {:?} and forked at {agreed}", ctl.history))?;
            }
        }
    }
    Ok(())
}
fn settled(w: &World) -> bool {
    (0..w.nodes.len()).all(|k| {
        w.ctls.iter().all(|ctl| {
            let got = w.chain(k, &w.events[ctl.history[0]].pre);
            match ctl.fork {
                Some(f) => got.len() as u128 >= f && got[..f as usize] == ctl.history[..f as usize],
                None => got == ctl.history && ctl.history.iter().all(|e| w.nodes[k].receipts.range((*e, 0)..=(*e, usize::MAX)).count() == w.nodes.len()),
            }
        })
    })
}
