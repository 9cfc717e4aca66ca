//! C06: signers, verifiers, and a network and disks which damage what passes between them.
use crate::gen;
use crate::kinds;
use crate::refc;
use crate::world::*;
use cesride::{Cigar, Indexer, Matter, Salter, Siger, Signer, Verfer};
use ed25519_dalek::Signer as _;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Suite {
    Ed,
    K1,
    R1,
}
pub const SUITES: &[(Suite, &str)] = &[(Suite::Ed, "A"), (Suite::K1, "J"), (Suite::R1, "Q")];
impl Suite {
    pub fn of_key(code: &str) -> Option<Suite> {
        Some(match code {
            "B" | "D" => Suite::Ed,
            "1AAA" | "1AAB" => Suite::K1,
            "1AAI" | "1AAJ" => Suite::R1,
            _ => return None,
        })
    }
    pub fn seed_code(self) -> &'static str {
        ["A", "J", "Q"][self as usize]
    }
    pub fn key_code(self, transferable: bool) -> &'static str {
        [["B", "1AAA", "1AAI"], ["D", "1AAB", "1AAJ"]][transferable as usize][self as usize]
    }
    pub fn sig_code(self) -> &'static str {
        ["0B", "0C", "0I"][self as usize]
    }
    /// The code an indexed signature has to carry.
    pub fn indexed_code(self, only: bool, index: u32, ondex: Option<u32>) -> &'static str {
        let big = if only { index >= 64 } else { index >= 64 || ondex.unwrap_or(index) != index };
        match (big, only) {
            (false, false) => ["A", "C", "E"][self as usize],
            (false, true) => ["B", "D", "F"][self as usize],
            (true, false) => ["2A", "2C", "2E"][self as usize],
            (true, true) => ["2B", "2D", "2F"][self as usize],
        }
    }
    pub fn public(self, seed: &[u8]) -> Vec<u8> {
        match self {
            Suite::Ed => ed25519_dalek::SigningKey::from_bytes(seed.try_into().unwrap()).verifying_key().to_bytes().to_vec(),
            Suite::K1 => k256::ecdsa::SigningKey::from_slice(seed).unwrap().verifying_key().to_encoded_point(true).as_bytes().to_vec(),
            Suite::R1 => p256::ecdsa::SigningKey::from_slice(seed).unwrap().verifying_key().to_encoded_point(true).as_bytes().to_vec(),
        }
    }
    /// A signature by another implementation of the suite.
    pub fn sign(self, seed: &[u8], msg: &[u8]) -> Vec<u8> {
        match self {
            Suite::Ed => ed25519_dalek::SigningKey::from_bytes(seed.try_into().unwrap()).sign(msg).to_bytes().to_vec(),
            Suite::K1 => {
                let s: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from_slice(seed).unwrap().sign(msg);
                s.to_bytes().to_vec()
            }
            Suite::R1 => {
                let s: p256::ecdsa::Signature = p256::ecdsa::SigningKey::from_slice(seed).unwrap().sign(msg);
                s.normalize_s().unwrap_or(s).to_bytes().to_vec()
            }
        }
    }
    pub fn verify(self, key: &[u8], sig: &[u8], msg: &[u8]) -> bool {
        use ed25519_dalek::Verifier;
        match self {
            Suite::Ed => {
                let (Ok(k), Ok(s)) = (key.try_into(), sig.try_into()) else { return false };
                let Ok(k) = ed25519_dalek::VerifyingKey::from_bytes(k) else { return false };
                k.verify(msg, &ed25519_dalek::Signature::from_bytes(s)).is_ok()
            }
            Suite::K1 => {
                let (Ok(k), Ok(s)) = (k256::ecdsa::VerifyingKey::from_sec1_bytes(key), k256::ecdsa::Signature::try_from(sig)) else { return false };
                k.verify(msg, &s).is_ok()
            }
            Suite::R1 => {
                let (Ok(k), Ok(s)) = (p256::ecdsa::VerifyingKey::from_sec1_bytes(key), p256::ecdsa::Signature::try_from(sig)) else { return false };
                k.verify(msg, &s).is_ok()
            }
        }
    }
}

/// A node which signs, the seed it must be holding, and the disk it keeps it on.
struct Node {
    suite: Suite,
    transferable: bool,
    seed: Vec<u8>,
    signer: Signer,
    stored: Vec<u8>,
    form: u64,
}

/// A value in one of the three transport forms.
pub fn form(c: &mut Ctx, text: &str) -> (u64, Vec<u8>) {
    let f = c.draw(3);
    (f, if f == 2 { refc::binary(text) } else { text.as_bytes().to_vec() })
}

pub fn read_signer(c: &mut Ctx, f: u64, b: &[u8], t: Option<bool>) -> R<Option<Signer>> {
    let wide = c.chance(1, 2);
    c.call("Signer from stored form", || {
        match (f, wide) {
            (0, false) => Signer::new_with_qb64(std::str::from_utf8(b).ok()?, t),
            (0, true) => Signer::new(t, None, None, None, Some(std::str::from_utf8(b).ok()?), None),
            (1, false) => Signer::new_with_qb64b(b, t),
            (1, true) => Signer::new(t, None, None, Some(b), None, None),
            (_, false) => Signer::new_with_qb2(b, t),
            (_, true) => Signer::new(t, None, None, None, None, Some(b)),
        }
        .ok()
    })
}
pub fn read_verfer(c: &mut Ctx, f: u64, b: &[u8]) -> R<Option<Verfer>> {
    let wide = c.chance(1, 2);
    c.call("Verfer from wire", || {
        match (f, wide) {
            (0, false) => Verfer::new_with_qb64(std::str::from_utf8(b).ok()?),
            (0, true) => Verfer::new(None, None, None, Some(std::str::from_utf8(b).ok()?), None),
            (1, false) => Verfer::new_with_qb64b(b),
            (1, true) => Verfer::new(None, None, Some(b), None, None),
            (_, false) => Verfer::new_with_qb2(b),
            (_, true) => Verfer::new(None, None, None, None, Some(b)),
        }
        .ok()
    })
}

/// What the library's signer is, and that its published key is the suite's key for its seed.
pub fn judge_signer(c: &mut Ctx, s: &Signer, suite: Suite, transferable: bool, seed: &[u8], how: &str) -> R<()> {
    let (code, raw, v) = c.call("Signer accessors", || (s.code(), s.raw(), s.verfer()))?;
    c.ensure(code == suite.seed_code() && raw == seed, "signer holds another key", || format!("{how}: {suite:?} {} became {code} {}", kinds::hex(seed), kinds::hex(&raw)))?;
    let (vc, vr) = c.call("Verfer accessors", || (v.code(), v.raw()))?;
    let want = suite.public(seed);
    c.ensure(vc == suite.key_code(transferable) && vr == want, "published key is not the key's", || {
        format!("{how}: {suite:?} seed {} transferable {transferable}: published {vc} {}, want {} {}", kinds::hex(seed), kinds::hex(&vr), suite.key_code(transferable), kinds::hex(&want))
    })
}

/// A seed valid in every suite, with edges of the scalar range among them.
pub fn seed(c: &mut Ctx, suite: Suite) -> Vec<u8> {
    let mut v = vec![0u8; 32];
    match c.draw(12) {
        0 => v[31] = 1 + c.draw(3) as u8,
        1 => {
            // below the group order
            let n: &[u8; 32] = match suite {
                Suite::Ed => &[0xff; 32],
                Suite::K1 => b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xfe\xba\xae\xdc\xe6\xaf\x48\xa0\x3b\xbf\xd2\x5e\x8c\xd0\x36\x41\x41",
                Suite::R1 => b"\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\xff\xbc\xe6\xfa\xad\xa7\x17\x9e\x84\xf3\xb9\xca\xc2\xfc\x63\x25\x51",
            };
            v.copy_from_slice(n);
            if suite != Suite::Ed {
                v[31] -= 1 + c.draw(8) as u8;
            }
        }
        2 => {
            // leading or trailing zeros
            let k = 1 + c.below(24);
            let r = c.random(32);
            v[k..].copy_from_slice(&r[k..]);
            v[31] |= 1;
        }
        _ => v = gen::seed_for(c, suite.seed_code()),
    }
    v
}

pub fn message(c: &mut Ctx) -> Vec<u8> {
    // a whole file, once in a while
    if c.chance(1, 300) {
        let n = match c.draw(3) {
            0 => [65_535, 65_536, 65_537, 131_072, 1 << 20][c.below(5)] + c.below(3),
            // any size up to a few hundred thousand, every order of magnitude alike
            _ => {
                let k = 11 + c.below(8);
                (1 << k) + c.below(1 << k)
            }
        };
        let mut v = c.random(n);
        edges(c, &mut v);
        return v;
    }
    let n = match c.draw(6) {
        0 => 0,
        1 => 1 + c.below(3),
        2 => [31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257][c.below(14)],
        3 => c.below(3000),
        _ => c.below(200),
    };
    let mut v = if n > 300 { c.random(n) } else { c.bytes(n) };
    if c.chance(1, 6) {
        edges(c, &mut v);
    }
    v
}

/// What a careless reader of text would take off the ends, or the end of.
const EDGES: &[&[u8]] = &[b"\n", b"\r\n", b" ", b"\0", b"\t", b"\xef\xbb\xbf", b"}", b"=", b"\0\0\0\0", b"\r"];
pub fn edges(c: &mut Ctx, v: &mut Vec<u8>) {
    if c.chance(1, 3) {
        v.splice(0..0, c.pick(EDGES).iter().copied());
    }
    if c.chance(2, 3) {
        v.extend_from_slice(c.pick(EDGES));
    }
}

#[derive(Clone)]
struct Packet {
    from: usize,
    msg: usize,
    /// raw bytes of the signature
    sig: Vec<u8>,
    indexed: Option<(String, u32, u32)>,
    key_wire: (u64, Vec<u8>),
    sig_wire: (u64, Vec<u8>),
    text: Vec<u8>,
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    let n = 1 + c.below(4);
    let mut nodes: Vec<Node> = vec![];
    for _ in 0..n {
        let node = c.span(|c| birth(c, &nodes))?;
        nodes.push(node);
    }
    let mut msgs: Vec<Vec<u8>> = vec![];
    for _ in 0..1 + c.below(4) {
        let m = c.span(|c| {
            let mut m = message(c);
            if let (Some(p), true) = (msgs.last(), c.chance(1, 3)) {
                // close relatives of another message
                m = p.clone();
                match c.draw(6) {
                    4 => {
                        m.extend_from_slice(c.pick(EDGES));
                    }
                    5 => {
                        let _ = m.splice(0..0, c.pick(EDGES).iter().copied());
                    }
                    0 => m.push(c.draw(256) as u8),
                    1 => {
                        m.pop();
                    }
                    2 => m.insert(0, 0),
                    _ if !m.is_empty() => {
                        let i = c.below(m.len());
                        m[i] ^= 1 << c.draw(8);
                    }
                    _ => {}
                }
            }
            m
        });
        msgs.push(m);
    }
    let net = NetCfg::draw(c, false);
    let damage = [0, 8, 24][c.below(3)];
    // everything ever signed: (suite, seed, message, signature)
    let mut signed: Vec<(Suite, Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    let mut packets: Vec<Packet> = vec![];
    let mut q: Queue<(Packet, bool)> = Queue::new();
    for _ in 0..1 + c.below(8) {
        c.span(|c| -> R<()> {
            let from = c.below(nodes.len());
            if c.chance(1, 4) {
                restart(c, &mut nodes[from])?;
            }
            let msg = c.below(msgs.len());
            let p = sign(c, &nodes[from], from, msg, &msgs[msg])?;
            signed.push((nodes[from].suite, nodes[from].seed.clone(), msgs[msg].clone(), p.sig.clone()));
            c.mark_bytes(&p.sig);
            c.mark_bytes(&p.text);
            packets.push(p.clone());
            let at = c.draw(30) * 1_000_000;
            for (d, _) in net.transmit(c, b"") {
                let mut q2 = p.clone();
                let mut bad = false;
                if c.chance(damage, 32) {
                    bad = true;
                    forge(c, &mut q2, &packets, &nodes, &msgs);
                }
                q.push(at + d, (q2, bad));
            }
            Ok(())
        })?;
    }
    while let Some((at, (p, bad))) = q.pop() {
        c.now = at;
        deliver(c, &p, bad, &signed)?;
        c.state(mix_state(&p, bad));
    }
    Ok(())
}
fn mix_state(p: &Packet, bad: bool) -> u64 {
    let code = p.indexed.as_ref().map(|i| i.0.clone()).unwrap_or_default();
    crate::tape::hash_bytes(format!("{code} {} {} {} {bad}", p.key_wire.0, p.sig_wire.0, p.text.len().min(300)).as_bytes())
}

fn birth(c: &mut Ctx, others: &[Node]) -> R<Node> {
    let (suite, code) = *c.pick(SUITES);
    let transferable = !c.chance(1, 3);
    let t = if transferable && c.chance(1, 2) { None } else { Some(transferable) };
    let mut want = None;
    let signer = match c.draw(5) {
        0 => c.call("Signer fresh", || if code == "A" { Signer::new_with_defaults(t, None) } else { Signer::new_with_defaults(t, Some(code)) }.ok())?,
        1 => {
            // the same seed material in another suite
            let s = match others.last() {
                Some(o) => o.seed.clone(),
                None => gen::seed_for(c, code),
            };
            if crate::props::codes::possible_key(code, &s) {
                want = Some(s.clone());
                c.call("Signer from raw", || Signer::new_with_raw(&s, t, Some(code)).ok())?
            } else {
                c.call("Signer fresh", || Signer::new_with_defaults(t, Some(code)).ok())?
            }
        }
        2 => {
            let salt = c.random(16);
            let path = gen::b64_string(c, 3);
            c.call("Salter.signer", || Salter::new_with_raw(&salt, None, None).ok()?.signer(Some(code), t, Some(&path), None, Some(true)).ok())?
        }
        k => {
            let s = seed(c, suite);
            want = Some(s.clone());
            if k == 3 {
                c.call("Signer from raw", || Signer::new_with_raw(&s, t, Some(code)).ok())?
            } else {
                let (f, b) = form(c, &refc::matter_text(code, &s).unwrap());
                read_signer(c, f, &b, t)?
            }
        }
    };
    let Some(signer) = signer else {
        return c.fail("signing key refused", format!("{suite:?} {want:?}"));
    };
    let seed = match want {
        Some(w) => w,
        None => c.call("Signer.raw", || signer.raw())?,
    };
    c.ensure(crate::props::codes::possible_key(code, &seed) && seed.len() == 32, "not a key of its suite", || format!("{code} {}", kinds::hex(&seed)))?;
    judge_signer(c, &signer, suite, transferable, &seed, "created")?;
    let mut node = Node { suite, transferable, seed, signer, stored: vec![], form: 0 };
    node.form = c.draw(3);
    let s = &node.signer;
    let f = node.form;
    node.stored = c.call("Signer to stored form", || match f {
        0 => s.qb64().unwrap_or_default().into_bytes(),
        1 => s.qb64b().unwrap_or_default(),
        _ => s.qb2().unwrap_or_default(),
    })?;
    let text = refc::matter_text(node.suite.seed_code(), &node.seed).unwrap();
    let want = if f == 2 { refc::binary(&text) } else { text.into_bytes() };
    c.ensure(node.stored == want, "stored key differs from the code table", || format!("{:?}", String::from_utf8_lossy(&node.stored)))?;
    Ok(node)
}
fn restart(c: &mut Ctx, n: &mut Node) -> R<()> {
    c.fault(Fault::NodeCrash);
    c.fault(Fault::NodeRestart);
    let t = if n.transferable && c.chance(1, 2) { None } else { Some(n.transferable) };
    let stored = n.stored.clone();
    match read_signer(c, n.form, &stored, t)? {
        Some(s) => {
            judge_signer(c, &s, n.suite, n.transferable, &n.seed, "restarted")?;
            n.signer = if c.chance(1, 4) { s.clone() } else { s };
            Ok(())
        }
        None => c.fail("stored signing key refused", format!("{:?} {}", n.suite, kinds::hex(&stored))),
    }
}

/// Entropy which is interrupted and short; signing must not care.
fn slow_entropy(buf: *mut u8, len: usize, dev: bool) -> i64 {
    static K: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    if dev && buf.is_null() {
        return 0;
    }
    let k = K.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if k % 3 == 0 {
        return -(libc::EINTR as i64);
    }
    let n = if k % 3 == 1 { len.min(1 + (k % 7) as usize) } else { len };
    for i in 0..n {
        unsafe { *buf.add(i) = crate::tape::mix(k ^ (i as u64) << 32) as u8 }
    }
    n as i64
}

fn sign(c: &mut Ctx, node: &Node, from: usize, msg: usize, text: &[u8]) -> R<Packet> {
    let suite = node.suite;
    let want_key = refc::matter_text(suite.key_code(node.transferable), &suite.public(&node.seed)).unwrap();
    let key_wire = form(c, &want_key);
    let slow = c.chance(1, 8);
    if slow {
        c.fault(Fault::EntropyInterrupted);
        c.fault(Fault::EntropyShort);
        seam::set_entropy(Some(slow_entropy));
    }
    let s = &node.signer;
    let p = if c.chance(1, 3) {
        let g = c.call("Signer.sign_unindexed", || s.sign_unindexed(text).ok())?;
        let Some(g) = g else { return c.fail("signing failed", format!("{suite:?} unindexed, {} bytes", text.len())) };
        let (code, raw, vk, wire) = c.call("Cigar accessors", || (g.code(), g.raw(), g.verfer().qb64().unwrap_or_default(), g.qb64().unwrap_or_default()))?;
        c.ensure(code == suite.sig_code(), "signature of another suite", || format!("{suite:?} made {code}"))?;
        c.ensure(vk == want_key, "signature carries another key", || format!("{suite:?}: {vk}, made under {want_key}"))?;
        let t = refc::matter_text(&code, &raw).unwrap_or_default();
        c.ensure(wire == t, "signature encoded differently", || format!("{wire} for {t}"))?;
        Packet { from, msg, sig: raw, indexed: None, key_wire, sig_wire: form(c, &t), text: text.to_vec() }
    } else {
        let only = c.chance(1, 3);
        let top = c.chance(1, 2);
        let index = if top { c.number(4095) as u32 } else { c.draw(70) as u32 };
        let ondex = match c.draw(5) {
            0 | 1 => None,
            2 => Some(index),
            3 => Some(gen::related(c, index, 4095)),
            _ => Some(c.number(4095) as u32),
        };
        if c.chance(1, 16) {
            // indices no code has room for
            let i = 4096 + c.number(u32::MAX as u128 - 4096) as u32;
            let (bi, bo) = if only || c.chance(1, 2) { (i, ondex) } else { (index, Some(i)) };
            let g = c.call("Signer.sign_indexed", || s.sign_indexed(text, only, bi, bo).map(|g| (g.index(), g.ondex())).ok())?;
            c.ensure(g.is_none(), "signature for an index it cannot carry", || format!("only={only} {bi}/{bo:?}: {g:?}"))?;
        }
        let g = c.call("Signer.sign_indexed", || s.sign_indexed(text, only, index, ondex).ok())?;
        let Some(g) = g else { return c.fail("signing failed", format!("{suite:?} only={only} index {index} ondex {ondex:?}, {} bytes", text.len())) };
        let (code, raw, vk, wire, gi, go) = c.call("Siger accessors", || (g.code(), g.raw(), g.verfer().qb64().unwrap_or_default(), g.qb64().unwrap_or_default(), g.index(), g.ondex()))?;
        let wc = suite.indexed_code(only, index, ondex);
        c.ensure(code == wc, "signature of another suite or list", || format!("{suite:?} only={only} index {index} ondex {ondex:?} made {code}, want {wc}"))?;
        c.ensure(vk == want_key, "signature carries another key", || format!("{suite:?}: {vk}, made under {want_key}"))?;
        let wo = if only { 0 } else { ondex.unwrap_or(index) };
        c.ensure(gi == index && go == wo, "signature carries other indices", || format!("{code} made for {index}/{ondex:?} (only={only}) carries {gi}/{go}"))?;
        let t = refc::indexer_text(&code, index, wo, &raw).unwrap_or_default();
        c.ensure(wire == t, "signature encoded differently", || format!("{wire} for {t}"))?;
        Packet { from, msg, sig: raw, indexed: Some((code, index, wo)), key_wire, sig_wire: form(c, &t), text: text.to_vec() }
    };
    if slow {
        let s = c.draw(u64::MAX);
        crate::run::quiet_machine(s);
    }
    // any other implementation of the suite agrees
    let pk = suite.public(&node.seed);
    c.ensure(suite.verify(&pk, &p.sig, text), "not a signature of the message", || format!("{suite:?} sig {} over {} bytes", kinds::hex(&p.sig), text.len()))?;
    if suite == Suite::Ed {
        c.ensure(p.sig == suite.sign(&node.seed, text), "signature differs from the standard's", || format!("sig {} over {} bytes", kinds::hex(&p.sig), text.len()))?;
    }
    Ok(p)
}

const ED_L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
const K1_N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];

/// A packet no honest signer sent.
fn forge(c: &mut Ctx, p: &mut Packet, all: &[Packet], nodes: &[Node], msgs: &[Vec<u8>]) {
    c.fault(Fault::Forgery);
    let other = c.pick(all).clone();
    match c.draw(9) {
        0 => {
            // one bit of the text
            if !p.text.is_empty() {
                let i = c.below(p.text.len());
                p.text[i] ^= 1 << c.draw(8);
            } else {
                p.text.push(0);
            }
        }
        1 => p.text = c.pick(msgs).clone(),
        2 => {
            let mut t = p.text.clone();
            c.corrupt(&mut t);
            p.text = t;
        }
        3 => {
            c.fault(Fault::WrongKey);
            p.key_wire = other.key_wire;
        }
        4 => {
            // the key under another code of the same size: same suite or not
            c.fault(Fault::WrongKey);
            let n = &nodes[p.from];
            let pk = n.suite.public(&n.seed);
            let codes: &[&str] = if n.suite == Suite::Ed { &["B", "D"] } else { &["1AAA", "1AAB", "1AAI", "1AAJ"] };
            let code = *c.pick(codes);
            p.key_wire = form(c, &refc::matter_text(code, &pk).unwrap());
        }
        5 => {
            // one bit of the key
            c.fault(Fault::WrongKey);
            let n = &nodes[p.from];
            let mut pk = n.suite.public(&n.seed);
            let i = c.below(pk.len());
            pk[i] ^= 1 << c.draw(8);
            p.key_wire = form(c, &refc::matter_text(n.suite.key_code(n.transferable), &pk).unwrap());
        }
        6 => {
            // altered signature, still well encoded
            let mut s = p.sig.clone();
            match c.draw(8) {
                0 | 1 => {
                    let i = c.below(64);
                    s[i] ^= 1 << c.draw(8);
                }
                2 => s = vec![0; 64],
                3 => s = vec![0xff; 64],
                4 => s.rotate_left(32),
                5 if nodes[p.from].suite == Suite::K1 => {
                    // n - s: a second signature from the first, without the key
                    let mut borrow = 0i32;
                    for i in (0..32).rev() {
                        let d = K1_N[i] as i32 - s[32 + i] as i32 - borrow;
                        borrow = (d < 0) as i32;
                        s[32 + i] = d as u8;
                    }
                }
                5 => {
                    // S + L: the same scalar, not the same bytes
                    let mut carry = 0u32;
                    for i in 0..32 {
                        carry += s[32 + i] as u32 + ED_L[i] as u32;
                        s[32 + i] = carry as u8;
                        carry >>= 8;
                    }
                }
                6 => s[32..].fill(0),
                _ => {
                    s[..32].fill(0);
                    s[31] = 1;
                }
            }
            resign(c, p, &s);
        }
        7 => p.sig_wire = other.sig_wire,
        _ => {
            c.fault(Fault::NetCorrupt);
            let mut b = p.sig_wire.1.clone();
            c.corrupt(&mut b);
            p.sig_wire.1 = b;
        }
    }
}
fn resign(c: &mut Ctx, p: &mut Packet, s: &[u8]) {
    let t = match &p.indexed {
        Some((code, i, o)) => refc::indexer_text(code, *i, *o, s).unwrap(),
        None => {
            let code = ["0B", "0C", "0I"][c.below(3)];
            refc::matter_text(code, s).unwrap()
        }
    };
    p.sig_wire = form(c, &t);
}

fn deliver(c: &mut Ctx, p: &Packet, bad: bool, signed: &[(Suite, Vec<u8>, Vec<u8>, Vec<u8>)]) -> R<()> {
    let v = match read_verfer(c, p.key_wire.0, &p.key_wire.1)? {
        Some(v) => v,
        None if bad => {
            c.checks += 1;
            return Ok(());
        }
        None => return c.fail("published key refused", format!("{:?}", String::from_utf8_lossy(&p.key_wire.1))),
    };
    let (vc, vr) = c.call("Verfer accessors", || (v.code(), v.raw()))?;
    let with = c.chance(2, 3);
    let vo = if with { Some(&v) } else { None };
    let wide = c.chance(1, 2);
    let (f, b) = (p.sig_wire.0, &p.sig_wire.1[..]);
    // the signature, read by the receiver
    let got: Option<(Vec<u8>, Verfer, Option<(u32, u32)>, String)> = if p.indexed.is_some() {
        c.call("Siger from wire", || {
            let t = if f == 0 { Some(std::str::from_utf8(b).ok()?) } else { None };
            let g = match (f, wide) {
                (0, false) => Siger::new_with_qb64(t?, vo),
                (0, true) => Siger::new(vo, None, None, None, None, None, t, None),
                (1, false) => Siger::new_with_qb64b(b, vo),
                (1, true) => Siger::new(vo, None, None, None, None, Some(b), None, None),
                (_, false) => Siger::new_with_qb2(b, vo),
                (_, true) => Siger::new(vo, None, None, None, None, None, None, Some(b)),
            }
            .ok()?;
            Some((g.raw(), g.verfer(), Some((g.index(), g.ondex())), g.code()))
        })?
    } else {
        c.call("Cigar from wire", || {
            let t = if f == 0 { Some(std::str::from_utf8(b).ok()?) } else { None };
            let g = match (f, wide) {
                (0, false) => Cigar::new_with_qb64(t?, vo),
                (0, true) => Cigar::new(vo, None, None, None, t, None),
                (1, false) => Cigar::new_with_qb64b(b, vo),
                (1, true) => Cigar::new(vo, None, None, Some(b), None, None),
                (_, false) => Cigar::new_with_qb2(b, vo),
                (_, true) => Cigar::new(vo, None, None, None, None, Some(b)),
            }
            .ok()?;
            Some((g.raw(), g.verfer(), None, g.code()))
        })?
    };
    let (sig, sv, at, code) = match got {
        Some(g) => g,
        None if bad => {
            c.checks += 1;
            return Ok(());
        }
        None => return c.fail("signature refused", format!("{:?}", String::from_utf8_lossy(b))),
    };
    if with {
        let same = c.call("Verfer accessors", || (sv.code(), sv.raw()) == (vc.clone(), vr.clone()))?;
        c.ensure(same, "signature carries another key", || format!("given {vc} {}", kinds::hex(&vr)))?;
    }
    if !bad {
        if let Some((wc, i, o)) = &p.indexed {
            c.ensure(at == Some((*i, *o)) && code == *wc, "signature carries other indices", || format!("sent {wc} {i}/{o}, received {code} {at:?}"))?;
        }
    }
    let key = if with && c.chance(1, 2) { &sv } else { &v };
    let mut sig2 = sig.clone();
    let mut cut = false;
    if c.chance(1, 10) {
        // a caller passing a signature of the wrong size
        cut = true;
        match c.draw(4) {
            0 => sig2.clear(),
            1 => {
                let n = c.below(sig2.len().max(1));
                sig2.truncate(n)
            }
            2 => sig2.push(0),
            _ => sig2.extend(sig.iter()),
        }
    }
    let suite = Suite::of_key(&vc);
    let made = suite.is_some_and(|s| signed.iter().any(|(su, seed, m, g)| *su == s && *m == p.text && *g == sig2 && s.public(seed) == vr));
    let got = c.call("Verfer.verify", || key.verify(&sig2, &p.text))?;
    if made {
        c.ensure(matches!(got, Ok(true)), "genuine signature does not verify", || format!("{vc} {} over {} bytes sig {}: {got:?}", kinds::hex(&vr), p.text.len(), kinds::hex(&sig2)))?;
        c.probe("genuine signature verified");
    } else {
        // the other half of a p256 signature (r, n-s) is a valid ECDSA signature: not reached by these alterations
        c.ensure(!matches!(got, Ok(true)), "forged signature verifies", || {
            format!("{vc} {} accepts {} over {} bytes (altered: {bad}, resized: {cut})", kinds::hex(&vr), kinds::hex(&sig2), p.text.len())
        })?;
        c.probe("forgery refused");
    }
    // signatures of any other implementation verify too
    if !bad && c.chance(1, 8) {
        if let Some((su, seed, _, _)) = signed.iter().find(|(su, seed, ..)| Some(*su) == suite && su.public(seed) == vr) {
            let g = su.sign(seed, &p.text);
            let ok = c.call("Verfer.verify", || v.verify(&g, &p.text))?;
            c.ensure(matches!(ok, Ok(true)), "another implementation's signature refused", || format!("{su:?} {} over {} bytes: {ok:?}", kinds::hex(&g), p.text.len()))?;
        }
    }
    Ok(())
}
