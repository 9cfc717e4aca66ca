//! A chain of nodes which relay and store a stream of items. Every node keeps the items in a log of
//! its own, in text or binary form, and knows nothing but what the library tells it: where an item
//! ends, what it is, and how to write it down again.
use crate::gen::{self, Item, Style};
use crate::kinds::{self, IKind, Kind, Probe};
use crate::refj::{self, J};
use crate::tape::mix;
use crate::world::*;
use cesride::*;

pub struct Types {
    pub ks: Vec<Kind>,
    pub iks: Vec<IKind>,
}
impl Types {
    pub fn new() -> Self {
        Types { ks: kinds::kinds(), iks: kinds::ikinds() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub raw: Vec<u8>,
    pub size: u32,
    pub said: Option<String>,
    pub seen: String,
    pub same: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    One(Probe),
    Msg(Msg),
}

/// Ask the library for the item at the head of `bytes`. `None`: it refused.
pub fn read(c: &mut Ctx, t: &Types, item: &Item, bytes: &[u8], binary: bool) -> R<Option<Got>> {
    let route = c.below(2);
    kinds::company(c.below(4));
    let text = if binary {
        None
    } else if c.chance(1, 2) {
        std::str::from_utf8(bytes).ok()
    } else {
        None
    };
    Ok(match item {
        Item::Matter { kind, .. } => {
            let k = &t.ks[*kind];
            match (binary, text) {
                (true, _) => c.call("Matter from qb2", || (k.qb2)(route, bytes))?,
                (false, Some(x)) => c.call("Matter from qb64", || (k.qb64)(route, x))?,
                (false, None) => c.call("Matter from qb64b", || (k.qb64b)(route, bytes))?,
            }
            .map(Got::One)
        }
        Item::Indexed { kind, .. } => {
            let k = &t.iks[*kind];
            match (binary, text) {
                (true, _) => c.call("Indexer from qb2", || (k.qb2)(route, bytes))?,
                (false, Some(x)) => c.call("Indexer from qb64", || (k.qb64)(route, x))?,
                (false, None) => c.call("Indexer from qb64b", || (k.qb64b)(route, bytes))?,
            }
            .map(Got::One)
        }
        Item::Counter { .. } => match (binary, text) {
            (true, _) => c.call("Counter from qb2", || kinds::counter_qb2(route, bytes))?,
            (false, Some(x)) => c.call("Counter from qb64", || kinds::counter_qb64(route, x))?,
            (false, None) => c.call("Counter from qb64b", || kinds::counter_qb64b(route, bytes))?,
        }
        .map(Got::One),
        Item::Message { cred, code, body, .. } => read_message(c, *cred, code, body, bytes, route)?.map(Got::Msg),
    })
}
pub fn read_message(c: &mut Ctx, cred: bool, code: &str, body: &J, bytes: &[u8], route: usize) -> R<Option<Msg>> {
    let plain = code == "E" && route == 0;
    if cred {
        c.call("Creder from bytes", || {
            let m = if plain { Creder::new_with_raw(bytes) } else { Creder::new(Some(code), Some(bytes), None, None, None) }.ok()?;
            Some(Msg { raw: m.raw(), size: m.size(), said: m.said().ok(), seen: kinds::inspect_creder(&m), same: crate::refj::same(body, &m.ked()) })
        })
    } else {
        c.call("Serder from bytes", || {
            let m = if plain { Serder::new_with_raw(bytes) } else { Serder::new(Some(code), Some(bytes), None, None, None) }.ok()?;
            Some(Msg { raw: m.raw(), size: m.size(), said: m.said().ok(), seen: kinds::inspect_serder(&m), same: crate::refj::same(body, &m.ked()) })
        })
    }
}

/// What was read must be what was written.
pub fn judge(c: &mut Ctx, t: &Types, item: &Item, got: &Got, binary: bool) -> R<()> {
    let domain = if binary { "binary" } else { "text" };
    match (item, got) {
        (Item::Message { cred, body, text, .. }, Got::Msg(m)) => {
            c.ensure(m.raw == text.as_bytes(), "message bytes changed", || format!("read {}\nsent {text}", String::from_utf8_lossy(&m.raw)))?;
            c.ensure(m.size as usize == text.len(), "size is not the size of the message", || format!("{} for {} bytes: {text}", m.size, text.len()))?;
            c.ensure(m.same, "message content changed", || format!("read back with other content or order: {text}\n{}", m.seen))?;
            c.ensure(m.said.as_deref() == Some(body.str("d")), "message identifier changed", || format!("{:?} for {text}", m.said))?;
            expect_fields(c, *cred, body, text, &m.seen)
        }
        (_, Got::One(p)) => {
            let (code, raw, index, ondex, want): (&str, &[u8], u32, u32, &[(&str, String)]) = match item {
                Item::Matter { code, raw, want, .. } => (code, raw, 0, 0, want),
                Item::Indexed { code, raw, index, ondex, .. } => (code, raw, *index, *ondex, &[]),
                Item::Counter { code, count, .. } => (code, &[], *count, 0, &[]),
                _ => unreachable!(),
            };
            let text = item.text();
            let tbd = matches!(item, Item::Indexed { code, .. } if code.ends_with('z'));
            c.ensure(p.code == code && p.raw == raw, "another value was read", || {
                format!("{domain} {text}: sent {code} {}, read {} {}", kinds::hex(raw), p.code, kinds::hex(&p.raw))
            })?;
            c.ensure(p.index == index && (tbd || p.ondex == ondex), "another index or count was read", || {
                format!("{domain} {text}: sent {index}/{ondex}, read {}/{}", p.index, p.ondex)
            })?;
            c.ensure(p.full_size == Some(text.len()), "full size is not the size occupied", || format!("{domain} {text}: {:?}, occupies {}", p.full_size, text.len()))?;
            c.ensure(p.qb64.as_deref() == Some(text) && p.qb64b.as_deref() == Some(text.as_bytes()), "text form changed", || {
                format!("{domain} {text}: written again as {:?}", p.qb64)
            })?;
            c.ensure(p.qb2.as_deref() == Some(&item.bytes(true)[..]), "binary form changed", || {
                format!("{domain} {text}: written again as {:?}", p.qb2.as_ref().map(|b| kinds::hex(b)))
            })?;
            if let Item::Matter { kind, .. } = item {
                // how many quadlets a variable item has
                if crate::refc::matter(code).map(|z| z.fs == 0).unwrap_or(false) {
                    let z = crate::refc::matter(code).unwrap();
                    let quads = (text.len() - z.hs - z.ss) / 4;
                    c.ensure(p.size as usize == quads, "size changed", || format!("{} {text}: size {} for {quads} quadlets", t.ks[*kind].name, p.size))?;
                }
                for (k, v) in want {
                    c.ensure(p.more(k) == Some(v), "value changed", || format!("{} {text}: {k} is {:?}, was {v}", t.ks[*kind].name, p.more.iter().find(|(n, _)| n == k)))?;
                }
                let eq = p.more("clone");
                c.ensure(eq.is_none() || eq == Some("true"), "a copy differs from the original", || text.to_string())?;
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn field<'a>(seen: &'a str, k: &str) -> &'a str {
    seen.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("<none>")
}
/// The accessors of a message, from its content alone.
pub fn expect_fields(c: &mut Ctx, cred: bool, body: &J, text: &str, seen: &str) -> R<()> {
    let mut want: Vec<(&str, String)> = vec![];
    let get = |k: &str| body.get(k);
    // everything in a list is of its kind, or the list cannot be read
    let list = |k: &str, codes: &[&str]| -> Option<String> {
        let a = match get(k) {
            None => return Some(String::new()),
            Some(J::Arr(a)) => a,
            Some(J::Str(x)) if x.is_empty() && k == "n" => return Some(String::new()),
            _ => return None,
        };
        let mut o = vec![];
        for e in a {
            match e {
                J::Str(x) => match crate::refc::matter_read(x.as_bytes()) {
                    Ok(i) if codes.contains(&i.code.as_str()) => o.push(x.as_str()),
                    _ => return Some("!".into()),
                },
                _ => return Some("!".into()),
            }
        }
        Some(o.join(","))
    };
    // a field which is a text, or cannot be read
    let text_of = |k: &str| -> String {
        match get(k) {
            Some(J::Str(x)) => x.clone(),
            _ => "!".into(),
        }
    };
    let hex = |s: &str| kinds::hex(s.as_bytes());
    want.push(("ident", if cred { "ACDC" } else { "KERI" }.into()));
    want.push(("kind", "JSON".into()));
    want.push(("size", text.len().to_string()));
    want.push(("said", body.str("d").into()));
    want.push(("saidb", hex(body.str("d"))));
    want.push(("ked", text.into()));
    want.push(("raw", hex(text)));
    if cred {
        want.push(("crd", text.into()));
        want.push(("issuer", text_of("i")));
        want.push(("schema", text_of("s")));
        want.push(("subject", get("a").map(|a| a.text()).unwrap_or("null".into())));
        want.push(("status", match get("ri") {
            Some(J::Str(s)) => s.clone(),
            None => "none".into(),
            _ => "!".into(),
        }));
        want.push(("chains", get("e").map(|a| a.text()).unwrap_or("{}".into())));
    } else {
        want.push(("pre", text_of("i")));
        want.push(("preb", match get("i") {
            Some(J::Str(x)) => hex(x),
            _ => "!".into(),
        }));
        for (k, codes, a) in [("k", kinds::VER, "verfers"), ("n", kinds::DIG, "digers"), ("b", kinds::VER, "werfers")] {
            if let Some(w) = list(k, codes) {
                want.push((a, w));
            }
        }
        want.push(("est", match get("t") {
            Some(J::Str(ilk)) => ["icp", "rot", "dip", "drt"].contains(&ilk.as_str()).to_string(),
            _ => "!".into(),
        }));
        match get("s") {
            Some(J::Str(x)) if x.is_empty() || x.starts_with('+') => {}
            Some(J::Str(x)) => {
                want.push(("sn", u128::from_str_radix(x, 16).map(|n| n.to_string()).unwrap_or("!".into())));
            }
            _ => want.push(("sn", "!".into())),
        }
        for (k, a) in [("kt", "tholder"), ("nt", "ntholder")] {
            want.push((a, get(k).map(sith_form).unwrap_or("none".into())));
        }
        match get("f") {
            None => {
                want.push(("fner", "none".into()));
                want.push(("fn", "!".into()));
            }
            Some(J::Str(f)) => match crate::refc::matter_read(f.as_bytes()) {
                Ok(i) if kinds::NUMB.contains(&i.code.as_str()) => {
                    want.push(("fner", f.clone()));
                    want.push(("fn", i.raw.iter().fold(0u128, |a, b| a << 8 | *b as u128).to_string()));
                }
                _ => want.extend([("fner", "!".into()), ("fn", "!".into())]),
            },
            _ => want.extend([("fner", "!".into()), ("fn", "!".into())]),
        }
    }
    // what is shown to people is the same content, or the start of it
    let pretty = field(seen, "pretty-all").replace('\u{e000}', "\n");
    c.ensure(refj::parse(&pretty).as_ref() == Some(body), "message field changed", || format!("shown as {pretty:?}, must show {text}"))?;
    for l in seen.lines().filter_map(|l| l.strip_prefix("pretty-n=")) {
        let (n, shown) = l.split_once(' ').unwrap_or((l, ""));
        let (n, shown) = (n.parse::<usize>().unwrap_or(0), shown.replace('\u{e000}', "\n"));
        let ok = pretty.starts_with(&shown) && shown.len() <= n && (shown.len() + 4 > n || shown.len() == pretty.len());
        c.ensure(ok, "message field changed", || format!("first {n} bytes shown as {shown:?} of {pretty:?}"))?;
    }
    for (k, v) in want {
        let s = field(seen, k);
        let v = v.replace('\n', "\u{e000}").replace('\r', "\u{e001}");
        c.ensure(s == v, "message field changed", || format!("{k} is {s}, must be {v} in {text}"))?;
    }
    Ok(())
}
/// A threshold as the library prints it.
fn sith_form(j: &J) -> String {
    match j {
        J::Int(i) => format!("\"{i:x}\""),
        J::Str(s) => format!("\"{s}\""),
        J::Arr(a) => {
            // one clause is shown as a plain list
            if a.len() == 1 && matches!(a[0], J::Arr(_)) {
                return a[0].text().replace("\"1/1\"", "\"1\"");
            }
            j.text().replace("\"1/1\"", "\"1\"")
        }
        _ => "?".into(),
    }
}

pub struct Cfg {
    pub style: Style,
    pub fragment: bool,
    /// this share (in 64) of complete items is also read with foreign bytes behind it
    pub trailing: u64,
}

struct Node {
    up: bool,
    epoch: u64,
    disk: Disk,
    have: usize,
    synced: usize,
    rx: Vec<u8>,
    mode: u64,
}

enum Ev {
    Produce,
    Timer(usize, u64),
    Poll { to: usize, off: usize },
    Segment { to: usize, off: usize, bytes: Vec<u8> },
    Crash(usize),
    Restart(usize),
    Partition(usize, bool),
    Calm,
}

struct Sim<'a> {
    t: &'a Types,
    cfg: &'a Cfg,
    items: Vec<Item>,
    nodes: Vec<Node>,
    q: Queue<Ev>,
    net: NetCfg,
    cut: Vec<bool>,
    calm: bool,
    total: usize,
    salt: u64,
}

const MS: u64 = 1_000_000;

impl<'a> Sim<'a> {
    /// In which form a node writes its n-th item.
    fn binary(&self, node: usize, n: usize) -> bool {
        match self.nodes[node].mode {
            0 => false,
            1 => true,
            _ => mix(self.salt ^ (node as u64) << 32 ^ n as u64) & 1 == 1,
        }
    }
    fn size(&self, node: usize, n: usize) -> usize {
        let i = &self.items[n];
        match i {
            Item::Message { text, .. } => text.len(),
            _ if self.binary(node, n) => i.text().len() / 4 * 3,
            _ => i.text().len(),
        }
    }
    fn offset(&self, node: usize, n: usize) -> usize {
        (0..n).map(|k| self.size(node, k)).sum()
    }
    fn written(&self, got: &Got, binary: bool) -> Vec<u8> {
        match got {
            Got::Msg(m) => m.raw.clone(),
            Got::One(p) if binary => p.qb2.clone().unwrap_or_default(),
            Got::One(p) => p.qb64b.clone().unwrap_or_default(),
        }
    }
    /// Write the next item down for good. False: the disk refused and nothing changed.
    fn store(&mut self, c: &mut Ctx, n: usize, b: &[u8]) -> bool {
        let len = self.nodes[n].disk.len();
        let d = &mut self.nodes[n].disk;
        if d.append(c, b).is_err() {
            d.truncate(len);
            return false;
        }
        if d.sync(c).is_err() {
            d.truncate(len);
            return false;
        }
        self.nodes[n].have += 1;
        self.nodes[n].synced = self.nodes[n].have;
        true
    }
    fn send(&mut self, c: &mut Ctx, link: usize, b: &[u8], make: impl Fn(Vec<u8>) -> Ev) {
        if self.cut[link] {
            c.fault(Fault::NetPartition);
            return;
        }
        for (d, p) in self.net.transmit(c, b) {
            self.q.push(c.now + d, make(p));
        }
    }
    /// Read as many items as have arrived.
    fn drain(&mut self, c: &mut Ctx, n: usize) -> R<()> {
        loop {
            let k = self.nodes[n].have;
            let arrived = self.nodes[n].rx.len();
            if arrived == 0 {
                return Ok(());
            }
            if k >= self.items.len() {
                return Ok(());
            }
            let binary = self.binary(n - 1, k);
            let need = self.size(n - 1, k);
            let item = self.items[k].clone();
            let rx = self.nodes[n].rx.clone();
            let got = read(c, self.t, &item, &rx, binary)?;
            c.mark((n as u64) << 48 | (k as u64) << 32 | arrived as u64);
            if arrived < need {
                c.probe("incomplete item offered");
                c.ensure(got.is_none(), "incomplete item misread", || {
                    format!("{arrived} of {need} bytes ({}) of {} were read as {got:?}", if binary { "binary" } else { "text" }, item.show())
                })?;
                return Ok(());
            }
            let got = match got {
                Some(g) => g,
                None => return c.fail("complete item refused", format!("{} ({}, {arrived} bytes at hand, needs {need}) was refused: {}", item.show(), if binary { "binary" } else { "text" }, item.text())),
            };
            c.probe("item read from the stream");
            judge(c, self.t, &item, &got, binary)?;
            if c.chance(self.cfg.trailing, 64) {
                c.fault(Fault::NetTrailing);
                let mut b = item.bytes(binary);
                let n = 1 + c.below(12);
                let tail = if c.chance(1, 3) { c.pick(&[&b"{"[..], b"-", b"\"", b"A", b"\xff\xfe", b"}", b"=", b"\0", b"\xe2\x82"]).to_vec() } else { c.random(n) };
                b.extend_from_slice(&tail);
                match read(c, self.t, &item, &b, binary)? {
                    Some(g) => judge(c, self.t, &item, &g, binary)?,
                    None => return c.fail("refused because of what follows", format!("{} was refused when followed by {}", item.show(), kinds::hex(&tail))),
                }
            }
            // where the library says the item ends
            let ends = match &got {
                Got::Msg(m) => m.raw.len(),
                Got::One(p) => {
                    let f = p.full_size.unwrap_or(0);
                    if binary {
                        f * 3 / 4
                    } else {
                        f
                    }
                }
            };
            let own = self.binary(n, k);
            let b = self.written(&got, own);
            if !self.store(c, n, &b) {
                c.probe("disk refused an item");
                return Ok(());
            }
            self.nodes[n].rx.drain(..ends);
        }
    }
    /// After a crash only the log is left.
    fn recover(&mut self, c: &mut Ctx, n: usize) -> R<()> {
        let mut log = self.nodes[n].disk.read(c);
        let mut k = 0;
        let mut good = 0;
        while !log.is_empty() {
            if k >= self.items.len() {
                return c.fail("log holds more than was written", format!("node {n}: {} bytes after item {k}", log.len()));
            }
            let binary = self.binary(n, k);
            let need = self.size(n, k);
            let item = self.items[k].clone();
            let got = read(c, self.t, &item, &log, binary)?;
            if log.len() < need {
                c.probe("torn item at the end of a log");
                c.ensure(got.is_none(), "torn item misread", || format!("{} of {need} bytes of {} were read as {got:?}", log.len(), item.show()))?;
                break;
            }
            match got {
                Some(g) => judge(c, self.t, &item, &g, binary)?,
                None => return c.fail("stored item refused", format!("{} was refused from the log", item.show())),
            }
            log.drain(..need);
            good += need;
            k += 1;
        }
        self.nodes[n].disk.truncate(good);
        let synced = self.nodes[n].synced;
        c.ensure(k >= synced, "acknowledged item lost", || format!("node {n} had acknowledged {synced} items, its log gives {k}"))?;
        self.nodes[n].have = k;
        self.nodes[n].synced = k;
        c.probe("log replayed");
        Ok(())
    }
    fn step(&mut self, c: &mut Ctx, e: Ev) -> R<()> {
        match e {
            Ev::Produce => {
                let k = self.items.len();
                let item = c.span(|c| gen::item(c, &self.t.ks, &self.t.iks, self.cfg.style))?;
                c.note(|| format!("origin makes item {k}: {}", item.show()));
                c.mark_bytes(item.text().as_bytes());
                if self.cfg.fragment && item.text().len() <= 160 && c.chance(1, 6) {
                    every_cut(c, self.t, &item)?;
                }
                self.items.push(item);
                let b = self.binary(0, k);
                let bytes = self.items[k].bytes(b);
                self.nodes[0].disk.durable.extend_from_slice(&bytes);
                self.nodes[0].have += 1;
                self.nodes[0].synced += 1;
                if self.items.len() < self.total {
                    let d = c.draw(8) * MS;
                    self.q.push(c.now + d, Ev::Produce);
                }
            }
            Ev::Timer(n, epoch) => {
                if self.nodes[n].epoch != epoch {
                    return Ok(());
                }
                let d = 10 * MS + c.draw(8) * MS / 4;
                self.q.push(c.now + d, Ev::Timer(n, epoch));
                if self.nodes[n].up && n > 0 {
                    self.drain(c, n)?;
                    let off = self.offset(n - 1, self.nodes[n].have) + self.nodes[n].rx.len();
                    self.send(c, n - 1, &(off as u64).to_be_bytes(), |b| Ev::Poll { to: n - 1, off: u64::from_be_bytes(b.try_into().unwrap()) as usize });
                }
            }
            Ev::Poll { to, off } => {
                if !self.nodes[to].up {
                    return Ok(());
                }
                let log = self.nodes[to].disk.durable.clone();
                if off >= log.len() {
                    return Ok(());
                }
                let window = if self.calm { 1 << 20 } else { 1 + [8, 64, 512, 4096][c.below(4)] };
                let end = (off + window).min(log.len());
                let mut at = off;
                let pieces = if self.cfg.fragment { 1 + c.below(5) } else { 1 + c.below(2) };
                for p in 0..pieces {
                    if at >= end {
                        break;
                    }
                    let n = if p + 1 == pieces { end - at } else { 1 + c.below(end - at) };
                    if p > 0 {
                        c.fault(Fault::NetFragment);
                    }
                    let b = log[at..at + n].to_vec();
                    let here = at;
                    self.send(c, to, &b, |bytes| Ev::Segment { to: to + 1, off: here, bytes });
                    at += n;
                }
            }
            Ev::Segment { to, off, bytes } => {
                if !self.nodes[to].up {
                    return Ok(());
                }
                let start = self.offset(to - 1, self.nodes[to].have);
                let end = start + self.nodes[to].rx.len();
                if off <= end && off + bytes.len() > end {
                    if off < end {
                        c.fault(Fault::NetMerge);
                    }
                    self.nodes[to].rx.extend_from_slice(&bytes[end - off..]);
                    self.drain(c, to)?;
                }
            }
            Ev::Crash(n) => {
                if self.nodes[n].up {
                    let mut d = std::mem::take(&mut self.nodes[n].disk);
                    // a write may be under way
                    if n > 0 && self.nodes[n].have < self.items.len() && c.chance(1, 2) {
                        let k = self.nodes[n].have;
                        let b = self.items[k].bytes(self.binary(n, k));
                        d.cached.extend_from_slice(&b);
                    }
                    d.crash(c);
                    self.nodes[n].disk = d;
                    self.nodes[n].up = false;
                    self.nodes[n].epoch += 1;
                    self.nodes[n].rx.clear();
                    self.nodes[n].have = 0;
                    let d = c.draw(60) * MS;
                    self.q.push(c.now + d, Ev::Restart(n));
                }
            }
            Ev::Restart(n) => {
                if !self.nodes[n].up {
                    c.fault(Fault::NodeRestart);
                    self.nodes[n].up = true;
                    self.recover(c, n)?;
                    let e = self.nodes[n].epoch;
                    self.q.push(c.now + MS, Ev::Timer(n, e));
                }
            }
            Ev::Partition(l, on) => {
                self.cut[l] = on && !self.calm;
                if !on {
                    c.fault(Fault::NetHeal);
                }
            }
            Ev::Calm => {
                self.calm = true;
                self.net = NetCfg::quiet();
                for n in self.nodes.iter_mut() {
                    n.disk.faulty = 0;
                }
                self.cut.iter_mut().for_each(|x| *x = false);
                c.note(|| "faults stop".into());
            }
        }
        Ok(())
    }
}

/// Every way the network could have cut this item, in both forms.
pub fn every_cut(c: &mut Ctx, t: &Types, item: &Item) -> R<()> {
    for binary in [false, true] {
        if binary && matches!(item, Item::Message { .. }) {
            continue;
        }
        let b = item.bytes(binary);
        for n in 0..b.len() {
            let got = read(c, t, item, &b[..n], binary)?;
            c.ensure(got.is_none(), "incomplete item misread", || {
                format!("{n} of {} bytes ({}) of {} were read as {got:?}", b.len(), if binary { "binary" } else { "text" }, item.show())
            })?;
        }
    }
    c.probe("item cut at every byte");
    Ok(())
}

/// Build, relay, store, crash, recover, until everyone has everything. Gives back the items.
pub fn simulate(c: &mut Ctx, t: &Types, cfg: &Cfg) -> R<Vec<Item>> {
    let n = 2 + c.below(3);
    let total = 1 + c.below(if c.thorough { 24 } else { 12 });
    let net = NetCfg::draw(c, false);
    let faulty = [0, 0, 16, 48][c.below(4)];
    let salt = c.draw(1 << 32);
    let nodes = (0..n)
        .map(|k| Node {
            up: true,
            epoch: 0,
            disk: Disk { faulty: if k == 0 { 0 } else { faulty }, ..Default::default() },
            have: 0,
            synced: 0,
            rx: vec![],
            mode: c.draw(3),
        })
        .collect();
    let mut s = Sim { t, cfg, items: vec![], nodes, q: Queue::new(), net, cut: vec![false; n], calm: false, total, salt };
    s.q.push(0, Ev::Produce);
    for k in 1..n {
        let d = c.draw(10) * MS;
        s.q.push(d, Ev::Timer(k, 0));
    }
    let crashes = c.below(4);
    for _ in 0..crashes {
        let at = c.draw(150) * MS;
        let who = c.below(n);
        s.q.push(at, Ev::Crash(who));
    }
    if c.chance(1, 3) {
        let l = c.below(n - 1);
        let at = c.draw(60) * MS;
        let d = c.draw(60) * MS;
        s.q.push(at, Ev::Partition(l, true));
        s.q.push(at + d, Ev::Partition(l, false));
    }
    let calm_at = 150 * MS;
    s.q.push(calm_at, Ev::Calm);
    // once faults have stopped, everything is everywhere within this many rounds
    let limit = calm_at + 4_000 * MS;
    let mut steps = 0u64;
    loop {
        let done = s.items.len() == total && s.nodes.iter().all(|x| x.up && x.have == total);
        if done && s.calm {
            break;
        }
        let (at, e) = match s.q.pop() {
            Some(x) => x,
            None => break,
        };
        c.now = at;
        steps += 1;
        if at > limit || steps > 20_000 {
            break;
        }
        s.step(c, e)?;
        let st = s.nodes.iter().fold(total as u64, |h, x| mix(h ^ (x.have as u64) << 20 ^ (x.rx.len().min(64) as u64) << 4 ^ x.up as u64));
        c.state(st);
    }
    for k in 0..n {
        let have = s.nodes[k].have;
        c.ensure(have == total && s.nodes[k].up, "stream stalled", || format!("node {k} holds {have} of {total} items {} ms after the faults stopped", (limit - calm_at) / MS))?;
    }
    // and every log reads back as what was sent, in order
    for k in 0..n {
        s.recover(c, k)?;
        c.ensure(s.nodes[k].have == total, "log reads back differently", || format!("node {k}: {} of {total}", s.nodes[k].have))?;
    }
    Ok(s.items)
}
