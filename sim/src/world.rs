//! The simulated world: decisions, virtual time, network, disk, clock, entropy, and the record of it.
use crate::tape::{hash_bytes, mix, Tape};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type R<T> = Result<T, Violation>;

thread_local! {
    pub static PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let lib = seam::enter();
        seam::leave(0);
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if lib == 0 {
            // the simulator itself is broken
            eprintln!("simulator panic: {msg} at {loc}");
        }
        let loc = match loc.find("/src/") {
            Some(i) if loc.starts_with("/repo") => loc[i + 1..].to_string(),
            _ => loc.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"),
        };
        PANIC.with(|p| *p.borrow_mut() = (loc, msg));
        seam::leave(lib);
    }));
}

macro_rules! faults {
    ($($n:ident),* $(,)?) => {
        #[allow(dead_code)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(usize)]
        pub enum Fault { $($n),* }
        pub const FAULTS: &[&str] = &[$(stringify!($n)),*];
    };
}
faults!(
    NetDrop, NetDuplicate, NetReorder, NetDelay, NetCorrupt, NetTruncate, NetFragment, NetMerge, NetPartition,
    NetHeal, NetMisroute, NetTrailing, NodeCrash, NodeRestart, NodeStall, DiskLostWrites, DiskTornWrite,
    DiskShortWrite, DiskError, DiskFull, DiskBitRot, DiskShortRead, ClockSkew, ClockJump, ClockStall, EntropyInterrupted,
    EntropyShort, EntropyFailed, EntropyUnavailable, EntropyDelayed, EntropyUnseeded, MemoryPressure, AllocationRefused, MemoryCaptured,
    Preemption, CallFailed, ThreadPanicked, Forgery, Equivocation, StaleReplay, LyingHeader, WrongKey,
);

pub struct Ctx {
    pub tape: Tape,
    pub now: u64,
    pub keep: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub faults: [u64; FAULTS.len()],
    pub probes: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub checks: u64,
    pub calls: u64,
    pub idx: u64,
    pub thorough: bool,
    pub last_call: &'static str,
    /// overwrite the dead part of the stack before every call, so that nothing an earlier call left there is copied about
    pub wipe: bool,
}

#[inline(never)]
fn wipe_stack() {
    let mut a = [0u8; 96 << 10];
    std::hint::black_box(&mut a);
}

pub const STEP_LIMIT: u64 = 400_000_000;

impl Ctx {
    pub fn new(tape: Tape, idx: u64, thorough: bool, keep: bool) -> Self {
        Ctx {
            tape,
            now: 0,
            keep,
            trace: vec![],
            hash: 0x1234_5678,
            faults: [0; FAULTS.len()],
            probes: BTreeMap::new(),
            states: HashSet::new(),
            checks: 0,
            calls: 0,
            idx,
            thorough,
            last_call: "",
            wipe: false,
        }
    }
    // ---- decisions
    pub fn draw(&mut self, n: u64) -> u64 {
        self.tape.draw(n)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.tape.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.tape.draw(hi - lo + 1)
    }
    /// True `k` times in `n`; the simplest choice is false.
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.tape.draw(n) >= n - k
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len());
        &s[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // one draw seeds the lot: shrinking keeps its length and simplifies its content at once
        let style = self.draw(8);
        match style {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let b = self.draw(256) as u8;
                vec![b; n]
            }
            _ => {
                let seed = self.draw(u64::MAX);
                let mut r = crate::tape::Rng::new(seed);
                (0..n).map(|_| r.next() as u8).collect()
            }
        }
    }
    pub fn random(&mut self, n: usize) -> Vec<u8> {
        let seed = self.draw(u64::MAX);
        let mut r = crate::tape::Rng::new(seed ^ 0x5151);
        (0..n).map(|_| r.next() as u8).collect()
    }
    /// An integer that likes boundaries.
    pub fn number(&mut self, max: u128) -> u128 {
        let bits = 128 - max.leading_zeros() as u64;
        let v = match self.draw(6) {
            0 => self.draw(16) as u128,
            1 => {
                let b = self.draw(bits + 1) as u32;
                let p = if b >= 128 { u128::MAX } else { 1u128 << b };
                p.wrapping_sub(self.draw(2) as u128)
            }
            2 => {
                let b = self.draw(bits + 1) as u32;
                let p = if b >= 128 { u128::MAX } else { 1u128 << b };
                p.saturating_add(self.draw(3) as u128)
            }
            3 => max.saturating_sub(self.draw(3) as u128),
            4 => {
                let b = self.draw(bits) as u32;
                let r = ((self.draw(u64::MAX) as u128) << 64) | self.draw(u64::MAX) as u128;
                if b == 0 {
                    0
                } else {
                    r >> (128 - b)
                }
            }
            _ => ((self.draw(u64::MAX) as u128) << 64) | self.draw(u64::MAX) as u128,
        };
        if v > max {
            v % (max.saturating_add(1)).max(1)
        } else {
            v
        }
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.tape.begin();
        let r = f(self);
        self.tape.end();
        r
    }
    // ---- record
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.keep {
            if self.trace.len() < 20_000 {
                let line = format!("t={}us {}", self.now / 1000, f());
                self.trace.push(line);
            }
        }
    }
    pub fn mark(&mut self, h: u64) {
        self.hash = mix(self.hash ^ h);
    }
    pub fn mark_bytes(&mut self, b: &[u8]) {
        self.mark(hash_bytes(b));
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn fault(&mut self, f: Fault) {
        self.faults[f as usize] += 1;
        self.mark(0xFA00 + f as u64);
        if self.keep {
            self.note(|| format!("FAULT {f:?}"));
        }
    }
    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_insert(0) += 1;
    }
    // ---- judgement
    pub fn ensure(&mut self, ok: bool, class: &str, detail: impl FnOnce() -> String) -> R<()> {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            Err(Violation { class: class.to_string(), detail: detail() })
        }
    }
    pub fn fail<T>(&mut self, class: &str, detail: String) -> R<T> {
        Err(Violation { class: class.to_string(), detail })
    }
    /// Run the code under test. Panicking or failing to terminate is always a violation.
    pub fn call<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> R<T> {
        match self.attempt(name, f) {
            Ok(v) => Ok(v),
            Err((loc, msg)) => {
                Err(Violation { class: format!("panic at {loc}"), detail: format!("{name} panicked at {loc}: {msg}") })
            }
        }
    }
    /// As `call`, for calls which may legitimately panic.
    pub fn attempt<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> Result<T, (String, String)> {
        self.calls += 1;
        self.last_call = name;
        if self.keep {
            self.note(|| format!("call {name}"));
        }
        if self.wipe {
            wipe_stack();
        }
        seam::limit_steps(STEP_LIMIT);
        let prev = seam::enter();
        let r = catch_unwind(AssertUnwindSafe(f));
        seam::leave(prev);
        seam::limit_steps(u64::MAX);
        r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
    }
    // ---- damage
    pub fn corrupt(&mut self, v: &mut Vec<u8>) -> &'static str {
        const NASTY: &[&[u8]] = &[
            b"=", b"==", b"-", b"_", b"+", b"/", b"\0", b"\n", b" ", b"\xff", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x92\xa9",
            b"\xc3", b"A", b"{", b"\"", b"z", b"0", b"9", b"1", b"4", b"-V", b"--", b"\xf8\x00", b"\x80",
        ];
        if v.is_empty() {
            let n = self.pick(NASTY).to_vec();
            v.extend(n);
            return "grow";
        }
        let near = |c: &mut Ctx, n: usize| {
            if c.chance(1, 2) {
                c.below(n.min(8))
            } else if c.chance(1, 4) {
                n - 1 - c.below(n.min(4))
            } else {
                c.below(n)
            }
        };
        match self.draw(9) {
            0 => {
                let i = near(self, v.len());
                let b = self.draw(8);
                v[i] ^= 1 << b;
                "bit flip"
            }
            1 => {
                let i = near(self, v.len());
                v[i] = self.draw(256) as u8;
                "byte"
            }
            2 => {
                let i = near(self, v.len());
                let n = self.pick(NASTY).to_vec();
                let e = (i + n.len()).min(v.len());
                v.splice(i..e, n);
                "overwrite"
            }
            3 => {
                let i = near(self, v.len());
                let n = self.pick(NASTY).to_vec();
                v.splice(i..i, n);
                "insert"
            }
            4 => {
                let i = near(self, v.len());
                v.remove(i);
                "delete"
            }
            5 => {
                let i = self.below(v.len());
                v.truncate(i);
                "truncate"
            }
            6 => {
                let i = near(self, v.len());
                const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
                v[i] = *self.pick(B64);
                "character"
            }
            7 => {
                let i = self.below(v.len());
                let n = self.below(v.len() - i) + 1;
                let part = v[i..i + n].to_vec();
                let at = self.below(v.len() + 1);
                v.splice(at..at, part);
                "repeat"
            }
            _ => {
                let i = self.below(v.len());
                let n = (self.below(4) + 1).min(v.len() - i);
                for k in i..i + n {
                    v[k] = 0;
                }
                "zeroed"
            }
        }
    }
}

/// Virtual time: events in order of (time, arrival).
pub struct Queue<E> {
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    store: BTreeMap<u64, E>,
    seq: u64,
}
impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { heap: BinaryHeap::new(), store: BTreeMap::new(), seq: 0 }
    }
    pub fn push(&mut self, at: u64, e: E) {
        self.seq += 1;
        self.heap.push(Reverse((at, self.seq)));
        self.store.insert(self.seq, e);
    }
    pub fn pop(&mut self) -> Option<(u64, E)> {
        let Reverse((at, s)) = self.heap.pop()?;
        Some((at, self.store.remove(&s).unwrap()))
    }
    pub fn len(&self) -> usize {
        self.heap.len()
    }
}

/// How badly the network behaves in this run (chances in 64).
#[derive(Clone, Debug, Default)]
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub reorder: u64,
    pub delay: u64,
    pub corrupt: u64,
    pub truncate: u64,
}
impl NetCfg {
    /// Per-run fault intensities, each kind switched off in some runs.
    pub fn draw(c: &mut Ctx, corrupting: bool) -> Self {
        let mut lvl = |c: &mut Ctx| [0, 0, 2, 8, 20][c.below(5)];
        let mut n = NetCfg { drop: lvl(c), dup: lvl(c), reorder: lvl(c), delay: lvl(c), corrupt: 0, truncate: 0 };
        if corrupting {
            n.corrupt = [8, 16, 32][c.below(3)];
            n.truncate = lvl(c);
        }
        n
    }
    pub fn quiet() -> Self {
        NetCfg::default()
    }
    /// The deliveries one transmission leads to: (delay, bytes).
    pub fn transmit(&self, c: &mut Ctx, payload: &[u8]) -> Vec<(u64, Vec<u8>)> {
        let mut out = vec![];
        if c.chance(self.drop, 64) {
            c.fault(Fault::NetDrop);
            return out;
        }
        let copies = if c.chance(self.dup, 64) {
            c.fault(Fault::NetDuplicate);
            2
        } else {
            1
        };
        for _ in 0..copies {
            let mut delay = 500_000 + c.draw(16) * 31_000;
            if c.chance(self.delay, 64) {
                c.fault(Fault::NetDelay);
                delay += c.draw(2_000) * 1_000_000;
            }
            if c.chance(self.reorder, 64) {
                c.fault(Fault::NetReorder);
                delay += c.draw(20_000_000);
            }
            let mut p = payload.to_vec();
            if c.chance(self.corrupt, 64) {
                c.fault(Fault::NetCorrupt);
                let k = c.corrupt(&mut p);
                c.note(|| format!("corrupted in transit: {k}"));
            }
            if c.chance(self.truncate, 64) && !p.is_empty() {
                c.fault(Fault::NetTruncate);
                let n = c.below(p.len());
                p.truncate(n);
            }
            out.push((delay, p));
        }
        out
    }
}

/// A file on a disk which keeps only what was synced, and sometimes less or garbled.
#[derive(Clone, Default)]
pub struct Disk {
    pub durable: Vec<u8>,
    pub cached: Vec<u8>,
    pub faulty: u64,
    pub rot: u64,
}
#[derive(Debug, PartialEq)]
pub enum IoErr {
    Eio,
    Full,
    Short(usize),
}
impl Disk {
    pub fn append(&mut self, c: &mut Ctx, b: &[u8]) -> Result<(), IoErr> {
        if c.chance(self.faulty, 256) {
            match c.draw(3) {
                0 => {
                    c.fault(Fault::DiskError);
                    return Err(IoErr::Eio);
                }
                1 => {
                    c.fault(Fault::DiskFull);
                    return Err(IoErr::Full);
                }
                _ => {
                    let n = c.below(b.len().max(1));
                    c.fault(Fault::DiskShortWrite);
                    self.cached.extend_from_slice(&b[..n.min(b.len())]);
                    return Err(IoErr::Short(n));
                }
            }
        }
        self.cached.extend_from_slice(b);
        Ok(())
    }
    /// Undo a partial append: the tail that was not acknowledged is cut off again.
    pub fn truncate(&mut self, len: usize) {
        if len < self.durable.len() {
            self.durable.truncate(len);
            self.cached.clear();
        } else {
            self.cached.truncate(len - self.durable.len());
        }
    }
    pub fn len(&self) -> usize {
        self.durable.len() + self.cached.len()
    }
    pub fn sync(&mut self, c: &mut Ctx) -> Result<(), IoErr> {
        if c.chance(self.faulty, 512) {
            c.fault(Fault::DiskError);
            return Err(IoErr::Eio);
        }
        self.durable.append(&mut self.cached);
        Ok(())
    }
    pub fn crash(&mut self, c: &mut Ctx) {
        c.fault(Fault::NodeCrash);
        if !self.cached.is_empty() {
            match c.draw(3) {
                0 => {
                    c.fault(Fault::DiskLostWrites);
                    self.cached.clear();
                }
                1 => {
                    c.fault(Fault::DiskTornWrite);
                    let n = c.below(self.cached.len());
                    self.cached.truncate(n);
                }
                _ => {}
            }
            self.durable.append(&mut self.cached);
        }
    }
    pub fn read(&mut self, c: &mut Ctx) -> Vec<u8> {
        let mut v = self.durable.clone();
        v.extend_from_slice(&self.cached);
        if c.chance(self.rot, 256) && !v.is_empty() {
            c.fault(Fault::DiskBitRot);
            let i = c.below(v.len());
            let b = c.draw(8);
            v[i] ^= 1 << b;
        }
        v
    }
}
