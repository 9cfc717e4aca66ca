//! One decision tape per simulated run: every choice the simulator makes is a draw from it, so a run
//! is a pure function of its tape. Fresh tapes are filled from a seeded generator, replayed ones are
//! read back, and the shrinker edits them.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(v));
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0xA5A5_5A5A_1234_5678) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1);
        mix(self.0)
    }
}

#[derive(Clone)]
pub struct Tape {
    pub vals: Vec<u64>,
    /// (start, end) of every structural span of the run that made this tape
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pos: usize,
    rng: Option<Rng>,
    /// every draw is copied here as well: survives the death of the process
    pub mirror: Option<(*mut u64, usize)>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { vals: Vec::new(), spans: Vec::new(), open: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), mirror: None }
    }
    pub fn replay(vals: Vec<u64>) -> Self {
        Tape { vals, spans: Vec::new(), open: Vec::new(), pos: 0, rng: None, mirror: None }
    }
    /// A number below `n`; 0 is the simplest choice, and all there is once a replayed tape runs out.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => {
                let v = if n == u64::MAX { r.next() } else { r.next() % n };
                self.vals.push(v);
                if let Some((m, cap)) = self.mirror {
                    if self.vals.len() < cap {
                        unsafe {
                            *m.add(self.vals.len()) = v;
                            *m = self.vals.len() as u64;
                        }
                    }
                }
                v
            }
            None => match self.vals.get(self.pos) {
                Some(v) => {
                    if n == u64::MAX {
                        *v
                    } else {
                        *v % n
                    }
                }
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    pub fn begin(&mut self) {
        self.open.push(self.pos);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            if self.pos > s {
                self.spans.push((s, self.pos));
            }
        }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

/// Delta-debugs a failing tape: `fails` says whether an edited tape still shows the same violation,
/// and gives back the spans of that run.
pub fn shrink(
    mut vals: Vec<u64>,
    mut spans: Vec<(usize, usize)>,
    mut fails: impl FnMut(&[u64]) -> Option<(usize, Vec<(usize, usize)>)>,
    mut more_time: impl FnMut() -> bool,
) -> Vec<u64> {
    loop {
        let before = vals.clone();
        // whole structural spans, biggest first
        let mut i = 0;
        spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
        while i < spans.len() && more_time() {
            let (s, e) = spans[i];
            if e <= vals.len() {
                let mut t = vals[..s].to_vec();
                t.extend_from_slice(&vals[e..]);
                if let Some((used, sp)) = fails(&t) {
                    t.truncate(used);
                    vals = t;
                    spans = sp;
                    spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
                    continue;
                }
            }
            i += 1;
        }
        // chunks, halving
        let mut size = (vals.len() / 2).max(1);
        while size >= 1 && more_time() {
            let mut s = 0;
            while s < vals.len() && more_time() {
                let e = (s + size).min(vals.len());
                let mut t = vals[..s].to_vec();
                t.extend_from_slice(&vals[e..]);
                if let Some((used, sp)) = fails(&t) {
                    t.truncate(used);
                    vals = t;
                    spans = sp;
                } else {
                    let mut t = vals.clone();
                    if t[s..e].iter().any(|v| *v != 0) {
                        t[s..e].iter_mut().for_each(|v| *v = 0);
                        if let Some((used, sp)) = fails(&t) {
                            t.truncate(used);
                            vals = t;
                            spans = sp;
                        }
                    }
                    s = e;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // single draws, downwards
        let mut i = 0;
        while i < vals.len() && more_time() {
            let v = vals[i];
            for w in [0, 1, v / 2, v.saturating_sub(1)] {
                if w < v && i < vals.len() {
                    let mut t = vals.clone();
                    t[i] = w;
                    if let Some((used, sp)) = fails(&t) {
                        t.truncate(used);
                        vals = t;
                        spans = sp;
                        break;
                    }
                }
            }
            i += 1;
        }
        while vals.last() == Some(&0) {
            vals.pop();
        }
        if vals == before || !more_time() {
            return vals;
        }
    }
}
