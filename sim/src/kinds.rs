//! Every public type of the library behind one interface, so that scenarios can reach all of them by
//! every route.
use cesride::data::Value;
use cesride::*;

/// What a caller can observe of one accepted value.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Probe {
    pub code: String,
    pub raw: Vec<u8>,
    pub size: u32,
    pub index: u32,
    pub ondex: u32,
    pub qb64: Option<String>,
    pub qb64b: Option<Vec<u8>>,
    pub qb2: Option<Vec<u8>>,
    pub full_size: Option<usize>,
    pub digestive: bool,
    pub transferable: bool,
    /// type specific accessors, by name
    pub more: Vec<(&'static str, std::result::Result<String, ()>)>,
}
impl Probe {
    pub fn more(&self, n: &str) -> Option<&str> {
        self.more.iter().find(|(k, _)| *k == n).and_then(|(_, v)| v.as_ref().ok()).map(|s| s.as_str())
    }
}

pub fn of_matter<M: Matter>(m: &M) -> Probe {
    Probe {
        code: m.code(),
        raw: m.raw(),
        size: m.size(),
        index: 0,
        ondex: 0,
        qb64: m.qb64().ok(),
        qb64b: m.qb64b().ok(),
        qb2: m.qb2().ok(),
        full_size: m.full_size().ok(),
        digestive: m.digestive(),
        transferable: m.transferable(),
        more: vec![],
    }
}
pub fn of_indexer<I: Indexer>(m: &I) -> Probe {
    Probe {
        code: m.code(),
        raw: m.raw(),
        size: 0,
        index: m.index(),
        ondex: m.ondex(),
        qb64: m.qb64().ok(),
        qb64b: m.qb64b().ok(),
        qb2: m.qb2().ok(),
        full_size: m.full_size().ok(),
        digestive: false,
        transferable: false,
        more: vec![],
    }
}
pub fn of_counter(m: &Counter) -> Probe {
    Probe {
        code: m.code(),
        raw: vec![],
        size: 0,
        index: m.count(),
        ondex: 0,
        qb64: m.qb64().ok(),
        qb64b: m.qb64b().ok(),
        qb2: m.qb2().ok(),
        full_size: m.full_size().ok(),
        digestive: false,
        transferable: false,
        more: vec![
            ("count_as_b64", m.count_as_b64(0).map_err(|_| ())),
            ("count_as_b64(3)", m.count_as_b64(3).map_err(|_| ())),
            ("count_as_b64(5)", m.count_as_b64(5).map_err(|_| ())),
            ("debug", Ok(format!("{m:?}"))),
        ],
    }
}

/// A primitive of any code whatever: what an application defining its own kind gets.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AnyMatter(String, u32, Vec<u8>);
impl Matter for AnyMatter {
    fn code(&self) -> String {
        self.0.clone()
    }
    fn size(&self) -> u32 {
        self.1
    }
    fn raw(&self) -> Vec<u8> {
        self.2.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.0 = code.to_string()
    }
    fn set_size(&mut self, size: u32) {
        self.1 = size
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.2 = raw.to_vec()
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AnyIndexer(String, Vec<u8>, u32, u32);
impl Indexer for AnyIndexer {
    fn code(&self) -> String {
        self.0.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.0 = code.to_string()
    }
    fn raw(&self) -> Vec<u8> {
        self.1.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.1 = raw.to_vec()
    }
    fn index(&self) -> u32 {
        self.2
    }
    fn set_index(&mut self, index: u32) {
        self.2 = index
    }
    fn ondex(&self) -> u32 {
        self.3
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.3 = ondex
    }
}

thread_local! {
    static COMPANY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static KEYS: [Verfer; 3] = ["BFlSY1JqBvLB5VGCTHvHOyjcVmwwi5qaQzHKGdQRGBlQ", "DFlSY1JqBvLB5VGCTHvHOyjcVmwwi5qaQzHKGdQRGBlQ", "1AABA3cK_P2CDlh-_EMFPvyqTPI1POkw-dr14DANx5JEXDCZ"].map(|k| Verfer::new_with_qb64(k).unwrap());
}
/// What is given along with the material from here on: nothing (0), or a verifier's key, a transferability, a tier.
pub fn company(n: usize) {
    COMPANY.with(|c| c.set(n))
}
fn key() -> Option<Verfer> {
    let n = COMPANY.with(|c| c.get());
    (n % 4 != 0).then(|| KEYS.with(|k| k[n % 4 - 1].clone()))
}
pub fn transferable() -> Option<bool> {
    [None, Some(true), Some(false), None][COMPANY.with(|c| c.get()) % 4]
}
fn tier() -> Option<&'static str> {
    [None, Some("low"), Some("med"), Some("high")][COMPANY.with(|c| c.get()) % 4]
}

type O = Option<Probe>;
/// One public kind of primitive.
pub struct Kind {
    pub name: &'static str,
    /// the codes this kind may carry (None: any)
    pub own: Option<&'static [&'static str]>,
    /// two routes each: 0 the convenience constructor, 1 the general one
    pub qb64: fn(usize, &str) -> O,
    pub qb64b: fn(usize, &[u8]) -> O,
    pub qb2: fn(usize, &[u8]) -> O,
    pub raw: fn(usize, &str, &[u8]) -> O,
    /// no code given: whatever the default is
    pub plain: fn(&[u8]) -> O,
    /// a code and an encoding, which may disagree (0 text, 1 bytes, 2 binary)
    pub mixed: fn(usize, &str, &[u8]) -> O,
}

fn ok<T>(r: Result<T>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            // errors are part of what callers see: they must be printable
            let t = format!("{e}{e:?}");
            assert!(!t.is_empty());
            None
        }
    }
}
fn t<X>(r: Result<X>, f: impl Fn(X) -> String) -> std::result::Result<String, ()> {
    r.map(f).map_err(|_| ())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

macro_rules! kind {
    ($name:ident, $own:expr, $more:expr,
     ($c:ident, $r:ident, $b:ident, $q:ident, $two:ident) => $new:expr; raw $raw:expr; b $qb:expr; q $qq:expr; t $qt:expr) => {{
        fn probe(m: Option<$name>) -> O {
            let m = m?;
            let mut p = of_matter(&m);
            let more: fn(&$name) -> Vec<(&'static str, std::result::Result<String, ()>)> = $more;
            p.more = more(&m);
            let copy = m.clone();
            p.more.push(("clone", Ok((copy == m).to_string())));
            drop(copy);
            Some(p)
        }
        #[allow(unused_variables)]
        fn general($c: Option<&str>, $r: Option<&[u8]>, $b: Option<&[u8]>, $q: Option<&str>, $two: Option<&[u8]>) -> Result<$name> {
            $new
        }
        Kind {
            name: stringify!($name),
            own: Some($own),
            qb64: |route, x| probe(ok(if route == 0 { let f: fn(&str) -> Result<$name> = $qq; f(x) } else { general(None, None, None, Some(x), None) })),
            qb64b: |route, x| probe(ok(if route == 0 { let f: fn(&[u8]) -> Result<$name> = $qb; f(x) } else { general(None, None, Some(x), None, None) })),
            qb2: |route, x| probe(ok(if route == 0 { let f: fn(&[u8]) -> Result<$name> = $qt; f(x) } else { general(None, None, None, None, Some(x)) })),
            raw: |route, code, x| probe(ok(if route == 0 { let f: fn(&[u8], &str) -> Result<$name> = $raw; f(x, code) } else { general(Some(code), Some(x), None, None, None) })),
            plain: |x| probe(ok(general(None, Some(x), None, None, None))),
            mixed: |how, code, x| probe(ok(match how {
                0 => general(Some(code), None, None, Some(std::str::from_utf8(x).ok()?), None),
                1 => general(Some(code), None, Some(x), None, None),
                _ => general(Some(code), None, None, None, Some(x)),
            })),
        }
    }};
}

pub const DIG: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub const VER: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const CIG: &[&str] = &["0B", "0C", "0I"];
pub const SEED: &[&str] = &["A", "J", "Q"];
pub const BEXT: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
pub const NUMB: &[&str] = &["M", "0H", "N", "0A"];
pub const PRE: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub const SIG: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];

pub fn kinds() -> Vec<Kind> {
    vec![
        kind!(Verfer, VER, |m| vec![("verify", t(m.verify(&[0u8; 64], b"x"), |b| b.to_string()))],
            (c, r, b, q, two) => Verfer::new(c, r, b, q, two);
            raw |x, c| Verfer::new_with_raw(x, Some(c)); b Verfer::new_with_qb64b; q Verfer::new_with_qb64; t Verfer::new_with_qb2),
        kind!(Diger, DIG, |m| vec![("verify", t(m.verify(b"abc"), |b| b.to_string()))],
            (c, r, b, q, two) => Diger::new(None, c, r, b, q, two);
            raw |x, c| Diger::new_with_raw(x, Some(c)); b Diger::new_with_qb64b; q Diger::new_with_qb64; t Diger::new_with_qb2),
        kind!(Saider, DIG, |_| vec![],
            (c, r, b, q, two) => Saider::new(None, None, None, None, c, r, b, q, two);
            raw |x, c| Saider::new_with_raw(x, Some(c)); b Saider::new_with_qb64b; q Saider::new_with_qb64; t Saider::new_with_qb2),
        kind!(Prefixer, PRE, |_| vec![],
            (c, r, b, q, two) => Prefixer::new(None, None, c, r, b, q, two);
            raw |x, c| Prefixer::new_with_raw(x, Some(c)); b Prefixer::new_with_qb64b; q Prefixer::new_with_qb64; t Prefixer::new_with_qb2),
        kind!(Cigar, CIG, |m| vec![("verfer", Ok(m.verfer().code()))],
            (c, r, b, q, two) => Cigar::new(key().as_ref(), c, r, b, q, two);
            raw |x, c| Cigar::new_with_raw(x, key().as_ref(), Some(c)); b |x| Cigar::new_with_qb64b(x, key().as_ref()); q |x| Cigar::new_with_qb64(x, key().as_ref()); t |x| Cigar::new_with_qb2(x, key().as_ref())),
        kind!(Signer, SEED, |m| vec![("verfer", t(m.verfer().qb64(), |x| x))],
            (c, r, b, q, two) => Signer::new(transferable(), c, r, b, q, two);
            raw |x, c| Signer::new_with_raw(x, transferable(), Some(c)); b |x| Signer::new_with_qb64b(x, transferable()); q |x| Signer::new_with_qb64(x, transferable()); t |x| Signer::new_with_qb2(x, transferable())),
        kind!(Salter, &["0A"], |m| vec![("tier", Ok(m.tier()))],
            (c, r, b, q, two) => Salter::new(tier(), c, r, b, q, two);
            raw |x, c| Salter::new_with_raw(x, Some(c), tier()); b |x| Salter::new_with_qb64b(x, tier()); q |x| Salter::new_with_qb64(x, tier()); t |x| Salter::new_with_qb2(x, tier())),
        kind!(Seqner, &["0A"], |m| vec![("sn", t(m.sn(), |n| n.to_string())), ("snh", t(m.snh(), |n| n))],
            (c, r, b, q, two) => Seqner::new(None, None, c, r, b, q, two);
            raw |x, c| Seqner::new_with_raw(x, Some(c)); b Seqner::new_with_qb64b; q Seqner::new_with_qb64; t Seqner::new_with_qb2),
        kind!(Number, NUMB, |m| vec![("num", t(m.num(), |n| n.to_string())), ("numh", t(m.numh(), |n| n)), ("positive", t(m.positive(), |n| n.to_string()))],
            (c, r, b, q, two) => Number::new(None, None, c, r, b, q, two);
            raw |x, c| Number::new_with_raw(x, Some(c)); b Number::new_with_qb64b; q Number::new_with_qb64; t Number::new_with_qb2),
        kind!(Dater, &["1AAG"], |m| vec![("dts", t(m.dts(), |n| n)), ("dtsb", t(m.dtsb(), |n| String::from_utf8_lossy(&n).to_string()))],
            (c, r, b, q, two) => Dater::new(None, c, r, b, q, two);
            raw |x, c| Dater::new_with_raw(x, Some(c)); b Dater::new_with_qb64b; q Dater::new_with_qb64; t Dater::new_with_qb2),
        kind!(Bexter, BEXT, |m| vec![("bext", t(m.bext(), |n| n))],
            (c, r, b, q, two) => Bexter::new(None, c, r, b, q, two);
            raw |x, c| Bexter::new_with_raw(x, Some(c)); b Bexter::new_with_qb64b; q Bexter::new_with_qb64; t Bexter::new_with_qb2),
        kind!(Pather, BEXT, |m| vec![("bext", t(m.bext(), |n| n)), ("path", t(m.path().and_then(|p| p.to_json()), |n| n))],
            (c, r, b, q, two) => Pather::new(None, None, c, r, b, q, two);
            raw |x, c| Pather::new_with_raw(x, Some(c)); b Pather::new_with_qb64b; q Pather::new_with_qb64; t Pather::new_with_qb2),
        Kind {
            name: "AnyMatter",
            own: None,
            qb64: |route, x| ok(if route == 0 { AnyMatter::new_with_qb64(x) } else { AnyMatter::new(None, None, None, Some(x), None) }).map(|m| of_matter(&m)),
            qb64b: |route, x| ok(if route == 0 { AnyMatter::new_with_qb64b(x) } else { AnyMatter::new(None, None, Some(x), None, None) }).map(|m| of_matter(&m)),
            qb2: |route, x| ok(if route == 0 { AnyMatter::new_with_qb2(x) } else { AnyMatter::new(None, None, None, None, Some(x)) }).map(|m| of_matter(&m)),
            raw: |route, c, x| ok(if route == 0 { AnyMatter::new_with_code_and_raw(c, x) } else { AnyMatter::new(Some(c), Some(x), None, None, None) }).map(|m| of_matter(&m)),
            plain: |x| ok(AnyMatter::new(None, Some(x), None, None, None)).map(|m| of_matter(&m)),
            mixed: |how, c, x| ok(match how {
                0 => AnyMatter::new(Some(c), None, None, Some(std::str::from_utf8(x).ok()?), None),
                1 => AnyMatter::new(Some(c), None, Some(x), None, None),
                _ => AnyMatter::new(Some(c), None, None, None, Some(x)),
            }).map(|m| of_matter(&m)),
        },
    ]
}

/// One public kind of indexed signature.
pub struct IKind {
    pub name: &'static str,
    pub own: Option<&'static [&'static str]>,
    pub qb64: fn(usize, &str) -> O,
    pub qb64b: fn(usize, &[u8]) -> O,
    pub qb2: fn(usize, &[u8]) -> O,
    pub raw: fn(usize, &str, &[u8], u32, Option<u32>) -> O,
}
pub fn ikinds() -> Vec<IKind> {
    fn p(m: Option<Siger>) -> O {
        let m = m?;
        let mut p = of_indexer(&m);
        p.more = vec![("verfer", Ok(m.verfer().code())), ("clone", Ok((m.clone() == m).to_string()))];
        Some(p)
    }
    fn g(i: Option<u32>, o: Option<u32>, c: Option<&str>, r: Option<&[u8]>, b: Option<&[u8]>, q: Option<&str>, t: Option<&[u8]>) -> Result<Siger> {
        Siger::new(key().as_ref(), i, o, c, r, b, q, t)
    }
    vec![
        IKind {
            name: "Siger",
            own: Some(SIG),
            qb64: |route, x| p(ok(if route == 0 { Siger::new_with_qb64(x, key().as_ref()) } else { g(None, None, None, None, None, Some(x), None) })),
            qb64b: |route, x| p(ok(if route == 0 { Siger::new_with_qb64b(x, key().as_ref()) } else { g(None, None, None, None, Some(x), None, None) })),
            qb2: |route, x| p(ok(if route == 0 { Siger::new_with_qb2(x, key().as_ref()) } else { g(None, None, None, None, None, None, Some(x)) })),
            raw: |route, c, x, i, o| p(ok(if route == 0 { Siger::new_with_raw(x, key().as_ref(), Some(i), o, Some(c)) } else { g(Some(i), o, Some(c), Some(x), None, None, None) })),
        },
        IKind {
            name: "AnyIndexer",
            own: None,
            qb64: |route, x| ok(if route == 0 { AnyIndexer::new_with_qb64(x) } else { AnyIndexer::new(None, None, None, None, None, Some(x), None) }).map(|m| of_indexer(&m)),
            qb64b: |route, x| ok(if route == 0 { AnyIndexer::new_with_qb64b(x) } else { AnyIndexer::new(None, None, None, None, Some(x), None, None) }).map(|m| of_indexer(&m)),
            qb2: |route, x| ok(if route == 0 { AnyIndexer::new_with_qb2(x) } else { AnyIndexer::new(None, None, None, None, None, None, Some(x)) }).map(|m| of_indexer(&m)),
            raw: |route, c, x, i, o| ok(if route == 0 { AnyIndexer::new_with_code_and_raw(c, x, i, o) } else { AnyIndexer::new(Some(i), o, Some(c), Some(x), None, None, None) }).map(|m| of_indexer(&m)),
        },
    ]
}

pub fn counter_qb64(route: usize, x: &str) -> O {
    ok(if route == 0 { Counter::new_with_qb64(x) } else { Counter::new(None, None, None, None, Some(x), None) }).map(|m| of_counter(&m))
}
pub fn counter_qb64b(route: usize, x: &[u8]) -> O {
    ok(if route == 0 { Counter::new_with_qb64b(x) } else { Counter::new(None, None, None, Some(x), None, None) }).map(|m| of_counter(&m))
}
pub fn counter_qb2(route: usize, x: &[u8]) -> O {
    ok(if route == 0 { Counter::new_with_qb2(x) } else { Counter::new(None, None, None, None, None, Some(x)) }).map(|m| of_counter(&m))
}
pub fn counter_new(route: usize, code: &str, n: u32) -> O {
    ok(if route == 0 { Counter::new_with_code_and_count(code, n) } else { Counter::new(Some(n), None, Some(code), None, None, None) }).map(|m| of_counter(&m))
}

/// Everything a caller can ask of a message, asked.
pub fn inspect_serder(m: &Serder) -> String {
    let mut o = String::new();
    let mut put = |k: &str, v: std::result::Result<String, ()>| {
        o.push_str(k);
        o.push('=');
        o.push_str(&v.as_deref().unwrap_or("!").replace('\n', "\u{e000}").replace('\r', "\u{e001}"));
        o.push('\n');
    };
    fn join(v: Vec<String>) -> String {
        v.join(",")
    }
    put("code", Ok(m.code()));
    put("ident", Ok(m.ident()));
    put("kind", Ok(m.kind()));
    put("size", Ok(m.size().to_string()));
    put("version", Ok(format!("{:?}", m.version())));
    put("said", t(m.said(), |x| x));
    put("saidb", t(m.saidb(), |x| hex(&x)));
    put("ked", t(m.ked().to_json(), |x| x));
    put("raw", Ok(hex(&m.raw())));
    put("verfers", t(m.verfers(), |v| join(v.iter().map(|x| x.qb64().unwrap_or_default()).collect())));
    put("digers", t(m.digers(), |v| join(v.iter().map(|x| x.qb64().unwrap_or_default()).collect())));
    put("werfers", t(m.werfers(), |v| join(v.iter().map(|x| x.qb64().unwrap_or_default()).collect())));
    put("tholder", t(m.tholder(), |x| x.map(|x| x.to_json().unwrap_or_default()).unwrap_or("none".into())));
    put("ntholder", t(m.ntholder(), |x| x.map(|x| x.to_json().unwrap_or_default()).unwrap_or("none".into())));
    put("sner", t(m.sner(), |x| x.qb64().unwrap_or_default()));
    put("sn", t(m.sn(), |x| x.to_string()));
    put("fner", t(m.fner(), |x| x.map(|x| x.qb64().unwrap_or_default()).unwrap_or("none".into())));
    put("fn", t(m._fn(), |x| x.to_string()));
    put("pre", t(m.pre(), |x| x));
    put("preb", t(m.preb(), |x| hex(&x)));
    put("est", t(m.est(), |x| x.to_string()));
    put("pretty", t(m.pretty(None), |x| x));
    for n in [0usize, 1, 2, 3, 7, 30, 64, 100, 255] {
        put("pretty-n", t(m.pretty(Some(n)), |x| format!("{n} {x}")));
    }
    put("pretty-all", t(m.pretty(Some(1 << 24)), |x| x));
    o
}
pub fn inspect_creder(m: &Creder) -> String {
    let mut o = String::new();
    let mut put = |k: &str, v: std::result::Result<String, ()>| {
        o.push_str(k);
        o.push('=');
        o.push_str(&v.as_deref().unwrap_or("!").replace('\n', "\u{e000}").replace('\r', "\u{e001}"));
        o.push('\n');
    };
    put("code", Ok(m.code()));
    put("ident", Ok(m.ident()));
    put("kind", Ok(m.kind()));
    put("size", Ok(m.size().to_string()));
    put("version", Ok(format!("{:?}", m.version())));
    put("said", t(m.said(), |x| x));
    put("saidb", t(m.saidb(), |x| hex(&x)));
    put("ked", t(m.ked().to_json(), |x| x));
    put("raw", Ok(hex(&m.raw())));
    put("crd", t(m.crd().to_json(), |x| x));
    put("issuer", t(m.issuer(), |x| x));
    put("schema", t(m.schema(), |x| x));
    put("subject", t(m.subject().to_json(), |x| x));
    put("status", t(m.status(), |x| x.unwrap_or("none".into())));
    put("chains", t(m.chains().and_then(|x| x.to_json()), |x| x));
    put("pretty", t(m.pretty(None), |x| x));
    for n in [0usize, 1, 2, 3, 7, 30, 64, 100, 255] {
        put("pretty-n", t(m.pretty(Some(n)), |x| format!("{n} {x}")));
    }
    put("pretty-all", t(m.pretty(Some(1 << 24)), |x| x));
    o
}
pub fn inspect_tholder(m: &Tholder) -> String {
    let mut o = String::new();
    o += &format!("{} {} {:?} ", m.weighted(), m.size(), m.num().ok());
    o += &format!("{:?} ", m.limen().ok().map(|l| hex(&l)));
    o += &format!("{:?} ", m.sith().ok().and_then(|l| l.to_json().ok()));
    o += &format!("{:?} {:?} ", m.to_json().ok(), m.thold().to_json().ok());
    o += &format!("{:?} {:?}", m.number().map(|n| n.qb64().ok()), m.bexter().map(|n| n.qb64().ok()));
    o
}
pub fn json(v: &Value) -> String {
    v.to_json().unwrap_or_else(|_| "!".into())
}
