//! C09: declared thresholds, signatures trickling in, and the moment they suffice.
use crate::gen::{self, Rule};
use crate::kinds;
use crate::refc;
use crate::refj::{self, s, J};
use crate::world::*;
use cesride::{Serder, Tholder};

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn reduced(n: u64, d: u64) -> (u64, u64) {
    let g = gcd(n, d).max(1);
    (n / g, d / g)
}
fn weight(n: u64, d: u64) -> String {
    let (n, d) = reduced(n, d);
    if d == 1 {
        n.to_string()
    } else {
        format!("{n}/{d}")
    }
}
/// How the rule is written once the library has read it: nested, in lowest terms.
fn nested(w: &[Vec<(u64, u64)>]) -> J {
    J::Arr(w.iter().map(|c| J::Arr(c.iter().map(|(n, d)| s(weight(*n, *d))).collect())).collect())
}
fn sith_of(r: &Rule) -> J {
    match r {
        Rule::Count(n) => s(format!("{n:x}")),
        Rule::Weights(w) => match nested(w) {
            J::Arr(mut a) if a.len() == 1 => a.remove(0),
            j => j,
        },
    }
}
/// As declared: not in lowest terms.
fn declared(c: &mut Ctx, w: &[Vec<(u64, u64)>]) -> J {
    let plain = c.chance(1, 2);
    let f = |c: &mut Ctx, n: u64, d: u64| {
        let (n, d) = if d < 1000 && c.chance(1, 4) {
            let k = 2 + c.draw(3);
            (n * k, d * k)
        } else {
            (n, d)
        };
        if d == 1 && plain {
            s(n.to_string())
        } else if n == d && c.chance(1, 2) {
            s("1")
        } else if n == 0 && c.chance(1, 2) {
            s("0")
        } else {
            s(format!("{n}/{d}"))
        }
    };
    J::Arr(w.iter().map(|cl| J::Arr(cl.iter().map(|(n, d)| f(c, *n, *d)).collect())).collect())
}
fn bext(w: &[Vec<(u64, u64)>]) -> String {
    w.iter().map(|c| c.iter().map(|(n, d)| weight(*n, *d).replace('/', "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a")
}
pub fn bext_text(b: &str) -> String {
    let pad = (4 - b.len() % 4) % 4;
    let full = refc::to_bytes(format!("{}{b}", "A".repeat(pad)).as_bytes()).unwrap();
    // lead bytes which are all pad are dropped
    let lead = if b.len() % 4 == 1 { 2 } else if b.len() % 4 == 2 { 1 } else { 0 };
    let raw = full[lead..].to_vec();
    refc::matter_text(&gen::final_code("4A", &raw), &raw).unwrap()
}
pub fn number_text(n: u128) -> String {
    let b = n.to_be_bytes();
    let (code, raw) = if n < 1 << 16 {
        ("M", &b[14..])
    } else if n < 1 << 32 {
        ("0H", &b[12..])
    } else if n < 1 << 64 {
        ("N", &b[8..])
    } else {
        ("0A", &b[..])
    };
    refc::matter_text(code, raw).unwrap()
}
fn limen_of(r: &Rule) -> String {
    match r {
        Rule::Count(n) => number_text(*n as u128),
        Rule::Weights(w) => bext_text(&bext(w)),
    }
}
/// Whether the weights can be summed in 128 bits; beyond that a threshold may be refused.
fn summable(w: &[Vec<(u64, u64)>]) -> bool {
    w.iter().all(|c| {
        let mut l: u128 = 1;
        for (n, d) in c {
            let (_, d) = reduced(*n, *d);
            let (mut a, mut b) = (l, d as u128);
            while b != 0 {
                (a, b) = (b, a % b);
            }
            match l.checked_mul(d as u128 / a) {
                Some(x) => l = x,
                None => return false,
            }
        }
        l.checked_mul(c.len() as u128).is_some()
    })
}

pub fn clause(c: &mut Ctx) -> Vec<(u64, u64)> {
    const MAX: u64 = i32::MAX as u64;
    let mut w: Vec<(u64, u64)> = match c.draw(11) {
        0 => vec![(1, 1)],
        1 => {
            let n = 1 + c.draw(12);
            vec![(1, n); n as usize]
        }
        2 => {
            // exactly one
            [
                vec![(1, 2), (1, 3), (1, 6)],
                vec![(1, 3), (1, 3), (1, 3)],
                vec![(1, 10), (2, 10), (7, 10)],
                vec![(1, 7), (2, 7), (4, 7)],
                vec![(3, 49), (46, 49)],
                vec![(1, 2), (1, 4), (1, 8), (1, 16), (1, 16)],
                vec![(1, 5), (1, 7), (23, 35)],
            ][c.below(7)]
            .clone()
        }
        3 | 4 => {
            // two weights which miss or exceed one by as little as there is
            let m = match c.draw(3) {
                0 => 2 + c.draw(20),
                1 => 2 + c.draw(100_000),
                _ => MAX - 2 - c.draw(1000),
            };
            let mut v = if c.chance(1, 2) { vec![(1, m + 1), (m - 1, m)] } else { vec![(1, m), (m, m + 1)] };
            if c.chance(2, 3) {
                v.push(*c.pick(&[(1, m), (1, 2), (1, MAX), (1, 1)]));
            }
            v
        }
        5 => {
            // the same denominator, up to the largest
            let d = match c.draw(3) {
                0 => 2 + c.draw(10),
                1 => 1000 + c.draw(1000),
                _ => MAX - c.draw(3),
            };
            let n = 1 + c.draw(6);
            (0..n).map(|_| (c.draw(d + 1), d)).collect()
        }
        6 => {
            // denominators with little in common
            const P: &[u64] = &[2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113];
            let n = 1 + c.below(8);
            let o = c.below(P.len() - 8);
            (0..n).map(|i| (1 + c.draw(P[o + i] - 1), P[o + i])).collect()
        }
        7 => {
            // long and even
            let n = 20 + c.draw(120);
            let k = 1 + c.draw(n);
            vec![(1, k); n as usize]
        }
        8 => {
            // the largest denominators, with little in common: their common one may be beyond all bounds
            let n = 2 + c.below(5);
            let o = c.draw(1000);
            let mut v: Vec<(u64, u64)> = (0..n as u64).map(|i| (1 + c.draw(MAX / 2), MAX - o - 2 * i)).collect();
            if c.chance(1, 2) {
                v.push((1, 1));
            }
            v
        }
        9 => {
            // powers of two and odd neighbours, where floating point rounds
            let n = 1 + c.draw(4);
            (0..n).map(|_| { let d = (1u64 << (20 + c.draw(11))) - c.draw(2); (1 + c.draw(d), d) }).collect()
        }
        _ => {
            let n = 1 + c.draw(6);
            (0..n).map(|_| { let d = 1 + c.draw(12); (c.draw(d + 1), d) }).collect()
        }
    };
    if c.chance(1, 5) {
        let at = c.below(w.len() + 1);
        w.insert(at, (0, 1));
    }
    if w.len() < 12 {
        for i in (1..w.len()).rev() {
            let k = c.below(i + 1);
            w.swap(i, k);
        }
    }
    w
}
fn sums_to_one(w: &[(u64, u64)]) -> bool {
    let mut f = gen::Frac::zero();
    for (n, d) in w {
        f.add(*n, *d);
    }
    f.at_least_one()
}
pub fn rule(c: &mut Ctx) -> Rule {
    if c.chance(1, 3) {
        return Rule::Count(match c.draw(8) {
            0 => [63, 64, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) - 1, 2047, 4095, 4096][c.below(15)],
            1 => c.number(u32::MAX as u128) as u64,
            _ => 1 + c.draw(12),
        });
    }
    let n = [1, 1, 1, 2, 2, 3, 5][c.below(7)];
    Rule::Weights((0..n).map(|_| c.span(clause)).collect())
}

/// The declaration read by the library, by every route.
fn declare(c: &mut Ctx, r: &Rule) -> R<Option<Tholder>> {
    let wide = c.chance(1, 2);
    match r {
        Rule::Count(n) => {
            let n = *n;
            let hex = s(format!("{n:x}")).value();
            let int = J::Int(n as i128).value();
            let limen = limen_of(r);
            let k = c.draw(4);
            c.call("Tholder from count", || {
                match (k, wide) {
                    (0, false) => Tholder::new_with_sith(&hex),
                    (0, true) => Tholder::new(None, None, Some(&hex)),
                    (1, false) => Tholder::new_with_sith(&int),
                    (1, true) => Tholder::new(None, None, Some(&int)),
                    (2, false) => Tholder::new_with_thold(&int),
                    (2, true) => Tholder::new(Some(&int), None, None),
                    (_, false) => Tholder::new_with_limen(limen.as_bytes()),
                    (_, true) => Tholder::new(None, Some(limen.as_bytes()), None),
                }
                .ok()
            })
        }
        Rule::Weights(w) => {
            let full = declared(c, w);
            let flat = match &full {
                J::Arr(a) if a.len() == 1 => a[0].clone(),
                j => j.clone(),
            };
            let limen = limen_of(r);
            let k = c.draw(5);
            let (fv, lv, tv) = (full.value(), flat.value(), s(if c.chance(1, 2) { full.text() } else { flat.text() }).value());
            c.note(|| format!("declared as {} by route {k}", full.text()));
            c.call("Tholder from weights", || {
                match (k, wide) {
                    (0, false) => Tholder::new_with_sith(&fv),
                    (0, true) => Tholder::new(None, None, Some(&fv)),
                    (1, false) => Tholder::new_with_sith(&lv),
                    (1, true) => Tholder::new(None, None, Some(&lv)),
                    (2, false) => Tholder::new_with_sith(&tv),
                    (2, true) => Tholder::new(None, None, Some(&tv)),
                    (3, false) => Tholder::new_with_thold(&fv),
                    (3, true) => Tholder::new(Some(&fv), None, None),
                    (_, false) => Tholder::new_with_limen(limen.as_bytes()),
                    (_, true) => Tholder::new(None, Some(limen.as_bytes()), None),
                }
                .ok()
            })
        }
    }
}

/// Sent on in one of its forms and read back by another node.
fn pass_on(c: &mut Ctx, r: &Rule, t: &Tholder) -> R<Option<Tholder>> {
    let k = c.draw(6);
    match k {
        0 => {
            let l = c.call("Tholder.limen", || t.limen().ok())?.unwrap_or_default();
            let more = c.chance(1, 4);
            let mut b = l.clone();
            if more {
                c.fault(Fault::NetTrailing);
                b.extend_from_slice(b"EAAA");
            }
            c.call("Tholder from limen", || Tholder::new_with_limen(&b).ok())
        }
        1 => c.call("Tholder from sith", || Tholder::new_with_sith(&t.sith().ok()?).ok()),
        2 => c.call("Tholder from thold", || Tholder::new_with_thold(&t.thold()).ok()),
        3 => {
            let j = c.call("Tholder.to_json", || t.to_json().ok())?.unwrap_or_default();
            let Some(j) = refj::parse(&j) else { return c.fail("threshold json unreadable", j) };
            let v = j.value();
            c.call("Tholder from sith", || Tholder::new_with_sith(&v).ok())
        }
        _ => {
            // in an event, as current or as next threshold
            let next = k == 5;
            let mut e = vec![("v".to_string(), s(refj::version_string("KERI", 0))), ("t".into(), s("icp")), ("d".into(), s("")), ("i".into(), s("")), ("s".into(), s("0"))];
            let mine = sith_of(r);
            let other = s("1");
            e.push(("kt".into(), if next { other.clone() } else { mine.clone() }));
            e.push(("k".into(), J::Arr(vec![])));
            e.push(("nt".into(), if next { mine } else { other }));
            e.push(("n".into(), J::Arr(vec![])));
            let (_, j) = refj::saidify(&J::Obj(e), "E", "d", true, &[]);
            let text = j.text();
            c.call("Serder tholder", || {
                let m = Serder::new_with_raw(text.as_bytes()).ok()?;
                if next { m.ntholder() } else { m.tholder() }.ok()?
            })
        }
    }
}

fn judge(c: &mut Ctx, r: &Rule, t: &Tholder) -> R<()> {
    let (w, size, num, limen, sith) = c.call("Tholder accessors", || (t.weighted(), t.size(), t.num().ok(), t.limen().ok(), t.sith().ok()))?;
    let want_sith = sith_of(r);
    let shown = format!("{r:?}").chars().take(200).collect::<String>();
    c.ensure(w == matches!(r, Rule::Weights(_)) && size as usize == r.keys(), "threshold of another kind or size", || format!("{shown}: weighted {w} size {size}"))?;
    c.ensure(num == Some(match r { Rule::Count(n) => Some(*n as u32), _ => None }), "threshold has another number", || format!("{shown}: {num:?}"))?;
    c.ensure(limen.as_deref() == Some(limen_of(r).as_bytes()), "threshold written differently", || format!("{shown}: {:?}, want {}", limen.as_ref().map(|l| String::from_utf8_lossy(l).to_string()), limen_of(r)))?;
    c.ensure(sith.as_ref().map(|v| refj::same(&want_sith, v)).unwrap_or(false), "threshold written differently", || format!("{shown}: {:?}, want {}", sith.map(|v| kinds::json(&v)), want_sith.text()))
}

fn ask(c: &mut Ctx, r: &Rule, t: &Tholder, have: &[u32]) -> R<bool> {
    let got = c.call("Tholder.satisfy", || t.satisfy(have))?;
    let keys = r.keys() as u32;
    let shown = || format!("{} with {:?}", sith_of(r).text().chars().take(300).collect::<String>(), have.iter().take(60).collect::<Vec<_>>());
    if let (Rule::Weights(_), true) = (r, have.iter().any(|i| *i >= keys)) {
        // no such key: refused or disregarded, but never counted
        let real: Vec<u32> = have.iter().copied().filter(|i| *i < keys).collect();
        let want = r.satisfied(&real);
        c.ensure(want || !matches!(got, Ok(true)), "satisfied by keys which do not exist", || format!("{}: {got:?}", shown()))?;
        return Ok(want);
    }
    let want = r.satisfied(have);
    c.ensure(matches!(got, Ok(x) if x == want), if want { "met threshold not satisfied" } else { "unmet threshold satisfied" }, || format!("{}: {got:?}", shown()))?;
    Ok(want)
}

pub fn scenario(c: &mut Ctx) -> R<()> {
    for _ in 0..1 + c.below(3) {
        c.span(one)?;
    }
    for _ in 0..c.below(6) {
        c.span(refused)?;
    }
    Ok(())
}
fn one(c: &mut Ctx) -> R<()> {
    let r = rule(c);
    let shown = sith_of(&r).text();
    c.mark_bytes(shown.as_bytes());
    let possible = match &r {
        Rule::Count(_) => true,
        Rule::Weights(w) => w.iter().all(|x| sums_to_one(x)),
    };
    let exact = match &r {
        Rule::Count(_) => true,
        Rule::Weights(w) => summable(w),
    };
    let made = declare(c, &r)?;
    let mut t = match made {
        Some(t) => {
            c.ensure(possible, "threshold which can never be met accepted", || shown.clone())?;
            t
        }
        None => {
            c.ensure(!possible || !exact, "well formed threshold refused", || shown.clone())?;
            return Ok(());
        }
    };
    judge(c, &r, &t)?;
    // signatures arrive in any order, some more than once, some never
    let net = NetCfg::draw(c, false);
    let keys = match r {
        Rule::Count(n) => n.min(40) as u32 + c.draw(3) as u32,
        _ => r.keys() as u32,
    };
    let wide = matches!(r, Rule::Count(_)) && c.chance(1, 3);
    let mut q: Queue<u32> = Queue::new();
    for i in 0..keys {
        let i = if wide { i * 97 % 4096 } else { i };
        let at = c.draw(16) * 1_000_000;
        for (d, _) in net.transmit(c, b"") {
            q.push(at + d, i);
        }
    }
    if c.chance(1, 5) {
        c.fault(Fault::Forgery);
        q.push(c.draw(20) * 1_000_000, keys + c.number(u32::MAX as u128 - keys as u128) as u32);
    }
    let mut have: Vec<u32> = vec![];
    let mut met = ask(c, &r, &t, &have)?;
    let every = keys > 30;
    while let Some((at, i)) = q.pop() {
        c.now = at;
        have.push(i);
        if c.chance(1, 8) {
            // the node restarts from the threshold as stored
            c.fault(Fault::NodeCrash);
            c.fault(Fault::NodeRestart);
            t = match pass_on(c, &r, &t)? {
                Some(t) => t,
                None => return c.fail("threshold refused when read back", shown),
            };
            judge(c, &r, &t)?;
        }
        if every && c.chance(3, 4) && q.len() > 2 {
            continue;
        }
        if c.chance(1, 4) {
            for i in (1..have.len()).rev() {
                let k = c.below(i + 1);
                have.swap(i, k);
            }
        }
        let now = ask(c, &r, &t, &have)?;
        c.ensure(!met || now, "satisfaction lost with another signature", || shown.clone())?;
        met = now;
        c.state(crate::tape::mix(have.len() as u64) ^ (met as u64) ^ (keys as u64) << 20);
    }
    // sets of every kind
    for _ in 0..2 + c.below(6) {
        let mut v: Vec<u32> = (0..keys.min(200)).filter(|_| c.chance(1, 2)).collect();
        if c.chance(1, 3) && !v.is_empty() {
            let d = v[c.below(v.len())];
            v.extend(vec![d; 1 + c.below(4)]);
        }
        if c.chance(1, 2) {
            v.reverse();
        }
        ask(c, &r, &t, &v)?;
    }
    if let (Rule::Weights(_), true) = (&r, keys <= 7) {
        for m in 0..1u32 << keys {
            let v: Vec<u32> = (0..keys).filter(|i| m >> i & 1 == 1).collect();
            ask(c, &r, &t, &v)?;
        }
        c.probe("every set of signers");
    }
    if c.chance(1, 2) {
        twin(c, &r, &t)?;
    }
    match pass_on(c, &r, &t)? {
        Some(t) => judge(c, &r, &t),
        None => c.fail("threshold refused when read back", shown),
    }
}

/// Another controller's threshold, which is nearly this one, asked in turns with it.
fn twin(c: &mut Ctx, r: &Rule, t: &Tholder) -> R<()> {
    let mut r2 = r.clone();
    match &mut r2 {
        Rule::Count(n) => *n = if c.chance(1, 2) { n.saturating_sub(1).max(1) } else { (*n + 1).min(u32::MAX as u64) },
        Rule::Weights(w) => {
            let l = w.len();
            let k = if c.chance(1, 2) { l - 1 } else { c.below(l) };
            let m = w[k].len();
            let i = if c.chance(1, 2) { m - 1 } else { c.below(m) };
            match c.draw(5) {
                0 => w[k][i] = (1, 1),
                1 => w[k][i] = (0, 1),
                2 => {
                    let j = c.below(m);
                    w[k].swap(i, j);
                }
                3 if k > 0 && m > 1 => {
                    // the same weights in other clauses
                    let x = w[k].remove(0);
                    w[k - 1].push(x);
                }
                3 => {
                    let j = c.below(l);
                    w.swap(k, j);
                }
                _ => {
                    let (n, d) = w[k][i];
                    w[k][i] = if n > 0 && d < i32::MAX as u64 { (n, d + 1) } else { (1, 2) };
                }
            }
        }
    }
    let possible = match &r2 {
        Rule::Count(_) => true,
        Rule::Weights(w) => w.iter().all(|x| sums_to_one(x)) && summable(w),
    };
    let Some(t2) = declare(c, &r2)? else {
        return c.ensure(!possible, "well formed threshold refused", || sith_of(&r2).text());
    };
    if let Rule::Weights(w) = &r2 {
        c.ensure(w.iter().all(|x| sums_to_one(x)), "threshold which can never be met accepted", || sith_of(&r2).text())?;
    }
    judge(c, &r2, &t2)?;
    let keys = match r {
        Rule::Count(n) => *n.min(&40) as u32 + 1,
        _ => r.keys() as u32,
    };
    for _ in 0..2 + c.below(5) {
        let (a, b) = (1 + c.draw(3), 4);
        let v: Vec<u32> = (0..keys.min(200)).filter(|_| c.chance(a, b)).collect();
        ask(c, r, t, &v)?;
        ask(c, &r2, &t2, &v)?;
    }
    c.probe("two nearly equal thresholds in turns");
    Ok(())
}

/// Declarations which must be refused.
fn refused(c: &mut Ctx) -> R<()> {
    c.fault(Fault::Forgery);
    let good = |c: &mut Ctx| -> Vec<J> {
        let n = 2 + c.below(3);
        vec![s("1/2"); n]
    };
    const BAD: &[&str] = &[
        "", "2", "10", "-1", "1/0", "0/0", "3/2", "2/1", "-1/2", "1/-2", "1/2/3", "1/", "/2", "/", "a/b", "0.5", "1.0", " 1/2", "1/2 ", "1 /2", "½", "1\u{2044}2", "00",
        "2147483648/2147483648", "1/2147483648", "1/4294967297", "1/18446744073709551617", "4294967297/4294967298", "0x1/0x2", "1/2c1/2", "1s2", "1\\2", "1//2", "1e0/2", "5000000000",
    ];
    let j = match c.draw(8) {
        0 => J::Arr(vec![]),
        1 => J::Arr(vec![J::Arr(vec![])]),
        2 => {
            // an empty clause among good ones
            let n = 1 + c.below(3);
            let mut a: Vec<J> = (0..n).map(|_| J::Arr(good(c))).collect();
            let at = c.below(a.len() + 1);
            a.insert(at, J::Arr(vec![]));
            J::Arr(a)
        }
        3 | 4 => {
            // one bad weight
            let mut a = good(c);
            a.push(s("1"));
            let at = c.below(a.len() + 1);
            let bad = match c.draw(3) {
                0 => [J::Int(1), J::Null, J::Bool(true), J::Dec("0.5".into()), J::Arr(vec![s("1")]), J::Obj(vec![])][c.below(6)].clone(),
                _ => s(*c.pick(BAD)),
            };
            a.insert(at, bad);
            match c.draw(2) {
                0 => J::Arr(vec![J::Arr(a)]),
                _ => {
                    let g = good(c);
                    J::Arr(if c.chance(1, 2) { vec![J::Arr(g), J::Arr(a)] } else { vec![J::Arr(a), J::Arr(g)] })
                }
            }
        }
        5 => {
            // one clause which can never be met
            let mut w: Vec<Vec<(u64, u64)>> = vec![vec![(1, 1)]; 1 + c.below(3)];
            let at = c.below(w.len());
            w[at] = match c.draw(5) {
                0 => vec![(0, 1)],
                1 => vec![(1, 2), (1, 3)],
                2 => vec![(1, 3), (1, 3)],
                3 => {
                    let m = 2 + c.draw(i32::MAX as u64 - 4);
                    vec![(1, m + 1), (m - 1, m)]
                }
                _ => {
                    let n = 2 + c.draw(60);
                    vec![(1, n); n as usize - 1]
                }
            };
            nested(&w)
        }
        6 => [J::Obj(vec![]), J::Bool(true), J::Null, J::Int(-1), J::Int(-(1 << 40)), J::Int(1 << 32), J::Int(1 << 40), J::Int((1 << 32) + 1), J::Int(u64::MAX as i128), J::Int(i64::MIN as i128)][c.below(10)].clone(),
        _ => s(*c.pick(&["", "-1", "100000000", "100000001", "ffffffffffffffff", "10000000000000001", "g", "0x1", " 1", "1 ", "1/2", "[", "[]", "[[]]", "[\"1/2\"]", "[\"1/2\",\"1/2\"", "[1]", "[[\"1/2\",\"1/3\"]]", "[\"1/2\",[\"1/2\"]]", "{}", "-0.5", "1.5", "é"])),
    };
    let v = j.value();
    let k = c.draw(3);
    let got = c.call("Tholder from bad declaration", || {
        match k {
            0 => Tholder::new_with_sith(&v),
            1 => Tholder::new(None, None, Some(&v)),
            _ => Tholder::new_with_thold(&v),
        }
        .ok()
    })?;
    c.mark_bytes(j.text().as_bytes());
    c.ensure(got.is_none(), "malformed threshold accepted", || format!("{} by route {k}", j.text()))?;
    if c.chance(1, 3) {
        let b = *c.pick(&["", "1s0", "3s2", "1s2c1s3", "1s2ca1", "1a", "a1", "c", "a", "1s2c", "xyz", "1s2s1", "1s2147483648", "2", "-1", "1s-2", "1_2", "1s2c1s2aa1"]);
        let l = bext_text(b);
        let got = c.call("Tholder from bad limen", || Tholder::new_with_limen(l.as_bytes()).ok())?;
        c.ensure(got.is_none(), "malformed threshold accepted", || format!("{b:?} as {l}"))?;
    }
    if c.chance(1, 4) {
        let n = (1u128 << 32) + c.number(u128::MAX - (1 << 32));
        let l = number_text(n);
        let got = c.call("Tholder from bad limen", || Tholder::new_with_limen(l.as_bytes()).ok())?;
        c.ensure(got.is_none(), "number out of range accepted as threshold", || format!("{n} as {l}"))?;
    }
    Ok(())
}
