//! Nick generators against a model of the candidates they have left.
use crate::gen;
use crate::infra::*;
use std::collections::BTreeSet;
use vinezombie::client::nick::*;
use vinezombie::client::register::{default_bot_nicks, default_client_nicks, NT_FALLBACK};
use vinezombie::string::Nick;

fn nk(b: &[u8]) -> Nick<'static> {
    Nick::from_bytes(b.to_vec()).unwrap()
}
fn rnick(r: &mut Rng) -> Vec<u8> {
    match r.below(3) {
        0 => r.pick(&["Foo", "Foo_", "Fo", "foo", "Bar", "F", "Foo1", "Guest"]).as_bytes().to_vec(),
        _ => gen::nick(r, 9),
    }
}

/// Everything one suffix may add, in order.
fn options(s: &SuffixType) -> Vec<Vec<u8>> {
    let one = |s: &str| s.bytes().map(|b| vec![b]).collect::<Vec<_>>();
    match s {
        SuffixType::Letter(true) => one("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        SuffixType::Letter(false) => one("abcdefghijklmnopqrstuvwxyz"),
        SuffixType::Base8 => one("01234567"),
        SuffixType::Base10 => one("0123456789"),
        SuffixType::Base16(true) => one("0123456789ABCDEF"),
        SuffixType::Base16(false) => one("0123456789abcdef"),
        SuffixType::NonZeroBase8 => one("1234567"),
        SuffixType::NonZeroBase10 => one("123456789"),
        SuffixType::NonZeroBase16(true) => one("123456789ABCDEF"),
        SuffixType::NonZeroBase16(false) => one("123456789abcdef"),
        SuffixType::Choice(v) => v.iter().map(|n| n.as_bytes().to_vec()).collect(),
        SuffixType::Char(ch) => {
            // A character no nick can hold adds nothing.
            let s = ch.to_string().into_bytes();
            let ok = Nick::from_bytes([b"x".as_slice(), &s].concat()).is_ok();
            vec![if ok { s } else { vec![] }]
        }
        _ => vec![],
    }
}
fn stype(r: &mut Rng) -> SuffixType {
    match r.below(12) {
        0 => SuffixType::Letter(r.coin()),
        1 => SuffixType::Base8,
        2 => SuffixType::Base10,
        3 => SuffixType::Base16(r.coin()),
        4 => SuffixType::NonZeroBase8,
        5 => SuffixType::NonZeroBase10,
        6 => SuffixType::NonZeroBase16(r.coin()),
        7 | 8 => {
            let n = r.pickv(&[0, 1, 2, 3, 5, 30, 254, 255, 256, 257, 300]);
            let long = r.coin();
            SuffixType::Choice(
                (0..n)
                    .map(|i| if long || n > 20 { nk(format!("c{i}").as_bytes()) } else { nk(&rnick(r)) })
                    .collect(),
            )
        }
        _ => SuffixType::Char(r.pickv(&['_', '`', '-', '^', 'é', '漢', '🦀', ' ', '!', '@', '\n', '\0', '|', 'x', '0', ':', '#'])),
    }
}
/// All candidates of the sequential strategy, in order.
pub fn seq(prefix: &[u8], sfx: &[SuffixType]) -> Vec<Vec<u8>> {
    let opts: Vec<Vec<Vec<u8>>> = sfx
        .iter()
        .map(|s| {
            let mut o = options(s);
            o.truncate(255);
            o
        })
        .filter(|o| !o.is_empty())
        .collect();
    let total: usize = if sfx.is_empty() { 1 } else { opts.iter().map(|o| o.len()).sum::<usize>().clamp(1, 255) };
    // First every value of the first suffix, then of the first two, and so on; the values of an
    // earlier suffix change faster.
    let mut out = vec![];
    if opts.is_empty() {
        return vec![prefix.to_vec()];
    }
    let mut k = 1;
    'all: while k <= opts.len() {
        let mut idx = vec![0usize; k];
        loop {
            let mut v = prefix.to_vec();
            for (o, i) in opts.iter().zip(&idx) {
                v.extend_from_slice(&o[*i]);
            }
            out.push(v);
            if out.len() == total {
                break 'all;
            }
            let mut d = 0;
            loop {
                if d == k {
                    break;
                }
                idx[d] += 1;
                if idx[d] < opts[d].len() {
                    break;
                }
                idx[d] = 0;
                d += 1;
            }
            if d == k {
                break;
            }
        }
        k += 1;
    }
    out
}
/// Whether `v` is one option of each suffix in turn.
pub fn made_of(v: &[u8], sfx: &[SuffixType]) -> bool {
    let mut at: BTreeSet<usize> = [0].into();
    for s in sfx {
        let mut o = options(s);
        o.truncate(256);
        if o.is_empty() {
            continue;
        }
        let mut next = BTreeSet::new();
        for p in at {
            for x in &o {
                if v[p..].starts_with(x) {
                    next.insert(p + x.len());
                }
            }
        }
        at = next;
    }
    at.contains(&v.len())
}

/// What is left of a generator.
#[derive(Clone, Debug)]
enum Part {
    One(Vec<u8>),
    /// (left, kept when a nick is invalid)
    List(Vec<Vec<u8>>, bool),
    Seq(Vec<u8>, Vec<Vec<u8>>),
    Rand(Vec<u8>, Vec<SuffixType>, usize),
}
impl Part {
    fn dead(&self) -> bool {
        match self {
            Part::One(_) => false,
            Part::List(v, _) => v.is_empty(),
            Part::Seq(_, v) => v.is_empty(),
            Part::Rand(_, _, n) => *n == 0,
        }
    }
}
struct Endless(Vec<Nick<'static>>, usize);
impl Iterator for Endless {
    type Item = Nick<'static>;
    fn next(&mut self) -> Option<Nick<'static>> {
        self.1 += 1;
        Some(self.0[(self.1 - 1) % self.0.len()].clone())
    }
}

fn part(c: &mut Case) -> (Box<dyn NickGen>, Part) {
    let r = &mut c.rng;
    match r.below(7) {
        0 => {
            let n = rnick(r);
            (Box::new(nk(&n)), Part::One(n))
        }
        1 | 2 => {
            let m = if r.chance(1, 15) { 300 } else { 6 };
            let v: Vec<Vec<u8>> = (0..r.range(1, m)).map(|_| rnick(r)).collect();
            let it: Vec<_> = v.iter().map(|n| nk(n)).collect();
            if r.coin() {
                let (l, hit) = if r.chance(1, 3) { (vec![b"Dflt".to_vec()], false) } else { (v.clone(), true) };
                let it = if hit { it } else { vec![] };
                (Box::new(from_iter_or(nk(b"Dflt"), it)), Part::List(l, true))
            } else {
                (Box::new(from_iter(it).unwrap()), Part::List(v, true))
            }
        }
        3 => {
            let v: Vec<Vec<u8>> = (0..r.range(1, 4)).map(|_| rnick(r)).collect();
            let it = Endless(v.iter().map(|n| nk(n)).collect(), 0);
            let v = v.iter().cycle().take(400).cloned().collect();
            (Box::new(from_iter(it).unwrap()), Part::List(v, false))
        }
        4 => {
            let p = rnick(r);
            let s: Vec<_> = (0..r.below(7)).map(|_| stype(r)).collect();
            let seed = if r.chance(1, 4) { None } else { Some(r.next() as u32) };
            let g = Suffix { strategy: SuffixStrategy::Rng(seed), suffixes: s.clone().into() };
            (g.transform(nk(&p)), Part::Rand(p, s, 255))
        }
        _ => {
            let p = rnick(r);
            let s: Vec<_> = (0..r.below(6)).map(|_| stype(r)).collect();
            let all = seq(&p, &s);
            let g = Suffix { strategy: SuffixStrategy::Seq, suffixes: s.into() };
            (g.transform(nk(&p)), Part::Seq(p, all))
        }
    }
}
fn first(p: &Part) -> Option<Vec<u8>> {
    match p {
        Part::One(n) => Some(n.clone()),
        Part::List(v, _) | Part::Seq(_, v) => v.first().cloned(),
        Part::Rand(..) => None,
    }
}

/// Walks a generator to its end, checking every candidate; `odds`: how often a nick is invalid.
fn walk(c: &mut Case, gen: Box<dyn NickGen>, mut parts: Vec<Part>, odds: usize) {
    let mut gen = Some(gen);
    let mut steps = 0usize;
    let mut trail: Vec<Vec<u8>> = vec![];
    let cap = 3000;
    while let Some(g) = gen.take() {
        steps += 1;
        if steps > cap {
            // Only something endless may still be going.
            ck!(c, parts.iter().any(|p| matches!(p, Part::List(_, false))), "endless", "{steps} candidates and counting");
            return;
        }
        parts.retain(|p| !p.dead());
        let peeked = g.peek();
        if c.rng.chance(1, 4) {
            ck!(c, g.peek() == peeked, "peek", "two peeks differ");
        }
        let (n, next) = g.next_nick();
        let n = n.as_bytes().to_vec();
        ck!(c, peeked.as_bytes() == n.as_slice(), "peek", "peeked {}, got {}", show(&peeked), show(&n));
        ck!(c, Nick::from_bytes(n.clone()).is_ok(), "invalid", "candidate {}", show(&n));
        c.ev("candidates");
        c.seen(&n);
        let Some(p) = parts.first_mut() else {
            c.fail("extra", format!("candidate {} after the end (trail {:?})", show(&n), trail.iter().map(|t| show(t)).collect::<Vec<_>>()));
            return;
        };
        let mut ends = None;
        match p {
            Part::One(w) => {
                ck!(c, *w == n, "candidate", "got {}, expected {}", show(&n), show(w));
                *p = Part::List(vec![], true);
            }
            Part::List(v, fin) => {
                let w = v.remove(0);
                ck!(c, w == n, "candidate", "got {}, expected {} from the list", show(&n), show(&w));
                if !*fin && v.is_empty() {
                    return;
                }
            }
            Part::Seq(prefix, v) => {
                let w = v.remove(0);
                ck!(c, w == n, "candidate", "got {}, expected {} for {}", show(&n), show(&w), show(prefix));
                c.ev("sequential");
            }
            Part::Rand(prefix, s, left) => {
                let ok = n.starts_with(prefix) && made_of(&n[prefix.len()..], s);
                ck!(c, ok, "alphabet", "{} is not {} with one each of {:?}", show(&n), show(prefix), s);
                *left -= 1;
                c.ev("random");
                ends = Some(());
            }
        }
        // A random generator may stop after any of its candidates.
        if ends.is_some() {
            let rest = &parts[1..];
            match &next {
                None if rest.iter().all(|p| p.dead()) => return,
                None => {
                    c.fail("early-end", format!("ended with {rest:?} left"));
                    return;
                }
                Some(g) => {
                    let pk = g.peek();
                    let cont = match &parts[0] {
                        Part::Rand(p, s, left) => *left > 0 && pk.starts_with(p) && made_of(&pk[p.len()..], s),
                        _ => false,
                    };
                    let fresh = rest.iter().find(|p| !p.dead());
                    let moved = match fresh {
                        Some(Part::Rand(p, s, _)) => pk.starts_with(p) && made_of(&pk[p.len()..], s),
                        Some(p) => first(p).is_some_and(|f| f == pk.as_bytes()),
                        None => false,
                    };
                    if cont && moved {
                        // Cannot tell which; nothing more to learn from this walk.
                        c.ev("ambiguous");
                        return;
                    }
                    if !cont {
                        parts.remove(0);
                    }
                }
            }
        }
        parts.retain(|p| !p.dead());
        trail.push(n.clone());
        gen = next;
        if gen.is_none() {
            ck!(c, parts.is_empty(), "early-end", "ended after {} with {:?} left", show(&n), parts);
            c.ev("ended");
            return;
        }
        if odds > 0 && c.rng.chance(odds, 20) {
            // Usually the candidate just tried, as a server would.
            let bad = if c.rng.chance(1, 5) { rnick(&mut c.rng) } else { n.clone() };
            gen = gen.take().and_then(|g| g.handle_invalid(&nk(&bad)));
            parts.retain(|p| match p {
                Part::One(w) => *w != bad,
                Part::List(_, fin) => *fin,
                Part::Seq(p, _) | Part::Rand(p, _, _) => !bad.starts_with(p),
            });
            c.ev("invalid");
            if gen.is_none() {
                ck!(c, parts.is_empty(), "early-end", "gave up after {} was invalid, with {:?} left", show(&bad), parts);
                c.ev("ended");
                return;
            }
            // What the server called invalid is not offered again with something added to it.
            ck!(c, !parts.is_empty(), "longer-form", "{} was invalid, nothing should be left, but there is {}", show(&bad), show(&gen.as_ref().unwrap().peek()));
        }
    }
}

fn trees(c: &mut Case) {
    let (mut g, p) = part(c);
    let mut parts = vec![p];
    for _ in 0..c.rng.below(4) {
        if c.rng.chance(1, 4) {
            // Suffixes on the first nick.
            let s: Vec<_> = (0..c.rng.range(1, 5)).map(|_| stype(&mut c.rng)).collect();
            let sfx = Suffix { strategy: SuffixStrategy::Seq, suffixes: s.clone().into() };
            let p = g.peek().as_bytes().to_vec();
            if let Some(f) = parts.iter().find(|p| !p.dead()).and_then(first) {
                ck!(c, f == p, "peek", "{} {}", show(&f), show(&p));
            }
            parts.push(Part::Seq(p.clone(), seq(&p, &s)));
            g = Box::new(g).chain_using(&sfx);
        } else {
            let (g2, p2) = part(c);
            if c.rng.coin() {
                g = Box::new(g).chain(g2);
                parts.push(p2);
            } else {
                g = Box::new(g2).chain(g);
                parts.insert(0, p2);
            }
        }
    }
    c.sample(|| format!("{:?}", parts.iter().map(|p| format!("{p:?}").chars().take(60).collect::<String>()).collect::<Vec<_>>()));
    let odds = c.rng.pickv(&[0, 0, 1, 3, 10]);
    walk(c, g, parts, odds);
}

/// The sequential strategy on its own, without repeats when the alphabets cannot be confused.
fn sequences(c: &mut Case) {
    let p = rnick(&mut c.rng);
    let s: Vec<SuffixType> = (0..c.rng.range(1, 8))
        .map(|_| loop {
            let t = stype(&mut c.rng);
            if !matches!(t, SuffixType::Choice(_)) && options(&t).iter().all(|o| !o.is_empty()) {
                return t;
            }
        })
        .collect();
    let g = Suffix { strategy: SuffixStrategy::Seq, suffixes: s.clone().into() };
    let mut gen = Some(g.transform(nk(&p)));
    let mut seen = BTreeSet::new();
    let mut got = vec![];
    while let Some(g) = gen {
        let (n, next) = g.next_nick();
        let n = n.as_bytes().to_vec();
        ck!(c, n.starts_with(&p) && n.len() > p.len(), "built", "{} from {}", show(&n), show(&p));
        // One option of each of the first k suffixes.
        ck!(c, (1..=s.len()).any(|k| made_of(&n[p.len()..], &s[..k])), "alphabet", "{} from {} with {:?}", show(&n), show(&p), s);
        ck!(c, seen.insert(n.clone()), "repeat", "{} offered twice for {:?}", show(&n), s);
        got.push(n);
        gen = next;
        if got.len() > 300 {
            c.fail("endless", format!("{:?}", s));
            break;
        }
    }
    let n1 = options(&s[0]).len();
    ck!(c, got.len() >= n1, "too-few", "{} candidates for {:?}", got.len(), s);
    for (g, o) in got.iter().zip(options(&s[0])) {
        ck!(c, g[p.len()..] == o, "first-suffix", "{} for {:?}", show(g), s);
    }
    ck!(c, got == seq(&p, &s), "sequence", "{:?} for {:?}", got.iter().map(|g| show(g)).collect::<Vec<_>>(), s);
    c.evn("sequential", got.len() as u64);
    c.seen(&h64(&got));
}

/// Random suffixes: the same seed gives the same nicks.
fn seeded(c: &mut Case) {
    let p = rnick(&mut c.rng);
    let s: Vec<_> = (0..c.rng.range(1, 9)).map(|_| stype(&mut c.rng)).collect();
    let g = Suffix { strategy: SuffixStrategy::Rng(Some(c.rng.next() as u32)), suffixes: s.clone().into() };
    let all = |c: &mut Case| {
        let mut out = vec![];
        let mut gen = Some(g.transform(nk(&p)));
        while let Some(g) = gen {
            let pk = g.peek();
            let (n, next) = g.next_nick();
            ck!(c, pk == n, "peek", "{} {}", show(&pk), show(&n));
            ck!(c, n.starts_with(&p) && made_of(&n[p.len()..], &s), "alphabet", "{} from {} with {:?}", show(&n), show(&p), s);
            out.push(n.as_bytes().to_vec());
            gen = next;
            if out.len() > 300 {
                c.fail("endless", format!("{:?}", s));
                break;
            }
        }
        out
    };
    let (a, b) = (all(c), all(c));
    ck!(c, a == b, "seed", "one seed, two sequences");
    // With room to differ, it does: not the same nick all over again.
    let room: usize = s.iter().map(|s| options(s).iter().collect::<BTreeSet<_>>().len().max(1)).fold(1usize, |a, b| a.saturating_mul(b));
    if room >= 1000 && a.len() >= 8 {
        let d = a.iter().collect::<BTreeSet<_>>().len();
        ck!(c, d > a.len() / 2, "stuck", "{} of {} candidates differ for {:?}", d, a.len(), s);
        c.ev("roomy");
    }
    c.evn("random", a.len() as u64);
    c.seen(&h64(&a));
}

/// What registration uses unless told otherwise.
fn defaults(c: &mut Case) {
    let v: Vec<Vec<u8>> = (0..c.rng.below(5)).map(|_| rnick(&mut c.rng)).collect();
    let it: Vec<_> = v.iter().map(|n| nk(n)).collect();
    let odds = c.rng.pickv(&[0, 0, 1, 4]);
    if c.rng.coin() {
        let g = default_client_nicks(it);
        let parts = match v.first() {
            Some(f) => {
                ck!(c, NT_FALLBACK.strategy == SuffixStrategy::Seq, "fallback", "{:?}", NT_FALLBACK);
                vec![Part::List(v.clone(), true), Part::Seq(f.clone(), seq(f, &NT_FALLBACK.suffixes))]
            }
            None => vec![
                Part::One(b"Guest".to_vec()),
                Part::Rand(b"Guest".to_vec(), vec![SuffixType::Base10, SuffixType::Base8, SuffixType::Base10, SuffixType::Base8], 255),
            ],
        };
        c.ev("client_defaults");
        walk(c, g, parts, odds);
    } else {
        let g = default_bot_nicks(it);
        let mut s = vec![SuffixType::Base10];
        s.extend(vec![SuffixType::Base16(false); 5]);
        let parts = vec![Part::List(v, true), Part::Rand(b"VNZB".to_vec(), s, 255)];
        c.ev("bot_defaults");
        walk(c, g, parts, odds);
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("trees", 300, 3000, trees);
    ctx.run("sequences", 100, 1000, sequences);
    ctx.run("seeded", 60, 600, seeded);
    ctx.run("defaults", 60, 600, defaults);
    for (k, n) in [("candidates", 3000), ("sequential", 1000), ("random", 500), ("invalid", 50), ("ended", 50), ("roomy", 5), ("client_defaults", 5), ("bot_defaults", 5)] {
        ctx.require(k, n);
    }
}
