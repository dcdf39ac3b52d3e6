//! Mode letters, mode sets, mode classes and status prefixes against plain set/map models.
use crate::gen;
use crate::infra::*;
use std::collections::BTreeSet;
use std::num::NonZeroU8;
use vinezombie::names::{ISupport, NameMap};
use vinezombie::state::*;
use vinezombie::string::{Arg, Key, Word};

type Set = BTreeSet<(u8, u8, u8)>;
/// Documented order: alphabetical first, capitalisation second (lower case first).
fn key(b: u8) -> (u8, u8, u8) {
    (b.to_ascii_lowercase(), b.is_ascii_uppercase() as u8, b)
}
fn letters() -> Vec<u8> {
    (b'a'..=b'z').chain(b'A'..=b'Z').collect()
}
fn md(b: u8) -> Mode {
    Mode::new(b).expect("letter")
}
fn lettr(r: &mut Rng, wide: bool) -> u8 {
    if wide {
        r.pickv(&letters())
    } else {
        r.pickv(b"aAbBzZmMovOV")
    }
}
fn ref_of(s: &ModeSet) -> Set {
    letters().into_iter().filter(|b| s.contains(md(*b))).map(key).collect()
}
fn full(c: &mut Case, s: &ModeSet, m: &Set, what: &str) {
    for b in letters() {
        ck!(c, s.contains(md(b)) == m.contains(&key(b)), "contains", "{what}: '{}' in {s:?}, model {m:?}", b as char);
    }
    ckeq!(c, s.len(), m.len(), "len", "{what} {s:?}");
    ckeq!(c, s.is_empty(), m.is_empty(), "is_empty", "{what} {s:?}");
    let want: Vec<u8> = m.iter().map(|k| k.2).collect();
    let fwd: Vec<u8> = s.into_iter().map(u8::from).collect();
    ckeq!(c, fwd, want, "iteration", "{what}");
    let mut bwd: Vec<u8> = (*s).into_iter().rev().map(u8::from).collect();
    bwd.reverse();
    ckeq!(c, bwd, want, "reverse-iteration", "{what}");
    // From both ends at once, with the announced sizes.
    let mut it = s.into_iter();
    let (mut lo, mut hi) = (vec![], vec![]);
    loop {
        let left = want.len() - lo.len() - hi.len();
        ck!(c, it.len() == left && it.size_hint() == (left, Some(left)), "size_hint", "{what}: {:?}, {left} left", it.size_hint());
        if left == 0 {
            break;
        }
        if c.rng.coin() {
            lo.extend(it.next().map(u8::from));
        } else {
            hi.extend(it.next_back().map(u8::from));
        }
        if lo.len() + hi.len() + left > want.len() + 1 + left {
            break;
        }
        if lo.len() + hi.len() != want.len() - left + 1 {
            c.fail("iterator-short", format!("{what}: ended with {left} left of {s:?}"));
            break;
        }
    }
    ck!(c, it.next().is_none() && it.next_back().is_none(), "iterator-fused", "{what}");
    hi.reverse();
    lo.extend(hi);
    ckeq!(c, lo, want, "two-ended-iteration", "{what}");
    ckeq!(c, s.to_string().into_bytes(), want, "display", "{what}");
    let again: ModeSet = want.iter().map(|b| md(*b)).collect();
    ck!(c, again == *s && h64(&again) == h64(s), "collect", "{what}: {again:?} {s:?}");
    c.seen(&want);
}
fn sets(c: &mut Case) {
    let wide = c.rng.coin();
    let mut pool: Vec<(ModeSet, Set)> = vec![(ModeSet::new(), Set::new()), (ModeSet::default(), Set::new())];
    for _ in 0..c.rng.range(3, 25) {
        let i = c.rng.below(pool.len());
        let j = c.rng.below(pool.len());
        let b = lettr(&mut c.rng, wide);
        let (o, om) = pool[j].clone();
        let k = c.rng.below(10);
        let p = &mut pool[i];
        match k {
            0..=2 => {
                let (a, e) = (p.0.set(md(b)), p.1.insert(key(b)));
                ckeq!(c, a, e, "set-changed", "{}", b as char);
            }
            3 | 4 => {
                let (a, e) = (p.0.unset(md(b)), p.1.remove(&key(b)));
                ckeq!(c, a, e, "unset-changed", "{}", b as char);
            }
            5 => {
                let q = p.0.with(md(b));
                let mut m = p.1.clone();
                m.insert(key(b));
                let old = p.1.clone();
                let cur = p.0;
                ck!(c, ref_of(&cur) == old, "with-mutates", "");
                pool.push((q, m));
            }
            6 => *p = (p.0.union(o), p.1.union(&om).cloned().collect()),
            7 => *p = (p.0.intersection(o), p.1.intersection(&om).cloned().collect()),
            8 => *p = (p.0.difference(o), p.1.difference(&om).cloned().collect()),
            _ => {
                let q = p.clone();
                pool.push(q);
            }
        }
        let (a, m) = pool[i].clone();
        full(c, &a, &m, "step");
        let (b2, n) = pool[j].clone();
        ck!(c, (a == b2) == (m == n), "equality", "{a:?} {b2:?}");
        let want = match (m.is_subset(&n), n.is_subset(&m)) {
            (true, true) => Some(std::cmp::Ordering::Equal),
            (true, false) => Some(std::cmp::Ordering::Less),
            (false, true) => Some(std::cmp::Ordering::Greater),
            _ => None,
        };
        ckeq!(c, a.partial_cmp(&b2), want, "subset-order", "{a:?} {b2:?}");
        c.ev("set-steps");
        while pool.len() > 6 {
            pool.swap_remove(0);
        }
    }
}
fn mode_letters(c: &mut Case) {
    let b = c.idx as u8;
    match Mode::new(b) {
        None => ck!(c, !b.is_ascii_alphabetic(), "letter-refused", "{b:#x}"),
        Some(m) => {
            ck!(c, b.is_ascii_alphabetic(), "letter-accepted", "{b:#x}");
            ck!(c, m.into_char() == b as char && u8::from(m) == b && char::from(m) == b as char && NonZeroU8::from(m).get() == b && m.into_nonzero_u8().get() == b, "letter-value", "{b:#x}");
            ck!(c, m.to_string() == (b as char).to_string(), "letter-display", "{b:#x}");
            let a: Arg = m.into();
            ck!(c, a.as_bytes() == [b], "letter-arg", "{b:#x}: {a:?}");
            for o in letters() {
                ckeq!(c, m.cmp(&md(o)), key(b).cmp(&key(o)), "letter-order", "{} {}", b as char, o as char);
                ck!(c, (m == md(o)) == (b == o), "letter-eq", "{b} {o}");
                // Every pair of letters as a set.
                let s = ModeSet::new().with(m).with(md(o));
                let mm: Set = [key(b), key(o)].into_iter().collect();
                full(c, &s, &mm, "pair");
            }
        }
    }
    c.ev("letters");
}
const TYPES: [ModeType; 4] = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];
/// letter -> how many classes list it, and the last of them
fn ref_classes(s: &[u8]) -> ([BTreeSet<u8>; 4], Vec<u8>, Vec<u8>) {
    let mut it = s.splitn(5, |b| *b == b',');
    let mut sets: [BTreeSet<u8>; 4] = Default::default();
    for x in sets.iter_mut() {
        let Some(p) = it.next() else { break };
        *x = p.iter().copied().filter(u8::is_ascii_alphabetic).collect();
    }
    let rest = it.next().unwrap_or_default().to_vec();
    let over = letters().into_iter().filter(|b| sets.iter().filter(|s| s.contains(b)).count() > 1).collect();
    (sets, over, rest)
}
fn chanmodes(r: &mut Rng) -> Vec<u8> {
    let wide = r.coin();
    let mut pool: Vec<u8> = if wide { letters() } else { b"beIklmnoBEK".to_vec() };
    r.shuffle(&mut pool);
    let clash = r.coin();
    let n = if r.chance(2, 3) { 4 } else { r.range(0, 7) };
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(b',');
        }
        for _ in 0..r.below(6) {
            if r.chance(1, 12) {
                v.push(r.pickv(b"0!{[@`_~\x80\xff(+-"));
            } else if clash {
                v.push(r.pickv(&pool));
            } else if let Some(b) = pool.pop() {
                v.push(b);
            }
        }
    }
    v
}
fn types_full(c: &mut Case, t: &ModeTypes, want: &dyn Fn(u8) -> Option<ModeType>, what: &str) {
    for b in letters() {
        ckeq!(c, t.get(md(b)), want(b), "class-of-letter", "{what}: '{}' in {t}", b as char);
    }
}
fn classes(c: &mut Case) {
    let s = chanmodes(&mut c.rng);
    c.desc = show(&s);
    let (sets, over, rest) = ref_classes(&s);
    let (mut t, o, r) = ModeTypes::parse(&s);
    ck!(c, r == rest, "rest", "{} expected {}", show(r), show(&rest));
    let om: Set = over.iter().map(|b| key(*b)).collect();
    full(c, &o, &om, "overlap");
    let cls = |b: u8| {
        if over.contains(&b) {
            None
        } else {
            (0..4).find(|i| sets[*i].contains(&b)).map(|i| TYPES[i])
        }
    };
    types_full(c, &t, &cls, "parse");
    // Building from the same sets agrees.
    let ms: Vec<ModeSet> = sets.iter().map(|s| s.iter().map(|b| md(*b)).collect()).collect();
    let (t2, o2) = ModeTypes::from_sets(ms[0], ms[1], ms[2], ms[3]);
    ck!(c, t2 == t && o2 == o, "from_sets", "{t2:?} {t:?}");
    // What it prints means the same.
    let printed = t.to_string();
    let (t3, o3, r3) = ModeTypes::parse(printed.as_bytes());
    ck!(c, t3 == t && o3.is_empty() && r3.is_empty(), "display", "{printed}: {t3:?} for {t:?}");
    // Edits.
    let mut m: std::collections::BTreeMap<u8, ModeType> = letters().into_iter().filter_map(|b| cls(b).map(|t| (b, t))).collect();
    for _ in 0..c.rng.below(8) {
        let ty = c.rng.pickv(&[ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD, ModeType::Status]);
        let mut bs = vec![lettr(&mut c.rng, true)];
        match c.rng.below(4) {
            0 | 1 => t.insert(md(bs[0]), ty),
            2 => {
                for _ in 0..c.rng.below(6) {
                    bs.push(lettr(&mut c.rng, true));
                }
                t.insert_set(bs.iter().map(|b| md(*b)).collect(), ty);
            }
            _ => {
                t = ModeTypes::from_set(ModeSet::new().with(md(bs[0])), ty);
                m.clear();
            }
        }
        for b in bs {
            // Status modes are explicitly excluded from this type.
            if ty == ModeType::Status {
                m.remove(&b);
            } else {
                m.insert(b, ty);
            }
        }
        types_full(c, &t, &|b| m.get(&b).copied(), "edit");
        c.ev("class-edits");
    }
    if !over.is_empty() {
        c.ev("overlaps");
    }
    c.ev("class-strings");
    c.seen(&s);
}
fn argument_rules(c: &mut Case) {
    // The four classes as ISUPPORT's CHANMODES defines them, and status modes.
    let want = [(ModeType::TypeA, true, true, true), (ModeType::TypeB, false, true, true), (ModeType::TypeC, false, true, false), (ModeType::TypeD, false, false, false), (ModeType::Status, true, true, true)];
    for (t, l, s, u) in want {
        ckeq!(c, (t.is_listlike(), t.needs_arg_to_set(), t.needs_arg_to_unset()), (l, s, u), "argument-rules", "{t:?}");
    }
    c.ev("argument-rules");
}
fn prefix_str(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    if !r.chance(1, 15) {
        v.push(b'(');
    }
    let n = r.below(8);
    let mut ms: Vec<u8> = if r.coin() { b"qaohvyYOV".to_vec() } else { letters() };
    let mut ps: Vec<u8> = if r.coin() { b"~&@%+!*.-^$".to_vec() } else { (1..128).collect() };
    r.shuffle(&mut ms);
    r.shuffle(&mut ps);
    let dup = r.chance(1, 3);
    for i in 0..n {
        let b = if dup && i > 0 && r.chance(1, 4) { r.pickv(&ms[..i]) } else { ms[i] };
        v.push(if r.chance(1, 15) { r.pickv(b"0[`{@\xe9(") } else { b });
    }
    if !r.chance(1, 15) {
        v.push(b')');
    }
    let k = if r.chance(1, 4) { r.below(10) } else { n };
    for i in 0..k {
        let b = if dup && i > 0 && r.chance(1, 6) { r.pickv(&ps[..i]) } else { ps[i] };
        v.push(if r.chance(1, 20) { r.pickv(b"\x80\xff\xc3)") } else { b });
    }
    if r.chance(1, 40) {
        v.clear();
    }
    v
}
/// Reference reading of a PREFIX value: None if malformed, else letters with their prefix.
fn ref_prefix(s: &[u8]) -> Option<Vec<(u8, Option<u8>)>> {
    let s = s.strip_prefix(b"(")?;
    let i = s.iter().position(|b| *b == b')')?;
    let (ms, ps) = (&s[..i], &s[i + 1..]);
    // From the first prefix that is missing or not a single-byte character on, positions mean nothing.
    let ps: Vec<u8> = ps.iter().copied().take_while(u8::is_ascii).collect();
    let mut out: Vec<(u8, Option<u8>)> = vec![];
    for (k, m) in ms.iter().enumerate() {
        if !m.is_ascii_alphabetic() {
            continue;
        }
        let p = ps.get(k).copied();
        if out.iter().any(|(m2, p2)| m2 == m || (p.is_some() && *p2 == p)) {
            return None;
        }
        out.push((*m, p));
    }
    Some(out)
}
fn status_full(c: &mut Case, s: &StatusModes, want: &[(u8, Option<u8>)]) {
    for b in letters() {
        let w = want.iter().find(|(m, _)| *m == b);
        ckeq!(c, s.contains(md(b)), w.is_some(), "status-contains", "'{}'", b as char);
        ckeq!(c, s.get_prefix(md(b)).map(|p| p.get()), w.and_then(|w| w.1), "status-prefix", "'{}'", b as char);
    }
    for p in 1..=255u8 {
        let w = want.iter().find(|(_, q)| *q == Some(p)).map(|x| x.0);
        ckeq!(c, s.get_mode(NonZeroU8::new(p).unwrap()).map(u8::from), w, "prefix-mode", "{p:#x}");
    }
}
fn prefixes(c: &mut Case) {
    let s = prefix_str(&mut c.rng);
    c.desc = show(&s);
    let want = ref_prefix(&s);
    match (StatusModes::parse(&s), want) {
        (Ok(s), Some(w)) => {
            status_full(c, &s, &w);
            c.ev("prefix-accepted");
        }
        (Err(_), None) => c.ev("prefix-refused"),
        (g, w) => c.fail("prefix-verdict", format!("{g:?}, expected {w:?}")),
    }
    c.seen(&s);
}
/// The whole way: 005 lines, the map, the server's channel modes.
fn isupport(c: &mut Case) {
    let cm = c.rng.chance(5, 6).then(|| {
        let mut v = chanmodes(&mut c.rng);
        v.retain(|b| gen::ok_word(*b));
        v
    });
    let px = c.rng.chance(5, 6).then(|| {
        let mut v = prefix_str(&mut c.rng);
        v.retain(|b| gen::ok_word(*b) && *b != b'\\');
        v
    });
    let mut words = vec![];
    if let Some(v) = &cm {
        words.push([&b"CHANMODES="[..], v].concat());
    }
    if let Some(v) = &px {
        words.push([&b"PREFIX="[..], v].concat());
    }
    words.push(b"NETWORK=x".to_vec());
    c.rng.shuffle(&mut words);
    c.desc = show(&words.join(&b' '));
    let mut map: NameMap<ISupport> = NameMap::new();
    {
        let mut e = map.edit();
        for w in &words {
            let (k, v) = w.split_at(w.iter().position(|b| *b == b'=').unwrap());
            let k = Key::from_bytes(k.to_vec()).unwrap();
            let v = Word::from_bytes(v[1..].to_vec()).unwrap();
            e.insert_or_update((k, v), ());
        }
    }
    let s = ServerChanModes::from_isupport(&map);
    let (sets, over, _) = ref_classes(cm.as_deref().unwrap_or_default());
    let st = px.as_deref().and_then(ref_prefix).unwrap_or_default();
    for b in letters() {
        let w = if st.iter().any(|(m, _)| *m == b) {
            Some(ModeType::Status)
        } else if over.contains(&b) {
            None
        } else {
            (0..4).find(|i| sets[*i].contains(&b)).map(|i| TYPES[i])
        };
        ckeq!(c, s.get(md(b)), w, "server-mode-class", "'{}'", b as char);
    }
    c.ev("servers");
    c.seen(&words);
}
pub fn run(ctx: &mut Ctx) {
    ctx.run_all("letters", 256, mode_letters);
    ctx.run_all("argument-rules", 1, argument_rules);
    ctx.run("sets", 3000, 30_000, sets);
    ctx.run("classes", 5000, 50_000, classes);
    ctx.run("prefixes", 8000, 80_000, prefixes);
    ctx.run("isupport", 2000, 20_000, isupport);
    for (k, n) in [("letters", 256), ("set-steps", 2000), ("overlaps", 200), ("class-edits", 500), ("prefix-accepted", 500), ("prefix-refused", 300), ("servers", 300)] {
        ctx.require(k, n);
    }
}
