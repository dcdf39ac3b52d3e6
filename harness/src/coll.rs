//! Random edit histories on the library's collections next to ordinary maps and lists.
use crate::gen;
use crate::infra::*;
use std::collections::BTreeMap;
use vinezombie::ircmsg::*;
use vinezombie::names::*;
use vinezombie::string::*;

type Model = BTreeMap<Vec<u8>, Vec<u8>>;

/// Sorting algorithms change with the number of elements, so some histories are about many.
fn big(c: &Case) -> bool {
    c.stream.ends_with("-big")
}
/// How many changes at most in one session of a `-big` history.
fn session(c: &Case) -> usize {
    if c.stream.contains("-huge") { 1500 } else { 80 }
}
fn universe(c: &mut Case) -> Vec<Vec<u8>> {
    let base: &[&[u8]] = &[b"a", b"aa", b"ab", b"b", b"B", b"+a", b"zz", b"time", b"\xff", b"a\x80", b"sasl", b"m"];
    let n = if c.stream.contains("-huge") { c.rng.range(300, 700) } else if big(c) { c.rng.range(9, 60) } else { c.rng.range(1, 8) };
    let mut v: Vec<Vec<u8>> = Vec::new();
    while v.len() < n {
        let k = if big(c) {
            format!("k{}", c.rng.below(if c.stream.contains("-huge") { 2000 } else { 200 })).into_bytes()
        } else if c.rng.chance(4, 5) { base[c.rng.below(base.len())].to_vec() } else { gen::key(&mut c.rng, 5) };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}
/// Abandoned sessions lose what is past the sorted part of a map for good. Where leaks are
/// watched for, such histories only hold borrowed strings.
fn borrowing(c: &Case) -> bool {
    c.stream.ends_with("-abandoned")
}
fn key<'a>(c: &mut Case, v: &'a [u8]) -> Key<'a> {
    if borrowing(c) {
        return Key::from_bytes(Bytes::from_bytes(v)).unwrap();
    }
    Key::from_bytes(gen::mk_bytes(&mut c.rng, v)).unwrap()
}
fn value<'a>(c: &mut Case, v: &'a [u8]) -> NoNul<'a> {
    if borrowing(c) {
        return NoNul::from_bytes(Bytes::from_bytes(v)).unwrap();
    }
    NoNul::from_bytes(gen::mk_bytes(&mut c.rng, v)).unwrap()
}
fn skey(v: &[u8]) -> Key<'static> {
    Key::from_bytes(v.to_vec()).unwrap()
}
fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    h64(t)
}

// ---------------------------------------------------------------- tags
fn check_tags(c: &mut Case, t: &Tags, m: &Model, uni: &[Vec<u8>], at: &str) {
    ckeq!(c, t.len(), m.len(), "len", "{at}");
    ckeq!(c, t.is_empty(), m.is_empty(), "is_empty", "{at}");
    for k in uni {
        let got = t.get(skey(k)).map(|v| v.as_bytes().to_vec());
        ckeq!(c, got.as_ref(), m.get(k), "get", "{at}: key {}", show(k));
    }
    match gen::tags_vec(t) {
        Err(e) => c.fail("inconsistent", format!("{at}: {e}")),
        Ok(v) => {
            ck!(c, v.windows(2).all(|w| w[0].0 < w[1].0), "order", "{at}: not in key order: {v:?}");
            let e: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            ckeq!(c, v, e, "contents", "{at}");
        }
    }
    c.ev("tags-compared");
    c.seen(m);
}
pub fn tags_machine(c: &mut Case, sessions: usize, leaks: bool) {
    let uni = universe(c);
    let vals: Vec<Vec<u8>> = (0..4).map(|_| gen::filtered(&mut c.rng, 6, |b| b == 0)).collect();
    let mut log = String::new();
    let mut m: Model = Model::new();
    // Starting point: empty, parsed (duplicates allowed), or collected.
    let start: Vec<(Vec<u8>, Vec<u8>)> = (0..c.rng.below(if big(c) { 150 } else { 8 }))
        .map(|_| (uni[c.rng.below(uni.len())].clone(), vals[c.rng.below(vals.len())].clone()))
        .collect();
    let mut text = Vec::new();
    for (k, v) in &start {
        if !text.is_empty() {
            text.push(b';');
        }
        text.extend_from_slice(k);
        if !v.is_empty() || c.rng.coin() {
            text.push(b'=');
            text.extend_from_slice(&gen::escape(v));
        }
    }
    let how = if borrowing(c) { c.rng.pickv(&[0usize, 2]) } else { c.rng.below(3) };
    let mut t: Tags = match how {
        0 => Tags::new(),
        1 => {
            m.extend(start.iter().cloned());
            Tags::parse(Word::from_bytes(gen::mk_bytes(&mut c.rng, &text)).unwrap())
        }
        _ => {
            m.extend(start.iter().cloned());
            start.iter().map(|(k, v)| (key(c, k), value(c, v))).collect()
        }
    };
    log.push_str(&format!("start {how} {start:?}"));
    c.desc.clone_from(&log);
    check_tags(c, &t, &m, &uni, "start");
    for s in 0..sessions {
        let n = c.rng.below(if big(c) { session(c) } else { c.rng.clone().pickv(&[2usize, 6, 14]) });
        let leak = leaks && c.rng.chance(1, 5);
        {
            let mut e = t.edit();
            for _ in 0..n {
                let k = &uni[c.rng.below(uni.len())];
                let v = &vals[c.rng.below(vals.len())];
                let op = c.rng.below(16);
                log.push_str(&format!(" {op}:{}", show(k)));
                let at = "in session";
                let lk = if leak { Key::from_bytes(Bytes::from_bytes(k)).unwrap() } else { key(c, k) };
                let lv = if leak { NoNul::from_bytes(Bytes::from_bytes(v)).unwrap() } else { value(c, v) };
                match op {
                    0..=4 => {
                        let old = e.insert_pair(lk, lv).map(|v| v.as_bytes().to_vec());
                        let mo = m.insert(k.clone(), v.clone());
                        c.desc.clone_from(&log);
                        ckeq!(c, old, mo, "insert-returns", "{at}");
                    }
                    5 | 6 => {
                        let old = e.insert_key(lk).map(|v| v.as_bytes().to_vec());
                        let mo = m.insert(k.clone(), Vec::new());
                        c.desc.clone_from(&log);
                        ckeq!(c, old, mo, "insert_key-returns", "{at}");
                    }
                    7..=10 => {
                        let old = e.remove(lk).map(|v| v.as_bytes().to_vec());
                        let mo = m.remove(k);
                        c.desc.clone_from(&log);
                        ckeq!(c, old, mo, "remove-returns", "{at}");
                    }
                    11 | 12 => {
                        let g = e.get(skey(k)).map(|v| v.as_bytes().to_vec());
                        c.desc.clone_from(&log);
                        ckeq!(c, g.as_ref(), m.get(k), "get-in-session", "{at}");
                    }
                    13 | 14 => {
                        let g = e.get_mut(skey(k));
                        let mo = m.get_mut(k);
                        c.desc.clone_from(&log);
                        ckeq!(c, g.is_some(), mo.is_some(), "get_mut-in-session", "{at}");
                        if let (Some(g), Some(mo)) = (g, mo) {
                            ckeq!(c, g.as_bytes(), mo.as_slice(), "get_mut-in-session", "{at}");
                            *g = lv;
                            mo.clone_from(v);
                        }
                    }
                    _ => {
                        if c.rng.chance(1, 4 + n / 10) {
                            e.clear();
                            m.clear();
                        }
                    }
                }
                ckeq!(c, e.len(), m.len(), "len-in-session", "{at}");
                ckeq!(c, e.is_empty(), m.is_empty(), "is_empty-in-session", "{at}");
                if c.rng.chance(1, 3 + n / 20) {
                    for k in &uni {
                        let g = e.get(skey(k)).map(|v| v.as_bytes().to_vec());
                        ckeq!(c, g.as_ref(), m.get(k), "get-in-session", "{at}: key {}", show(k));
                    }
                }
                c.ev("tag-edits");
            }
            if leak {
                std::mem::forget(e);
            }
        }
        log.push_str(" |");
        if leak {
            log.push_str("leaked|");
            c.ev("leaked-sessions");
            c.desc.clone_from(&log);
            // What is left must be a valid map holding entries that were put in.
            match gen::tags_vec(&t) {
                Err(e) => {
                    c.fail("inconsistent", format!("after an abandoned session: {e}"));
                    return;
                }
                Ok(v) => {
                    ck!(c, v.windows(2).all(|w| w[0].0 < w[1].0), "order", "after an abandoned session: {v:?}");
                    for (k, x) in &v {
                        ck!(c, m.get(k) == Some(x), "contents", "after an abandoned session: {} = {}", show(k), show(x));
                    }
                    m = v.into_iter().collect();
                }
            }
        }
        c.desc.clone_from(&log);
        check_tags(c, &t, &m, &uni, "after session");
        match c.rng.below(6) {
            0 if !borrowing(c) => t = t.owning(),
            1 => t = t.clone(),
            2 => {
                let k = &uni[c.rng.below(uni.len())];
                let v = &vals[c.rng.below(vals.len())];
                if let Some(g) = t.get_mut(key(c, k)) {
                    *g = value(c, v);
                    m.insert(k.clone(), v.clone());
                }
            }
            3 => {
                // The same map made another way is equal and hashes alike.
                let mut pairs: Vec<_> = m.iter().collect();
                c.rng.shuffle(&mut pairs);
                let o: Tags = pairs.into_iter().map(|(k, v)| (skey(k), NoNul::from_bytes(v.clone()).unwrap())).collect();
                ck!(c, o == t, "eq", "session {s}: equal maps compare different");
                ckeq!(c, hash_of(&o), hash_of(&t), "hash", "session {s}");
            }
            _ => (),
        }
    }
    check_tags(c, &t, &m, &uni, "end");
    c.sample(|| log.chars().take(250).collect());
}

// ---------------------------------------------------------------- name maps
type NModel = BTreeMap<Vec<u8>, (Vec<u8>, u64)>;
fn check_map(c: &mut Case, t: &NameMap<Cap, u64>, m: &NModel, uni: &[Vec<u8>], at: &str) {
    ckeq!(c, t.len(), m.len(), "map-len", "{at}");
    ckeq!(c, t.is_empty(), m.is_empty(), "map-is_empty", "{at}");
    for k in uni {
        let g = t.get_union_raw(&skey(k)).map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec()));
        let e = m.get(k).map(|(v, _)| (k.clone(), v.clone()));
        ckeq!(c, g, e, "map-get", "{at}: key {}", show(k));
        ckeq!(c, t.get_extra_raw(&skey(k)).copied(), m.get(k).map(|x| x.1), "map-extra", "{at}: key {}", show(k));
    }
    let sasl = m.get(&b"sasl"[..]);
    ckeq!(c, t.get_union(cap::SASL).map(|u| u.1.as_bytes().to_vec()), sasl.map(|x| x.0.clone()), "map-named", "{at}");
    ckeq!(c, t.get_extra(cap::SASL).copied(), sasl.map(|x| x.1), "map-named-extra", "{at}");
    ckeq!(c, t.get_both(cap::SASL).map(|x| (x.0.is_ok(), *x.1)), sasl.map(|x| (true, x.1)), "map-named-both", "{at}");
    ckeq!(c, t.get_parsed(cap::SASL).is_some(), sasl.is_some(), "map-named-parsed", "{at}");
    // Iteration from both ends.
    let mut it = t.keys();
    let (mut f, mut b) = (Vec::new(), Vec::new());
    let total = m.len();
    for i in 0.. {
        ckeq!(c, it.size_hint(), (total.saturating_sub(i), Some(total.saturating_sub(i))), "map-iter-len", "{at}");
        let x = if c.rng.coin() {
            let x = it.next();
            f.extend(x.map(|k| k.as_bytes().to_vec()));
            x
        } else {
            let x = it.next_back();
            b.extend(x.map(|k| k.as_bytes().to_vec()));
            x
        };
        if x.is_none() {
            break;
        }
        if i > total + 2 {
            c.fail("map-iter", format!("{at}: iteration does not end"));
            break;
        }
    }
    ck!(c, it.next().is_none() && it.next_back().is_none(), "map-iter-fused", "{at}");
    b.reverse();
    f.extend(b);
    ckeq!(c, f, m.keys().cloned().collect::<Vec<_>>(), "map-iter", "{at}");
    c.ev("maps-compared");
    c.seen(m);
}
pub fn map_machine(c: &mut Case, sessions: usize, leaks: bool) {
    let mut uni = universe(c);
    if c.rng.coin() && !uni.contains(&b"sasl".to_vec()) {
        uni.push(b"sasl".to_vec());
    }
    let vals: Vec<Vec<u8>> = (0..4).map(|_| gen::word(&mut c.rng, 6)).collect();
    let mut t: NameMap<Cap, u64> = NameMap::new();
    let mut m = NModel::new();
    let mut log = String::new();
    let mut ctr = 0u64;
    // Abandoned sessions leak what is past the sorted part; leave nothing on the heap there.
    let stat: &[(&'static str, &'static str)] = &[("a", "1"), ("aa", ""), ("ab", "x"), ("b", "y"), ("zz", "z,w"), ("m", "q")];
    for _ in 0..sessions {
        let n = c.rng.below(if big(c) { session(c) } else { c.rng.clone().pickv(&[2usize, 6, 14]) });
        let leak = leaks && c.rng.chance(1, 5);
        let mut e = t.edit();
        for _ in 0..n {
            ctr += 1;
            let (k, v, elem) = if leak || borrowing(c) {
                let (k, v) = stat[c.rng.below(stat.len())];
                (k.as_bytes().to_vec(), v.as_bytes().to_vec(), (Key::from_str(k), Word::from_str(v)))
            } else {
                let k = uni[c.rng.below(uni.len())].clone();
                let v = vals[c.rng.below(vals.len())].clone();
                let el = (skey(&k), Word::from_bytes(v.clone()).unwrap());
                (k, v, el)
            };
            let op = c.rng.below(16);
            log.push_str(&format!(" {op}:{}", show(&k)));
            c.desc.clone_from(&log);
            let flat = |x: Option<((Key, Word), u64)>| x.map(|((k, v), n)| (k.as_bytes().to_vec(), v.as_bytes().to_vec(), n));
            match op {
                0..=3 => {
                    let old = flat(e.insert(elem, ctr));
                    let mo = m.insert(k.clone(), (v, ctr)).map(|(v, n)| (k, v, n));
                    ckeq!(c, old, mo, "map-insert-returns", "");
                }
                4 | 5 => {
                    let old = e.insert_or_update(elem, ctr).map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec()));
                    let mo = match m.get_mut(&k) {
                        Some(x) => {
                            x.1 = ctr;
                            Some((k, v))
                        }
                        None => {
                            m.insert(k, (v, ctr));
                            None
                        }
                    };
                    ckeq!(c, old, mo, "map-insert_or_update-returns", "");
                }
                6 | 7 => {
                    let old = flat(e.try_insert(elem, ctr));
                    let mo = if m.contains_key(&k) {
                        Some((k, v, ctr))
                    } else {
                        m.insert(k, (v, ctr));
                        None
                    };
                    ckeq!(c, old, mo, "map-try_insert-returns", "");
                }
                8..=10 => {
                    let (old, mo) = if k == b"sasl" {
                        (flat(e.remove(cap::SASL)), m.remove(&k))
                    } else {
                        (flat(e.remove_raw(&skey(&k))), m.remove(&k))
                    };
                    ckeq!(c, old, mo.map(|(v, n)| (k, v, n)), "map-remove-returns", "");
                }
                11 | 12 => {
                    if let Some(x) = e.get_extra_raw_mut(&skey(&k)) {
                        *x = ctr;
                    }
                    if let Some(x) = m.get_mut(&k) {
                        x.1 = ctr;
                    }
                }
                13 => {
                    if let Some((_, x)) = e.get_both_mut(cap::SASL) {
                        *x = ctr;
                    }
                    if let Some(x) = m.get_mut(&b"sasl"[..]) {
                        x.1 = ctr;
                    }
                }
                14 => {
                    let g = e.get_union_raw(&skey(&k)).map(|x| x.1.as_bytes().to_vec());
                    ckeq!(c, g, m.get(&k).map(|x| x.0.clone()), "map-get-in-session", "");
                }
                _ => {
                    if c.rng.chance(1, 4 + n / 10) {
                        e.clear();
                        m.clear();
                    }
                }
            }
            ckeq!(c, e.len(), m.len(), "map-len-in-session", "");
            ckeq!(c, e.is_empty(), m.is_empty(), "map-is_empty-in-session", "");
            if c.rng.chance(1, 3 + n / 20) {
                for k in &uni {
                    let g = e.get_extra_raw(&skey(k)).copied();
                    ckeq!(c, g, m.get(k).map(|x| x.1), "map-get-in-session", "key {}", show(k));
                }
            }
            c.ev("map-edits");
        }
        if leak {
            std::mem::forget(e);
            log.push_str("|leaked");
            c.ev("leaked-sessions");
            let keys: Vec<Vec<u8>> = t.keys().map(|k| k.as_bytes().to_vec()).collect();
            c.desc.clone_from(&log);
            ck!(c, keys.windows(2).all(|w| w[0] < w[1]), "map-order", "after an abandoned session: {keys:?}");
            let old = std::mem::take(&mut m);
            for k in keys {
                let Some(x) = old.get(&k) else {
                    c.fail("map-contents", format!("after an abandoned session: unexpected key {}", show(&k)));
                    return;
                };
                m.insert(k, x.clone());
            }
        } else {
            drop(e);
        }
        log.push_str(" |");
        c.desc.clone_from(&log);
        check_map(c, &t, &m, &uni, "after session");
        match c.rng.below(6) {
            0 => t = t.clone(),
            1 => {
                if c.rng.chance(1, 4) {
                    t.clear();
                    m.clear();
                }
            }
            2 => {
                let k = &uni[c.rng.below(uni.len())];
                ctr += 1;
                if let Some(x) = t.get_extra_raw_mut(&skey(k)) {
                    *x = ctr;
                }
                if let Some(x) = m.get_mut(k) {
                    x.1 = ctr;
                }
            }
            3 => {
                let mut o: NameMap<Cap, u64> = NameMap::new();
                let mut pairs: Vec<_> = m.iter().collect();
                c.rng.shuffle(&mut pairs);
                for (k, (v, n)) in pairs {
                    o.edit().insert((skey(k), Word::from_bytes(v.clone()).unwrap()), *n);
                }
                check_map(c, &o, &m, &uni, "rebuilt");
            }
            _ => (),
        }
    }
    check_map(c, &t, &m, &uni, "end");
    c.sample(|| log.chars().take(250).collect());
}

// ---------------------------------------------------------------- argument lists
#[derive(Default, Clone)]
struct AModel {
    words: Vec<Vec<u8>>,
    long: Option<Vec<u8>>,
}
impl AModel {
    fn all(&self) -> Vec<Vec<u8>> {
        self.words.iter().cloned().chain(self.long.clone()).collect()
    }
    fn add(&mut self, s: &[u8]) -> Option<Vec<u8>> {
        if gen::is_arg(s) {
            self.words.push(s.to_vec());
            self.long.take()
        } else {
            self.long.replace(s.to_vec())
        }
    }
}
fn check_args(c: &mut Case, a: &Args, m: &AModel, at: &str) {
    let all = m.all();
    ckeq!(c, a.len(), all.len(), "args-len", "{at}");
    ckeq!(c, a.is_empty(), all.is_empty(), "args-is_empty", "{at}");
    ckeq!(c, a.is_last_long(), m.long.is_some(), "args-is_last_long", "{at}");
    let v = |s: &[Arg]| s.iter().map(|w| w.as_bytes().to_vec()).collect::<Vec<_>>();
    ckeq!(c, v(a.words()), m.words, "args-words", "{at}");
    ckeq!(c, a.all().map(v), m.long.is_none().then(|| m.words.clone()), "args-all", "{at}");
    let (rest, last) = a.split_last();
    let mut e = all.clone();
    let el = e.pop();
    ckeq!(c, v(rest), e, "args-split_last", "{at}");
    ckeq!(c, last.map(|l| l.as_bytes().to_vec()), el, "args-split_last", "{at}");
    let n: usize = all.iter().map(|x| x.len() + 1).sum();
    let lb = a.len_bytes();
    ck!(c, lb == n || (!all.is_empty() && lb == n + 1), "args-len_bytes", "{at}: {lb} for {n} bytes (or one more for a colon)");
    for w in a.words() {
        ck!(c, gen::is_arg(w), "args-word-valid", "{at}: {}", show(w));
    }
    // What a message with these arguments looks like, and what comes back.
    let mut msg = ClientMsg::new_cmd(Cmd::from_str("X"));
    msg.args = a.clone();
    let mut out = Vec::new();
    msg.write_to(&mut out).unwrap();
    let exp = gen::wire(&gen::RMsg { tags: Default::default(), source: None, kind: b"X".to_vec(), args: all.clone() });
    ck!(c, out == exp, "args-written", "{at}: {} expected {}", show(&out), show(&exp));
    if all.iter().all(|x| std::str::from_utf8(x).is_ok()) {
        let t = String::from_utf8(exp[1..].to_vec()).unwrap();
        let d = a.to_string();
        ckeq!(c, d.as_str(), t.strip_prefix(' ').unwrap_or(&t), "args-display", "{at}");
    }
    let back = Args::parse(Line::from_bytes(exp[1..].to_vec()).unwrap());
    ck!(c, gen::of_args(&back) == all && back == *a, "args-reparsed", "{at}: {} gave {back:?}", show(&exp));
    ckeq!(c, hash_of(&back), hash_of(a), "args-hash", "{at}");
    c.ev("args-compared");
    c.seen(&all);
}
fn a_word<'a>(c: &mut Case, v: &'a [u8]) -> Arg<'a> {
    Arg::from_bytes(gen::mk_bytes(&mut c.rng, v)).unwrap()
}
fn a_line<'a>(c: &mut Case, v: &'a [u8]) -> Line<'a> {
    Line::from_bytes(gen::mk_bytes(&mut c.rng, v)).unwrap()
}
pub fn args_machine(c: &mut Case, steps: usize) {
    let words: Vec<Vec<u8>> = (0..5).map(|_| gen::arg(&mut c.rng, 8)).collect();
    let lines: Vec<Vec<u8>> = (0..6)
        .map(|_| match c.rng.below(8) {
            0 => Vec::new(),
            1 => b":".to_vec(),
            2 => {
                let mut v = gen::word(&mut c.rng, 6);
                v.insert(0, b':');
                v
            }
            3 => b" ".to_vec(),
            4 | 5 => gen::word(&mut c.rng, 8),
            _ => gen::line(&mut c.rng, 14),
        })
        .collect();
    let borrowed: Vec<Arg> = words.iter().map(|w| a_word(c, w)).collect();
    let mut a = Args::empty();
    let mut m = AModel::default();
    let mut log = String::new();
    let wi = |c: &mut Case| c.rng.below(5);
    for _ in 0..steps {
        let op = c.rng.below(12);
        log.push_str(&format!(" {op}"));
        c.desc.clone_from(&log);
        match op {
            0 => {
                let n = c.rng.below(4);
                let mut w: Vec<Vec<u8>> = (0..n).map(|_| words[wi(c)].clone()).collect();
                let l = c.rng.coin().then(|| c.rng.below(lines.len()));
                let last = l.map(|l| a_line(c, &lines[l]));
                a = if c.rng.coin() {
                    let k = c.rng.below(5);
                    w = words[..k].to_vec();
                    Args::new(&borrowed[..k], last)
                } else {
                    Args::new(w.iter().map(|x| Arg::from_bytes(x.clone()).unwrap()).collect::<Vec<_>>(), last)
                };
                m = AModel { words: w, long: None };
                if let Some(l) = l {
                    m.add(&lines[l]);
                }
            }
            1 => {
                let n = c.rng.below(4);
                let w: Vec<usize> = (0..n).map(|_| wi(c)).collect();
                let l = c.rng.coin().then(|| c.rng.below(lines.len()));
                let last = l.map(|l| a_line(c, &lines[l]));
                let it: Vec<Arg> = w.iter().map(|i| a_word(c, &words[*i])).collect();
                if c.rng.coin() {
                    a.set(it, last);
                } else {
                    // An iterator whose size hint says little.
                    a.set(it.into_iter().filter(|_| true), last);
                }
                m = AModel { words: w.iter().map(|i| words[*i].clone()).collect(), long: None };
                if let Some(l) = l {
                    m.add(&lines[l]);
                }
            }
            2 => {
                let w: Vec<Arg> = (0..c.rng.below(4)).map(|i| a_word(c, &words[i])).collect();
                m = AModel { words: w.iter().map(|w| w.as_bytes().to_vec()).collect(), long: None };
                a = Args::from(w);
            }
            3 => {
                if c.rng.chance(1, 3) {
                    a.clear();
                    m = AModel::default();
                }
            }
            4 => {
                let mut o = a.clone().owning();
                check_args(c, &o, &m, "owning");
                let mut m2 = m.clone();
                o.edit().add_word(Arg::from_str("z"));
                m2.words.push(b"z".to_vec());
                check_args(c, &o, &m2, "owning, edited");
            }
            _ => {
                let mut e = a.edit();
                for _ in 0..c.rng.range(1, 5) {
                    let w = &words[wi(c)];
                    let l = &lines[c.rng.below(lines.len())];
                    let op = c.rng.below(11);
                    log.push_str(&format!(" e{op}({},{})", show(w), show(l)));
                    c.desc.clone_from(&log);
                    match op {
                        0..=2 => {
                            e.add_word(a_word(c, w));
                            m.words.push(w.clone());
                        }
                        3 | 4 => {
                            e.add_before_last(a_word(c, w));
                            let at = if m.long.is_none() { m.words.len().saturating_sub(1) } else { m.words.len() };
                            m.words.insert(at, w.clone());
                        }
                        5 | 6 => {
                            let old = e.add(a_line(c, l)).map(|l| l.as_bytes().to_vec());
                            let mo = m.add(l);
                            ckeq!(c, old, mo, "args-add-returns", "");
                        }
                        7 => {
                            let s: &'static str = c.rng.pick(&["", "word", "two words", ":colon", " lead", "é"]);
                            e.add_literal(s);
                            m.add(s.as_bytes());
                        }
                        8 => {
                            let ws = e.words();
                            ckeq!(c, ws.len(), m.words.len(), "args-edit-words", "");
                            if let Some(x) = ws.first_mut() {
                                *x = a_word(c, w);
                                m.words[0] = w.clone();
                            }
                            ws.reverse();
                            m.words.reverse();
                        }
                        9 => {
                            let (ws, l) = e.split_last();
                            let mut all = m.all();
                            let el = all.pop();
                            ckeq!(c, l.map(|l| l.as_bytes().to_vec()), el, "args-edit-split_last", "");
                            ckeq!(c, ws.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>(), all, "args-edit-split_last", "");
                            let al = e.all().map(|w| w.len());
                            ckeq!(c, al, m.long.is_none().then_some(m.words.len()), "args-edit-all", "");
                        }
                        _ => {
                            if c.rng.chance(1, 4) {
                                e.clear();
                                m = AModel::default();
                            }
                        }
                    }
                    ckeq!(c, e.args_left(), 15 - m.all().len() as isize, "args_left", "");
                    c.ev("arg-edits");
                }
            }
        }
        check_args(c, &a, &m, "after");
    }
    c.sample(|| log.chars().take(250).collect());
}
