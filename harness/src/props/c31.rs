//! C31: equality, ordering and hashing depend only on what a value says, never on how it was made,
//! who owns it, whether it is secret or what has been asked of it before.
use crate::gen;
use crate::infra::*;
use crate::strm::*;

use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vinezombie::client::conn::ServerAddr;
use vinezombie::ircmsg::*;
use vinezombie::state::Mode;
use vinezombie::string::*;

/// The standard library's own hasher, next to the harness's.
fn sip<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// A close relative of a byte string: most differ in one place, some not at all.
fn near(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    let n = v.len();
    match r.below(9) {
        0 | 1 => (),
        2 => {
            v.pop();
        }
        3 => v.push(r.byte()),
        4 if n > 0 => {
            let at = r.below(n);
            v[at] ^= 1 << r.below(8);
        }
        5 if n > 0 => {
            let at = r.below(n);
            v[at] = if v[at].is_ascii_lowercase() { v[at].to_ascii_uppercase() } else { v[at].to_ascii_lowercase() };
        }
        6 if n > 1 => {
            let at = r.below(n - 1);
            v.swap(at, at + 1);
        }
        7 if n > 0 => {
            v.remove(r.below(n));
        }
        _ => {
            let at = r.below(n + 1);
            v.insert(at, r.byte());
        }
    }
    v
}
/// The laws a pair of values of one type must follow, given whether they say the same.
fn pair<T: Eq + Hash + Debug>(c: &mut Case, a: &T, b: &T, same: bool, what: &str) {
    ckeq!(c, a == b, same, "equality", "{what}: {a:?} {b:?}");
    ckeq!(c, b == a, same, "equality", "{what}: {b:?} {a:?}");
    #[allow(clippy::nonminimal_bool)]
    {
        ckeq!(c, a != b, !same, "inequality", "{what}: {a:?} {b:?}");
    }
    if same {
        ckeq!(c, h64(a), h64(b), "hash", "{what}: {a:?} {b:?}");
        ckeq!(c, sip(a), sip(b), "hash", "{what}: {a:?} {b:?}");
        c.ev("same");
    } else {
        c.ev("different");
    }
}
/// The laws of an order, which is one answer given in several ways.
fn order<T: Ord + Debug>(c: &mut Case, a: &T, b: &T, what: &str) -> Ordering {
    let o = a.cmp(b);
    ckeq!(c, o == Ordering::Equal, a == b, "order-equality", "{what}: {a:?} {b:?}");
    ckeq!(c, b.cmp(a), o.reverse(), "order-antisymmetry", "{what}: {a:?} {b:?}");
    ckeq!(c, a.partial_cmp(b), Some(o), "partial-order", "{what}: {a:?} {b:?}");
    ckeq!(c, b.partial_cmp(a), Some(o.reverse()), "partial-order", "{what}: {b:?} {a:?}");
    ckeq!(c, (a < b, a <= b, a > b, a >= b), (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()), "order-operators", "{what}: {a:?} {b:?}");
    c.ev("ordered");
    o
}
/// Sorting by the type's own order leaves every pair in order.
fn sorted<T: Ord + Debug + Clone>(c: &mut Case, v: &[T], what: &str) {
    let mut s = v.to_vec();
    c.rng.shuffle(&mut s);
    s.sort();
    for i in 0..s.len() {
        for j in i..s.len() {
            ck!(c, s[i] <= s[j], "order-transitivity", "{what}: {:?} after {:?}", s[j], s[i]);
        }
    }
}
trait Text: Ord + Hash + Debug + Clone + for<'x> PartialEq<&'x [u8]> + for<'x> PartialEq<&'x str> + PartialEq<[u8]> + PartialEq<str> + Borrow<[u8]> + AsRef<[u8]> {}
impl<T: Ord + Hash + Debug + Clone + for<'x> PartialEq<&'x [u8]> + for<'x> PartialEq<&'x str> + PartialEq<[u8]> + PartialEq<str> + Borrow<[u8]> + AsRef<[u8]>> Text for T {}

fn text_type<T: Text>(c: &mut Case, vals: &[(T, Vec<u8>)], ty: &str) {
    for (i, (a, m)) in vals.iter().enumerate() {
        ckeq!(c, h64(a), h64(m.as_slice()), "borrow-hash", "{ty} {}", show(m));
        ckeq!(c, sip(a), sip(m.as_slice()), "borrow-hash", "{ty} {}", show(m));
        let bb: &[u8] = a.borrow();
        let ar: &[u8] = a.as_ref();
        ck!(c, bb == m.as_slice() && ar == m.as_slice(), "borrow", "{ty} {}", show(m));
        for (b, n) in &vals[..=i] {
            let same = m == n;
            pair(c, a, b, same, ty);
            let o = order(c, a, b, ty);
            ckeq!(c, o, m.cmp(n), "order-bytes", "{ty} {} {}", show(m), show(n));
            ckeq!(c, a == n.as_slice(), same, "eq-slice", "{ty} {} {}", show(m), show(n));
            ckeq!(c, *a == *n.as_slice(), same, "eq-slice", "{ty} {} {}", show(m), show(n));
            if let Ok(t) = std::str::from_utf8(n) {
                ckeq!(c, a == t, same, "eq-text", "{ty} {} {t:?}", show(m));
                ckeq!(c, *a == *t, same, "eq-text", "{ty} {} {t:?}", show(m));
                c.ev("against-text");
            }
        }
    }
    // Collections find a value by an equal one, by its bytes, and by nothing else.
    let hs: HashSet<T> = vals.iter().map(|x| x.0.clone()).collect();
    let bs: BTreeSet<T> = vals.iter().map(|x| x.0.clone()).collect();
    let ms: BTreeSet<&[u8]> = vals.iter().map(|x| x.1.as_slice()).collect();
    ckeq!(c, hs.len(), ms.len(), "hash-set", "{ty} {ms:?}");
    ck!(c, bs.iter().map(|x| x.as_ref() as &[u8]).eq(ms.iter().copied()), "tree-set", "{ty} {bs:?} {ms:?}");
    let hm: HashMap<T, usize> = vals.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect();
    let bm: BTreeMap<T, usize> = vals.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect();
    let mm: HashMap<&[u8], usize> = vals.iter().enumerate().map(|(i, x)| (x.1.as_slice(), i)).collect();
    for _ in 0..3 {
        let k = c.rng.below(vals.len());
        let probe = near(&mut c.rng, &vals[k].1);
        let want = mm.get(probe.as_slice());
        ckeq!(c, hm.get(probe.as_slice()), want, "hash-lookup", "{ty} {} in {ms:?}", show(&probe));
        ckeq!(c, bm.get(probe.as_slice()), want, "tree-lookup", "{ty} {} in {ms:?}", show(&probe));
        ckeq!(c, hm.get::<T>(&vals[k].0), mm.get(vals[k].1.as_slice()), "hash-lookup", "{ty} {}", show(&vals[k].1));
        c.ev("lookups");
    }
}
macro_rules! arrays {
    ($c:ident, $a:expr, $n:expr; $($k:literal)*) => { match $n.len() { $($k => {
        let arr: [u8; $k] = $n.try_into().unwrap();
        Some(($a == arr, $a == &arr))
    })* _ => None } };
}
/// Strings of every type, from a family of close relatives, made in every way.
fn strings(c: &mut Case) {
    let ty = TYS[c.rng.below(TYS.len())];
    let max = c.rng.pickv(&[1usize, 4, 12, 40]);
    let mut base = gen::bytes(&mut c.rng, max);
    if c.rng.chance(1, 3) {
        base = gen::text(&mut c.rng, max).into_bytes();
    }
    if ty == Ty::Cmd {
        base.iter_mut().for_each(|b| *b = b'A' + *b % 26);
    }
    let n = c.rng.range(2, 7) as usize;
    let mut family = vec![base];
    for _ in 1..n {
        let k = c.rng.below(family.len());
        let v = near(&mut c.rng, &family[k]);
        family.push(v);
    }
    family.retain(|v| ty.ok(v));
    c.desc = format!("{ty:?} {family:?}");
    let mut cells: Vec<(S, Vec<u8>)> = vec![];
    for v in &family {
        let Some(s) = construct(c, v, ty) else { continue };
        // Asking things of a string, cloning, owning and hiding it change nothing.
        for _ in 0..c.rng.below(3) {
            views(c, &Cell { s: s.clone(), m: v.clone(), secret: false });
            match c.rng.below(3) {
                0 => drop(s.as_b().is_utf8_lazy()),
                1 => drop(s.as_b().to_utf8()),
                _ => drop(s.as_b().to_utf8_lossy()),
            }
        }
        let s = match c.rng.below(5) {
            0 => s.owning(),
            1 => s.clone().secret(),
            2 => s.clone(),
            3 => {
                let mut t = s.clone();
                t.make_owning();
                t
            }
            _ => s,
        };
        cells.push((s, v.clone()));
    }
    if cells.is_empty() {
        return;
    }
    macro_rules! of { ($($t:ident)*) => { match ty { $(Ty::$t => {
        let vals: Vec<($t, Vec<u8>)> = cells.iter().map(|(s, m)| (match s { S::$t(x) => x.clone(), _ => unreachable!() }, m.clone())).collect();
        text_type(c, &vals, stringify!($t));
        for (a, m) in &vals {
            for (_, n) in &vals {
                if let Some((x, y)) = arrays!(c, *a, n.as_slice(); 0 1 2 3 4 5 6 7 8 9 10 11 12) {
                    ckeq!(c, (x, y), (m == n, m == n), "eq-array", "{} {} {}", stringify!($t), show(m), show(n));
                    c.ev("against-arrays");
                }
            }
        }
    })* } } }
    of!(Bytes NoNul Line Word Arg Key Target Nick User Cmd);
    c.seen(&(format!("{ty:?}"), &family));
}
/// One change to a message, in one of its parts, or none.
fn relative(r: &mut Rng, m: &gen::RMsg, server: bool) -> gen::RMsg {
    let mut o = m.clone();
    let fix = |r: &mut Rng, v: &[u8], ok: &dyn Fn(&[u8]) -> bool| {
        let n = near(r, v);
        if ok(&n) {
            n
        } else {
            v.to_vec()
        }
    };
    match r.below(10) {
        0 | 1 => (),
        2 => {
            let k = o.tags.keys().nth(r.below(o.tags.len().max(1))).cloned();
            if let Some(k) = k {
                let v = o.tags.remove(&k).unwrap();
                match r.below(3) {
                    0 => (),
                    1 => {
                        let v = fix(r, &v, &|v| Ty::NoNul.ok(v));
                        o.tags.insert(k, v);
                    }
                    _ => {
                        let k = fix(r, &k, &|v| Ty::Key.ok(v));
                        o.tags.insert(k, v);
                    }
                }
            } else {
                o.tags.insert(b"a".to_vec(), vec![]);
            }
        }
        3 | 4 if server => match &mut o.source {
            None => o.source = Some(gen::source(r)),
            Some(s) => match r.below(5) {
                0 => o.source = None,
                1 => s.nick = fix(r, &s.nick, &|v| Ty::Nick.ok(v)),
                2 => {
                    s.user = None;
                }
                3 => {
                    if let Some(h) = &s.host {
                        s.host = Some(fix(r, h, &|v| Ty::Word.ok(v) && !v.is_empty()));
                    }
                }
                _ => {
                    if let Some(u) = &s.user {
                        s.user = Some(fix(r, u, &|v| Ty::User.ok(v)));
                    }
                }
            },
        },
        5 => o.kind = if server { gen::msg(r, true).kind } else { gen::cmd(r) },
        6 if !o.args.is_empty() => {
            let at = r.below(o.args.len());
            let last = at + 1 == o.args.len();
            o.args[at] = fix(r, &o.args[at], &|v| if last { Ty::Line.ok(v) } else { Ty::Arg.ok(v) });
        }
        7 => {
            o.args.pop();
        }
        8 if o.args.len() > 1 => {
            // The same letters, divided differently.
            let at = r.below(o.args.len() - 1);
            if let Some(b) = o.args[at].pop() {
                o.args[at + 1].insert(0, b);
            }
            let last = o.args.len() - 1;
            if !o.args[..last].iter().all(|a| Ty::Arg.ok(a)) {
                return m.clone();
            }
        }
        _ => {
            // Two arguments, and one holding a space.
            if o.args.len() > 1 {
                let l = o.args.pop().unwrap();
                let p = o.args.pop().unwrap();
                o.args.push([p, b" ".to_vec(), l].concat());
            } else if o.args.iter().all(|a| Ty::Arg.ok(a)) {
                o.args.insert(0, b"x".to_vec());
            }
        }
    }
    o
}
fn messages(c: &mut Case) {
    let server = c.rng.coin();
    let a = gen::msg(&mut c.rng, server);
    let mut fam = vec![a];
    for _ in 0..c.rng.range(1, 4) {
        let k = c.rng.below(fam.len());
        let m = relative(&mut c.rng, &fam[k], server);
        fam.push(m);
    }
    c.desc = format!("{fam:?}");
    let wires: Vec<Vec<u8>> = fam.iter().map(gen::wire).collect();
    let mut ss = vec![];
    let mut cs = vec![];
    for (m, w) in fam.iter().zip(&wires) {
        let how = c.rng.below(4);
        if server {
            let l = gen::lib_server(&mut c.rng, m);
            ss.push(match how {
                0 => l,
                // (Only shortens a lifetime.)
                1 => unsafe { std::mem::transmute::<ServerMsg<'static>, ServerMsg<'_>>(l.owning()) },
                2 => l.clone(),
                // A message that was read is equal to the one that was written.
                _ => ServerMsg::parse(w.clone()).unwrap(),
            });
        } else {
            let l = gen::lib_client(&mut c.rng, m);
            cs.push(match how {
                0 => l,
                1 => unsafe { std::mem::transmute::<ClientMsg<'static>, ClientMsg<'_>>(l.owning()) },
                2 => l.clone(),
                _ => ClientMsg::parse(w.clone()).unwrap(),
            });
        }
    }
    for i in 0..fam.len() {
        for j in 0..=i {
            let same = fam[i] == fam[j];
            let (ta, tb);
            let (ga, gb);
            if server {
                let (a, b) = (&ss[i], &ss[j]);
                pair(c, a, b, same, "server message");
                pair(c, &a.kind, &b.kind, fam[i].kind == fam[j].kind, "kind");
                let o = order(c, &a.kind, &b.kind, "kind");
                ckeq!(c, o, fam[i].kind.cmp(&fam[j].kind), "kind-order", "{:?} {:?}", a.kind, b.kind);
                pair(c, &a.source, &b.source, fam[i].source == fam[j].source, "source");
                if let (Some(x), Some(y)) = (a.source.as_deref(), b.source.as_deref()) {
                    let e = fam[i].source == fam[j].source;
                    pair(c, x, y, e, "source");
                    order(c, x, y, "source");
                    if let (Some(x), Some(y)) = (&x.userhost, &y.userhost) {
                        let (mx, my) = (fam[i].source.as_ref().unwrap(), fam[j].source.as_ref().unwrap());
                        pair(c, x, y, mx.user == my.user && mx.host == my.host, "user and host");
                        order(c, x, y, "user and host");
                    }
                }
                (ta, tb, ga, gb) = (&a.tags, &b.tags, &a.args, &b.args);
            } else {
                let (a, b) = (&cs[i], &cs[j]);
                pair(c, a, b, same, "client message");
                (ta, tb, ga, gb) = (&a.tags, &b.tags, &a.args, &b.args);
            }
            pair(c, ta, tb, fam[i].tags == fam[j].tags, "tags");
            order(c, ta, tb, "tags");
            pair(c, ga, gb, fam[i].args == fam[j].args, "arguments");
        }
    }
    if server {
        let srcs: Vec<Source> = ss.iter().filter_map(|s| s.source.as_deref().cloned()).collect();
        sorted(c, &srcs, "source");
        sorted(c, &ss.iter().map(|s| s.tags.clone()).collect::<Vec<_>>(), "tags");
        sorted(c, &ss.iter().map(|s| s.kind.clone()).collect::<Vec<_>>(), "kind");
        let set: HashSet<ServerMsg> = ss.iter().cloned().collect();
        let want: HashSet<&gen::RMsg> = fam.iter().collect();
        ckeq!(c, set.len(), want.len(), "message-set", "");
        // The constructors make what their arguments say.
        let m = &ss[0];
        let me = Nick::from_bytes(gen::nick(&mut c.rng, 5)).unwrap();
        let from = gen::source(&mut c.rng);
        let src = SharedSource::new(gen::lib_source(&mut c.rng, &from));
        let (made, from, args) = match &m.kind {
            ServerMsgKindRaw::Numeric(n) => (ServerMsg::new_num(*n, src.clone(), me.clone()), Some(from.clone()), vec![me.as_bytes().to_vec()]),
            ServerMsgKindRaw::Cmd(k) => (ServerMsg::new_cmd(k.clone()), None, vec![]),
        };
        ckeq!(c, gen::of_server(&made), gen::RMsg { tags: Default::default(), source: from, kind: fam[0].kind.clone(), args }, "constructed-message", "");
        if let Some(s) = m.source.as_deref() {
            let again = match &s.userhost {
                None => Some(Source::new_server(s.nick.clone())),
                Some(UserHost { user: Some(u), host }) => Some(Source::new_user(s.nick.clone(), u.clone(), host.clone())),
                _ => None,
            };
            if let Some(again) = again {
                pair(c, &again, s, true, "constructed source");
                pair(c, &SharedSource::new(again), m.source.as_ref().unwrap(), true, "constructed source");
            }
        }
    } else {
        sorted(c, &cs.iter().map(|s| s.tags.clone()).collect::<Vec<_>>(), "tags");
        let set: HashSet<ClientMsg> = cs.iter().cloned().collect();
        let want: HashSet<&gen::RMsg> = fam.iter().collect();
        ckeq!(c, set.len(), want.len(), "message-set", "");
    }
    c.seen(&wires);
}
/// Replies and commands: kinds, numerics, and what they are compared with.
fn kinds(c: &mut Case) {
    let mk = |r: &mut Rng| {
        if r.coin() {
            format!("{:03}", r.pickv(&[r.clone().below(1000), 1, 5, 10, 100])).into_bytes()
        } else {
            gen::cmd(r)
        }
    };
    let (ma, mut mb) = (mk(&mut c.rng), mk(&mut c.rng));
    if c.rng.coin() {
        let v = near(&mut c.rng, &ma);
        if Numeric::from_bytes(&v).is_some() || Ty::Cmd.ok(&v) {
            mb = v;
        }
    }
    c.desc = format!("{} {}", show(&ma), show(&mb));
    let raw = |r: &mut Rng, m: &[u8]| -> ServerMsgKindRaw<'static> {
        match Numeric::from_bytes(m) {
            Some(n) => match r.coin() {
                true => n.into(),
                _ => Numeric::from_int(n.into_int()).unwrap().into(),
            },
            None => Cmd::from_bytes(m.to_vec()).unwrap().into(),
        }
    };
    let (a, b) = (raw(&mut c.rng, &ma), raw(&mut c.rng, &mb));
    let same = ma == mb;
    pair(c, &a, &b, same, "kind");
    ckeq!(c, order(c, &a, &b, "kind"), ma.cmp(&mb), "kind-order", "{a:?} {b:?}");
    let tb = std::str::from_utf8(&mb).unwrap();
    ckeq!(c, (a == *tb, a == tb, a == *mb.as_slice(), a == mb.as_slice()), (same, same, same, same), "kind-text", "{a:?} {tb}");
    let ba: &[u8] = a.borrow();
    ckeq!(c, ba, ma.as_slice(), "kind-borrow", "{a:?}");
    ckeq!(c, (h64(&a), sip(&a)), (h64(ma.as_slice()), sip(ma.as_slice())), "kind-hash", "{a:?}");
    match &b {
        ServerMsgKindRaw::Cmd(k) => ckeq!(c, a == *k, same, "kind-command", "{a:?} {k:?}"),
        ServerMsgKindRaw::Numeric(n) => {
            ckeq!(c, a == *n, same, "kind-numeric", "{a:?} {n:?}");
            let (r1, r2): (&[u8], &str) = (n.as_ref(), n.as_ref());
            let r3: &[u8] = n.borrow();
            ck!(c, r1 == mb && r2 == tb && r3 == mb && n.as_str() == tb, "numeric-views", "{n:?}");
            ckeq!(c, (h64(n), sip(n)), (h64(mb.as_slice()), sip(mb.as_slice())), "numeric-hash", "{n:?}");
            if let ServerMsgKindRaw::Numeric(k) = &a {
                pair(c, k, n, same, "numeric");
                ckeq!(c, order(c, k, n, "numeric"), k.into_int().cmp(&n.into_int()), "numeric-order", "{k:?} {n:?}");
            }
        }
    }
    let pool: Vec<ServerMsgKindRaw> = (0..6)
        .map(|_| {
            let m = mk(&mut c.rng);
            raw(&mut c.rng, &m)
        })
        .collect();
    let map: HashMap<ServerMsgKindRaw, ()> = pool.iter().map(|k| (k.clone(), ())).collect();
    ckeq!(c, map.contains_key(mb.as_slice()), pool.iter().any(|k| k.as_str() == tb), "kind-lookup", "{tb} in {pool:?}");
    sorted(c, &pool, "kind");
    c.seen(&(ma, mb));
}
/// Chat text with and without a CTCP wrapping, addressed values, addresses of servers.
fn others(c: &mut Case) {
    let l = |r: &mut Rng| gen::line(r, 12);
    let w = |r: &mut Rng| match r.below(3) {
        0 => vec![],
        1 => b"ACTION".to_vec(),
        _ => gen::word(r, 6),
    };
    let (ca, ba) = (w(&mut c.rng), l(&mut c.rng));
    let (mut cb, mut bb) = (near(&mut c.rng, &ca), near(&mut c.rng, &ba));
    if !Ty::Word.ok(&cb) {
        cb = ca.clone();
    }
    if !Ty::Line.ok(&bb) {
        bb = ba.clone();
    }
    c.desc = format!("{ca:?} {ba:?} {cb:?} {bb:?}");
    let same = ca == cb && ba == bb;
    let mk = |r: &mut Rng, w: &[u8], l: &[u8]| MaybeCtcp {
        cmd: Word::from_bytes(gen::mk_bytes(r, w)).unwrap().owning(),
        body: Line::from_bytes(gen::mk_bytes(r, l)).unwrap().owning(),
    };
    let (a, b) = (mk(&mut c.rng, &ca, &ba), mk(&mut c.rng, &cb, &bb));
    ckeq!(c, (a == b, b == a), (same, same), "ctcp-equality", "{a:?} {b:?}");
    order(c, &a, &b, "ctcp");
    let t = |r: &mut Rng| Arg::from_bytes(gen::arg(r, 4)).unwrap();
    let (t1, t2) = (t(&mut c.rng), t(&mut c.rng));
    let x = TargetedMsg::new(t1.clone(), a.body.clone());
    let y = TargetedMsg::new(if c.rng.coin() { t1.clone() } else { t2.clone() }, b.body.clone());
    let e = x.target.as_bytes() == y.target.as_bytes() && ba == bb;
    pair(c, &x, &y, e, "addressed");
    let d = TargetedMsg::<Line>::new_default(t1.clone());
    pair(c, &d, &TargetedMsg::new(t1.clone(), Line::default()), true, "addressed");
    ck!(c, d.tags.is_empty() && d.source.is_none() && d.value.is_empty() && d.target == t1, "addressed-default", "{d:?}");
    // A default port is the same place as that port named.
    let mk = |r: &mut Rng| {
        let v = gen::word(r, 3);
        let port = *r.pick(&[&None, &Some(6667u16), &Some(6697), &Some(6668), &Some(0), &Some(65535)]);
        ServerAddr { address: Word::from_bytes(gen::mk_bytes(r, &v)).unwrap().owning(), tls: r.coin(), port }
    };
    let a = mk(&mut c.rng);
    let mut b = mk(&mut c.rng);
    if c.rng.chance(3, 4) {
        b.address = a.address.clone();
    }
    let num = |a: &ServerAddr<'_>| a.port.unwrap_or(if a.tls { 6697 } else { 6667 });
    pair(c, &a, &b, a.address.as_bytes() == b.address.as_bytes() && a.tls == b.tls && num(&a) == num(&b), "server address");
    c.seen(&(ca, ba, cb, bb));
}
/// Every pair of mode letters.
fn modes(c: &mut Case) {
    let letters: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').collect();
    let i = c.idx as usize;
    let (x, y) = (letters[i / 52], letters[i % 52]);
    let (a, b) = (Mode::new(x).unwrap(), Mode::new(y).unwrap());
    pair(c, &a, &b, x == y, "mode");
    order(c, &a, &b, "mode");
    let all: Vec<Mode> = letters.iter().map(|l| Mode::new(*l).unwrap()).collect();
    if y == b'A' {
        sorted(c, &all, "mode");
    }
    c.seen(&(x, y));
}
/// Plain text and bytes, borrowed and owned, become the same strings.
fn cows(c: &mut Case) {
    let t = gen::text(&mut c.rng, 20);
    c.desc = t.clone();
    let all: Vec<Bytes> = vec![
        Bytes::from(t.as_str()),
        Bytes::from(t.clone()),
        Bytes::from(t.as_bytes()),
        Bytes::from(t.clone().into_bytes()),
        Bytes::from(Cow::Borrowed(t.as_str())),
        Bytes::from(Cow::<str>::Owned(t.clone())),
        Bytes::from(Cow::Borrowed(t.as_bytes())),
        Bytes::from(Cow::<[u8]>::Owned(t.clone().into_bytes())),
        Bytes::from_str(&t),
        Bytes::from_bytes(t.as_bytes()),
        Bytes::from_secret(t.clone().into_bytes()),
        Line::from_bytes(Bytes::from(t.clone())).map(|l| l.into()).unwrap_or_else(|_| Bytes::from(t.as_str())),
    ];
    for a in &all {
        for b in &all {
            pair(c, a, b, true, "text");
            order(c, a, b, "text");
        }
        ck!(c, *a == t.as_str() && a.to_utf8() == Some(t.as_str()), "text-kept", "{t:?}");
    }
    c.seen(&t);
}
pub fn run(ctx: &mut Ctx) {
    gen::heavy_tail();
    ctx.run_all("modes", 52 * 52, modes);
    ctx.run("strings", 400, 3000, strings);
    ctx.run("messages", 400, 3000, messages);
    ctx.run("kinds", 300, 2000, kinds);
    ctx.run("others", 300, 2000, others);
    ctx.run("cows", 100, 600, cows);
    for k in ["same", "different", "ordered", "against-text", "against-arrays", "lookups"] {
        ctx.require(k, 500);
    }
}
