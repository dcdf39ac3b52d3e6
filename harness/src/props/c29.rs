//! Capability replies against a reader written from the capability negotiation document.
use crate::gen;
use crate::infra::*;
use crate::{ck, ckeq};
use std::collections::BTreeMap;
use vinezombie::client::cap::{ServerMsgArgs, SubCmd};
use vinezombie::ircmsg::{Args, ServerMsg};
use vinezombie::string::{Arg, Bytes, Line};

type V = Vec<u8>;
const SUBS: [(&str, SubCmd); 6] = [("LS", SubCmd::Ls), ("LIST", SubCmd::List), ("ACK", SubCmd::Ack), ("NAK", SubCmd::Nak), ("NEW", SubCmd::New), ("DEL", SubCmd::Del)];

#[derive(Clone, PartialEq, Debug)]
struct Reply {
    nick: V,
    sub: usize,
    last: bool,
    caps: BTreeMap<V, V>,
}
fn name(r: &mut Rng) -> V {
    match r.below(4) {
        0 => r.pick(&["sasl", "multi-prefix", "draft/chathistory", "server-time", "sts", "znc.in/self-message", "a", "SASL", "sasl2", "cap-notify", "-x", "~y"]).as_bytes().to_vec(),
        1 => format!("c{}", r.below(6)).into_bytes(),
        2 => format!("vendor.example/cap-{}", r.below(2000)).into_bytes(),
        _ => gen::filtered(r, 12, |b| !gen::ok_word(b) || b.is_ascii_whitespace() || matches!(b, b'=' | b';')),
    }
}
/// One item of a list: its bytes, and what it says (nothing if its name is not a capability's).
fn item(r: &mut Rng) -> (V, Option<(V, V)>) {
    let n = name(r);
    let v: V = match r.below(5) {
        0 | 1 => vec![],
        2 => r.pick(&["PLAIN,EXTERNAL", "duration=300,port=6697", "=", "a=b=c", ":", ":x", ";", "\u{e9}"]).as_bytes().to_vec(),
        3 => gen::filtered(r, 20, |b| !gen::ok_word(b) || b.is_ascii_whitespace()),
        _ => {
            let n = gen::tail(r, 300);
            (0..n).map(|i| b'a' + (i % 26) as u8).collect()
        }
    };
    let mut w = n.clone();
    match r.below(12) {
        // Not a name: empty, a colon in front, a semicolon inside.
        0 => {
            let bad: V = match r.below(3) {
                0 => b"=".to_vec(),
                1 => [b":", &n[..]].concat(),
                _ => [&n[..], b";", &n].concat(),
            };
            w = [&bad[..], &v].concat();
        }
        _ => {
            if !v.is_empty() || r.chance(1, 4) {
                w.push(b'=');
                w.extend_from_slice(&v);
            }
        }
    }
    let says = read_item(&w);
    (w, says)
}
/// Reads one item as the document says: a name, then maybe '=' and a value.
fn read_item(w: &[u8]) -> Option<(V, V)> {
    let at = w.iter().position(|b| *b == b'=');
    let (n, v) = match at {
        Some(i) => (&w[..i], &w[i + 1..]),
        None => (w, &w[..0]),
    };
    if n.is_empty() || n[0] == b':' || n.contains(&b';') {
        return None;
    }
    Some((n.to_vec(), v.to_vec()))
}
fn list(r: &mut Rng, into: &mut BTreeMap<V, V>, skipped: &mut u64) -> V {
    let n = if r.chance(1, 40) { gen::tail(r, 120) } else { r.below(8) };
    let mut l = vec![];
    for i in 0..n {
        if i > 0 {
            l.extend(std::iter::repeat(b' ').take(if r.chance(1, 8) { r.range(1, 4) } else { 1 }));
        }
        let (w, says) = item(r);
        // The first item would otherwise swallow the list's own colon or vanish.
        if w.is_empty() {
            continue;
        }
        l.extend_from_slice(&w);
        match says {
            Some((n, v)) => {
                into.insert(n, v);
            }
            None => *skipped += 1,
        }
    }
    if r.chance(1, 6) {
        l.extend_from_slice(b"  ");
    }
    if r.chance(1, 10) {
        l.insert(0, b' ');
    }
    l
}
fn mixed(r: &mut Rng, s: &str) -> V {
    match r.below(4) {
        0 => s.to_ascii_lowercase().into_bytes(),
        1 => s.bytes().map(|b| if r.coin() { b.to_ascii_lowercase() } else { b }).collect(),
        _ => s.as_bytes().to_vec(),
    }
}
/// The arguments as a list, read from a line or put together by hand.
fn build(c: &mut Case, head: &[V], l: &[u8]) -> Args<'static> {
    if c.rng.coin() {
        let mut w = b":irc.example CAP".to_vec();
        for h in head {
            w.push(b' ');
            w.extend_from_slice(h);
        }
        w.push(b' ');
        let plain = !l.is_empty() && l[0] != b':' && !l.contains(&b' ');
        if !plain || c.rng.coin() {
            w.push(b':');
        }
        w.extend_from_slice(l);
        let b: Bytes = Bytes::from(&w[..]);
        if c.rng.coin() {
            ServerMsg::parse(Line::from_bytes(b).unwrap()).unwrap().args.owning()
        } else {
            ServerMsg::parse(Line::from_bytes(w.clone()).unwrap()).unwrap().args.owning()
        }
    } else {
        let mut a = Args::empty();
        let mut e = a.edit();
        for h in head {
            e.add_word(Arg::from_bytes(h.clone()).unwrap());
        }
        e.add(Line::from_bytes(l.to_vec()).unwrap());
        drop(e);
        a
    }
}
fn got(a: &ServerMsgArgs) -> Reply {
    Reply {
        nick: a.nick.as_bytes().to_vec(),
        sub: SUBS.iter().position(|s| s.1 == a.subcmd).unwrap(),
        last: a.is_last,
        caps: a.caps.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
    }
}
fn reply(c: &mut Case, nick: &[u8], sub: usize, last: bool) -> (Args<'static>, Reply) {
    let mut caps = BTreeMap::new();
    let mut skipped = 0;
    let l = list(&mut c.rng, &mut caps, &mut skipped);
    let mut head = vec![nick.to_vec(), mixed(&mut c.rng, SUBS[sub].0)];
    if !last {
        head.push(b"*".to_vec());
    }
    c.evn("skipped_items", skipped);
    c.evn("items", caps.len() as u64);
    let a = build(c, &head, &l);
    (a, Reply { nick: nick.to_vec(), sub, last, caps })
}
fn rnick(r: &mut Rng) -> V {
    match r.below(3) {
        0 => b"*".to_vec(),
        1 => r.pick(&["Foo", "Bar"]).as_bytes().to_vec(),
        _ => gen::filtered(r, 9, |b| !gen::ok_word(b) || b.is_ascii_whitespace() || matches!(b, b'!' | b'@' | b',' | b':')).into_iter().chain(*b"N").collect(),
    }
}
fn parse(c: &mut Case) {
    let nick = rnick(&mut c.rng);
    let (sub, last) = (c.rng.below(6), c.rng.chance(2, 3));
    let (a, want) = reply(c, &nick, sub, last);
    let d = gen::of_args(&a).iter().map(|x| show(x)).collect::<Vec<_>>().join(" ");
    let got_a = match ServerMsgArgs::parse(&a) {
        Ok(g) => g,
        Err(e) => return c.fail("refused", format!("{d}: {e}")),
    };
    ckeq!(c, got(&got_a), want, "reply", "{d}");
    for (k, _) in &want.caps {
        ck!(c, got_a.contains(k) && got_a.contains(&k[..]), "contains", "{d}: {}", show(k));
        let mut near = k.clone();
        near.push(b'x');
        ck!(c, got_a.contains(&near) == want.caps.contains_key(&near), "contains", "{d}: {}", show(&near));
    }
    ck!(c, !got_a.contains(b"") && !got_a.contains(b"="), "contains", "{d}");
    c.ev("parsed");
    if !last {
        c.ev("unfinished");
    }
    c.seen(&d);
    c.sample(|| format!("{d} -> {want:?}"));
}
/// Replies that lack something or spell something else.
fn broken(c: &mut Case) {
    let l = b"sasl multi-prefix".to_vec();
    let (head, l): (Vec<V>, V) = match c.rng.below(6) {
        0 => (vec![b"*".to_vec()], l),
        1 => (vec![], l),
        2 => {
            let s = c.rng.pickv(&["LSX", "L", "ACKNAK", "END", "REQ", "CLEAR", "*", "LS=", "N", "001"]);
            (vec![b"Foo".to_vec(), s.as_bytes().to_vec()], l)
        }
        3 => (vec![c.rng.pick(&["Foo!u@h", "a@b", "a,b"]).as_bytes().to_vec(), b"LS".to_vec()], l),
        4 => (vec![b"*".to_vec(), b"LS".to_vec(), c.rng.pick(&["+", "**", "x", "-"]).as_bytes().to_vec()], l),
        _ => (vec![b"*".to_vec()], b"LS".to_vec()),
    };
    let a = build(c, &head, &l);
    let d = gen::of_args(&a).iter().map(|x| show(x)).collect::<Vec<_>>().join(" ");
    ck!(c, ServerMsgArgs::parse(&a).is_err(), "accepted", "{d}");
    if c.idx == 0 {
        ck!(c, ServerMsgArgs::parse(&Args::empty()).is_err(), "accepted", "no arguments");
    }
    c.ev("refusals");
    c.seen(&d);
}
/// Several lines folded into one reply, with lines of other replies in between.
fn combine(c: &mut Case) {
    let nick = rnick(&mut c.rng);
    let sub = c.rng.below(6);
    let (a, mut want) = reply(c, &nick, sub, false);
    let Ok(mut acc) = ServerMsgArgs::parse(&a) else { return c.fail("refused", show(a.to_string().as_bytes())) };
    let n = if c.rng.chance(1, 20) { gen::tail(&mut c.rng, 60) } else { c.rng.below(6) };
    let mut trail = vec![want.clone()];
    for i in 0..n + 2 {
        let (mut n2, mut s2) = (nick.clone(), sub);
        match c.rng.below(8) {
            0 => n2 = rnick(&mut c.rng),
            1 => s2 = c.rng.below(6),
            _ => (),
        }
        let last = i >= n || c.rng.chance(1, 12);
        let (b, r) = reply(c, &n2, s2, last);
        let Ok(newer) = ServerMsgArgs::parse(&b) else { return c.fail("refused", show(b.to_string().as_bytes())) };
        trail.push(r.clone());
        let joins = !want.last && want.sub == r.sub && want.nick == r.nick;
        let back = acc.combine(newer);
        if joins {
            want.caps.extend(r.caps);
            want.last = r.last;
            ck!(c, back.is_none(), "combine", "refused to join {trail:?}");
            c.ev("joined");
        } else {
            ckeq!(c, back.as_ref().map(got), Some(r), "combine", "what cannot join comes back as it was: {trail:?}");
            c.ev("kept_apart");
        }
        ckeq!(c, got(&acc), want, "combined", "{trail:?}");
        for k in want.caps.keys().take(4) {
            ck!(c, acc.contains(k), "contains", "{trail:?}: {}", show(k));
        }
    }
    c.seen(&format!("{trail:?}"));
}
/// The subcommands' own names.
fn subs(c: &mut Case) {
    for (i, (n, s)) in SUBS.iter().enumerate() {
        ck!(c, s.into_arg().as_bytes() == n.as_bytes() && s.into_cmd().as_bytes() == n.as_bytes(), "subcommand", "{n}: {s:?}");
        for (j, (m, _)) in SUBS.iter().enumerate() {
            ckeq!(c, SubCmd::from_bytes(m.as_bytes()) == Some(*s), i == j, "subcommand", "{n} {m}");
        }
        for k in 0..n.len() {
            for b in 0..=255u8 {
                let mut x = n.as_bytes().to_vec();
                x[k] = b;
                let want = SUBS.iter().find(|s| s.0.as_bytes() == x).map(|s| s.1);
                ckeq!(c, SubCmd::from_bytes(&x), want, "subcommand", "{}", show(&x));
            }
        }
        for x in [&n[1..], &n[..n.len() - 1], "", &format!("{n} "), &format!("{n}{n}"), &n.to_ascii_lowercase()] {
            ckeq!(c, SubCmd::from_bytes(x.as_bytes()), None, "subcommand", "{x:?}");
        }
        c.ev("subcommands");
        c.seen(n);
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.run_all("subs", 1, subs);
    ctx.run("parse", 4000, 60_000, parse);
    ctx.run("broken", 500, 5000, broken);
    ctx.run("combine", 1500, 20_000, combine);
    ctx.require("parsed", 100);
    ctx.require("unfinished", 10);
    ctx.require("skipped_items", 10);
    ctx.require("refusals", 10);
    ctx.require("joined", 100);
    ctx.require("kept_apart", 50);
}
