//! Who the client is, how long its messages may be, and forgetting all of it.
use crate::gen::{self, RMsg, RSource};
use crate::infra::*;
use crate::mock::*;
use crate::sys::{vclock_start, vclock_stop, vnow};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::*;
use vinezombie::client::state::*;
use vinezombie::client::{cap, Client, ClientState};
use vinezombie::ircmsg::{ClientMsg, ServerMsg, Source};
use vinezombie::names::NameMap;
use vinezombie::string::*;

fn take_log(w: &Mutex<World>) -> Vec<Io> {
    let l = w.lock().unwrap().log.clone();
    let l = std::mem::take(&mut *l.lock().unwrap());
    l
}
fn lines(w: &Mutex<World>) -> Vec<Vec<u8>> {
    take_log(w)
        .into_iter()
        .map(|e| match e {
            Io::Line(_, b) => b,
            e => format!("{e:?}").into_bytes(),
        })
        .collect()
}
fn pad(r: &mut Rng, v: &mut Vec<u8>, n: usize) {
    while v.len() < n {
        v.push(b'a' + r.below(26) as u8);
    }
}
fn long_source(r: &mut Rng) -> RSource {
    let mut s = gen::source(r);
    if r.coin() {
        let n = r.below(40);
        pad(r, &mut s.nick, n);
        if let Some(u) = s.user.as_mut() {
            let n = r.below(20);
            pad(r, u, n);
        }
        if let Some(h) = s.host.as_mut() {
            let n = r.below(100);
            pad(r, h, n);
        }
    }
    s
}

// ---------------------------------------------------------------- budgets
/// Bytes of the line as relayed, without tags; the last argument counts as if written with a colon.
fn relayed(m: &RMsg) -> usize {
    let bare = RMsg { tags: Default::default(), ..m.clone() };
    let n = gen::wire(&bare).len();
    match m.args.last() {
        Some(a) if gen::is_arg(a) => n + 1,
        _ => n,
    }
}
fn budget(c: &mut Case) {
    let server = c.rng.coin();
    let mut m = gen::msg(&mut c.rng, server);
    m.source = if c.rng.chance(3, 4) { Some(long_source(&mut c.rng)) } else { None };
    // Messages with room left, brim-full ones, and ones that are too long.
    if m.args.is_empty() || c.rng.coin() {
        let mut l = gen::line(&mut c.rng, 40);
        l.insert(0, b'x');
        m.args.push(l);
        // Only the last may be anything.
        let n = m.args.len();
        for a in m.args[..n - 1].iter_mut() {
            if !gen::is_arg(a) {
                *a = b"w".to_vec();
            }
        }
    }
    if c.rng.chance(1, 6) {
        let n = c.rng.range(400, 600);
        pad(&mut c.rng, m.args.last_mut().unwrap(), n);
    }
    let left = |r: &mut Rng, m: &RMsg| -> isize {
        if server {
            gen::lib_server(r, m).bytes_left()
        } else {
            let src = m.source.clone();
            let mut m = m.clone();
            m.source = None;
            let src = src.as_ref().map(|s| gen::lib_source(r, s));
            gen::lib_client(r, &m).bytes_left(src.as_ref())
        }
    };
    let step = |c: &mut Case, m: &RMsg| {
        let want = 510 - relayed(m) as isize;
        let got = left(&mut c.rng, m);
        ckeq!(c, got, want, "budget", "server {server} {:?}", m);
        // What is really written fits exactly when the budget says so (up to the colon).
        let mut w = Vec::new();
        let src = m.source.as_ref().map(|s| gen::lib_source(&mut c.rng, s));
        if server {
            let mut mm = m.clone();
            mm.tags.clear();
            let _ = gen::lib_server(&mut c.rng, &mm).send_to(&mut w, &mut vec![]);
        } else {
            let mut mm = m.clone();
            mm.tags.clear();
            mm.source = None;
            if let Some(s) = &src {
                w.push(b':');
                s.write_to(&mut w).unwrap();
                w.push(b' ');
            }
            let _ = gen::lib_client(&mut c.rng, &mm).send_to(&mut w, &mut vec![]);
        }
        let colon = m.args.last().is_some_and(|a| gen::is_arg(a));
        ck!(c, got < 0 || w.len() <= 512, "overrun", "{} bytes left but {} written: {}", got, w.len(), show(&w));
        if got < 0 {
            ck!(c, w.len() + colon as usize > 512, "too-careful", "{} bytes left, {} written", got, w.len());
            c.ev("too_long");
        } else if got == 0 {
            c.ev("exactly_full");
        } else {
            c.ev("has_room");
        }
        ck!(c, !colon || w.len() + 1 == (512 - got) as usize, "written", "{} left, {} written", got, w.len());
        ck!(c, colon || w.len() as isize == 512 - got, "written", "{} left, {} written", got, w.len());
        got
    };
    let n = step(c, &m);
    // Use up exactly what is left, then one more.
    if n > 0 {
        let l = m.args.last().unwrap().len() + n as usize;
        let last = m.args.last_mut().unwrap();
        if last.is_empty() {
            last.push(b' ');
        }
        pad(&mut c.rng, last, l);
        let n = step(c, &m);
        ck!(c, n == 0, "exact", "filled exactly, {n} bytes left");
        m.args.last_mut().unwrap().push(b'y');
        let n = step(c, &m);
        ck!(c, n == -1, "exact", "one byte over, {n} bytes left");
    }
    c.seen(&(n, m.args.len()));
}

// ---------------------------------------------------------------- identity
#[derive(Clone, Debug, PartialEq)]
struct Me {
    me: Option<RSource>,
    len: usize,
    /// ISUPPORT lengths (nick, user, host); `None` without ISUPPORT.
    is: Option<[Option<usize>; 3]>,
}
impl Me {
    fn of_source(&self, s: Option<&RSource>, tilde: bool) -> usize {
        let n = s.map(|s| s.nick.len());
        let u = s.and_then(|s| s.user.as_ref()).map(|u| u.len() + (tilde && !u.starts_with(b"~")) as usize);
        let h = s.and_then(|s| s.host.as_ref()).map(|h| h.len());
        match (n, u, h, self.is) {
            (Some(n), Some(u), Some(h), _) => n + u + h + 2,
            (_, _, _, Some([ni, ui, hi])) => n.or(ni).unwrap_or(9) + u.or(ui).unwrap_or(10) + h.or(hi).unwrap_or(64) + 2,
            _ => 85,
        }
    }
    fn recalc(&mut self) {
        self.len = self.of_source(self.me.as_ref(), true);
    }
}
fn plain_nick(r: &mut Rng) -> Vec<u8> {
    if r.coin() {
        return r.pick(&["me", "mee", "m", "you", "them", "other", "me_", "nick1"]).as_bytes().to_vec();
    }
    let mut n = gen::nick(r, 10);
    // Entries of a reply are separated by whitespace.
    n.retain(|b| !matches!(b, b'*' | b'=') && *b > b' ');
    if Nick::from_bytes(n.clone()).is_err() {
        n = b"zed".to_vec();
    }
    n
}
fn host(r: &mut Rng) -> Vec<u8> {
    let mut h = gen::word(r, 20);
    h.retain(|b| *b != b'@');
    if h.is_empty() || h[0] == b':' {
        h.insert(0, b'h');
    }
    if r.chance(1, 10) {
        let n = r.pickv(&[40, 63, 64, 65, 100, 300]);
        h.extend((0..n).map(|i| b"abc.def-0"[i % 9]));
    }
    h
}
fn isupport(r: &mut Rng) -> (NameMap<vinezombie::names::ISupport>, [Option<usize>; 3]) {
    let mut map = NameMap::new();
    let mut v = [None; 3];
    {
        let mut e = map.edit();
        for (i, k) in ["NICKLEN", "USERLEN", "HOSTLEN"].into_iter().enumerate() {
            let val: String = match r.below(5) {
                0 => continue,
                1 => r.pick(&["", "0", "x", "-3", "70000"]).to_string(),
                _ => {
                    let n = if r.chance(1, 10) { r.range(1, 60_000) } else { r.range(1, 200) };
                    v[i] = Some(n);
                    n.to_string()
                }
            };
            e.insert((Key::from_bytes(k).unwrap(), Word::from_bytes(val).unwrap()), ());
        }
        if r.coin() {
            e.insert((Key::from_bytes("NETWORK").unwrap(), Word::from_bytes("net").unwrap()), ());
        }
    }
    (map, v)
}
fn own_source(r: &mut Rng, s: &RSource) -> Source<'static> {
    gen::lib_source(r, s).owning()
}
fn me_source(r: &mut Rng) -> RSource {
    let nick = plain_nick(r);
    match r.below(4) {
        0 => RSource { nick, user: None, host: None },
        1 => RSource { nick, user: None, host: Some(host(r)) },
        _ => RSource { nick, user: Some(gen::user(r, 10)), host: Some(host(r)) },
    }
}

/// One entry of a USERHOST reply, and what it announces.
fn entry(r: &mut Rng, nick: &[u8]) -> (Vec<u8>, Option<(Vec<u8>, Vec<u8>)>) {
    let (u, h) = (gen::user(r, 8), host(r));
    let mut v = nick.to_vec();
    if r.chance(1, 3) {
        v.push(b'*');
    }
    let bad = r.below(12);
    match bad {
        0 => v.extend_from_slice(b"*="),
        1 => (),
        _ => v.push(b'='),
    }
    if bad != 2 {
        v.push(if r.coin() { b'+' } else { b'-' });
    }
    v.extend_from_slice(&u);
    if bad != 3 {
        v.push(b'@');
    }
    let mut uh = Some((u.clone(), h.clone()));
    if bad == 4 {
        uh = None;
    } else if bad != 3 {
        v.extend_from_slice(&h);
    }
    match bad {
        // A single '*' in front of '=' is fine.
        0 => {
            if v[nick.len()..].starts_with(b"**") {
                uh = None;
            }
        }
        1 | 3 => uh = None,
        // Without the away flag, the user's first byte stands in for it.
        2 => {
            if matches!(u.first(), Some(b'+' | b'-')) {
                uh = if User::from_bytes(u[1..].to_vec()).is_ok() { Some((u[1..].to_vec(), h)) } else { None };
            } else {
                uh = None;
            }
        }
        _ => (),
    }
    (v, uh)
}

fn track(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(c.rng.chance(1, 3));
    let mut w = World::new(Rng::new(c.rng.next()));
    w.eof = Some(NEVER);
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let mut m = Me { me: None, len: 85, is: None };
    let known = c.rng.chance(7, 8);
    if known {
        let s = me_source(&mut c.rng);
        cl.state_mut().insert::<ClientSource>(own_source(&mut c.rng, &s));
        m.me = Some(s);
    }
    if c.rng.coin() {
        let (map, v) = isupport(&mut c.rng);
        cl.state_mut().insert::<ISupport>(map);
        m.is = Some(v);
    }
    if c.rng.coin() {
        m.recalc();
        let l = cl.state_mut().update_source_len();
        ckeq!(c, l.get(), m.len, "assumed-length", "{m:?}");
    }
    let (_, rx) = cl.add((), YieldAll).unwrap();
    let _ = cl.add((), TrackClientSource::new()).unwrap();
    let n = c.rng.range(2, 14);
    let mut asked = m.me.as_ref().map(|s| [b"USERHOST ".as_slice(), &s.nick].concat());
    for step in 0..n {
        let mine = m.me.clone();
        let nick = mine.as_ref().map(|s| s.nick.clone()).unwrap_or(b"me".to_vec());
        let mut msg = RMsg { tags: Default::default(), source: None, kind: vec![], args: vec![] };
        // Who it is about.
        let src = match c.rng.below(6) {
            0 => None,
            1 | 2 => {
                let mut s = me_source(&mut c.rng);
                if s.nick == nick {
                    s.nick.push(b'x');
                }
                Some(s)
            }
            _ => Some(match (&mine, c.rng.coin()) {
                (Some(s), true) => s.clone(),
                _ => RSource { nick: nick.clone(), user: None, host: None },
            }),
        };
        let by_me = src.as_ref().is_some_and(|s| s.nick == nick);
        match c.rng.below(5) {
            0 | 1 => {
                msg.kind = b"NICK".to_vec();
                let new = match c.rng.below(8) {
                    0 => c.rng.pick(&["", "a b", "x!y", "a@b", ":x", "!", "#"]).as_bytes().to_vec(),
                    _ => plain_nick(&mut c.rng),
                };
                msg.args = vec![new.clone()];
                if c.rng.chance(1, 10) {
                    msg.args.push(b"extra".to_vec());
                    if !gen::is_arg(&msg.args[0]) {
                        msg.args[0] = b"w".to_vec();
                    }
                }
                msg.source = src;
                let ok = msg.args.len() == 1 && gen::is_arg(&new) && Nick::from_bytes(new.clone()).is_ok();
                if by_me && ok {
                    if let Some(s) = m.me.as_mut() {
                        s.nick = new;
                        m.recalc();
                        c.ev("own_nick_changes");
                    }
                } else {
                    c.ev("others");
                }
            }
            2 => {
                msg.kind = b"CHGHOST".to_vec();
                let u = match c.rng.below(6) {
                    0 => c.rng.pick(&["a@b", "@", "u!v"]).as_bytes().to_vec(),
                    1 if c.rng.coin() => {
                        let mut u = gen::user(&mut c.rng, 9);
                        let n = c.rng.pickv(&[9, 10, 30, 64, 150]);
                        u.extend(std::iter::repeat_n(b'u', n));
                        u
                    }
                    _ => gen::user(&mut c.rng, 9),
                };
                let mut h = host(&mut c.rng);
                if c.rng.chance(1, 8) {
                    h.extend_from_slice(b" x");
                }
                msg.args = vec![u.clone(), h.clone()];
                match c.rng.below(10) {
                    0 => {
                        msg.args.pop();
                    }
                    1 => msg.args.insert(1, b"mid".to_vec()),
                    _ => (),
                }
                if !gen::is_arg(&u) {
                    msg.args[0] = b"w".to_vec();
                }
                msg.source = src;
                let a = &msg.args;
                let ok = a.len() == 2 && gen::is_arg(&a[1]) && User::from_bytes(a[0].clone()).is_ok();
                if by_me && ok {
                    if let Some(s) = m.me.as_mut() {
                        s.user = Some(a[0].clone());
                        s.host = Some(a[1].clone());
                        m.recalc();
                        c.ev("own_host_changes");
                    }
                } else {
                    c.ev("others");
                }
            }
            3 => {
                msg.kind = b"302".to_vec();
                msg.source = Some(RSource { nick: b"irc.example".to_vec(), user: None, host: None });
                let mut items = vec![];
                let mut hit = None;
                for _ in 0..c.rng.below(5) {
                    let who = match c.rng.below(3) {
                        0 => nick.clone(),
                        _ => {
                            let mut n = plain_nick(&mut c.rng);
                            if n == nick {
                                n.push(b'x');
                            }
                            n
                        }
                    };
                    let (v, uh) = entry(&mut c.rng, &who);
                    if who == nick && hit.is_none() {
                        hit = uh;
                    }
                    items.push(v);
                }
                if items.is_empty() {
                    c.ev("empty_userhost");
                }
                // Usually all in the last argument; some servers send them as separate ones.
                let (k, sp) = (c.rng.below(items.len() + 1), c.rng.pickv(&[" ", " ", "  "]).as_bytes());
                let k = if c.rng.coin() { 0 } else { k };
                let (front, back) = items.split_at(k);
                let mut last = back.join(sp);
                if c.rng.chance(1, 4) {
                    last.push(b' ');
                }
                if front.iter().all(|f| gen::is_arg(f)) {
                    msg.args.push(nick.clone());
                    msg.args.extend(front.iter().cloned());
                    msg.args.push(last);
                } else {
                    let mut all = items.join(sp);
                    all.push(b' ');
                    msg.args = vec![nick.clone(), all];
                }
                if let (Some((u, h)), Some(s)) = (hit, m.me.as_mut()) {
                    s.user = Some(u);
                    s.host = Some(h);
                    m.recalc();
                    c.ev("own_userhost");
                }
            }
            _ => {
                // Nothing to do with who we are, whatever it looks like.
                msg = gen::msg(&mut c.rng, true);
                if matches!(msg.kind.to_ascii_uppercase().as_slice(), b"NICK" | b"CHGHOST" | b"302") {
                    msg.kind = b"ACCOUNT".to_vec();
                }
                if c.rng.coin() {
                    msg.kind = c.rng.pick(&["JOIN", "QUIT", "ACCOUNT", "SETNAME", "301", "352", "NICKX", "PRIVMSG"]).as_bytes().to_vec();
                    msg.source = src;
                }
                c.ev("unrelated");
            }
        }
        let mut line = gen::wire(&msg);
        match ServerMsg::parse(line.clone()) {
            Ok(p) if gen::of_server(&p) == msg => (),
            // Not the message we meant (C01/C03 judge that): skip it.
            _ => {
                m.me = mine;
                m.len = cl.state().source_len().get();
                continue;
            }
        }
        line.extend_from_slice(b"\r\n");
        w.lock().unwrap().feed(vnow(), &line);
        let o = drv.run(&mut cl, &w);
        ck!(c, matches!(&o, Outcome::Ran(..)), "outcome", "step {step}: {o:?}");
        let _ = rx.try_recv();
        let sent = lines(&w);
        let want: Vec<Vec<u8>> = asked.take().into_iter().collect();
        ck!(c, sent == want, "sent", "step {step}: sent {:?}, expected {:?}", sent.iter().map(|l| show(l)).collect::<Vec<_>>(), want.iter().map(|l| show(l)).collect::<Vec<_>>());
        let got = cl.state().get::<ClientSource>().map(gen::of_source);
        ck!(c, got == m.me, "identity", "step {step} after {}: recorded {:?}, announced {:?}", show(&line), got, m.me);
        ckeq!(c, cl.state().source_len().get(), m.len, "assumed-length", "step {step} after {}: {:?}", show(&line), m);
        c.ev("steps");
        c.seen(&(h64(&m.me), m.len));
    }
    c.sample(|| format!("{m:?}"));
    vclock_stop();
}

/// The assumed length, for every mix of what is known.
fn assumed(c: &mut Case) {
    let mut st = ClientState::new();
    let mut m = Me { me: None, len: 85, is: None };
    ckeq!(c, st.source_len().get(), 85, "assumed-length", "initial");
    for _ in 0..c.rng.range(1, 8) {
        match c.rng.below(5) {
            0 => {
                let (map, v) = isupport(&mut c.rng);
                st.insert::<ISupport>(map);
                m.is = Some(v);
            }
            1 => {
                let s = long_source(&mut c.rng);
                st.insert::<ClientSource>(own_source(&mut c.rng, &s));
                m.me = Some(s);
            }
            2 => {
                m.recalc();
                let r = st.update_source_len();
                ckeq!(c, r.get(), m.len, "assumed-length", "update {m:?}");
            }
            3 => {
                let s = if c.rng.chance(1, 4) { None } else { Some(long_source(&mut c.rng)) };
                let tilde = c.rng.coin();
                m.len = m.of_source(s.as_ref(), tilde);
                let lib = s.as_ref().map(|s| own_source(&mut c.rng, s));
                let r = st.update_source_len_from(lib.as_ref(), tilde);
                ckeq!(c, r.get(), m.len, "assumed-length", "from {s:?} tilde {tilde} {m:?}");
                // A prefix we know in full always fits what is assumed for it.
                if let Some(s) = s.filter(|s| s.user.is_some()) {
                    ck!(c, gen::wire_source(&s).len() <= r.get(), "short", "{s:?} assumed {r}");
                    c.ev("full_prefixes");
                }
            }
            _ => {
                let n = NonZeroUsize::new(c.rng.range(1, 300)).unwrap();
                st.set_source_len(n);
                m.len = n.get();
            }
        }
        ckeq!(c, st.source_len().get(), m.len, "assumed-length", "{m:?}");
        ck!(c, st.get::<ClientSource>().map(gen::of_source) == m.me, "state", "{m:?}");
        c.ev("lengths");
        c.seen(&m.len);
    }
}

// ---------------------------------------------------------------- capability requests
fn requests(c: &mut Case) {
    let n = c.rng.range(1, 60);
    let max = c.rng.pickv(&[4usize, 12, 40, 90, 180, 420]);
    let caps: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = c.rng.range(1, max);
            let mut v = vec![];
            pad(&mut c.rng, &mut v, l);
            if c.rng.chance(1, 4) {
                v.insert(0, b'+');
            }
            if c.rng.chance(1, 4) {
                let i = c.rng.below(v.len());
                v[i] = b'/';
            }
            v
        })
        .collect();
    let client = if c.rng.chance(2, 3) { Some(gen::arg(&mut c.rng, 30)) } else { None };
    let server = if c.rng.chance(2, 3) {
        let mut nick = vec![];
        let l = c.rng.range(1, 63);
        pad(&mut c.rng, &mut nick, l);
        Some(RSource { nick, user: None, host: None })
    } else {
        None
    };
    let keys: Option<Vec<Key>> = caps.iter().map(|k| Key::from_bytes(k.clone()).ok()).collect();
    let Some(keys) = keys else {
        c.ev("not_keys");
        return;
    };
    let mut sent: Vec<RMsg> = vec![];
    let src = server.as_ref().map(|s| gen::lib_source(&mut c.rng, s));
    let mut wires: Vec<Vec<u8>> = vec![];
    cap::req(keys, client.clone().map(|a| Arg::from_bytes(a).unwrap()), src.as_ref(), |m: ClientMsg<'static>| {
        let mut b = vec![];
        let _ = m.send_to(&mut b, &mut vec![]);
        wires.push(b);
        sent.push(gen::of_client(&m));
    });
    let mut got: Vec<Vec<u8>> = vec![];
    for (m, wire) in sent.iter().zip(&wires) {
        ck!(c, m.kind == b"CAP" && m.args.len() == 2 && m.args[0] == b"REQ" && m.tags.is_empty(), "form", "{m:?}");
        let list = &m.args[1];
        ck!(c, !list.is_empty(), "empty", "an empty request among {} capabilities", caps.len());
        got.extend(list.split(|b| *b == b' ').map(|k| k.to_vec()));
        // One that is too long by itself is nobody's fault.
        let many = list.contains(&b' ') || max < 420;
        ck!(c, !many || wire.len() <= 512, "too-long", "{} bytes: {}", wire.len(), show(wire));
        let nick = client.as_ref().map_or(1, |c| c.len());
        let reply = server.as_ref().map_or(0, |s| s.nick.len() + 2) + b"CAP ".len() + nick + b" ACK :".len() + list.len();
        ck!(c, !many || reply <= 510, "reply-too-long", "the reply to {} takes {} bytes", show(list), reply + 2);
        c.ev("requests");
        if reply > 490 {
            c.ev("nearly_full");
        }
    }
    ck!(c, got == caps, "requested", "wanted {:?}, requested {:?}", caps.iter().map(|l| show(l)).collect::<Vec<_>>(), got.iter().map(|l| show(l)).collect::<Vec<_>>());
    if sent.len() > 1 {
        c.ev("several_lines");
    }
    c.seen(&(sent.len(), caps.len()));
}

// ---------------------------------------------------------------- reset
type Tr = Vec<(i64, Vec<u8>)>;
/// A scripted conversation; what it observes may not depend on the client's past.
fn script(c: &mut Case, drv: &Driver, cl: &mut Client<Conn, SyncChannels>, w: &Arc<Mutex<World>>, seed: u64) -> (Vec<String>, Tr) {
    let mut r = Rng::new(seed);
    let t0 = vnow();
    let mut obs = vec![];
    obs.push(format!(
        "state {} {} {} {} {} {} len {} queue {} run {} labels {}",
        cl.state().get::<ClientSource>().is_some(),
        cl.state().get::<ServerSource>().is_some(),
        cl.state().get::<Caps>().is_some(),
        cl.state().get::<ISupport>().is_some(),
        cl.state().get::<Account>().is_some(),
        cl.state().get::<ServerVersion>().is_some(),
        cl.state().source_len(),
        cl.queue().len(),
        cl.needs_run(),
        cl.queue().is_using_labeler(),
    ));
    let (id, rx) = cl.add((), YieldAll).unwrap();
    let _ = cl.add((), AutoPong).unwrap();
    let _ = cl.add((), TrackClientSource::new()).unwrap();
    let base = id;
    for k in 0..r.range(2, 8) {
        for _ in 0..r.below(4) {
            let mut m = ClientMsg::new_cmd(Cmd::from_str("TEST"));
            m.args.edit().add(Line::try_from(format!("{k} {}", r.below(1000))).unwrap());
            let l = if r.coin() { cl.queue_mut().edit().push_labeled(m) } else { None.or_else(|| { cl.queue_mut().edit().push(m); None }) };
            obs.push(format!("label {:?}", l.map(|l| l.to_utf8_lossy().into_owned())));
        }
        let mut m = gen::wire(&gen::msg(&mut r, true));
        if r.coin() {
            m = format!("PING :{}", r.below(100)).into_bytes();
        }
        if ServerMsg::parse(m.clone()).is_err() {
            m = b"PING x".to_vec();
        }
        m.extend_from_slice(b"\r\n");
        let at = vnow() + r.pickv(&[0, 10 * MS, 3 * SEC]);
        w.lock().unwrap().feed(at, &m);
        let o = match drv.run(cl, w) {
            Outcome::Ran(mut y, mut f) => {
                // Identifiers may be numbered differently.
                y.iter_mut().chain(f.iter_mut()).for_each(|i| *i = i.wrapping_sub(base));
                format!("ran {y:?} {f:?}")
            }
            o => format!("{o:?}"),
        };
        obs.push(o);
        while let Ok(m) = rx.try_recv() {
            obs.push(format!("got {:?}", gen::of_server(&m)));
        }
        obs.push(format!("t {} q {} len {}", vnow() - t0, cl.queue().len(), cl.state().source_len()));
    }
    // Whatever is still queued goes out now.
    for _ in 0..200 {
        match drv.flush(cl) {
            Some(Ok(Some(d))) => crate::sys::vadvance(d.as_nanos() as i64),
            Some(Ok(None)) => break,
            o => {
                obs.push(format!("flush {o:?}"));
                break;
            }
        }
    }
    let _ = c;
    let out = take_log(w)
        .into_iter()
        .map(|e| match e {
            Io::Line(t, b) => (t - t0, b),
            e => (0, format!("{e:?}").into_bytes()),
        })
        .collect();
    (obs, out)
}
fn configure(cl: &mut Client<Conn, SyncChannels>, own: bool, delay: Duration, burst: u32, rt: Option<Duration>) {
    if own {
        // A changed limit starts with its burst used up; the queue's own reset gives it back.
        cl.queue_mut().set_rate_limit(delay, burst);
        cl.queue_mut().reset();
    }
    cl.set_read_timeout(rt);
    cl.set_write_timeout(Some(Duration::from_secs(5)));
}
fn reset(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(c.rng.coin());
    // Either the default limits or configured ones.
    let own = c.rng.coin();
    let delay = c.rng.pickv(&[Duration::ZERO, Duration::from_millis(500), Duration::from_secs(2)]);
    let (burst, rt) = (c.rng.below(5) as u32, c.rng.pickv(&[None, Some(Duration::from_secs(30))]));
    let mk = |c: &mut Case| {
        let mut w = World::new(Rng::new(c.rng.next()));
        w.eof = Some(NEVER);
        Conn::new(w)
    };
    // The client with a past.
    let (conn, w) = mk(c);
    let mut cl = Client::new(conn, SyncChannels);
    configure(&mut cl, own, delay, burst, rt);
    if c.rng.coin() {
        cl.queue_mut().use_labeler_default();
    }
    let s = me_source(&mut c.rng);
    cl.state_mut().insert::<ClientSource>(own_source(&mut c.rng, &s));
    cl.state_mut().insert::<ServerSource>(own_source(&mut c.rng, &s));
    cl.state_mut().insert::<Account>(Some(Arg::from_str("acct")));
    cl.state_mut().insert::<ServerVersion>(Arg::from_str("v1"));
    let (map, _) = isupport(&mut c.rng);
    cl.state_mut().insert::<ISupport>(map);
    cl.state_mut().insert::<Caps>(NameMap::new());
    cl.state_mut().update_source_len();
    let past = c.rng.next();
    let _ = script(c, &drv, &mut cl, &w, past);
    // Old handlers, queued messages and half a message must all be forgotten.
    let (_, old) = cl.add((), YieldAll).unwrap();
    for i in 0..c.rng.below(4) {
        let mut m = ClientMsg::new_cmd(Cmd::from_str("OLD"));
        m.args.edit().add(Line::try_from(format!("{i}")).unwrap());
        cl.queue_mut().edit().push(m);
    }
    let mut partial = false;
    if c.rng.coin() {
        {
            let mut ww = w.lock().unwrap();
            ww.feed(vnow(), b":old!o@ld PRIVMSG x :half a mess");
            ww.eof = Some(vnow() + SEC);
        }
        let o = drv.run(&mut cl, &w);
        ck!(c, matches!(o, Outcome::Err(..)), "outcome", "{o:?}");
        partial = true;
        c.ev("half_messages");
    }
    // Output that is stuck half-way belongs to the old connection.
    if c.rng.coin() {
        {
            let mut ww = w.lock().unwrap();
            ww.eof = Some(NEVER);
            let at = ww.accepted + c.rng.below(12);
            ww.stalls.push_back((at, NEVER / 4));
        }
        for i in 0..3 {
            let mut m = ClientMsg::new_cmd(Cmd::from_str("STUCK"));
            m.args.edit().add(Line::try_from(format!("{i} stuck")).unwrap());
            cl.queue_mut().edit().push(m);
        }
        let mut stuck = false;
        for _ in 0..20 {
            match drv.flush(&mut cl) {
                Some(Ok(Some(d))) => crate::sys::vadvance(d.as_nanos() as i64),
                Some(Ok(None)) => break,
                _ => {
                    stuck = true;
                    break;
                }
            }
        }
        if stuck {
            partial = true;
            c.ev("half_written");
        }
    }
    let (conn, w) = if partial || c.rng.coin() {
        let (conn, w) = mk(c);
        drop(cl.reset_with_conn(conn));
        (None, w)
    } else {
        take_log(&w);
        cl.reset();
        (None::<Conn>, w)
    };
    drop(conn);
    ck!(c, !cl.needs_run(), "needs-run", "a reset client still has handlers or queued messages");
    while old.try_recv().is_ok() {}
    // The same life again, and the same life of a client that has no past.
    let life = c.rng.next();
    let a = script(c, &drv, &mut cl, &w, life);
    ck!(c, matches!(old.try_recv(), Err(std::sync::mpsc::TryRecvError::Disconnected)), "old-handler", "a handler from before the reset is still there");
    let (conn, w) = mk(c);
    let mut fresh = Client::new(conn, SyncChannels);
    configure(&mut fresh, own, delay, burst, rt);
    let b = script(c, &drv, &mut fresh, &w, life);
    for (x, y) in a.0.iter().zip(&b.0) {
        ck!(c, x == y, "reset-differs", "after reset: {x}; fresh: {y}");
    }
    ckeq!(c, a.0.len(), b.0.len(), "reset-differs", "observations");
    ck!(c, a.1 == b.1, "reset-sends", "after reset: {:?}; fresh: {:?}", a.1.iter().map(|(t, l)| (t / MS, show(l))).collect::<Vec<_>>(), b.1.iter().map(|(t, l)| (t / MS, show(l))).collect::<Vec<_>>());
    c.evn("reset_lines", a.1.len() as u64);
    c.ev("resets");
    c.seen(&h64(&a.0));
    vclock_stop();
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("budget", 400, 4000, budget);
    ctx.run("track", 300, 3000, track);
    ctx.run("assumed", 300, 3000, assumed);
    ctx.run("requests", 150, 1500, requests);
    ctx.run("reset", 60, 600, reset);
    for (k, n) in [
        ("exactly_full", 100),
        ("too_long", 100),
        ("steps", 1000),
        ("own_nick_changes", 100),
        ("own_host_changes", 50),
        ("own_userhost", 50),
        ("others", 100),
        ("full_prefixes", 50),
        ("several_lines", 20),
        ("nearly_full", 20),
        ("resets", 30),
        ("half_messages", 10),
        ("half_written", 10),
    ] {
        ctx.require(k, n);
    }
}
