//! What can be seen of a secret: nothing that depends on its contents.
use crate::infra::*;
use crate::strm::{self, b64, Cell, Ty};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use vinezombie::client::auth::sasl::{Password, Plain};
use vinezombie::client::auth::{AnySasl, Clear, Secret};
use vinezombie::client::queue::Queue;
use vinezombie::client::register::Options;
use vinezombie::ircmsg::{Args, ClientMsg, MaybeCtcp, ServerMsg, SharedSource, Source, Tags, TargetedMsg};
use vinezombie::string::tf::{escape, unescape};
use vinezombie::string::*;

pub struct Any<'a>(pub Option<&'a dyn std::fmt::Display>, pub &'a dyn std::fmt::Debug);
/// Every way to print something.
pub fn printed(x: Any<'_>) -> Vec<String> {
    let mut o = vec![format!("{:?}", x.1), format!("{:#?}", x.1), format!("{:x?}", x.1), format!("{:X?}", x.1), format!("{:#x?}", x.1), format!("{:>80?}", x.1)];
    if let Some(d) = x.0 {
        o.extend([format!("{d}"), format!("{d:#}"), format!("{d:>60}"), format!("{d:.3}"), d.to_string()]);
    }
    o
}
/// Finds contents in text, in any of the usual renderings.
pub fn leaks(out: &str, secret: &[u8]) -> Option<String> {
    let hay = out.as_bytes();
    let has = |n: &[u8]| !n.is_empty() && hay.windows(n.len()).any(|w| w == n);
    let flat: String = out.split_whitespace().collect::<Vec<_>>().concat();
    for w in secret.windows(5) {
        if has(w) {
            return Some(format!("contents {}", show(w)));
        }
        let e: String = w.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect();
        if has(e.as_bytes()) {
            return Some(format!("escaped contents {e}"));
        }
        let mut d = String::new();
        let (mut h, mut hp) = (String::new(), String::new());
        for b in w {
            let _ = write!(d, "{b},");
            let _ = write!(h, "{b:x},");
            let _ = write!(hp, "{b:02x}");
        }
        let low = flat.to_ascii_lowercase();
        if flat.contains(d.trim_end_matches(',')) || low.contains(h.trim_end_matches(',')) || low.contains(&hp) || low.replace("0x", "").contains(h.trim_end_matches(',')) {
            return Some(format!("byte values of {}", show(w)));
        }
    }
    if secret.len() >= 9 {
        for k in 0..3 {
            let e = b64(&secret[k..]);
            let e = &e[..e.len() / 4 * 4 - 4];
            for w in e.windows(8) {
                if has(w) {
                    return Some(format!("base64 {}", show(w)));
                }
            }
        }
    }
    None
}

fn printed2(d: &dyn std::fmt::Display, g: &dyn std::fmt::Debug) -> Vec<String> {
    printed(Any(Some(d), g))
}
fn oracle(c: &mut Case, x: &Cell<'_>, why: &str) {
    if !x.secret || x.m.is_empty() {
        return;
    }
    ck!(c, x.s.is_secret(), "not-secret", "{why}: {:?} {} is no longer secret", x.s.ty(), show(&x.m));
    let other = vec![b'Q'; x.m.len()];
    let y = strm::plain(&other, x.s.ty(), x.s.is_owning()).unwrap().secret();
    let (a, b) = (x.s.with(printed2), y.with(printed2));
    ck!(c, a == b, "shown", "{why}: {:?} {} prints as {a:?}, another secret as {b:?}", x.s.ty(), show(&x.m));
    c.ev("secrets_printed");
    c.seen(&(x.s.ty(), &x.m, x.s.is_owning()));
}
fn machine(c: &mut Case) {
    strm::machine(c, 30, oracle);
}

/// Letters and digits; recognisable, and as a word fit for every type but commands.
fn marker(r: &mut Rng, n: usize) -> Vec<u8> {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    (0..n).map(|_| A[r.below(A.len())]).collect()
}
/// The same shape with other letters.
fn other(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let m = marker(r, v.len());
    v.iter()
        .zip(m)
        .map(|(b, m)| {
            // The same class: what may start a nick or command does not change.
            match *b {
                b'0'..=b'9' => b'0' + m % 10,
                b'a'..=b'z' => b'a' + m % 26,
                b'A'..=b'Z' => b'A' + m % 26,
                b => b,
            }
        })
        .collect()
}
fn own(r: &mut Rng, v: &[u8]) -> Bytes<'static> {
    match r.below(4) {
        0 => Bytes::from_secret(v.to_vec()),
        1 => Bytes::from(v.to_vec()).secret(),
        2 => v.iter().copied().collect::<SecretBuf>().into_bytes(),
        _ => {
            // A part of something larger.
            let mut w = v.to_vec();
            w.extend_from_slice(b" tail");
            let mut s = Splitter::new(Bytes::from_secret(w));
            s.until_count(v.len());
            s.rest::<Bytes>().unwrap()
        }
    }
}
/// Puts one secret into all sorts of things and prints them.
fn things(seed: u64, s: &[u8], sent: &mut bool) -> Vec<(String, String)> {
    let r = &mut Rng::new(seed);
    let mut o: Vec<(String, String)> = vec![];
    let put = |o: &mut Vec<(String, String)>, what: &str, x: Any<'_>| {
        for p in printed(x) {
            o.push((what.to_string(), p));
        }
    };
    let long = s.contains(&b' ') || s.is_empty() || s[0] == b':';
    // Argument lists and messages.
    let mut m = ClientMsg::new(vinezombie::names::cmd::PRIVMSG);
    {
        let mut e = m.args.edit();
        for _ in 0..r.below(3) {
            e.add_literal("x");
        }
        let k = r.below(3);
        if long || k == 0 {
            e.add(Line::from_bytes(own(r, s)).unwrap());
        } else if k == 1 {
            e.add_word(Arg::from_bytes(own(r, s)).unwrap());
        } else {
            e.add_word(Arg::from_bytes(own(r, s)).unwrap());
            e.add(Line::from_str("the end"));
        }
    }
    if r.coin() {
        m.tags.edit().insert_pair(Key::from_str("k"), NoNul::from_bytes(own(r, s)).unwrap());
    }
    put(&mut o, "args", Any(Some(&m.args), &m.args));
    put(&mut o, "tags", Any(Some(&m.tags), &m.tags));
    put(&mut o, "message", Any(Some(&m), &m));
    let cl = m.clone().owning();
    put(&mut o, "owned message", Any(Some(&cl), &cl));
    let mut b = vec![];
    let _ = cl.send_to(&mut b, &mut vec![]);
    *sent &= b.windows(s.len()).any(|w| w == s);
    for a in m.args.words() {
        put(&mut o, "argument", Any(Some(a), a));
    }
    if let Some(l) = m.args.split_last().1 {
        put(&mut o, "last argument", Any(Some(l), l));
    }
    let mut sm = ServerMsg::new(vinezombie::names::cmd::NOTICE, SharedSource::new(Source::parse(Word::from_str("srv")).unwrap()));
    sm.args = m.args.clone();
    sm.tags = m.tags.clone();
    put(&mut o, "server message", Any(Some(&sm), &sm));
    let sm = sm.owning();
    put(&mut o, "server message", Any(Some(&sm), &sm));
    let mut q = Queue::new();
    q.edit().push(cl);
    // The timestamp is not the contents.
    put(&mut o, "queue", Any(None, &()));
    let qs = format!("{q:?}");
    let qs = match qs.find("timepoint") {
        Some(i) => qs[..i].to_string(),
        None => qs,
    };
    o.push(("queue".into(), qs));
    q.edit().clear();
    // Whole lines that are secret.
    let line = [b"@k=".as_slice(), &escaped(s), b" :n!u@h PRIVMSG ", if long { b":" } else { b"" }, s].concat();
    if let Ok(p) = ServerMsg::parse(Bytes::from_secret(line.clone())) {
        put(&mut o, "parsed", Any(Some(&p), &p));
        let p = p.owning();
        put(&mut o, "parsed", Any(Some(&p), &p));
    }
    if let Ok(p) = ClientMsg::parse(Bytes::from_secret([b"PASS ".as_slice(), if long { b":" } else { b"" }, s].concat())) {
        put(&mut o, "parsed", Any(Some(&p), &p));
    }
    let a = Args::parse(Line::from_bytes(own(r, s)).unwrap());
    put(&mut o, "parsed arguments", Any(Some(&a), &a));
    let t = Tags::parse(Word::from_bytes(Bytes::from_secret([b"a=b;k=".as_slice(), &escaped(s)].concat())).unwrap());
    put(&mut o, "parsed tags", Any(Some(&t), &t));
    if !long {
        let so = [s, b"!", s, b"@", s].concat();
        if let Ok(x) = Source::parse(Word::from_bytes(Bytes::from_secret(so)).unwrap()) {
            put(&mut o, "source", Any(Some(&x), &x));
            let x = x.owning();
            put(&mut o, "source", Any(Some(&x), &x));
        }
    }
    let ct = MaybeCtcp::parse(Line::from_bytes(own(r, &[b"\x01CMD ".as_slice(), s, b"\x01"].concat())).unwrap());
    put(&mut o, "ctcp", Any(None, &ct));
    put(&mut o, "targeted", Any(None, &TargetedMsg::new(Arg::from_str("x"), ct)));
    let ct = MaybeCtcp::parse(Line::from_bytes(own(r, s)).unwrap());
    put(&mut o, "ctcp", Any(None, &ct));
    // Derived strings.
    let base = own(r, s);
    let n = NoNul::from_bytes(base.clone()).unwrap();
    let mut up = base.clone();
    up.transform(vinezombie::string::tf::AsciiCasemap::<true>);
    let e = escape(n.clone());
    let u = unescape(n.clone());
    let ll = base.clone().into_utf8_lossy();
    let w = base.to_base64();
    let wp = base.to_base64_plus();
    let sp = Splitter::new(n.clone());
    put(&mut o, "upper case", Any(Some(&up), &up));
    put(&mut o, "escaped", Any(Some(&e), &e));
    put(&mut o, "unescaped", Any(Some(&u), &u));
    put(&mut o, "lossy", Any(Some(&ll), &ll));
    put(&mut o, "base64", Any(Some(&w), &w));
    put(&mut o, "base64", Any(Some(&wp), &wp));
    put(&mut o, "splitter", Any(None, &sp));
    for ch in vinezombie::string::base64::ChunkEncoder::new(s, r.range(1, 30), true) {
        put(&mut o, "chunk", Any(Some(&ch), &ch));
    }
    // Configuration.
    let sec: Secret<NoNul<'static>, ()> = Secret::new(n.clone());
    put(&mut o, "secret", Any(None, &sec));
    let p = Password::new(NoNul::from_str("me"), sec.clone());
    put(&mut o, "password", Any(None, &p));
    put(&mut o, "password", Any(None, &AnySasl::from(p.clone())));
    put(&mut o, "plain", Any(None, &Plain::new(NoNul::from_str("me"), sec.clone())));
    let mut op: Options<(), AnySasl<()>> = Options::new();
    let l = Line::from_bytes(s.to_vec()).unwrap();
    op.set_pass(l).unwrap();
    op.add_sasl(p);
    put(&mut o, "options", Any(None, &op));
    put(&mut o, "options", Any(None, &op.clone()));
    let ld = Secret::<Line<'static>, Clear>::load(Clear(s.iter().copied().collect())).unwrap();
    let li = Secret::into_inner(ld);
    put(&mut o, "loaded", Any(Some(&li), &li));
    let j = format!("{{\"pass\":\"{0}\",\"sasl\":[{{\"Password\":{{\"authcid\":\"me\",\"passwd\":\"{0}\"}}}}]}}", String::from_utf8(b64(s)).unwrap());
    let d: Options<Clear> = serde_json::from_str(&j).unwrap();
    let dp = Secret::into_inner(d.pass.clone().unwrap());
    put(&mut o, "deserialised", Any(Some(&dp), &dp));
    for a in &d.sasl {
        if let AnySasl::Password(p) = a {
            put(&mut o, "deserialised", Any(Some(&*p.passwd), &*p.passwd));
        }
    }
    o
}
fn escaped(s: &[u8]) -> Vec<u8> {
    crate::gen::escape(s)
}
fn containers(c: &mut Case) {
    let n = c.rng.pickv(&[6usize, 9, 12, 20, 24, 40, 90]);
    let mut s = marker(&mut c.rng, n);
    // Some text that needs care.
    for _ in 0..c.rng.below(3) {
        let k = c.rng.below(s.len());
        let b = c.rng.pickv(&[b" ".as_slice(), b";", b":", b"\\", b"\xff", "é".as_bytes(), b"\x01", b",", b"!", b"@", b"="]);
        s.splice(k..k + 1, b.iter().copied());
    }
    let t = other(&mut c.rng, &s);
    c.desc = show(&s);
    let seed = c.rng.next();
    let mut sent = true;
    let a = things(seed, &s, &mut sent);
    ck!(c, sent, "not-sent", "{} was not written to the wire", show(&s));
    let b = things(seed, &t, &mut sent);
    ckeq!(c, a.len(), b.len(), "shape", "");
    for ((what, x), (_, y)) in a.iter().zip(&b) {
        ck!(c, x == y, "shown", "{what} prints {x} with {} and {y} with {}", show(&s), show(&t));
        if let Some(l) = leaks(x, &s) {
            c.fail("leak", format!("{what} prints {x}, which has {l}"));
        }
        c.ev("things_printed");
    }
    let _ = BTreeSet::from([Ty::Bytes as u8]);
    c.seen(&s);
}

#[cfg(all(feature = "full", not(miri)))]
mod logs {
    use super::*;
    use crate::mock::*;
    use crate::sys::{vclock_start, vclock_stop, vnow};
    use std::sync::{Arc, Mutex};
    use std::time::Duration;
    use tracing::field::{Field, Visit};
    use tracing::span;
    use vinezombie::client::channel::SyncChannels;
    use vinezombie::client::handlers::YieldAll;
    use vinezombie::client::register::{register_as_bot, register_as_client};
    use vinezombie::client::Client;

    #[derive(Clone, Default)]
    struct Cap(Arc<Mutex<Vec<String>>>);
    struct Fields<'a>(&'a mut String);
    impl Visit for Fields<'_> {
        fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
            let _ = write!(self.0, " {}={v:?}", f.name());
        }
    }
    impl tracing::Subscriber for Cap {
        fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
            tracing::subscriber::Interest::sometimes()
        }
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
            let mut s = format!("span {}", a.metadata().name());
            a.record(&mut Fields(&mut s));
            self.0.lock().unwrap().push(s);
            span::Id::from_u64(1)
        }
        fn record(&self, _: &span::Id, v: &span::Record<'_>) {
            let mut s = "record".to_string();
            v.record(&mut Fields(&mut s));
            self.0.lock().unwrap().push(s);
        }
        fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            let mut s = e.metadata().target().to_string();
            e.record(&mut Fields(&mut s));
            self.0.lock().unwrap().push(s);
        }
        fn enter(&self, _: &span::Id) {}
        fn exit(&self, _: &span::Id) {}
    }

    /// Registers and logs in; returns what was logged, what was written and what could be printed.
    fn session(seed: u64, pass: &[u8], words: &[Vec<u8>]) -> (Vec<String>, Vec<u8>) {
        let r = &mut Rng::new(seed);
        vclock_start();
        let drv = Driver::new(r.chance(1, 3));
        let mut w = World::new(Rng::new(seed));
        w.eof = Some(NEVER);
        let (conn, w) = Conn::new(w);
        let cap = Cap::default();
        let d = tracing::dispatcher::Dispatch::new(cap.clone());
        let out = tracing::dispatcher::with_default(&d, || {
            let mut cl = Client::new(conn, SyncChannels);
            cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
            let (_, all) = cl.add((), YieldAll).unwrap();
            let mut o: Options<Clear, AnySasl<Clear>> = Options::new();
            o.set_pass(Line::from_bytes(pass.to_vec()).unwrap()).unwrap();
            o.nicks.push(Nick::from_str("me"));
            o.allow_sasl_fail = r.coin();
            for p in words {
                let sec = if r.coin() {
                    Secret::load(Clear(p.iter().copied().collect())).unwrap()
                } else {
                    Secret::new(NoNul::from_bytes(p.clone()).unwrap().secret())
                };
                let mut a = Password::new(NoNul::from_str("acct"), sec);
                if r.coin() {
                    a.authzid = NoNul::from_str("other");
                }
                o.add_sasl(a);
            }
            let rx = if r.coin() { cl.add(&register_as_client(), &o).unwrap().1 } else { cl.add(&register_as_bot(), &o).unwrap().1 };
            let say = |cl: &mut Client<Conn, SyncChannels>, l: &str| {
                let q = format!("{:?}", cl.queue());
                cap.0.lock().unwrap().push(q.split("timepoint").next().unwrap().to_string());
                w.lock().unwrap().feed(vnow(), format!("{l}\r\n").as_bytes());
                let _ = drv.run(cl, &w);
                while all.try_recv().is_ok() {}
                let q = format!("{:?}", cl.queue());
                cap.0.lock().unwrap().push(q.split("timepoint").next().unwrap().to_string());
                let _ = drv.flush(cl);
            };
            say(&mut cl, ":s NOTICE * :hello");
            say(&mut cl, ":s CAP * LS :sasl=PLAIN");
            say(&mut cl, ":s CAP * ACK :sasl");
            for (i, _) in words.iter().enumerate() {
                say(&mut cl, "AUTHENTICATE +");
                if i + 1 < words.len() {
                    match r.below(2) {
                        0 => say(&mut cl, ":s 904 * :failed"),
                        _ => {
                            // It cannot make sense of this.
                            say(&mut cl, ":s 904 * :failed");
                        }
                    }
                }
            }
            if r.chance(1, 4) {
                say(&mut cl, "AUTHENTICATE Zm9v");
                say(&mut cl, ":s 906 * :aborted");
            } else {
                say(&mut cl, ":s 900 * me!u@h acct :logged in");
                say(&mut cl, ":s 903 * :ok");
            }
            say(&mut cl, ":s 001 me :Welcome");
            say(&mut cl, ":s 422 me :no MOTD");
            let res = rx.0.recv_now();
            cap.0.lock().unwrap().push(format!("{res:?}"));
            let log = w.lock().unwrap().log.clone();
            let log = log.lock().unwrap();
            let mut out = vec![];
            for e in log.iter() {
                if let Io::Line(_, b) = e {
                    out.extend_from_slice(b);
                    out.push(b'\n');
                }
            }
            out
        });
        vclock_stop();
        let l = cap.0.lock().unwrap().clone();
        (l, out)
    }
    pub fn sessions(c: &mut Case) {
        let n = c.rng.range(9, 60);
        let mut pass = marker(&mut c.rng, n);
        if c.rng.coin() {
            let k = c.rng.below(pass.len());
            pass[k] = b' ';
        }
        let words: Vec<Vec<u8>> = (0..c.rng.range(1, 3))
            .map(|_| {
                let n = c.rng.pickv(&[9usize, 12, 30, 280, 294, 295, 400, 700]);
                marker(&mut c.rng, n)
            })
            .collect();
        let pass2 = other(&mut c.rng, &pass);
        let words2: Vec<Vec<u8>> = words.iter().map(|w| other(&mut c.rng, w)).collect();
        let seed = c.rng.next();
        let (log, wire) = session(seed, &pass, &words);
        let (log2, _) = session(seed, &pass2, &words2);
        ck!(c, wire.windows(pass.len()).any(|w| w == pass), "not-sent", "the password is not on the wire");
        let mut text = vec![];
        for l in wire.split(|b| *b == b'\n') {
            if let Some(p) = l.strip_prefix(b"AUTHENTICATE ") {
                if p != b"PLAIN" && p != b"+" && p != b"*" {
                    text.extend_from_slice(p);
                }
            }
        }
        let mut at = 0;
        let mut auth_secret = vec![];
        for w in &words {
            let found = [b"\0acct\0".as_slice(), b"other\0acct\0"].iter().find_map(|z| {
                let e = b64(&[z, w.as_slice()].concat());
                text[at..].starts_with(&e).then_some(e)
            });
            match found {
                Some(e) => {
                    at += e.len();
                    auth_secret.push(e);
                }
                None => c.fail("not-sent", format!("credentials {} are not on the wire: {}", show(w), show(&text))),
            }
        }
        for l in &log {
            let mut found = leaks(l, &pass);
            for w in &words {
                found = found.or_else(|| leaks(l, w));
            }
            for e in &auth_secret {
                found = found.or_else(|| e.windows(10).find(|w| l.as_bytes().windows(10).any(|x| x == *w)).map(|w| format!("payload {}", show(w))));
            }
            if let Some(f) = found {
                c.fail("logged", format!("{f} in {l}"));
            }
            c.ev("records");
        }
        ck!(c, log == log2, "logged", "what is logged depends on the secrets: {:?}", log.iter().zip(&log2).find(|(a, b)| a != b));
        ck!(c, log.iter().any(|l| l.starts_with("vinezombie::send")), "no-logs", "nothing was logged");
        c.ev("sessions");
        c.seen(&(h64(&pass), h64(&words)));
    }
}

pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run("machine", 300, 3000, machine);
    ctx.run("containers", 150, 1500, containers);
    ctx.require("secrets_printed", 300);
    ctx.require("things_printed", 1000);
    #[cfg(all(feature = "full", not(miri)))]
    {
        ctx.run("sessions", 40, 400, logs::sessions);
        ctx.require("sessions", 20);
        ctx.require("records", 300);
    }
}
