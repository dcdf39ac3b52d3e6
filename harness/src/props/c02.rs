//! Parsing untrusted input is total: value or error, bounded work, and the value is usable.
use crate::gen::*;
use crate::infra::*;
use crate::sys;
use std::sync::atomic::Ordering::Relaxed;
use vinezombie::client::cap::ServerMsgArgs;
use vinezombie::error::ParseError;
use vinezombie::ircmsg::*;
use vinezombie::names::{cap, cmd, isupport, Cap, ISupport, NameValued, ServerMsgKind, ClientMsgKind};
use vinezombie::state::{Mode, ModeTypes, ServerChanModes, StatusModes};
use vinezombie::string::*;

/// Uses a string in every way a consumer would.
fn use_bytes(b: &Bytes) -> usize {
    let mut n = format!("{b}").len() + format!("{b:?}").len();
    n += b.to_utf8_lossy().len();
    n += b.clone().owning().into_vec().len();
    n += b.to_utf8().map_or(0, |s| s.chars().count());
    n
}
fn use_args(a: &Args) -> usize {
    let mut n = format!("{a}").len() + format!("{a:?}").len() + a.len() + a.len_bytes();
    for w in a.words() {
        n += use_bytes(w);
    }
    if let (_, Some(l)) = a.split_last() {
        n += use_bytes(l);
    }
    n += a.clone().owning().len();
    n
}
fn use_source(s: &Source) -> usize {
    let mut w = Vec::new();
    s.write_to(&mut w).unwrap();
    let mut n = format!("{s}").len() + format!("{s:?}").len() + s.len() + w.len();
    n += s.clone().owning().len() + s.clone().owning_merged().len();
    if let Some(uh) = &s.userhost {
        n += uh.len() + uh.has_ident() as usize + format!("{uh}").len();
        let mut w = Vec::new();
        uh.write_to(&mut w).unwrap();
        n += uh.clone().owning().len();
    }
    n
}
fn use_tags(t: &Tags) -> usize {
    let mut n = format!("{t}").len() + format!("{t:?}").len() + t.len();
    n += of_tags(t).len();
    n += t.clone().owning().len();
    n
}
fn use_err(e: &ParseError) -> usize {
    use std::error::Error;
    format!("{e}").len() + format!("{e:?}").len() + e.source().map_or(0, |e| format!("{e}").len())
}
fn name<N: NameValued<ServerMsgKind>>(m: &ServerMsg, k: N, f: impl FnOnce(N::Value<'_>) -> usize) -> usize {
    match m.parse_as(k) {
        Ok(v) => f(v),
        Err(e) => use_err(&e),
    }
}
fn namec<N: NameValued<ClientMsgKind>>(m: &ClientMsg, k: N) -> usize {
    match m.parse_as(k) {
        Ok(_) => 1,
        Err(e) => use_err(&e),
    }
}
fn use_ctcp(l: Line) -> usize {
    let m = MaybeCtcp::parse(l);
    let n = m.len() + m.is_empty() as usize + m.is_ctcp() as usize + use_bytes(&m.cmd) + use_bytes(&m.body);
    n + m.into_line().len()
}
fn use_server(m: &ServerMsg) -> usize {
    let mut w = Vec::new();
    ServerCodec::write_to(m, &mut w).unwrap();
    let mut n = format!("{m}").len() + format!("{m:?}").len() + w.len();
    n += use_args(&m.args) + use_tags(&m.tags);
    n += m.bytes_left().unsigned_abs();
    n += m.kind.len() + m.kind.as_str().len() + m.kind.is_error().is_some() as usize + m.kind.as_arg().len();
    if let Some(s) = &m.source {
        n += use_source(s);
    }
    let o = m.clone().owning();
    n += (o == m.clone().owning()) as usize;
    macro_rules! nm {
        ($($k:ident)*) => { $( n += name(m, cmd::$k, |t| use_ctcp(t.value) + use_bytes(&t.target)); )* };
    }
    nm!(NOTICE PART PRIVMSG QUIT TOPIC WALLOPS);
    n += name(m, cmd::JOIN, |t| use_bytes(&t.target));
    n += use_cap(&m.args);
    n
}
fn use_cap(a: &Args) -> usize {
    match ServerMsgArgs::parse(a) {
        Ok(mut c) => {
            let mut n = c.caps.len();
            for (k, v) in &c.caps {
                n += use_bytes(k) + use_bytes(v);
                n += cap::SASL::from_union(&(k.clone(), v.clone())).unwrap().len();
            }
            let again = ServerMsgArgs::parse(a).unwrap();
            n += c.combine(again).is_some() as usize;
            n
        }
        Err(e) => use_err(&e),
    }
}
fn use_client(m: &ClientMsg) -> usize {
    let mut w = Vec::new();
    ClientCodec::write_to(m, &mut w).unwrap();
    let mut n = format!("{m}").len() + format!("{m:?}").len() + w.len();
    n += use_args(&m.args) + use_tags(&m.tags);
    n += m.bytes_left(None).unsigned_abs();
    n += namec(m, cmd::NOTICE) + namec(m, cmd::PRIVMSG) + namec(m, cmd::QUIT);
    n + (m.clone().owning() == m.clone().owning()) as usize
}
fn use_isupport(key: Key<'static>, w: Word<'static>) -> usize {
    let u = (key, w);
    let mut n = 0;
    macro_rules! is {
        ($($k:ident)*) => { $( n += match <isupport::$k as NameValued<ISupport>>::from_union(&u) {
            Ok(v) => format!("{v:?}").len(), Err(e) => use_err(&e) }; )* };
    }
    is!(ETRACE KNOCK AWAYLEN CHANNELLEN MODES NICKLEN MONITOR SILENCE BOT CALLERID EXCEPTS INVEX NETWORK CHANMODES PREFIX USERMODES);
    n
}
fn use_modes(v: &[u8]) -> usize {
    let (t, o, rest) = ModeTypes::parse(v);
    let mut n = format!("{t}{o:?}").len() + rest.len();
    match StatusModes::parse(v) {
        Ok(s) => {
            for b in b'A'..=b'z' {
                if let Some(m) = Mode::new(b) {
                    n += s.contains(m) as usize + s.get_prefix(m).is_some() as usize;
                }
            }
        }
        Err(e) => n += use_err(&e),
    }
    n
}

/// Hostile lines: damaged protocol lines and raw noise.
pub fn hostile(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut v = match r.below(8) {
        0 => bytes(r, max),
        1 | 2 => wire(&msg(r, true)),
        3 => wire(&msg(r, false)),
        4 => {
            // Tag soup.
            let mut v = b"@".to_vec();
            for _ in 0..r.below(14) {
                v.extend_from_slice(r.pick(&[
                    &b";"[..], b"=", b":", b"\\", b"a", b"b=", b"c=\\", b";;", b"==", b"+x", b"\xff", b"=:", b"k=v\\:", b":k", b"\\\\", b"/",
                ]));
            }
            v.extend_from_slice(b" CMD x");
            v
        }
        5 => {
            // Structure soup.
            let mut v = Vec::new();
            for _ in 0..r.below(16) {
                v.extend_from_slice(r.pick(&[
                    &b" "[..], b":", b"@", b"!", b"a!b@c", b"CMD", b"001", b"\x01", b"\t", b"  ", b",", b"*", b"LS", b"\x01ACTION",
                    b"CAP * LS * :", b"sasl=PLAIN,", b"(ov)@+", b"\r", b"\n", b"\0", b"\xff", b"PREFIX=",
                ]));
            }
            v
        }
        6 => {
            let mut v = b":srv CAP x ".to_vec();
            v.extend_from_slice(r.pick(&[&b"LS"[..], b"ack", b"NEW", b"LS *", b"DEL x", b""]));
            v.extend_from_slice(b" :");
            for _ in 0..r.below(8) {
                v.extend_from_slice(r.pick(&[&b"a"[..], b" ", b"sasl=PLAIN,EXTERNAL", b"x=", b"=y", b"-z", b"~q", b";", b":", b"=", b",,"]));
            }
            v
        }
        _ => {
            // Long runs of one thing.
            let unit: &[u8] =
                r.pick(&[&b";"[..], b"a;", b"a=\\", b" ", b" :", b"a ", b"\\", b"=", b"\xc3", b"@", b":", b"a,", b"\x01", b"!", b"k=v;", b";=", b"(",
                    b":=", b"=:", b"a:"]);
            let n = r.pickv(&[50usize, 500, 4000, 8700]);
            let mut v = r.pick(&[&b"@"[..], b":", b"", b"CMD ", b"CMD :", b"@a=", b":n!u@"]).to_vec();
            while v.len() < n {
                v.extend_from_slice(unit);
            }
            v.truncate(n);
            if r.coin() {
                v.extend_from_slice(b" CMD :x");
            }
            v
        }
    };
    for _ in 0..r.pickv(&[0usize, 0, 1, 3]) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, r.byte()),
            2 => v[i] = SPECIAL[r.below(SPECIAL.len())],
            3 => v.truncate(i),
            _ => {
                let p = v[i..(i + 4).min(v.len())].to_vec();
                v.extend_from_slice(&p);
            }
        }
    }
    v.truncate(8703);
    v
}

fn one(c: &mut Case, v: &[u8]) {
    c.desc = show(v);
    let before = sys::TOTAL_BYTES.load(Relaxed);
    let mut units = 0usize;
    macro_rules! go {
        ($sig:literal, $e:expr) => {
            if let Some(n) = c.guard($sig, || $e) {
                units += 1;
                let n: usize = n;
                std::hint::black_box(n);
            }
        };
    }
    // Pure parsing first: that part is held to the allocation bound.
    go!("parse-server", ServerMsg::parse(v).is_ok() as usize);
    go!("parse-client", ClientMsg::parse(v).is_ok() as usize);
    go!("parse-owned", ServerMsg::parse(v.to_vec()).is_ok() as usize);
    let line = Line::from_bytes(Bytes::from_bytes(v)).ok();
    let word = Word::from_bytes(Bytes::from_bytes(v)).ok();
    if let Some(l) = &line {
        go!("parse-args", Args::parse(l.clone()).len());
        go!("parse-ctcp", MaybeCtcp::parse(l.clone()).len());
    }
    if let Some(w) = &word {
        go!("parse-tags", Tags::parse(w.clone()).len());
        go!("parse-source", Source::parse(w.clone()).is_ok() as usize);
        go!("parse-userhost", UserHost::parse(w.clone()).is_ok() as usize);
    }
    go!("parse-modetypes", ModeTypes::parse(v).2.len());
    go!("parse-statusmodes", StatusModes::parse(v).is_ok() as usize);
    let spent = sys::TOTAL_BYTES.load(Relaxed) - before;
    let bound = 8192 + units as u64 * 400 * (v.len() as u64 + 16);
    if c.ctx.viols.is_empty() && cfg!(not(miri)) {
        ck!(c, spent <= bound, "allocation-out-of-proportion", "{spent} bytes allocated for {} input bytes", v.len());
    }
    // Then everything a consumer would do with the results.
    if let Some(Ok(m)) = c.guard("parse-server", || ServerMsg::parse(v)) {
        go!("use-server", use_server(&m));
        c.ev("server-accepted");
    } else {
        c.ev("server-rejected");
    }
    if let Some(Ok(m)) = c.guard("parse-client", || ClientMsg::parse(v)) {
        go!("use-client", use_client(&m));
        c.ev("client-accepted");
    }
    if let Some(Err(e)) = c.guard("parse-server", || ServerMsg::parse(v)) {
        go!("use-error", use_err(&e));
    }
    if let Some(l) = &line {
        go!("use-args", use_args(&Args::parse(l.clone())));
        go!("use-cap", use_cap(&Args::parse(l.clone())));
        go!("use-ctcp", use_ctcp(l.clone()));
    }
    if let Some(w) = &word {
        go!("use-tags", use_tags(&Tags::parse(w.clone())));
        go!("use-source", Source::parse(w.clone()).map_or_else(|e| use_err(&e), |s| use_source(&s)));
        go!("use-userhost", UserHost::parse(w.clone()).map_or_else(|e| use_err(&e), |s| s.len()));
        go!("use-isupport", use_isupport(Key::from_str("K"), w.clone().owning()));
        go!("use-sasl-list", cap::SASL::from_union(&(Key::from_str("sasl"), w.clone())).map_or(0, |s| s.len()));
        c.ev("word");
    }
    go!("use-modes", use_modes(v));
    c.evn("parser-runs", units as u64);
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("hostile", 60_000, 2_000_000, |c| {
        let v = hostile(&mut c.rng, 300);
        one(c, &v);
        c.seen(&v);
        c.sample(|| show(&v));
    });
    ctx.run("noise", 30_000, 1_000_000, |c| {
        let n = c.rng.pickv(&[3usize, 10, 40, 600]);
        let v = bytes(&mut c.rng, n);
        one(c, &v);
        c.seen(&v);
    });
    // All strings over a small, structure-heavy alphabet.
    const AL: &[u8] = b"@:! ;=\\a0\x01,+(";
    let max = if ctx.thorough() { 6 } else { 4 };
    let total: u64 = (0..=max).map(|k| (AL.len() as u64).pow(k)).sum();
    ctx.run_all("exhaustive-short", total, |c| {
        let mut i = c.idx;
        let mut n = 0u32;
        while i >= (AL.len() as u64).pow(n) {
            i -= (AL.len() as u64).pow(n);
            n += 1;
        }
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(AL[(i % AL.len() as u64) as usize]);
            i /= AL.len() as u64;
        }
        one(c, &v);
        c.seen(&v);
        c.ev("exhaustive");
    });
    // Server numeric/ISUPPORT/CAP/mode strings of every shape.
    ctx.run_all("numerics", 1000, |c| {
        let n = c.idx as u16;
        let num = Numeric::from_int(n).unwrap();
        let v = format!(":s {num} me a=b -c :are supported");
        one(c, v.as_bytes());
        ck!(c, num.into_int() == n, "numeric-value", "{n} -> {}", num.into_int());
        ck!(c, Numeric::from_bytes(format!("{n:03}").as_bytes()) == Some(num), "numeric-text", "{n}");
    });
    ctx.run("isupport-modes", 20_000, 600_000, |c| {
        let mut v = Vec::new();
        for _ in 0..c.rng.below(12) {
            let p: &[u8] = c.rng.pick(&[
                &b"("[..], b")", b"ov", b"@+", b",", b"b", b"kl", b"\xff", b"-1", b"65536", b"0", b"99", b"(ov)@+", b"\0", b"aA",
            ]);
            v.extend_from_slice(p);
        }
        c.desc = show(&v);
        c.guard("modes", || use_modes(&v));
        if let Ok(w) = Word::from_bytes(v.clone()) {
            let key = Key::from_bytes(key(&mut c.rng, 6)).unwrap();
            c.guard("isupport", || use_isupport(key, w.clone()));
            c.guard("chanmodes", || {
                let mut m = vinezombie::names::NameMap::<ISupport>::new();
                m.edit().insert((Key::from_str("CHANMODES"), w.clone()), ());
                m.edit().insert((Key::from_str("PREFIX"), w.clone()), ());
                let s = ServerChanModes::from_isupport(&m);
                s.get(Mode::new(b'o').unwrap())
            });
        }
        c.seen(&v);
        let _ = std::marker::PhantomData::<Cap>;
    });
    for k in ["server-accepted", "server-rejected", "client-accepted", "word", "exhaustive"] {
        ctx.require(k, 500);
    }
}
