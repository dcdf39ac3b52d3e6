//! Automatic replies: PONG, CTCP, latency.
use crate::gen;
use crate::infra::*;
use crate::mock::*;
use crate::sys::{vadvance, vclock_start, vclock_stop, vnow};
use std::time::{Duration, Instant};
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::*;
use vinezombie::client::Client;
use vinezombie::ircmsg::ServerMsg;
use vinezombie::string::*;

fn outs(w: &std::sync::Mutex<World>) -> Vec<Vec<u8>> {
    let l = w.lock().unwrap().log.clone();
    let l = std::mem::take(&mut *l.lock().unwrap());
    l.into_iter()
        .map(|e| match e {
            Io::Line(_, b) => b,
            e => format!("{e:?}").into_bytes(),
        })
        .collect()
}
fn wire_arg(out: &mut Vec<u8>, a: &[u8]) {
    out.push(b' ');
    if !gen::is_arg(a) {
        out.push(b':');
    }
    out.extend_from_slice(a);
}

/// The text of a message that asks (or does not ask) for something by CTCP, and what it asks for.
fn ctcp_text(r: &mut Rng) -> (Vec<u8>, Option<&'static str>) {
    let k = if r.chance(3, 4) { "VERSION" } else { "SOURCE" };
    let mut cmd: Vec<u8> = k.as_bytes().to_vec();
    for b in cmd.iter_mut() {
        if r.chance(1, 6) {
            *b = b.to_ascii_lowercase();
        }
    }
    let cmd = String::from_utf8(cmd).unwrap();
    let tail = String::from_utf8_lossy(&gen::line(r, 12)).replace(['\u{1}', '\u{fffd}'], "");
    match r.below(12) {
        0 | 1 => (format!("\u{1}{cmd}\u{1}").into_bytes(), Some(k)),
        2 => (format!("\u{1}{cmd}").into_bytes(), Some(k)),
        3 => (format!("\u{1}{cmd} {tail}\u{1}").into_bytes(), Some(k)),
        4 => (format!("\u{1}{cmd} {tail}").into_bytes(), Some(k)),
        5 => (cmd.into_bytes(), None),
        6 => (format!("{tail}x\u{1}{cmd}\u{1}").into_bytes(), None),
        7 => (format!("\u{1}{cmd}X\u{1}").into_bytes(), None),
        8 => (format!("\u{1}X{cmd}\u{1}").into_bytes(), None),
        9 => (format!("\u{1}{}\u{1}", r.pick(&["PING 123", "ACTION VERSION", "CLIENTINFO", "VERSIO", "FINGER"])).into_bytes(), None),
        10 => (format!("\u{1}\u{1}{cmd}\u{1}").into_bytes(), None),
        _ => (tail.into_bytes(), None),
    }
}

fn replies(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(c.rng.coin());
    let mut w = World::new(Rng::new(c.rng.next()));
    w.eof = Some(vnow());
    w.short_writes = c.rng.coin();
    let (npong, nctcp) = (c.rng.below(3), c.rng.below(3));
    let mut texts: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..nctcp {
        let mut t = |c: &mut Case| if c.rng.chance(1, 5) { vec![] } else { gen::line(&mut c.rng, 30) };
        texts.push((t(c), t(c)));
    }
    let mut want: Vec<Vec<u8>> = vec![];
    let n = c.rng.range(1, 14);
    for _ in 0..n {
        let mut m = gen::msg(&mut c.rng, true);
        let mut ask = None;
        match c.rng.below(6) {
            0 | 1 => {
                m.kind = c.rng.pick(&["PING", "PING", "PING", "PONG", "ping", "PINGX", "PIN"]).as_bytes().to_vec();
            }
            2..=4 => {
                m.kind = c.rng.pick(&["PRIVMSG", "PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE", "TAGMSG", "privmsg"]).as_bytes().to_vec();
                let (t, a) = ctcp_text(&mut c.rng);
                let target = c.rng.pick(&["me", "#chan", "@#chan", "someone"]).as_bytes().to_vec();
                m.args = vec![target, t];
                ask = a;
                match c.rng.below(8) {
                    0 => m.args.insert(1, b"extra".to_vec()),
                    1 => {
                        m.args.remove(0);
                    }
                    _ => (),
                }
            }
            _ => (),
        }
        let mut line = gen::wire(&m);
        match ServerMsg::parse(line.clone()) {
            // Judged on the message the parser makes of the line (C03 judges that).
            Ok(p) => m = gen::of_server(&p),
            Err(_) => continue,
        }
        line.extend_from_slice(b"\r\n");
        // Handlers are not promised any order, so at most one replies per message unless alike.
        if m.kind == b"PING" {
            let mut o = b"PONG".to_vec();
            if let Some(a) = m.args.last() {
                wire_arg(&mut o, a);
            }
            for _ in 0..npong {
                want.push(o.clone());
                c.ev("pongs");
            }
        } else if m.kind == b"PRIVMSG" && m.args.len() == 2 {
            if let (Some(k), Some(s)) = (ask, &m.source) {
                let mut alike = vec![];
                for (v, s2) in &texts {
                    let body = if k == "VERSION" { v } else { s2 };
                    if !body.is_empty() {
                        let mut o = b"NOTICE".to_vec();
                        wire_arg(&mut o, &s.nick);
                        o.extend_from_slice(format!(" :\u{1}{k} ").as_bytes());
                        o.extend_from_slice(body);
                        o.push(1);
                        alike.push(o);
                        c.ev("ctcp_replies");
                    }
                }
                want.extend(alike);
            } else if ask.is_some() {
                c.ev("ctcp_nobody");
            }
        } else if ask.is_some() {
            c.ev("ctcp_elsewhere");
        }
        w.feed(vnow(), &line);
    }
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    for _ in 0..npong {
        let _ = cl.add((), AutoPong);
    }
    for (v, s) in &texts {
        let version = Line::try_from(v.clone()).unwrap();
        let source = Line::try_from(s.clone()).unwrap();
        let _ = cl.add((), CtcpVersion { version, source });
    }
    ck!(c, cl.queue().is_empty(), "eager", "adding the handlers queued something");
    if npong + nctcp > 0 {
        let o = drv.run(&mut cl, &w);
        ck!(c, matches!(&o, Outcome::Err(std::io::ErrorKind::UnexpectedEof, _)), "outcome", "{o:?}");
        ck!(c, cl.needs_run(), "gave-up", "an automatic reply handler finished");
        let mut got = outs(&w);
        // Two CTCP handlers may answer one request in either order.
        if nctcp > 1 {
            got.sort();
            want.sort();
        }
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i));
        if let Some(i) = i {
            let (a, b) = (got.get(i).map(|l| show(l)), want.get(i).map(|l| show(l)));
            c.fail("replies", format!("reply {i}: sent {a:?}, expected {b:?}"));
        }
        c.seen(&got);
        c.sample(|| format!("{:?}", got.iter().map(|l| show(l)).collect::<Vec<_>>()));
    }
    vclock_stop();
}

/// Two clients whose messages reach each other: no request may go round in circles.
fn no_loop(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(false);
    let mk = |c: &mut Case, name: &str| {
        let w = World::new(Rng::new(c.rng.next()));
        let (conn, w) = Conn::new(w);
        let mut cl = Client::new(conn, SyncChannels);
        cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
        let _ = cl.add((), AutoPong);
        // Texts that themselves look like requests.
        let version = Line::try_from(c.rng.pick(&["v1", "\u{1}VERSION\u{1}", "VERSION", "\u{1}SOURCE"]).to_string()).unwrap();
        let source = Line::try_from(c.rng.pick(&["src", "\u{1}SOURCE\u{1}", "\u{1}VERSION"]).to_string()).unwrap();
        let _ = cl.add((), CtcpVersion { version, source });
        (cl, w, name.to_string())
    };
    let mut peers = [mk(c, "alice"), mk(c, "bob")];
    let (t, a) = ctcp_text(&mut c.rng);
    let mut first = b":bob!b@h PRIVMSG alice :".to_vec();
    first.extend_from_slice(&t);
    first.extend_from_slice(b"\r\n");
    if ServerMsg::parse(first[..first.len() - 2].to_vec()).is_err() {
        vclock_stop();
        return;
    }
    peers[0].1.lock().unwrap().feed(vnow(), &first);
    let mut hops = 0;
    for round in 0..12 {
        let i = round % 2;
        {
            let (cl, w, _) = &mut peers[i];
            w.lock().unwrap().blocked = false;
            let _ = drv.run(cl, w);
        }
        let name = peers[i].2.clone();
        for l in outs(&peers[i].1) {
            hops += 1;
            let mut m = format!(":{name}!u@h ").into_bytes();
            m.extend_from_slice(&l);
            m.extend_from_slice(b"\r\n");
            peers[1 - i].1.lock().unwrap().feed(vnow(), &m);
        }
    }
    ck!(c, hops == a.is_some() as i32, "loop", "{hops} replies to one message {}", show(&t));
    c.ev("conversations");
    c.seen(&(t, c.idx));
    vclock_stop();
}

/// Latency measurements.
fn latency(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(c.rng.coin());
    let w = World::new(Rng::new(c.rng.next()));
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let (_, all) = cl.add((), YieldAll).unwrap();
    struct P {
        id: usize,
        start: i64,
        rx: Option<vinezombie::client::channel::oneshot::Receiver<(Option<vinezombie::ircmsg::Source<'static>>, Duration)>>,
        token: Vec<u8>,
        done: bool,
    }
    let mut pings: Vec<P> = vec![];
    let mut reports = 0;
    for _ in 0..c.rng.range(3, 15) {
        if c.rng.chance(1, 3) || pings.is_empty() {
            let start = vnow();
            let h = if c.rng.coin() { Ping::default() } else { Ping(Instant::now()) };
            if c.rng.coin() {
                vadvance(c.rng.below(5) as i64 * SEC);
            }
            let (id, (rx, _)) = cl.add((), h).unwrap();
            let _ = drv.flush(&mut cl);
            let o = outs(&w);
            ck!(c, o.len() == 1 && o[0].starts_with(b"PING "), "ping-sent", "{:?}", o.iter().map(|l| show(l)).collect::<Vec<_>>());
            let token = o.first().map(|l| l[5.min(l.len())..].to_vec()).unwrap_or_default();
            ck!(c, !token.is_empty() && gen::is_arg(&token), "ping-token", "{}", show(&token));
            pings.push(P { id, start, rx: Some(rx), token, done: false });
            vadvance(1 + c.rng.below(3) as i64 * SEC);
            continue;
        }
        let i = c.rng.below(pings.len());
        let right = pings[i].token.clone();
        let mut tok = right.clone();
        let mut kind = "PONG";
        let mut exact = true;
        match c.rng.below(10) {
            0 => {
                tok = format!("{:o}", c.rng.next() as u32).into_bytes();
                exact = tok == right;
            }
            1 => {
                tok.pop();
                exact = false;
            }
            2 => {
                tok.push(b'0');
                exact = false;
            }
            3 => {
                let j = c.rng.below(tok.len());
                tok[j] = if tok[j] == b'7' { b'6' } else { tok[j] + 1 };
                exact = false;
            }
            4 => {
                let j = c.rng.below(tok.len() + 1);
                tok.insert(j, c.rng.pickv(&[b'8', b'9', b'x', b'-', b'+', b'/', b':', 0xb3]));
                exact = false;
            }
            5 => kind = c.rng.pick(&["PING", "NOTICE", "pong", "PRIVMSG"]),
            _ => (),
        }
        let src = c.rng.pickv(&[None, Some("irc.example"), Some("n!u@h")]);
        let mut line = src.map(|s| format!(":{s} ")).unwrap_or_default().into_bytes();
        line.extend_from_slice(kind.as_bytes());
        if c.rng.coin() {
            line.extend_from_slice(b" irc.example");
        }
        line.extend_from_slice(b" :");
        line.extend_from_slice(&tok);
        line.extend_from_slice(b"\r\n");
        w.lock().unwrap().feed(vnow(), &line);
        let hit: Vec<usize> = if kind.eq_ignore_ascii_case("PONG") && exact { (0..pings.len()).filter(|j| pings[*j].token == tok && !pings[*j].done).collect() } else { vec![] };
        let o = drv.run(&mut cl, &w);
        let fin: Vec<usize> = match &o {
            Outcome::Ran(_, f) => {
                let mut f = f.clone();
                f.sort();
                f
            }
            o => {
                c.fail("outcome", format!("{o:?}"));
                break;
            }
        };
        let mut exp: Vec<usize> = hit.iter().map(|j| pings[*j].id).collect();
        exp.sort();
        ckeq!(c, fin, exp, "report", "after {} with token {} pending", show(&line), show(&right));
        for j in hit {
            let p = &mut pings[j];
            p.done = true;
            match p.rx.take().and_then(|r| r.recv_now()) {
                Some((s, d)) => {
                    ckeq!(c, d.as_nanos() as i64, vnow() - p.start, "latency", "");
                    ckeq!(c, s.map(|s| s.to_string()), src.map(|s| s.to_string()), "latency-source", "");
                    reports += 1;
                }
                None => c.fail("latency-lost", "no value on the matching PONG"),
            }
        }
        if exp.is_empty() {
            c.ev("pong_mismatch");
        }
        ck!(c, outs(&w).is_empty(), "chatter", "a latency measurement sent more");
        vadvance(c.rng.below(4) as i64 * 700 * MS);
    }
    drop(all);
    c.evn("latency_reports", reports);
    c.seen(&(pings.iter().map(|p| p.token.clone()).collect::<Vec<_>>(), reports));
    vclock_stop();
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("replies", 6000, 60_000, replies);
    ctx.run("no-loop", 1500, 15_000, no_loop);
    ctx.run("latency", 2000, 20_000, latency);
    for (k, n) in [("pongs", 1000), ("ctcp_replies", 500), ("ctcp_nobody", 100), ("ctcp_elsewhere", 100), ("conversations", 200), ("latency_reports", 200), ("pong_mismatch", 200)] {
        ctx.require(k, n);
    }
}
