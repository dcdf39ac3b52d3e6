//! Parsing follows the IRCv3 message grammar: online comparison with an independent parser.
use crate::gen::*;
use crate::infra::*;
use crate::refm::{self, Verdict};
use vinezombie::ircmsg::*;
use vinezombie::string::tf;
use vinezombie::string::*;

fn compare(c: &mut Case, l: &[u8]) {
    c.desc = format!("line {}", show(l));
    // Server-sent line.
    match refm::line(l, true) {
        Verdict::Open => c.ev("open"),
        Verdict::Ok(m) => {
            let owned = c.rng.coin();
            let p = if owned { ServerMsg::parse(l.to_vec()) } else { ServerMsg::parse(l) };
            match p {
                Ok(p) => {
                    ckeq!(c, of_server(&p), m, "server-parse-differs", "server line");
                    let numeric = m.kind[0].is_ascii_digit();
                    ck!(c, matches!(p.kind, ServerMsgKindRaw::Numeric(_)) == numeric, "kind-class", "{:?}", p.kind);
                    ck!(c, p.source.is_some() == m.source.is_some(), "source-presence", "{:?}", p.source);
                    ck!(c, p.args.is_last_long() == m.args.last().is_some_and(|l| !is_arg(l)), "last-long", "{:?}", p.args);
                    for (k, v) in &m.tags {
                        let k2 = Key::from_bytes(k.clone()).unwrap();
                        let got = p.tags.get(k2).map(|v| v.as_bytes().to_vec());
                        ckeq!(c, got.as_ref(), Some(v), "tag-lookup", "tag {}", show(k));
                    }
                }
                Err(e) => c.fail("server-rejected", format!("valid line rejected: {e}")),
            }
            c.ev("server-ok");
            if !m.tags.is_empty() {
                c.ev("has-tags");
            }
        }
        Verdict::Err(why) => {
            if let Ok(p) = ServerMsg::parse(l) {
                c.fail("server-accepted-bad", format!("bad {why} accepted as {:?}", of_server(&p)));
            }
            c.ev(&format!("server-bad-{why}"));
        }
    }
    match refm::line(l, false) {
        Verdict::Open => (),
        Verdict::Ok(m) => {
            match ClientMsg::parse(l) {
                Ok(p) => ckeq!(c, of_client(&p), m, "client-parse-differs", "client line"),
                Err(e) => c.fail("client-rejected", format!("valid line rejected: {e}")),
            }
            c.ev("client-ok");
        }
        Verdict::Err(why) => {
            if let Ok(p) = ClientMsg::parse(l) {
                c.fail("client-accepted-bad", format!("bad {why} accepted as {:?}", of_client(&p)));
            }
            c.ev("client-bad");
        }
    }
    c.seen(l);
}

/// A line built from the grammar, with the freedom the grammar gives.
fn grammar_line(r: &mut Rng) -> Vec<u8> {
    let mut o = Vec::new();
    let sp = |r: &mut Rng, o: &mut Vec<u8>| {
        for _ in 0..r.pickv(&[1usize, 1, 1, 2, 5]) {
            o.push(b' ');
        }
    };
    if r.chance(1, 12) {
        sp(r, &mut o);
    }
    if r.coin() {
        o.push(b'@');
        let n = r.below(6);
        for i in 0..n {
            if i > 0 {
                o.push(b';');
            }
            if r.chance(1, 12) {
                continue; // empty tag
            }
            if r.chance(1, 10) {
                o.extend_from_slice(r.pick(&[&b":k"[..], b"=v", b":", b"=", b":a=b", b"=a=b"]));
                continue;
            }
            if r.coin() {
                o.extend_from_slice(r.pick(&[&b"a"[..], b"b", b"c", b"aa", b"+a", b"a/b"]));
            } else {
                o.extend_from_slice(&key(r, 5));
            }
            if r.chance(3, 4) {
                o.push(b'=');
                for _ in 0..r.below(7) {
                    match r.below(4) {
                        0 => o.extend_from_slice(r.pick(&[&b"\\:"[..], b"\\s", b"\\\\", b"\\r", b"\\n", b"\\", b"\\b", b"\\S", b"="])),
                        1 => o.extend_from_slice(&filtered(r, 3, |b| !ok_word(b) || b == b';')),
                        _ => o.push(b"snr:\\abc="[r.below(9)]),
                    }
                }
            }
        }
        sp(r, &mut o);
    }
    if r.chance(2, 3) {
        o.push(b':');
        let s = source(r);
        o.extend_from_slice(&wire_source(&s));
        if r.chance(1, 10) {
            o.extend_from_slice(r.pick(&[&b"!"[..], b"@", b"!u", b"!@h", b",x", b"%", b"@@", b"!u@"]));
        }
        sp(r, &mut o);
    }
    match r.below(8) {
        0..=2 => o.extend_from_slice(&cmd(r)),
        3 => o.extend_from_slice(&cmd(r).to_ascii_lowercase()),
        4 | 5 => o.extend_from_slice(format!("{:03}", r.below(1000)).as_bytes()),
        6 => {
            let mut k = cmd(r);
            for b in &mut k {
                if r.coin() {
                    *b = b.to_ascii_lowercase();
                }
            }
            o.extend_from_slice(&k)
        }
        _ => o.extend_from_slice(r.pick(&[
            &b"1"[..], b"12", b"1234", b"A1", b"0x1", b"", b"PRIV MSG", b"PRIV-MSG", b"@x", b":x", b"\xe9", b"CMD:", b"+12", b"00A", b"\xff01",
        ])),
    }
    let n = r.pickv(&[0usize, 1, 2, 3, 16]);
    for _ in 0..n {
        sp(r, &mut o);
        o.extend_from_slice(&arg(r, 6));
    }
    if r.coin() {
        sp(r, &mut o);
        o.push(b':');
        o.extend_from_slice(&line(r, 16));
    } else if r.chance(1, 4) {
        sp(r, &mut o);
    }
    o
}

pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run("grammar", 80_000, 4_000_000, |c| {
        let l = grammar_line(&mut c.rng);
        compare(c, &l);
        c.sample(|| show(&l));
    });
    ctx.run("hostile", 40_000, 2_000_000, |c| {
        let l = super::c02::hostile(&mut c.rng, 60);
        compare(c, &l);
    });
    const AL: &[u8] = b"@: ;=\\Xs1!a";
    let max = if ctx.thorough() { 7 } else { 5 };
    let total: u64 = (0..=max).map(|k| (AL.len() as u64).pow(k)).sum();
    ctx.run_all("exhaustive-short", total, |c| {
        let mut i = c.idx;
        let mut n = 0u32;
        while i >= (AL.len() as u64).pow(n) {
            i -= (AL.len() as u64).pow(n);
            n += 1;
        }
        let v: Vec<u8> = (0..n)
            .map(|_| {
                let b = AL[(i % AL.len() as u64) as usize];
                i /= AL.len() as u64;
                b
            })
            .collect();
        compare(c, &v);
    });
    ctx.run("parts", 40_000, 1_500_000, |c| {
        // The parts on their own.
        let w = match c.rng.below(3) {
            0 => {
                let mut w = Vec::new();
                for _ in 0..c.rng.below(10) {
                    w.extend_from_slice(c.rng.pick(&[&b";"[..], b"=", b"a", b"b", b"\\", b":", b"s", b"a=1", b"\\:", b"\\\\"]));
                }
                w
            }
            1 => {
                let s = source(&mut c.rng);
                wire_source(&s)
            }
            _ => word(&mut c.rng, 20),
        };
        c.desc = show(&w);
        ckeq!(c, of_tags(&Tags::parse(Word::from_bytes(w.clone()).unwrap())), refm::tags(&w), "tags-differ", "tag list");
        match (Source::parse(Word::from_bytes(w.clone()).unwrap()), refm::source(&w)) {
            (Ok(s), Ok(m)) => {
                ckeq!(c, of_source(&s), m, "source-differs", "source");
                ckeq!(c, s.len(), w.len(), "source-len", "length of its text");
                let mut o = Vec::new();
                s.write_to(&mut o).unwrap();
                ck!(c, o == w, "source-text", "{} written back as {}", show(&w), show(&o));
                ckeq!(c, of_source(&s.clone().owning_merged()), m, "source-merged", "merged copy");
                ckeq!(c, of_source(&s.owning()), m, "source-owning", "owned copy");
                c.ev("source-ok");
            }
            (Err(_), Err(_)) => c.ev("source-bad"),
            (a, b) => c.fail("source-verdict", format!("library {a:?}, reference {b:?}")),
        }
        // user@host on its own.
        {
            let want = match w.iter().position(|b| *b == b'@') {
                Some(i) => {
                    let (u, h) = (&w[..i], &w[i + 1..]);
                    if u.is_empty() || u[0] == b':' || u.contains(&b'%') || h.is_empty() { None } else { Some((u.to_vec(), h.to_vec())) }
                }
                None => None,
            };
            let got = UserHost::parse(Word::from_bytes(w.clone()).unwrap()).ok();
            let got2 = got.as_ref().map(|g| (g.user.as_ref().map(|u| u.to_vec()).unwrap_or_default(), g.host.to_vec()));
            ckeq!(c, got2, want, "userhost-differs", "user@host");
            if let Some(g) = got {
                let mut o = Vec::new();
                g.write_to(&mut o).unwrap();
                ck!(c, o == w && g.len() == w.len(), "userhost-text", "{} written back as {}", show(&w), show(&o));
                ckeq!(c, g.has_ident(), w[0] != b'~', "userhost-ident", "ident");
            }
        }
        let l = line(&mut c.rng, 24);
        if !l.iter().any(|b| matches!(b, b'\t' | 0x0c)) || c.rng.coin() {
            ckeq!(c, of_args(&Args::parse(Line::from_bytes(l.clone()).unwrap())), refm::args(&l), "args-differ", "argument list {}", show(&l));
        }
        // Escapes.
        let v = filtered(&mut c.rng, 16, |b| b == 0);
        let e = tf::escape(NoNul::from_bytes(v.clone()).unwrap());
        ckeq!(c, e.as_bytes(), escape(&v).as_slice(), "escape-differs", "escape of {}", show(&v));
        let u = tf::unescape(e.clone());
        ckeq!(c, u.as_bytes(), v.as_slice(), "unescape-inverse", "unescape of {}", show(&e));
        let u = tf::unescape(NoNul::from_bytes(v.clone()).unwrap());
        ckeq!(c, u.as_bytes(), refm::unescape(&v).as_slice(), "unescape-differs", "unescape of {}", show(&v));
        c.seen(&w);
        c.seen(&v);
    });
    ctx.run("ctcp", 30_000, 1_000_000, |c| {
        let mut v = match c.rng.below(5) {
            0 => line(&mut c.rng, 20),
            _ => {
                let mut v = vec![1u8];
                match c.rng.below(5) {
                    0 => (),
                    1 => v.push(b' '),
                    2 => v.extend_from_slice(c.rng.pick(&[&b"action"[..], b"VERSION", b"pInG"])),
                    _ => v.extend_from_slice(&word(&mut c.rng, 6)),
                }
                if c.rng.chance(2, 3) {
                    v.push(b' ');
                    v.extend_from_slice(&line(&mut c.rng, 14));
                }
                v.retain(|b| *b != 1);
                v.insert(0, 1);
                if c.rng.coin() {
                    v.push(1);
                }
                v
            }
        };
        // What follows the closing delimiter is left open by the library.
        if v.first() == Some(&1) {
            if let Some(i) = v[1..].iter().position(|b| *b == 1) {
                v.truncate(i + 2);
            }
        }
        c.desc = show(&v);
        let (cmd, body) = refm::ctcp(&v);
        let m = MaybeCtcp::parse(Line::from_bytes(v.clone()).unwrap());
        ckeq!(c, m.cmd.as_bytes(), cmd.as_slice(), "ctcp-cmd", "CTCP command");
        ckeq!(c, m.body.as_bytes(), body.as_slice(), "ctcp-body", "CTCP body");
        ckeq!(c, m.is_ctcp(), !cmd.is_empty(), "ctcp-flag", "CTCP flag");
        // Changing the body keeps the command.
        let n = c.rng.below(4);
        let a = m.clone().map(|b| b.as_bytes().to_vec());
        ck!(c, a.cmd == m.cmd && a.body == body, "ctcp-map", "{:?} {}", a.cmd, show(&a.body));
        let a = m.clone().map_result(|b| if n == 0 { Err(7) } else { Ok((b, n)) });
        ck!(c, match &a {
            Err(e) => n == 0 && *e == 7,
            Ok(a) => n != 0 && a.cmd == m.cmd && a.body == (m.body.clone(), n),
        }, "ctcp-map", "{:?}", a.is_ok());
        let a: Vec<_> = m.clone().map_iter(|_| 0..n).collect();
        ck!(c, a.len() == n && a.iter().enumerate().all(|(i, a)| a.cmd == m.cmd && a.body == i), "ctcp-map", "{n}: {:?}", a.len());
        let back = m.clone().into_line();
        ckeq!(c, back.len(), m.len(), "ctcp-len", "length");
        if m.is_ctcp() {
            c.ev("ctcp");
            let again = MaybeCtcp::parse(back.clone());
            ck!(c, again == m, "ctcp-roundtrip", "{:?} vs {:?}", again, m);
        } else {
            c.ev("not-ctcp");
            ckeq!(c, back.as_bytes(), v.as_slice(), "ctcp-plain", "plain text must stay as it is");
        }
        // The same through a whole message.
        let mut l = b":n!u@h PRIVMSG #c :".to_vec();
        l.extend_from_slice(&v);
        let sm = ServerMsg::parse(l).unwrap();
        let t = sm.parse_as(vinezombie::names::cmd::PRIVMSG).unwrap();
        ckeq!(c, t.value.as_bytes(), v.as_slice(), "targeted-value", "PRIVMSG text");
        ckeq!(c, t.target.as_bytes(), b"#c".as_slice(), "targeted-target", "PRIVMSG target");
        c.seen(&v);
    });
    ctx.run("targeted", 10_000, 300_000, |c| {
        let m = msg(&mut c.rng, true);
        let w = wire(&m);
        c.desc = show(&w);
        let sm = ServerMsg::parse(w.clone()).unwrap();
        use vinezombie::names::cmd::*;
        macro_rules! two {
            ($($k:ident)*) => {$(
                let want = if m.args.len() == 2 { Some((m.args[0].clone(), m.args[1].clone())) } else { None };
                let got = sm.parse_as($k).ok();
                if let Some(t) = &got {
                    ckeq!(c, t.source.as_deref().map(of_source), m.source, "targeted-source", stringify!($k));
                    ckeq!(c, of_tags(&t.tags), m.tags, "targeted-tags", stringify!($k));
                }
                let got = got.map(|t| (t.target.to_vec(), t.value.to_vec()));
                ckeq!(c, got, want, "targeted-two", stringify!($k));
            )*};
        }
        two!(PRIVMSG NOTICE TOPIC PART);
        macro_rules! one {
            ($($k:ident)*) => {$(
                let want = if m.args.len() == 1 { Some(m.args[0].clone()) } else { None };
                let got = sm.parse_as($k).ok().map(|t| t.value.to_vec());
                ckeq!(c, got, want, "targeted-one", stringify!($k));
            )*};
        }
        one!(QUIT WALLOPS);
        let want = if m.args.len() == 1 && is_arg(&m.args[0]) { Some(m.args[0].clone()) } else { None };
        let got = sm.parse_as(JOIN).ok().map(|t| t.target.to_vec());
        ckeq!(c, got, want, "targeted-join", "JOIN");
        c.seen(&w);
    });
    for k in ["server-ok", "client-ok", "has-tags", "server-bad-command", "server-bad-nick", "server-bad-no command", "ctcp", "not-ctcp", "source-ok", "source-bad"] {
        ctx.require(k, 100);
    }
}
