//! Messages survive a write/parse round trip; all writers agree.
use crate::gen::*;
use crate::infra::*;
use vinezombie::ircmsg::*;

/// A writer that accepts arbitrary amounts per call and injects interruptions.
struct ShortWriter<'a> {
    out: Vec<u8>,
    rng: &'a mut Rng,
}
impl std::io::Write for ShortWriter<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 6) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = 1 + self.rng.below(b.len().max(1));
        let n = n.min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

macro_rules! all_writers {
    ($c:expr, $m:expr, $codec:ident, $parse:expr, $expect:expr) => {{
        let m = &$m;
        let expect: &[u8] = $expect;
        let mut w = Vec::new();
        $codec::write_to(m, &mut w).unwrap();
        ck!($c, w.iter().all(|b| ok_line(*b)), "not-one-line", "written form {}", show(&w));
        ck!($c, w == expect, "wire-form", "wrote {} expected {}", show(&w), show(expect));
        // Buffered writer, with earlier buffer contents and short writes.
        let pre = if $c.rng.chance(1, 4) { b"junk".to_vec() } else { vec![] };
        let mut buf = pre.clone();
        let mut rng = $c.rng.clone();
        let mut sw = ShortWriter { out: vec![], rng: &mut rng };
        $codec::send_to(m, &mut sw, &mut buf).unwrap();
        let mut full = pre.clone();
        full.extend_from_slice(&w);
        full.extend_from_slice(b"\r\n");
        ck!($c, sw.out == full, "send_to-bytes", "sent {} expected {}", show(&sw.out), show(&full));
        ck!($c, buf.is_empty(), "send_to-buffer", "buffer not cleared: {}", show(&buf));
        $c.ev("writer:sync");
        #[cfg(feature = "full")]
        {
            let mut buf = pre.clone();
            let mut dst: Vec<u8> = Vec::new();
            if $c.rng.coin() {
                futs::block_on($codec::send_to_tokio(m, &mut dst, &mut buf)).unwrap();
            } else {
                #[allow(deprecated)]
                futs::block_on(m.send_to_tokio(&mut dst, &mut buf)).unwrap();
            }
            ck!($c, dst == full, "send_to_tokio-bytes", "sent {} expected {}", show(&dst), show(&full));
            ck!($c, buf.is_empty(), "send_to_tokio-buffer", "buffer not cleared: {}", show(&buf));
            use tokio_util::codec::Encoder;
            let mut dst = tokio_util::bytes::BytesMut::from(&pre[..]);
            $codec.encode(m.clone(), &mut dst).unwrap();
            ck!($c, dst.as_ref() == full, "encoder-bytes", "encoded {} expected {}", show(&dst), show(&full));
            $c.ev("writer:async+framed");
        }
        // Text formatting agrees whenever every part is text.
        if let Ok(s) = std::str::from_utf8(&w) {
            let d = m.to_string();
            // Every component must itself be text for the formatted form to be comparable.
            if $parse {
                ck!($c, d == s, "display-differs", "formatted {:?} written {:?}", d, s);
                $c.ev("display-compared");
            }
        }
        // Owned copies write the same.
        let mut w2 = Vec::new();
        $codec::write_to(&m.clone().owning(), &mut w2).unwrap();
        ck!($c, w2 == w, "owning-writes-differently", "{} vs {}", show(&w2), show(&w));
        w
    }};
}
#[cfg(feature = "full")]
use crate::props::futs;

fn all_text(m: &RMsg) -> bool {
    let t = |v: &Vec<u8>| std::str::from_utf8(v).is_ok();
    m.tags.iter().all(|(k, v)| t(k) && t(v))
        && m.args.iter().all(t)
        && m.source.as_ref().map_or(true, |s| t(&s.nick) && s.user.as_ref().map_or(true, t) && s.host.as_ref().map_or(true, t))
}

pub fn check_server(c: &mut Case, rm: &RMsg) {
    let m = {
        let mut r = c.rng.clone();
        lib_server(&mut r, rm)
    };
    c.desc = format!("server message {}", show(&wire(rm)));
    ckeq!(c, of_server(&m), *rm, "built-differs", "message as built");
    let own = m.clone().owning();
    let w = all_writers!(c, m, ServerCodec, all_text(rm), &wire(rm));
    // Parse from borrowed, owned and text input.
    let lib = match c.rng.below(3) {
        0 => ServerMsg::parse(w.as_slice()).map(|m| m.owning()),
        1 => ServerMsg::parse(w.clone()).map(|m| m.owning()),
        _ => match std::str::from_utf8(&w) {
            Ok(s) => ServerMsg::parse(s).map(|m| m.owning()),
            Err(_) => ServerMsg::parse(w.clone()).map(|m| m.owning()),
        },
    };
    match lib {
        Ok(p) => {
            ckeq!(c, of_server(&p), *rm, "roundtrip-differs", "parsed back from {}", show(&w));
            ck!(c, p == own, "roundtrip-not-equal", "parsed {:?} original {:?}", p, m);
            let o = p.clone();
            ckeq!(c, of_server(&o), *rm, "clone-differs", "clone");
            let mut w3 = Vec::new();
            ServerCodec::write_to(&p, &mut w3).unwrap();
            ck!(c, w3 == w, "rewrite-differs", "second write {} first {}", show(&w3), show(&w));
        }
        Err(e) => c.fail("roundtrip-rejected", format!("own output {} rejected: {e}", show(&w))),
    }
    // Stream read of the sent form.
    let mut line = w.clone();
    line.extend_from_slice(b"\r\n");
    if line.len() <= ServerMsg::MAX_LEN {
        match ClientCodec::read_owning_from(&mut line.as_slice(), &mut Vec::new()) {
            Ok(p) => ck!(c, p == own, "read-differs", "read {:?} original {:?}", p, m),
            Err(e) => c.fail("read-rejected", format!("{} rejected: {e}", show(&w))),
        }
    }
    let kind = if rm.kind[0].is_ascii_digit() { "numeric" } else { "cmd" };
    c.ev(&format!("server:{kind}"));
    if rm.source.is_some() {
        c.ev("with-source");
    }
    if m.args.is_last_long() {
        c.ev("with-long-last");
    }
    c.evn("tags-carried", rm.tags.len() as u64);
    c.evn("args-carried", rm.args.len() as u64);
    c.seen(&w);
    c.sample(|| show(&w));
}
pub fn check_client(c: &mut Case, rm: &RMsg) {
    let m = {
        let mut r = c.rng.clone();
        lib_client(&mut r, rm)
    };
    c.desc = format!("client message {}", show(&wire(rm)));
    ckeq!(c, of_client(&m), *rm, "built-differs", "message as built");
    let own = m.clone().owning();
    let w = all_writers!(c, m, ClientCodec, all_text(rm), &wire(rm));
    let lib = match c.rng.below(3) {
        0 => ClientMsg::parse(w.as_slice()).map(|m| m.owning()),
        1 => ClientMsg::parse(w.clone()).map(|m| m.owning()),
        _ => match std::str::from_utf8(&w) {
            Ok(s) => ClientMsg::parse(s).map(|m| m.owning()),
            Err(_) => ClientMsg::parse(w.clone()).map(|m| m.owning()),
        },
    };
    match lib {
        Ok(p) => {
            ckeq!(c, of_client(&p), *rm, "roundtrip-differs", "parsed back from {}", show(&w));
            ck!(c, p == own, "roundtrip-not-equal", "parsed {:?} original {:?}", p, m);
            let mut w3 = Vec::new();
            ClientCodec::write_to(&p, &mut w3).unwrap();
            ck!(c, w3 == w, "rewrite-differs", "second write {} first {}", show(&w3), show(&w));
        }
        Err(e) => c.fail("roundtrip-rejected", format!("own output {} rejected: {e}", show(&w))),
    }
    let mut line = w.clone();
    line.extend_from_slice(b"\r\n");
    if line.len() <= ClientMsg::MAX_LEN {
        match ServerCodec::read_owning_from(&mut line.as_slice(), &mut Vec::new()) {
            Ok(p) => ck!(c, p == own, "read-differs", "read {:?} original {:?}", p, m),
            Err(e) => c.fail("read-rejected", format!("{} rejected: {e}", show(&w))),
        }
    }
    c.ev("client");
    if m.args.is_last_long() {
        c.ev("with-long-last");
    }
    c.evn("tags-carried", rm.tags.len() as u64);
    c.evn("args-carried", rm.args.len() as u64);
    c.seen(&w);
    c.sample(|| show(&w));
}

pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run("server", 60_000, 3_000_000, |c| {
        let m = msg(&mut c.rng, true);
        check_server(c, &m)
    });
    ctx.run("client", 40_000, 2_000_000, |c| {
        let m = msg(&mut c.rng, false);
        check_client(c, &m)
    });
    // Every byte value in every position kind.
    ctx.run("bytes-in-place", 256 * 12, 256 * 240, |c| {
        let b = (c.idx % 256) as u8;
        let place = (c.idx / 256) % 12;
        let mut m = RMsg { tags: Default::default(), source: None, kind: b"CMD".to_vec(), args: vec![] };
        let pre = if c.rng.coin() { vec![] } else { b"x".to_vec() };
        let post = if c.rng.coin() { vec![] } else { b"y".to_vec() };
        let s: Vec<u8> = pre.iter().copied().chain([b]).chain(post).collect();
        match place {
            0 | 1 => {
                if b == 0 {
                    return;
                }
                m.tags.insert(b"k".to_vec(), s);
            }
            2 => {
                if !is_arg(&s) || matches!(b, b'=' | b';') {
                    return;
                }
                m.tags.insert(s, b"v".to_vec());
            }
            3 => {
                if !is_arg(&s) || matches!(b, b'!' | b'@' | b',') {
                    return;
                }
                m.source = Some(RSource { nick: s, user: None, host: None });
            }
            4 => {
                if !is_arg(&s) || matches!(b, b'@' | b'%') {
                    return;
                }
                m.source = Some(RSource { nick: b"n".to_vec(), user: Some(s), host: Some(b"h".to_vec()) });
            }
            5 => {
                if !s.iter().all(|b| ok_word(*b)) {
                    return;
                }
                m.source = Some(RSource { nick: b"n".to_vec(), user: None, host: Some(s) });
            }
            6 => {
                if !is_arg(&s) {
                    return;
                }
                m.args = vec![s, b"z".to_vec()];
            }
            7 => {
                if !is_arg(&s) {
                    return;
                }
                m.args = vec![b"a".to_vec(), s, b"".to_vec()];
            }
            8 => {
                if !s.iter().all(|b| ok_word(*b)) {
                    return;
                }
                m.source = Some(RSource { nick: b"n".to_vec(), user: Some(b"~u".to_vec()), host: Some(s) });
            }
            _ => {
                if !s.iter().all(|b| ok_line(*b)) {
                    return;
                }
                m.args = if place == 9 { vec![s] } else { vec![b"t".to_vec(), s] };
            }
        }
        c.ev("placed");
        check_server(c, &m);
        if m.source.is_none() {
            check_client(c, &m);
        }
    });
    for k in ["server:numeric", "server:cmd", "client", "with-source", "with-long-last", "display-compared", "placed"] {
        ctx.require(k, 50);
    }
}
