//! Input generators shared by the checks.
#![allow(dead_code)]
use crate::infra::Rng;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

pub const MULTI: &[&str] = &["é", "ß", "€", "漢", "😀", "\u{10FFFF}", "\u{80}", "\u{7FF}", "\u{800}", "\u{FFFD}", "\u{85}", "\u{A0}"];
const BROKEN: &[&[u8]] = &[
    b"\x80", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xbf\xbf", b"\xfe",
    b"\xe2\x82\xe2", b"\xf0\x9f", b"\xc3\xc3", b"\xef\xbf",
];
pub const SPECIAL: &[u8] = b" :;=\\,@!%~+#/*\t\x0b\x0c\x01srn[]{}|^-_\"'<?>";

/// Any bytes, biased to protocol-relevant ones.
pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = len(r, max);
    let mode = r.below(6);
    let mut v = Vec::new();
    while v.len() < n {
        piece(r, &mut v, mode);
    }
    v.truncate(n);
    v
}
/// Lengths far beyond the ordinary now and then (see `heavy_tail`).
static TAIL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From here on, one string in some thousands is hundreds of bytes long, and a few are longer
/// than 64 KiB. Not under the interpreters, which would take minutes for each.
pub fn heavy_tail() {
    TAIL.store(!cfg!(miri), std::sync::atomic::Ordering::Relaxed);
}
pub fn len(r: &mut Rng, max: usize) -> usize {
    if max >= 8 && TAIL.load(std::sync::atomic::Ordering::Relaxed) && r.chance(1, 3000) {
        return match r.below(24) {
            0 => r.range(60_000, 70_000),
            1..=3 => r.range(1000, 9000),
            _ => r.range(120, 1100),
        };
    }
    match r.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => r.below(max.min(8) + 1),
        7 | 8 => r.below(max.min(24) + 1),
        _ => r.below(max + 1),
    }
}
/// A count that is usually small, now and then large, rarely as large as `max`.
pub fn tail(r: &mut Rng, max: usize) -> usize {
    match r.below(100) {
        0 => r.below(max + 1),
        1..=5 => r.below(max / 8 + 2),
        6..=20 => r.below(max.min(100) + 1),
        _ => r.below(max.min(20) + 1),
    }
}
fn piece(r: &mut Rng, v: &mut Vec<u8>, mode: usize) {
    match mode {
        0 => v.push(b"abcXYZ019"[r.below(9)]),
        1 => v.push(SPECIAL[r.below(SPECIAL.len())]),
        2 => v.push(r.byte()),
        3 => v.extend_from_slice(MULTI[r.below(MULTI.len())].as_bytes()),
        4 => v.extend_from_slice(BROKEN[r.below(BROKEN.len())]),
        _ => match r.below(12) {
            0..=2 => v.push(b'a' + r.below(26) as u8),
            3 => v.push(b'A' + r.below(26) as u8),
            4 | 5 => v.push(SPECIAL[r.below(SPECIAL.len())]),
            6 => v.push(r.byte()),
            7 | 8 => v.extend_from_slice(MULTI[r.below(MULTI.len())].as_bytes()),
            9 => v.extend_from_slice(BROKEN[r.below(BROKEN.len())]),
            10 => v.push(b"\r\n\0 \t"[r.below(5)]),
            _ => v.push(b'0' + r.below(10) as u8),
        },
    }
}
/// Valid UTF-8 text.
pub fn text(r: &mut Rng, max: usize) -> String {
    let n = len(r, max);
    let mut s = String::new();
    while s.len() < n {
        match r.below(6) {
            0 | 1 => s.push((b'a' + r.below(26) as u8) as char),
            2 => s.push((b'A' + r.below(26) as u8) as char),
            3 => s.push(SPECIAL[r.below(SPECIAL.len())] as char),
            4 => s.push_str(MULTI[r.below(MULTI.len())]),
            _ => s.push((b'0' + r.below(10) as u8) as char),
        }
    }
    s
}
pub fn filtered(r: &mut Rng, max: usize, bad: impl Fn(u8) -> bool) -> Vec<u8> {
    let mut v = bytes(r, max);
    v.retain(|b| !bad(*b));
    v
}
pub fn ok_nonul(b: u8) -> bool {
    b != 0
}
pub fn ok_line(b: u8) -> bool {
    !matches!(b, 0 | b'\r' | b'\n')
}
pub fn ok_word(b: u8) -> bool {
    ok_line(b) && b != b' '
}
pub fn line(r: &mut Rng, max: usize) -> Vec<u8> {
    filtered(r, max, |b| !ok_line(b))
}
fn nonempty_nocolon(mut v: Vec<u8>, r: &mut Rng) -> Vec<u8> {
    while v.first() == Some(&b':') {
        v.remove(0);
    }
    if v.is_empty() {
        v.push(b"azQ7\xe9\t\x01+@"[r.below(5)]);
    }
    v
}
pub fn word(r: &mut Rng, max: usize) -> Vec<u8> {
    filtered(r, max, |b| !ok_word(b))
}
pub fn arg(r: &mut Rng, max: usize) -> Vec<u8> {
    let v = word(r, max);
    nonempty_nocolon(v, r)
}
pub fn key(r: &mut Rng, max: usize) -> Vec<u8> {
    let v = filtered(r, max, |b| !ok_word(b) || matches!(b, b'=' | b';'));
    nonempty_nocolon(v, r)
}
pub fn nick(r: &mut Rng, max: usize) -> Vec<u8> {
    let v = filtered(r, max, |b| !ok_word(b) || matches!(b, b'!' | b'@' | b','));
    nonempty_nocolon(v, r)
}
pub fn user(r: &mut Rng, max: usize) -> Vec<u8> {
    let v = filtered(r, max, |b| !ok_word(b) || matches!(b, b'@' | b'%'));
    nonempty_nocolon(v, r)
}
pub fn cmd(r: &mut Rng) -> Vec<u8> {
    if r.coin() {
        r.pick(&["PRIVMSG", "NOTICE", "PING", "CAP", "X", "TAGMSG", "A", "Z", "AUTHENTICATE", "ZZZ"]).as_bytes().to_vec()
    } else {
        (0..r.range(1, 12)).map(|_| b'A' + r.below(26) as u8).collect()
    }
}
/// Makes the string by a randomly chosen provenance: borrowed, owned, from text, slice of a larger buffer.
pub fn mk_bytes<'a>(r: &mut Rng, v: &'a [u8]) -> Bytes<'a> {
    match r.below(5) {
        0 => Bytes::from_bytes(v),
        1 => Bytes::from(v.to_vec()),
        2 => match std::str::from_utf8(v) {
            Ok(s) => Bytes::from_str(s),
            Err(_) => Bytes::from_bytes(v),
        },
        3 => {
            // A piece of a larger shared buffer.
            let mut big = vec![0xE2u8];
            big.extend_from_slice(v);
            big.extend_from_slice(b"\x82zz");
            let b = Bytes::from(big);
            let mut s = Splitter::new(b);
            s.next_byte();
            s.until_count(v.len());
            s.rest_or_default::<Bytes>()
        }
        _ => match String::from_utf8(v.to_vec()) {
            Ok(s) => Bytes::from(s),
            Err(e) => Bytes::from(e.into_bytes()),
        },
    }
}
/// A source as plain parts.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RSource {
    pub nick: Vec<u8>,
    pub user: Option<Vec<u8>>,
    pub host: Option<Vec<u8>>,
}
/// A message as plain parts.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RMsg {
    pub tags: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
    pub source: Option<RSource>,
    pub kind: Vec<u8>,
    pub args: Vec<Vec<u8>>,
}
pub fn source(r: &mut Rng) -> RSource {
    let n = nick(r, 12);
    match r.below(4) {
        0 => RSource { nick: n, user: None, host: None },
        1 => {
            let mut h = word(r, 12);
            if h.is_empty() {
                h.push(b'h');
            }
            RSource { nick: n, user: None, host: Some(h) }
        }
        _ => {
            let mut h = word(r, 12);
            if h.is_empty() {
                h.push(b':');
            }
            RSource { nick: n, user: Some(user(r, 12)), host: Some(h) }
        }
    }
}
pub fn tags(r: &mut Rng, maxn: usize) -> std::collections::BTreeMap<Vec<u8>, Vec<u8>> {
    let n = if r.coin() { 0 } else { r.below(maxn + 1) };
    (0..n)
        .map(|_| {
            let k = if r.coin() {
                r.pick(&["a", "b", "aa", "ab", "time", "+x", "draft/y", "account"]).as_bytes().to_vec()
            } else {
                key(r, 8)
            };
            (k, filtered(r, 14, |b| !ok_nonul(b)))
        })
        .collect()
}
/// Argument list; only the last one may be anything a line can hold.
pub fn args(r: &mut Rng, maxn: usize) -> Vec<Vec<u8>> {
    let n = r.below(maxn + 1);
    let mut v: Vec<Vec<u8>> = (0..n).map(|_| arg(r, 10)).collect();
    if r.coin() {
        let m = r.pickv(&[10usize, 30, 60]);
        let mut l = line(r, m);
        match r.below(6) {
            0 => l.insert(0, b':'),
            1 => l.insert(0, b' '),
            2 => l.push(b' '),
            3 => l.insert(0, b'\t'),
            _ => (),
        }
        v.push(l);
    }
    v
}
pub fn msg(r: &mut Rng, server: bool) -> RMsg {
    let kind = if server && r.coin() { format!("{:03}", r.below(1000)).into_bytes() } else { cmd(r) };
    let source = if server && r.chance(2, 3) { Some(source(r)) } else { None };
    let nt = r.pickv(&[1, 3, 8]);
    let na = r.pickv(&[2, 4, 17]);
    RMsg { tags: tags(r, nt), source, kind, args: args(r, na) }
}
pub fn is_arg(v: &[u8]) -> bool {
    !v.is_empty() && v[0] != b':' && v.iter().all(|b| ok_word(*b))
}
/// The one wire form the library is expected to write (tags in key order).
pub fn wire(m: &RMsg) -> Vec<u8> {
    let mut o = Vec::new();
    let mut first = true;
    for (k, v) in &m.tags {
        o.push(if first { b'@' } else { b';' });
        first = false;
        o.extend_from_slice(k);
        if !v.is_empty() {
            o.push(b'=');
            o.extend_from_slice(&escape(v));
        }
    }
    if !first {
        o.push(b' ');
    }
    if let Some(s) = &m.source {
        o.push(b':');
        o.extend_from_slice(&wire_source(s));
        o.push(b' ');
    }
    o.extend_from_slice(&m.kind);
    for (i, a) in m.args.iter().enumerate() {
        o.push(b' ');
        if i + 1 == m.args.len() && !is_arg(a) {
            o.push(b':');
        }
        o.extend_from_slice(a);
    }
    o
}
pub fn wire_source(s: &RSource) -> Vec<u8> {
    let mut o = s.nick.clone();
    if let Some(u) = &s.user {
        o.push(b'!');
        o.extend_from_slice(u);
    }
    if let Some(h) = &s.host {
        o.push(b'@');
        o.extend_from_slice(h);
    }
    o
}
pub fn escape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for b in v {
        match b {
            b';' => o.extend_from_slice(b"\\:"),
            b' ' => o.extend_from_slice(b"\\s"),
            b'\r' => o.extend_from_slice(b"\\r"),
            b'\n' => o.extend_from_slice(b"\\n"),
            b'\\' => o.extend_from_slice(b"\\\\"),
            b => o.push(*b),
        }
    }
    o
}
pub fn lib_source<'a>(r: &mut Rng, s: &'a RSource) -> Source<'a> {
    let nick = Nick::from_bytes(mk_bytes(r, &s.nick)).unwrap();
    let user = s.user.as_ref().map(|u| User::from_bytes(mk_bytes(r, u)).unwrap());
    let userhost = s.host.as_ref().map(|h| UserHost { user, host: Word::from_bytes(mk_bytes(r, h)).unwrap() });
    Source { nick, userhost }
}
pub fn lib_tags<'a>(r: &mut Rng, t: &'a std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> Tags<'a> {
    let mut pairs: Vec<_> = t.iter().collect();
    r.shuffle(&mut pairs);
    let mut tags = Tags::new();
    if r.coin() {
        let mut e = tags.edit();
        for (k, v) in pairs {
            let k = Key::from_bytes(mk_bytes(r, k)).unwrap();
            if v.is_empty() && r.coin() {
                e.insert_key(k);
            } else {
                e.insert_pair(k, NoNul::from_bytes(mk_bytes(r, v)).unwrap());
            }
        }
    } else {
        for (k, v) in pairs {
            let k = Key::from_bytes(mk_bytes(r, k)).unwrap();
            tags.edit().insert_pair(k, NoNul::from_bytes(mk_bytes(r, v)).unwrap());
        }
    }
    tags
}
pub fn lib_args<'a>(r: &mut Rng, a: &'a [Vec<u8>]) -> Args<'a> {
    let Some((last, rest)) = a.split_last() else { return Args::empty() };
    match r.below(3) {
        0 => {
            let mut args = Args::empty();
            let mut e = args.edit();
            for w in rest {
                e.add_word(Arg::from_bytes(mk_bytes(r, w)).unwrap());
            }
            e.add(Line::from_bytes(mk_bytes(r, last)).unwrap());
            args
        }
        1 => {
            let w: Vec<Arg> = rest.iter().map(|w| Arg::from_bytes(mk_bytes(r, w)).unwrap()).collect();
            Args::new(w, Some(Line::from_bytes(mk_bytes(r, last)).unwrap()))
        }
        _ => {
            let mut args = Args::empty();
            let w: Vec<Arg> = rest.iter().map(|w| Arg::from_bytes(mk_bytes(r, w)).unwrap()).collect();
            args.set(w, Some(Line::from_bytes(mk_bytes(r, last)).unwrap()));
            args
        }
    }
}
pub fn lib_server<'a>(r: &mut Rng, m: &'a RMsg) -> ServerMsg<'a> {
    let kind: ServerMsgKindRaw = match Numeric::from_bytes(&m.kind) {
        Some(n) => n.into(),
        None => Cmd::from_bytes(mk_bytes(r, &m.kind)).unwrap().into(),
    };
    let mut s = ServerMsg::new_cmd(Cmd::from_str("X"));
    s.kind = kind;
    s.tags = lib_tags(r, &m.tags);
    s.source = m.source.as_ref().map(|s| SharedSource::new(lib_source(r, s)));
    s.args = lib_args(r, &m.args);
    s
}
pub fn lib_client<'a>(r: &mut Rng, m: &'a RMsg) -> ClientMsg<'a> {
    let mut s = ClientMsg::new_cmd(Cmd::from_bytes(mk_bytes(r, &m.kind)).unwrap());
    s.tags = lib_tags(r, &m.tags);
    s.args = lib_args(r, &m.args);
    s
}
pub fn of_source(s: &Source) -> RSource {
    RSource {
        nick: s.nick.as_bytes().to_vec(),
        user: s.user().map(|u| u.as_bytes().to_vec()),
        host: s.host().map(|h| h.as_bytes().to_vec()),
    }
}
/// Reads all tags out of a tag list through its public face: the written form gives the keys (in
/// written order), lookups give the values. Disagreement between the two is returned as an error.
pub fn tags_vec(t: &Tags) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let mut w = Vec::new();
    t.write_to(&mut w).unwrap();
    let mut out = Vec::new();
    if w.is_empty() {
        return if t.is_empty() && t.len() == 0 { Ok(out) } else { Err(format!("nothing written, len {}", t.len())) };
    }
    if w[0] != b'@' {
        return Err(format!("no leading @: {}", crate::infra::show(&w)));
    }
    for item in w[1..].split(|b| *b == b';') {
        let (k, v) = match item.iter().position(|b| *b == b'=') {
            Some(i) => (&item[..i], &item[i + 1..]),
            None => (item, &b""[..]),
        };
        let v = crate::refm::unescape(v);
        let key = Key::from_bytes(k.to_vec()).map_err(|e| format!("bad key written {}: {e}", crate::infra::show(k)))?;
        match t.get(key) {
            Some(g) if g.as_bytes() == v.as_slice() => out.push((k.to_vec(), v)),
            Some(g) => return Err(format!("key {} written as {} but looked up as {}", crate::infra::show(k), crate::infra::show(&v), crate::infra::show(g))),
            None => return Err(format!("key {} written but not found", crate::infra::show(k))),
        }
    }
    if out.len() != t.len() || t.is_empty() {
        return Err(format!("{} tags written, len {}", out.len(), t.len()));
    }
    Ok(out)
}
pub fn of_tags(t: &Tags) -> std::collections::BTreeMap<Vec<u8>, Vec<u8>> {
    match tags_vec(t) {
        Ok(v) => {
            let n = v.len();
            let m: std::collections::BTreeMap<_, _> = v.into_iter().collect();
            assert_eq!(m.len(), n, "duplicate tag key written");
            m
        }
        Err(e) => panic!("inconsistent tag list: {e}"),
    }
}
pub fn of_args(a: &Args) -> Vec<Vec<u8>> {
    let (w, l) = a.split_last();
    w.iter().map(|w| w.as_bytes().to_vec()).chain(l.map(|l| l.as_bytes().to_vec())).collect()
}
pub fn of_server(m: &ServerMsg) -> RMsg {
    RMsg {
        tags: of_tags(&m.tags),
        source: m.source.as_deref().map(of_source),
        kind: m.kind.as_str().as_bytes().to_vec(),
        args: of_args(&m.args),
    }
}
pub fn of_client(m: &ClientMsg) -> RMsg {
    RMsg { tags: of_tags(&m.tags), source: None, kind: m.cmd.as_bytes().to_vec(), args: of_args(&m.args) }
}
