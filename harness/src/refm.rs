//! Reference implementations, written from the IRCv3 documents and not from the library.
#![allow(dead_code)]
use crate::gen::{ok_line, RMsg, RSource};
use std::collections::BTreeMap;

pub fn unescape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\\' {
            i += 1;
            if i < v.len() {
                o.push(match v[i] {
                    b':' => b';',
                    b's' => b' ',
                    b'r' => b'\r',
                    b'n' => b'\n',
                    b => b,
                });
                i += 1;
            }
        } else {
            o.push(v[i]);
            i += 1;
        }
    }
    o
}
pub fn tags(w: &[u8]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = BTreeMap::new();
    for item in w.split(|b| *b == b';') {
        let (k, v) = match item.iter().position(|b| *b == b'=') {
            Some(i) => (&item[..i], unescape(&item[i + 1..])),
            None => (item, vec![]),
        };
        if k.is_empty() || k[0] == b':' {
            continue;
        }
        m.insert(k.to_vec(), v);
    }
    m
}
pub fn source(w: &[u8]) -> Result<RSource, &'static str> {
    let end = w.iter().position(|b| matches!(b, b'!' | b'@')).unwrap_or(w.len());
    let nick = &w[..end];
    if nick.is_empty() || nick[0] == b':' || nick.contains(&b',') {
        return Err("nick");
    }
    let nick = nick.to_vec();
    if end == w.len() {
        return Ok(RSource { nick, user: None, host: None });
    }
    let rest = &w[end + 1..];
    if w[end] == b'@' {
        if rest.is_empty() {
            return Err("host");
        }
        return Ok(RSource { nick, user: None, host: Some(rest.to_vec()) });
    }
    let (user, host) = match rest.iter().position(|b| *b == b'@') {
        Some(i) => (&rest[..i], &rest[i + 1..]),
        None => (rest, &b""[..]),
    };
    if user.is_empty() || user[0] == b':' || user.contains(&b'%') {
        return Err("user");
    }
    if host.is_empty() {
        return Err("host");
    }
    Ok(RSource { nick, user: Some(user.to_vec()), host: Some(host.to_vec()) })
}
pub fn args(mut l: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    loop {
        while l.first() == Some(&b' ') {
            l = &l[1..];
        }
        match l.first() {
            None => return out,
            Some(b':') => {
                out.push(l[1..].to_vec());
                return out;
            }
            _ => {
                let e = l.iter().position(|b| *b == b' ').unwrap_or(l.len());
                out.push(l[..e].to_vec());
                l = &l[e..];
            }
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
pub enum Verdict {
    Ok(RMsg),
    Err(&'static str),
    /// The library's documentation leaves this open (other whitespace in front of a component).
    Open,
}
pub fn line(l: &[u8], server: bool) -> Verdict {
    if !l.iter().all(|b| ok_line(*b)) {
        return Verdict::Err("line");
    }
    let mut i = 0;
    let mut m = RMsg { tags: BTreeMap::new(), source: None, kind: vec![], args: vec![] };
    let (mut want_tags, mut want_src) = (true, true);
    loop {
        while i < l.len() && l[i] == b' ' {
            i += 1;
        }
        if i < l.len() && l[i].is_ascii_whitespace() {
            return Verdict::Open;
        }
        let e = l[i..].iter().position(|b| *b == b' ').map(|x| x + i).unwrap_or(l.len());
        let w = &l[i..e];
        i = e;
        match w.first() {
            None => return Verdict::Err("no command"),
            Some(b'@') if want_tags => {
                want_tags = false;
                m.tags = tags(&w[1..]);
            }
            Some(b':') if want_src => {
                want_tags = false;
                want_src = false;
                if server {
                    match source(&w[1..]) {
                        Ok(s) => m.source = Some(s),
                        Err(e) => return Verdict::Err(e),
                    }
                }
            }
            _ => {
                if server && w.len() == 3 && w.iter().all(|b| b.is_ascii_digit()) {
                    m.kind = w.to_vec();
                } else if w.iter().all(|b| b.is_ascii_alphabetic()) {
                    m.kind = w.to_ascii_uppercase();
                } else {
                    return Verdict::Err("command");
                }
                break;
            }
        }
    }
    m.args = args(&l[i..]);
    Verdict::Ok(m)
}
/// (command, body); an empty command means "not CTCP", and then the body is the whole text.
pub fn ctcp(l: &[u8]) -> (Vec<u8>, Vec<u8>) {
    if l.first() == Some(&1) {
        let inner = &l[1..];
        let inner = &inner[..inner.iter().position(|b| *b == 1).unwrap_or(inner.len())];
        let (c, b) = match inner.iter().position(|b| *b == b' ') {
            Some(i) => (&inner[..i], &inner[i + 1..]),
            None => (inner, &b""[..]),
        };
        if !c.is_empty() {
            return (c.to_ascii_uppercase(), b.to_vec());
        }
    }
    (vec![], l.to_vec())
}
