//! C27: well-known names stand for their official spelling, and the values a server advertises
//! under them are read as the protocol documents define them.
use crate::gen;
use crate::infra::*;
use crate::{ck, ckeq};
use std::borrow::Borrow;
use std::collections::BTreeSet;
use std::error::Error;
use vinezombie::ircmsg::*;
use vinezombie::names::{cap, cmd, isupport, Cap, ClientMsgKind, ISupport, MsgTag, Name, NameMap, NameValued, ServerMsgKind, PLUS, STAR};
use vinezombie::state::{Mode, ModeTypes, StatusModes};
use vinezombie::string::*;

/// A decimal number as the protocol writes it. None: not a number; Some(None): does not fit.
fn decimal(v: &[u8], max: u64) -> Option<Option<u64>> {
    if v.is_empty() || !v.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let mut n = 0u64;
    for b in v {
        n = (n * 10 + (b - b'0') as u64).min(max + 1);
    }
    Some((n >= 1 && n <= max).then_some(n))
}
fn value(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = match r.below(10) {
        0 => vec![],
        1 | 2 => r.below(70_000).to_string().into_bytes(),
        3 => r.pick(&["0", "1", "9", "65534", "65535", "65536", "99999", "4294967295", "4294967296", "18446744073709551616", "00", "007", "0000000000000065535", "1e3", "0x10", "-1", "+1", "1.", "1,", "1_0", "１", "²"]).as_bytes().to_vec(),
        4 => (r.next() >> r.below(64)).to_string().into_bytes(),
        5 => vec![r.byte()],
        6 => vec![b"beBIgGqQ"[r.below(8)]],
        7 => {
            let mut v = r.below(100_000).to_string().into_bytes();
            let at = r.below(v.len() + 1);
            v.insert(at, r.byte());
            v
        }
        8 if r.coin() => {
            let n = r.below(6);
            let (mut m, mut p): (Vec<u8>, Vec<u8>) = (b"qaohvYyB".to_vec(), b"~&@%+!*.".to_vec());
            r.shuffle(&mut m);
            r.shuffle(&mut p);
            [b"(", &m[..n], b")", &p[..n]].concat()
        }
        8 => (0..r.below(12)).map(|_| b"bkl,imnpst(ov)@+%~"[r.below(18)]).collect(),
        _ => gen::bytes(r, 20),
    };
    v.retain(|b| gen::ok_word(*b));
    v
}
fn word(v: &[u8]) -> Word<'static> {
    Word::from_bytes(v.to_vec()).unwrap()
}
/// The value read through every route, which must all agree.
fn read<T: NameValued<ISupport>>(c: &mut Case, n: T, v: &[u8], map: &NameMap<ISupport, u32>) -> Result<T::Value<'static>, String>
where
    T::Value<'static>: PartialEq + std::fmt::Debug,
{
    let direct = T::from_union(&(n.as_raw().clone(), word(v))).map_err(|e| e.to_string());
    let mapped = map.get_parsed(n).unwrap().map_err(|e| e.to_string());
    ck!(c, direct == mapped, "isupport-map", "{n}={}: {direct:?} directly, {mapped:?} from a map", show(v));
    let (both, extra) = map.get_both(n).unwrap();
    ck!(c, both.map_err(|e| e.to_string()) == direct, "isupport-map", "{n}={}", show(v));
    ckeq!(c, *extra, 7u32, "isupport-extra", "{n}");
    ck!(c, map.get_union(n).is_some_and(|(k, w)| k == n.as_raw() && w.as_bytes() == v), "isupport-union", "{n}={}", show(v));
    direct
}
fn token(c: &mut Case) {
    let v = value(&mut c.rng);
    c.desc = show(&v);
    let mut map: NameMap<ISupport, u32> = NameMap::new();
    let noise = c.rng.below(6);
    {
        let mut e = map.edit();
        for _ in 0..noise {
            let k = r_key(&mut c.rng);
            e.insert((k, word(b"1")), 3);
        }
        macro_rules! put { ($($n:ident)*) => {{
            let mut all = vec![$(isupport::$n::NAME),*];
            c.rng.shuffle(&mut all);
            for k in all { e.insert((k, word(&v)), 7); }
        }};}
        put!(ETRACE KNOCK SAFELIST UTF8ONLY WHOX AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN MONITOR SILENCE BOT CALLERID EXCEPTS INVEX NETWORK CHANMODES PREFIX USERMODES);
    }
    macro_rules! unit { ($($n:ident)*) => {$( ck!(c, read(c, isupport::$n, &v, &map).is_ok(), "isupport-flag", "{}={}", stringify!($n), show(&v)); )*};}
    unit!(ETRACE KNOCK SAFELIST UTF8ONLY WHOX);
    let plus = v.first() == Some(&b'+');
    macro_rules! num { ($($n:ident)*) => {$(
        let got = read(c, isupport::$n, &v, &map).ok().map(|n| n.get() as u64);
        if !plus { ckeq!(c, got, decimal(&v, 65535).flatten(), "isupport-number", "{}={}", stringify!($n), show(&v)); }
    )*};}
    num!(AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN);
    macro_rules! opt { ($($n:ident)*) => {$(
        let got = read(c, isupport::$n, &v, &map).ok().map(|n| n.map(|n| n.get() as u64));
        let want = if v.is_empty() { Some(None) } else { decimal(&v, u32::MAX as u64).flatten().map(Some) };
        if !plus { ckeq!(c, got, want, "isupport-optional", "{}={}", stringify!($n), show(&v)); }
    )*};}
    opt!(MONITOR SILENCE);
    macro_rules! mode { ($($n:ident $d:expr),*) => {$(
        let got = read(c, isupport::$n, &v, &map).ok().map(u8::from);
        let want: Option<u8> = match v.first() { None => $d, Some(b) => b.is_ascii_alphabetic().then_some(*b) };
        // More than one letter is not a mode; rejecting it would be as good as taking the first.
        ck!(c, got == want || (v.len() > 1 && got.is_none()), "isupport-mode", "{}={}: {got:?}, expected {want:?}", stringify!($n), show(&v));
    )*};}
    mode!(BOT None, CALLERID Some(b'g'), EXCEPTS Some(b'e'), INVEX Some(b'I'));
    let net = read(c, isupport::NETWORK, &v, &map).ok().map(|w| w.as_bytes().to_vec());
    ckeq!(c, net, Some(v.clone()), "isupport-network", "NETWORK");
    let types = ModeTypes::parse(&v).0;
    ckeq!(c, read(c, isupport::CHANMODES, &v, &map).ok(), Some(types.clone()), "isupport-chanmodes", "{}", show(&v));
    ckeq!(c, read(c, isupport::USERMODES, &v, &map).ok(), Some(types), "isupport-usermodes", "{}", show(&v));
    // StatusModes has no equality: compare by its queries.
    let a = map.get_parsed(isupport::PREFIX).unwrap();
    let b = StatusModes::parse(&v);
    ckeq!(c, a.is_ok(), b.is_ok(), "isupport-prefix", "{}", show(&v));
    if let (Ok(a), Ok(b)) = (a, b) {
        for l in (b'a'..=b'z').chain(b'A'..=b'Z') {
            let m = Mode::new(l).unwrap();
            ck!(c, a.contains(m) == b.contains(m) && a.get_prefix(m) == b.get_prefix(m), "isupport-prefix", "{} at {}", show(&v), l as char);
        }
        c.ev("prefix");
    }
    match decimal(&v, 65535) {
        Some(Some(_)) => c.ev("numbers"),
        Some(None) => c.ev("out-of-range"),
        None if v.is_empty() => c.ev("empty"),
        None => c.ev("not-a-number"),
    }
    // Numbers that do not parse say why, with a cause.
    if let Err(e) = map.get_parsed(isupport::NICKLEN).unwrap() {
        let _ = (e.to_string(), e.source().map(|s| s.to_string()));
    }
    c.seen(&v);
}
fn r_key(r: &mut Rng) -> Key<'static> {
    loop {
        let mut v = gen::bytes(r, 8);
        v.retain(|b| b.is_ascii_lowercase());
        if let Ok(k) = Key::from_bytes(v) {
            return k;
        }
    }
}
fn sasl(c: &mut Case) {
    let mut v = match c.rng.below(3) {
        0 => gen::bytes(&mut c.rng, 40),
        _ => {
            let mut v = vec![];
            for _ in 0..c.rng.below(7) {
                let s = c.rng.pick(&["PLAIN", "plain", "EXTERNAL", "Scram-Sha-256", "ECDSA-NIST256P-CHALLENGE", "", "é", "x", "ß", "+"]);
                v.extend_from_slice(s.as_bytes());
                for _ in 0..(if c.rng.chance(1, 4) { c.rng.below(3) } else { 1 }) {
                    v.push(b',');
                }
            }
            if c.rng.coin() {
                v.pop();
            }
            v
        }
    };
    v.retain(|b| gen::ok_word(*b));
    c.desc = show(&v);
    let want: BTreeSet<Vec<u8>> = v.split(|b| *b == b',').filter(|s| !s.is_empty()).map(|s| s.to_ascii_uppercase()).collect();
    let owned = word(&v);
    let shared = owned.clone();
    let borrowed = Word::from_bytes(&v[..]).unwrap();
    for (w, what) in [(owned, "owned"), (borrowed, "borrowed"), (shared, "shared")] {
        let got: BTreeSet<Vec<u8>> = <cap::SASL as NameValued<Cap>>::from_union(&(cap::SASL::NAME, w.clone())).unwrap().into_iter().map(|w| w.to_vec()).collect();
        ckeq!(c, got, want, "sasl-mechanisms", "{what}");
        ckeq!(c, w.as_bytes(), v.as_slice(), "sasl-input-changed", "{what}");
    }
    let mut map: NameMap<Cap, bool> = NameMap::new();
    map.edit().insert((cap::SASL::NAME, word(&v)), true);
    let got: BTreeSet<Vec<u8>> = map.get_parsed(cap::SASL).unwrap().unwrap().into_iter().map(|w| w.to_vec()).collect();
    ckeq!(c, got, want, "sasl-mechanisms", "from a map");
    c.ev(if want.len() > 1 { "sasl-several" } else { "sasl-few" });
    c.seen(&v);
}
/// Every name, its official spelling and its agreement with the strings it stands for.
fn names(c: &mut Case) {
    let mut spelled: Vec<(&'static str, &'static str)> = vec![];
    macro_rules! keys { ($class:ident $cl:ty: $($n:ident $s:literal)*) => {$({
        let n = $class::$n;
        ckeq!(c, $class::$n::NAME.as_bytes(), $s.as_bytes(), "name-spelling", stringify!($n));
        ckeq!(c, n.as_key().as_bytes(), $s.as_bytes(), "name-spelling", stringify!($n));
        ckeq!(c, Name::<$cl>::as_raw(&n).as_bytes(), $s.as_bytes(), "name-spelling", stringify!($n));
        let k: Key<'_> = n.into();
        ckeq!(c, k.as_bytes(), $s.as_bytes(), "name-spelling", stringify!($n));
        let b: &Key<'_> = n.borrow();
        ckeq!(c, b.as_bytes(), $s.as_bytes(), "name-spelling", stringify!($n));
        ckeq!(c, h64(&n), h64(b), "name-hash", stringify!($n));
        for other in c.rng.clone().pick_keys($s) {
            let o = Key::from_bytes(other.clone()).unwrap();
            ck!(c, (n == o) == (other == $s.as_bytes()) && (o == n) == (other == $s.as_bytes()), "name-equality", "{} {}", $s, show(&other));
        }
        let mut map: NameMap<$cl, u8> = NameMap::new();
        map.edit().insert((k, word(b"v")), 1);
        ck!(c, map.get_union(n).is_some() && map.get_extra(n) == Some(&1), "name-lookup", "{}", $s);
        spelled.push((stringify!($class), $s));
    })*};}
    keys!(cap Cap: ACCOUNT_NOTIFY "account-notify" ACCOUNT_TAG "account-tag" BATCH "batch" CHGHOST "chghost" ECHO_MESSAGE "echo-message" EXTENDED_JOIN "extended-join" EXTENDED_MONITOR "extended-monitor"
        INVITE_NOTIFY "invite-notify" LABELED_RESPONSE "labeled-response" MESSAGE_TAGS "message-tags" MSGID "msgid" MULTI_PREFIX "multi-prefix" SASL "sasl" SERVER_TIME "server-time" SETNAME "setname"
        STANDARD_REPLIES "standard-replies" STS "sts" USERHOST_IN_NAMES "userhost-in-names");
    keys!(isupport ISupport: ETRACE "ETRACE" KNOCK "KNOCK" SAFELIST "SAFELIST" UTF8ONLY "UTF8ONLY" WHOX "WHOX" AWAYLEN "AWAYLEN" CHANNELLEN "CHANNELLEN" HOSTLEN "HOSTLEN" KICKLEN "KICKLEN" MODES "MODES"
        NICKLEN "NICKLEN" TOPICLEN "TOPICLEN" USERLEN "USERLEN" MONITOR "MONITOR" SILENCE "SILENCE" BOT "BOT" CALLERID "CALLERID" EXCEPTS "EXCEPTS" INVEX "INVEX" NETWORK "NETWORK" CHANMODES "CHANMODES"
        PREFIX "PREFIX" USERMODES "USERMODES");
    macro_rules! cmds { ($($n:ident)*) => {$({
        let n = cmd::$n;
        let s = stringify!($n);
        ckeq!(c, cmd::$n::CMD.as_bytes(), s.as_bytes(), "name-spelling", "{s}");
        ckeq!(c, n.as_cmd().as_bytes(), s.as_bytes(), "name-spelling", "{s}");
        ckeq!(c, n.to_string(), s, "name-display", "{s}");
        let k: Cmd<'_> = n.into();
        ckeq!(c, k.as_bytes(), s.as_bytes(), "name-spelling", "{s}");
        let b: &Cmd<'_> = n.borrow();
        ckeq!(c, h64(&n), h64(b), "name-hash", "{s}");
        for other in ["PRIVMSG", "NICK", "X", s, "JOIN"] {
            let o = Cmd::from_bytes(other.as_bytes().to_vec()).unwrap();
            ck!(c, (n == o) == (other == s) && (o == n) == (other == s), "name-equality", "{s} {other}");
        }
        spelled.push(("cmd", s));
    })*};}
    macro_rules! client { ($($n:ident)*) => {$({
        cmds!($n);
        let s = stringify!($n);
        ckeq!(c, Name::<ClientMsgKind>::as_raw(&cmd::$n).as_bytes(), s.as_bytes(), "name-spelling", "{s}");
        let m = ClientMsg::new(cmd::$n);
        ckeq!(c, m.to_string(), s, "name-message", "{s}");
        let low = ClientMsg::parse(s.to_ascii_lowercase()).unwrap();
        ck!(c, cmd::$n == low.cmd, "name-parsed", "{s}");
    })*};}
    macro_rules! server { ($($n:ident)*) => {$({
        let s = stringify!($n);
        let n = cmd::$n;
        ckeq!(c, Name::<ServerMsgKind>::as_raw(&n).as_str(), s, "name-spelling", "{s}");
        ckeq!(c, n.as_kind().as_str(), s, "name-spelling", "{s}");
        let b: &ServerMsgKindRaw<'_> = n.borrow();
        ckeq!(c, h64(&n), h64(b), "name-hash", "{s}");
        let low = ServerMsg::parse(s.to_ascii_lowercase()).unwrap();
        ck!(c, n == low.kind && low.kind == n && ServerMsgKindRaw::from(n) == low.kind, "name-parsed", "{s}");
        let num = ServerMsgKindRaw::Numeric(Numeric::from_int(1).unwrap());
        ck!(c, n != num && num != n, "name-equality", "{s} 001");
        ckeq!(c, n.as_kind().is_error(), Some(s == "FAIL" || s == "ERROR"), "name-error", "{s}");
    })*};}
    client!(ACCEPT ADMIN CHALLENGE CHATHISTORY HELP INFO KILL KNOCK LINKS LIST LUSERS MONITOR MAP MOTD NAMES OPER PASS STATS TIME USER USERHOST VERSION WEBIRC WHO WHOIS WHOWAS);
    cmds!(ACCOUNT CHGHOST ERROR FAIL NOTE WARN);
    server!(ACCOUNT CHGHOST ERROR FAIL NOTE WARN);
    client!(AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS);
    server!(AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS);
    ck!(c, STAR.as_bytes() == b"*" && PLUS.as_bytes() == b"+", "name-spelling", "* or +");
    c.evn("names", spelled.len() as u64);
    for s in spelled {
        c.seen(&s);
    }
}
trait PickKeys {
    fn pick_keys(self, s: &str) -> Vec<Vec<u8>>;
}
impl PickKeys for Rng {
    fn pick_keys(self, s: &str) -> Vec<Vec<u8>> {
        let b = s.as_bytes();
        vec![b.to_vec(), b.to_ascii_lowercase(), b.to_ascii_uppercase(), [b, b"x"].concat(), b[..b.len() - 1].to_vec(), b"PREFIX".to_vec(), b"sasl".to_vec()]
    }
}
fn numerics(c: &mut Case) {
    let i = c.idx as u16;
    let n = Numeric::from_int(i);
    ckeq!(c, n.is_some(), i < 1000, "numeric-range", "{i}");
    ckeq!(c, Numeric::try_from(i).ok(), n, "numeric-range", "{i}");
    if let Some(n) = n {
        let s = format!("{i:03}");
        ck!(c, n.as_str() == s && n.as_bytes()[..] == *s.as_bytes() && n.to_string() == s && n.into_int() == i && u16::from(n) == i, "numeric-value", "{i}: {n:?}");
        ckeq!(c, Numeric::from_bytes(s.as_bytes()), Some(n), "numeric-text", "{i}");
        let mut w = vec![];
        n.write_to(&mut w).unwrap();
        ckeq!(c, w, s.as_bytes(), "numeric-written", "{i}");
        ckeq!(c, h64(&n), h64(s.as_bytes()), "numeric-hash", "{i}");
        let err = match i {
            0..=399 => Some(false),
            400..=568 => Some(true),
            691 | 696 | 723 | 902 | 904 | 905 | 906 | 907 => Some(true),
            670 | 671 | 704..=706 | 740 | 741 | 900 | 901 | 903 | 908 => Some(false),
            // The others may become known.
            _ => n.is_error(),
        };
        ckeq!(c, n.is_error(), err, "numeric-error", "{i}");
        let k = ServerMsgKindRaw::from(n);
        ck!(c, k.as_str() == s && k.len() == 3 && k == n && k == s.as_str() && k.is_error() == n.is_error(), "numeric-kind", "{i}");
        ck!(c, k == *s.as_str() && k == *s.as_bytes() && k == s.as_bytes() && k == ServerMsgKindRaw::from(n) && k != Cmd::from_str("PING"), "kind-equality", "{i}");
        ck!(c, std::borrow::Borrow::<[u8]>::borrow(&k) == s.as_bytes() && h64(&k) == h64(s.as_bytes()) && k.as_arg() == s.as_str() && k.clone().owning() == k, "kind-text", "{i}");
        let t = format!("{:03}", (i + 1) % 1000);
        ck!(c, !(k == *t.as_str() || k == *t.as_bytes() || k == t.as_str() || k == t.as_bytes() || k == Numeric::from_int((i + 1) % 1000).unwrap()), "kind-equality", "{i} {t}");
        for j in [0, 1, i.wrapping_sub(1), i + 1, 999] {
            if let Some(m) = Numeric::from_int(j) {
                ck!(c, n.cmp(&m) == i.cmp(&j) && (n == m) == (i == j), "numeric-order", "{i} {j}");
            }
        }
    }
    c.ev("numerics");
    c.seen(&i);
}
fn numeric_text(c: &mut Case) {
    let mut v: Vec<u8> = format!("{:03}", c.rng.below(1000)).into_bytes();
    for _ in 0..c.rng.below(3) {
        match c.rng.below(3) {
            0 => {
                let at = c.rng.below(v.len() + 1);
                let b = if c.rng.coin() { b'0' + c.rng.below(10) as u8 } else { c.rng.byte() };
                v.insert(at, b);
            }
            1 if !v.is_empty() => {
                let at = c.rng.below(v.len());
                v.remove(at);
            }
            _ if !v.is_empty() => {
                let at = c.rng.below(v.len());
                v[at] = c.rng.byte();
            }
            _ => {}
        }
    }
    let want = v.len() == 3 && v.iter().all(u8::is_ascii_digit);
    let got = Numeric::from_bytes(&v);
    ckeq!(c, got.map(|n| n.as_bytes().to_vec()), want.then(|| v.clone()), "numeric-bytes", "{}", show(&v));
    c.ev(if want { "numeric-ok" } else { "numeric-bad" });
    c.seen(&v);
}
/// Typed views of client messages, and what the mapping helpers keep.
fn typed(c: &mut Case) {
    let mut m = ClientMsg::new(cmd::PRIVMSG);
    let n = c.rng.below(4);
    let mut args: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let mut v = gen::bytes(&mut c.rng, 10);
        v.retain(|b| gen::ok_word(*b));
        if i + 1 == n && c.rng.coin() {
            let mut v = gen::bytes(&mut c.rng, 20);
            v.retain(|b| !b"\r\n\0".contains(b));
            m.args.edit().add(Line::from_bytes(v.clone()).unwrap());
            args.push(v);
        } else if let Ok(a) = Arg::from_bytes(v.clone()) {
            m.args.edit().add_word(a);
            args.push(v);
        }
    }
    if c.rng.coin() {
        m.tags.edit().insert_pair(r_key(&mut c.rng), NoNul::from_bytes(b"x".to_vec()).unwrap());
    }
    c.desc = m.to_string();
    macro_rules! two { ($($k:ident)*) => {$(
        let got = m.parse_as(cmd::$k).ok();
        if let Some(t) = &got {
            ck!(c, t.source.is_none() && t.tags == m.tags, "typed-rest", "{t:?}");
        }
        let want = (args.len() == 2).then(|| (args[0].clone(), args[1].clone()));
        ckeq!(c, got.map(|t| (t.target.to_vec(), t.value.to_vec())), want, "typed-two", stringify!($k));
    )*};}
    two!(PRIVMSG NOTICE PART TOPIC);
    macro_rules! one { ($($k:ident)*) => {$(
        let got = m.parse_as(cmd::$k).ok().map(|t| (t.target.to_vec(), t.value.to_vec()));
        let want = (args.len() == 1).then(|| (b"*".to_vec(), args[0].clone()));
        ckeq!(c, got, want, "typed-one", stringify!($k));
    )*};}
    one!(QUIT WALLOPS);
    if let Ok(t) = m.parse_as(cmd::PRIVMSG) {
        let u = t.clone().map(|l| l.len());
        ck!(c, u.tags == t.tags && u.target == t.target && u.value == t.value.len(), "typed-map", "{u:?}");
        let u = t.clone().map_result(|l| if l.is_empty() { Err(()) } else { Ok(l.len()) });
        ck!(c, u.is_err() == t.value.is_empty(), "typed-map", "{u:?}");
        if let Ok(u) = u {
            ck!(c, u.tags == t.tags && u.target == t.target && u.value == t.value.len(), "typed-map", "{u:?}");
        }
        let k = c.rng.below(4);
        let us: Vec<_> = t.clone().map_iter(|_| 0..k).collect();
        ck!(c, us.len() == k && us.iter().enumerate().all(|(i, u)| u.value == i && u.tags == t.tags && u.target == t.target), "typed-map", "{us:?}");
        c.ev("typed");
    }
    c.seen(&m.to_string());
}
/// Tags by name.
fn tag_map(c: &mut Case) {
    let mut map: NameMap<MsgTag> = NameMap::new();
    let k = r_key(&mut c.rng);
    let v = NoNul::from_bytes(b"a b".to_vec()).unwrap();
    map.edit().insert((k.clone(), v.clone()), ());
    ck!(c, map.get_union_raw(&k).is_some_and(|u| u.0 == k && u.1 == v), "tag-map", "{k}");
    let mut other = k.to_vec();
    other.push(b'x');
    ck!(c, map.get_union_raw(&Key::from_bytes(other).unwrap()).is_none(), "tag-map", "{k}");
    c.ev("tag-maps");
    c.seen(&k.to_vec());
}
pub fn run(ctx: &mut Ctx) {
    ctx.run_all("names", 1, names);
    ctx.run_all("numerics", 65536, numerics);
    ctx.run("tokens", 4000, 40_000, token);
    ctx.run("sasl", 4000, 40_000, sasl);
    ctx.run("numeric-text", 8000, 80_000, numeric_text);
    ctx.run("typed", 4000, 40_000, typed);
    ctx.run("tag-map", 500, 5000, tag_map);
    for (k, n) in [("names", 80), ("numerics", 60_000), ("numbers", 300), ("out-of-range", 100), ("empty", 100), ("not-a-number", 500), ("prefix", 20), ("sasl-several", 500), ("numeric-ok", 500), ("numeric-bad", 500), ("typed", 300)] {
        ctx.require(k, n);
    }
}
