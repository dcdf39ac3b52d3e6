//! Registration against simulated servers; a model says what has to be sent, when it has to end
//! and how.
use super::c23::{auth_lines, chunks, mech, payload, Mech, Model, Seen};
use super::c24::{made_of, seq};
use crate::gen;
use crate::infra::*;
use crate::mock::*;
use crate::strm::b64;
use crate::sys::{vclock_start, vclock_stop, vnow};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::auth::{Clear, Sasl, SaslLogic};
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::YieldAll;
use vinezombie::client::nick::{from_iter_or, SuffixType};
use vinezombie::client::register::*;
use vinezombie::client::state::{Account, Caps, ClientSource, ISupport, ServerSource, ServerVersion};
use vinezombie::client::Client;
use vinezombie::string::*;

type V = Vec<u8>;
struct Dyn(Arc<dyn Sasl>);
impl Sasl for Dyn {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        self.0.logic()
    }
}
type Opts = Options<Clear, Dyn>;
struct Custom {
    o: Opts,
    common: bool,
    require: bool,
}
/// What the client may call itself next.
#[derive(Clone, Debug)]
enum Names {
    Exact(VecDeque<V>),
    /// Only as long as nothing that starts with the prefix is invalid.
    Seq(V, VecDeque<V>),
    Rand(V, Vec<SuffixType>, usize),
}
#[derive(Clone, Debug)]
enum Want {
    Line(V),
    /// NICK with this prefix and one of each suffix.
    NickLike(V, Vec<SuffixType>),
    /// Requests for exactly these, in as many lines as necessary.
    Req(BTreeSet<V>),
}
/// What the error tells people, and what it becomes as an I/O error: nothing is lost.
fn told(c: &mut Case, e: HandlerError) -> HandlerError {
    use std::io::ErrorKind as K;
    let text = e.to_string();
    let lossy = |l: &[u8]| String::from_utf8_lossy(l).into_owned();
    let (parts, kind, copy): (Vec<String>, K, Option<HandlerError>) = match &e {
        HandlerError::NoAccess(l) => (vec![lossy(l.as_bytes())], K::ConnectionRefused, Some(HandlerError::NoAccess(l.clone()))),
        HandlerError::NoNicks => (vec![], K::Other, Some(HandlerError::NoNicks)),
        HandlerError::NoLogin => (vec![], K::Other, Some(HandlerError::NoLogin)),
        HandlerError::Redirect(h, p, i) => (vec![lossy(h.as_bytes()), p.to_string(), lossy(i.as_bytes())], K::Other, Some(HandlerError::Redirect(h.clone(), *p, i.clone()))),
        HandlerError::MissingCaps(s) => (s.iter().map(|k| lossy(k.as_bytes())).collect(), K::Other, Some(HandlerError::MissingCaps(s.clone()))),
        HandlerError::ServerError(m) => (m.args.split_last().1.iter().map(|a| lossy(a.as_bytes())).collect(), K::Other, Some(HandlerError::ServerError(m.clone()))),
        HandlerError::Broken(b) => (vec![b.to_string()], K::InvalidData, None),
        _ => (vec![], K::Other, None),
    };
    ck!(c, !text.is_empty(), "error-text", "{e:?} says nothing");
    for p in &parts {
        ck!(c, text.contains(p.as_str()), "error-text", "{e:?} is told as {text:?}, without {p:?}");
    }
    if let Some(copy) = copy {
        let io = std::io::Error::from(copy);
        ckeq!(c, io.kind(), kind, "io-error", "{e:?}");
        ck!(c, io.to_string() == text, "io-error", "{e:?} becomes {:?}", io.to_string());
    }
    c.ev("errors_told");
    e
}
fn line(s: impl AsRef<[u8]>) -> Want {
    Want::Line(s.as_ref().to_vec())
}
#[derive(Clone, Debug, PartialEq)]
enum Fin {
    Ok,
    NoAccess(V),
    NoNicks,
    NoLogin,
    Redirect(V, u16, V),
    ServerError(V),
    Missing(BTreeSet<V>),
    /// Some error that is not a redirection.
    AnyError,
    Other(String),
}
struct Run<'a, 'b> {
    c: &'a mut Case<'b>,
    drv: Driver,
    w: Arc<Mutex<World>>,
    cl: Client<Conn, SyncChannels>,
    id: usize,
    drain: Box<dyn FnMut()>,
    /// Lines queued but not yet seen.
    pending: Vec<Want>,
    trail: Vec<String>,
    fin: Option<Fin>,
    bad: bool,
    // What the client should know.
    nick: V,
    userhost: Option<(V, V)>,
    account: Option<V>,
    names: Vec<Names>,
    source: Option<V>,
    caps: BTreeMap<V, (V, bool)>,
    needs_auth: bool,
    welcomed: bool,
    ends: usize,
    // The server's manners.
    host: V,
    sources: bool,
    rejects: usize,
}
const NOISE: [&str; 9] = [
    "NOTICE * :*** Looking up your hostname...",
    "NOTICE AUTH :*** 001 Welcome",
    "020 * :Please wait while we process your connection.",
    "042 * 7ABAAAB :your unique ID",
    "NOTE * RATELIMIT :be gentle",
    "PRIVMSG me :CAP END",
    "MODE me :+i",
    "WALLOPS :376",
    "PONG irc.example :433",
];
const ALIEN: [&str; 3] = [":bob!b@example.org PRIVMSG me :PING", ":services NOTICE me :903 904 433", ":eve!e@e JOIN #x"];
const CAPS: [&str; 24] = [
    "account-notify",
    "account-tag",
    "away-notify",
    "batch",
    "cap-notify",
    "chghost",
    "draft/multiline",
    "echo-message",
    "example.org/dummy-cap",
    "extended-join",
    "extended-monitor",
    "invite-notify",
    "labeled-response",
    "message-tags",
    "msgid",
    "multi-prefix",
    "server-time",
    "setname",
    "standard-replies",
    "tls",
    "userhost-in-names",
    "znc.in/server-time-iso",
    "inspircd.org/poison",
    "a",
];
impl Run<'_, '_> {
    fn src(&mut self) -> V {
        if self.sources && self.c.rng.chance(4, 5) {
            [b":".as_slice(), &self.host, b" "].concat()
        } else {
            vec![]
        }
    }
    fn over(&self) -> bool {
        self.bad || self.fin.is_some()
    }
    /// The server sends `l` (with its own source if it has none); `want` are the answers.
    fn step(&mut self, l: impl AsRef<[u8]>, want: Vec<Want>) {
        let mut l = l.as_ref().to_vec();
        // Some servers write the subcommand in small letters.
        if l.starts_with(b"CAP ") && self.c.rng.chance(1, 20) {
            if let Some(w) = l.splitn_mut(4, |b| *b == b' ').nth(2) {
                w.make_ascii_lowercase();
            }
        }
        let l = &l[..];
        let full = if l.starts_with(b":") { l.to_vec() } else { [&self.src()[..], l].concat() };
        if self.source.is_none() && full.starts_with(b":") {
            self.source = Some(full[1..].split(|b| *b == b' ').next().unwrap().to_vec());
        }
        let is001 = l.starts_with(b"001 ") && full.starts_with(b":");
        if is001 {
            self.source = Some(full[1..].split(|b| *b == b' ').next().unwrap().to_vec());
        }
        if let Some(Fin::ServerError(v)) = &mut self.fin {
            *v = full.clone();
        }
        self.trail.push(show(&full));
        self.w.lock().unwrap().feed(vnow(), &[&full[..], b"\r\n"].concat());
        let o = self.drv.run(&mut self.cl, &self.w);
        (self.drain)();
        let _ = self.drv.flush(&mut self.cl);
        if !self.sent(want) {
            return;
        }
        let Outcome::Ran(y, f) = o else {
            self.c.fail("outcome", format!("{o:?} dialogue {:?}", self.trail));
            self.bad = true;
            return;
        };
        let done = self.fin.is_some();
        if f.contains(&self.id) != done || y.contains(&self.id) != done {
            self.c.fail("finished", format!("yielded {y:?} finished {f:?}, registration {}; expected {:?}; dialogue {:?}", self.id, self.fin, self.trail));
            self.bad = true;
        }
        self.c.ev("messages");
    }
    /// Compares what was written with what is due.
    fn sent(&mut self, want: Vec<Want>) -> bool {
        let log = self.w.lock().unwrap().log.clone();
        let got: Vec<V> = std::mem::take(&mut *log.lock().unwrap())
            .into_iter()
            .map(|e| match e {
                Io::Line(_, b) => b,
                e => format!("{e:?}").into_bytes(),
            })
            .collect();
        let mut want_all = std::mem::take(&mut self.pending);
        want_all.extend(want);
        if let Err(e) = self.compare(&got, &want_all) {
            self.c.fail(
                "sent",
                format!("{e}; sent {:?}, expected {:?}, dialogue {:?}", got.iter().map(|l| show(l)).collect::<Vec<_>>(), want_all, self.trail),
            );
            self.bad = true;
            return false;
        }
        true
    }
    fn compare(&mut self, got: &[V], want: &[Want]) -> Result<(), String> {
        let mut g = got.iter();
        for w in want {
            match w {
                Want::Line(l) => {
                    let x = g.next().ok_or("a line is missing")?;
                    if x != l {
                        return Err(format!("{} is not {}", show(x), show(l)));
                    }
                    if l == b"CAP END" {
                        self.ends += 1;
                    }
                }
                Want::NickLike(p, s) => {
                    let x = g.next().ok_or("a nick is missing")?;
                    let n = x.strip_prefix(b"NICK ").ok_or_else(|| format!("{} is not a NICK message", show(x)))?;
                    if !n.starts_with(p) || !made_of(&n[p.len()..], s) {
                        return Err(format!("{} is not like {} with {s:?}", show(n), show(p)));
                    }
                    self.nick = n.to_vec();
                }
                Want::Req(set) => {
                    let mut left = set.clone();
                    let mut lines = 0;
                    while !left.is_empty() {
                        let x = g.next().ok_or("a capability request is missing")?;
                        if x.len() + 2 > 512 {
                            return Err(format!("{} bytes long: {}", x.len() + 2, show(x)));
                        }
                        let m = gen::of_server(&vinezombie::ircmsg::ServerMsg::parse(x.clone()).map_err(|e| e.to_string())?);
                        if m.kind != b"CAP" || m.args.len() != 2 || m.args[0] != b"REQ" {
                            return Err(format!("{} is not a request", show(x)));
                        }
                        // The server repeats the list in its answer, which must fit a line too.
                        let src = self.source.as_ref().map_or(0, |s| s.len() + 2);
                        let reply = src + b"CAP  ACK :".len() + self.nick.len() + m.args[1].len() + 2;
                        if reply > 512 && m.args[1].contains(&b' ') {
                            return Err(format!("the answer to {} would be {reply} bytes long", show(x)));
                        }
                        if reply > 450 {
                            self.c.ev("full_requests");
                        }
                        for cap in m.args[1].split(|b| *b == b' ').filter(|c| !c.is_empty()) {
                            if !left.remove(cap) {
                                return Err(format!("{} requested again or for no reason", show(cap)));
                            }
                        }
                        lines += 1;
                    }
                    if lines > 1 {
                        self.c.ev("long_requests");
                    }
                }
            }
        }
        match g.next() {
            Some(x) => Err(format!("unexpected {}", show(x))),
            None => Ok(()),
        }
    }
    /// Capability negotiation is over, as far as the client is concerned.
    fn cap_end(&mut self, mut before: Vec<Want>) -> Vec<Want> {
        if self.needs_auth && self.account.is_none() {
            self.fin = Some(Fin::NoLogin);
        } else {
            before.push(line("CAP END"));
        }
        before
    }
    fn next_nick(&mut self) -> Vec<Want> {
        self.names.retain(|n| match n {
            Names::Exact(v) | Names::Seq(_, v) => !v.is_empty(),
            Names::Rand(_, _, n) => *n > 0,
        });
        match self.names.first_mut() {
            None => {
                self.fin = Some(Fin::NoNicks);
                vec![]
            }
            Some(Names::Exact(v) | Names::Seq(_, v)) => {
                self.nick = v.pop_front().unwrap();
                vec![line([b"NICK ".as_slice(), &self.nick].concat())]
            }
            Some(Names::Rand(p, s, n)) => {
                *n -= 1;
                vec![Want::NickLike(p.clone(), s.clone())]
            }
        }
    }
    /// Things that may happen at any time.
    fn asides(&mut self) {
        while !self.over() && self.c.rng.chance(1, 4) {
            match self.c.rng.below(if self.welcomed { 6 } else { 9 }) {
                0 | 1 => {
                    let n = NOISE[self.c.rng.below(NOISE.len())];
                    self.step(n, vec![]);
                }
                2 => {
                    if self.sources {
                        let n = ALIEN[self.c.rng.below(ALIEN.len())];
                        self.step(n, vec![]);
                    }
                }
                3..=5 => {
                    let t = self.c.rng.pick(&["x", ":irc.example", ":two words", ":", "::odd", "12345"]).as_bytes();
                    let a = t.strip_prefix(b":").unwrap_or(t);
                    let pong = if t.len() != a.len() && (a.is_empty() || a.contains(&b' ') || a.starts_with(b":")) {
                        [b"PONG :".as_slice(), a].concat()
                    } else {
                        [b"PONG ".as_slice(), a].concat()
                    };
                    self.step([b"PING ".as_slice(), t].concat(), vec![line(pong)]);
                    self.c.ev("pings");
                }
                _ => self.reject(),
            }
        }
    }
    fn reject(&mut self) {
        if self.rejects == 0 {
            return;
        }
        if let Some(Names::Rand(_, _, n)) = self.names.first() {
            if *n <= 1 {
                return;
            }
        }
        self.rejects -= 1;
        let nick = self.nick.clone();
        let (num, txt) = self.c.rng.pickv(&[("433", "Nickname is already in use."), ("433", "in use"), ("436", "Nickname collision"), ("432", "Erroneous Nickname")]);
        if num == "432" {
            self.names.retain(|n| match n {
                Names::Exact(_) => true,
                Names::Seq(p, _) | Names::Rand(p, _, _) => !nick.starts_with(p),
            });
        }
        let want = self.next_nick();
        self.step([format!("{num} * ").as_bytes(), &nick, format!(" :{txt}").as_bytes()].concat(), want);
        self.c.ev("rejections");
    }
    /// The server throws us out. Returns false if it did not.
    fn trouble(&mut self) -> bool {
        if !self.c.rng.chance(1, 60) {
            return false;
        }
        let k = self.c.rng.below(if self.welcomed { 4 } else { 10 });
        self.c.ev("trouble");
        match k {
            0 | 1 => {
                self.fin = Some(Fin::ServerError(vec![]));
                let l = self.c.rng.pick(&["ERROR :Closing Link: (Ping timeout)", "FAIL * ACCOUNT_REQUIRED_TO_CONNECT :Log in first", "ERROR x"]).to_string();
                self.step(l, vec![]);
            }
            2 | 3 => {
                self.fin = Some(Fin::ServerError(vec![]));
                let n = self.c.rng.pickv(&[400, 402, 421, 437, 451, 461, 463, 466, 468, 484, 499, 500, 550, 568]);
                self.step(format!("{n} * :Something went wrong"), vec![]);
            }
            4 | 5 => {
                let n = self.c.rng.pickv(&[464, 465]);
                let t = self.c.rng.pick(&["Password incorrect", "banned", "You are banned: spam :x"]);
                self.fin = Some(Fin::NoAccess(t.as_bytes().to_vec()));
                self.step(format!("{n} * :{t}"), vec![]);
            }
            6 => {
                let port = self.c.rng.below(65536) as u16;
                self.fin = Some(Fin::Redirect(b"irc2.example".to_vec(), port, b"Please use this one".to_vec()));
                self.step(format!("010 * irc2.example {port} :Please use this one"), vec![]);
            }
            8 => {
                // Redirected to nowhere.
                let l = self.c.rng.pick(&["010 * irc2.example 65536 :moved", "010 * irc2.example ircs :moved", "010 * irc2.example -1 :moved", "010 * irc2.example 6667x :moved", "010 * 6667 :moved", "010 :moved", "010 * irc2.example 66670000000000000000000 :moved"]).to_string();
                self.fin = Some(Fin::AnyError);
                self.step(l, vec![]);
            }
            9 => {
                let l = self.c.rng.pick(&["005 * :Try another server", "005 * :Try server irc2.example, port 70000", "005 * :Try server irc2.example, port none", "005 * :a,b", "005 * :,"]).to_string();
                self.fin = Some(Fin::AnyError);
                self.step(l, vec![]);
            }
            _ => {
                let port = self.c.rng.below(65536) as u16;
                let t = format!("Try server irc2.example, port {port}");
                self.fin = Some(Fin::Redirect(b"irc2.example".to_vec(), port, t.as_bytes().to_vec()));
                self.step(format!("005 * :{t}"), vec![]);
            }
        }
        true
    }
    fn target(&mut self) -> V {
        if self.c.rng.coin() {
            b"*".to_vec()
        } else {
            self.nick.clone()
        }
    }
    fn cap_line(&mut self, sub: &str, star: bool, list: &[V]) -> V {
        let t = self.target();
        let mut l = [b"CAP ".as_slice(), &t, b" ", sub.as_bytes(), if star { b" * " } else { b" " }].concat();
        if list.len() != 1 || self.c.rng.coin() {
            l.push(b':');
        }
        l.extend_from_slice(&list.join(b" ".as_slice()));
        if list.len() > 1 && self.c.rng.chance(1, 3) {
            l.push(b' ');
        }
        l
    }
    fn logged_in(&mut self) -> V {
        if self.c.rng.chance(1, 8) {
            // The account comes with a name of its own.
            self.nick = simple_nick(&mut self.c.rng);
            self.c.ev("renamed");
        }
        let me = self.nick.clone();
        let (u, h) = (gen::user(&mut self.c.rng, 8), self.c.rng.pick(&["host", "user/acct", "::1", "a.b.example"]).as_bytes().to_vec());
        let u: V = u.into_iter().filter(|b| !matches!(b, b':' | b'!') && *b > b' ').collect();
        let u = if User::from_bytes(u.clone()).is_ok() && gen::is_arg(&u) { u } else { b"user".to_vec() };
        let a = self.c.rng.pick(&["acct", "Account-1", "x"]).as_bytes().to_vec();
        self.account = Some(a.clone());
        if self.c.rng.chance(1, 10) {
            // Some servers do not say who we are.
            self.userhost = None;
            let t = self.target();
            return [b"900 ".as_slice(), &t, b" ", &me, b" ", &a, b" :You are now logged in as ", &a].concat();
        }
        self.userhost = Some((u.clone(), h.clone()));
        let t = self.target();
        [b"900 ".as_slice(), &t, b" ", &me, b"!", &u, b"@", &h, b" ", &a, b" :You are now logged in as ", &a].concat()
    }
}

fn names_of(v: &[V]) -> Vec<Nick<'static>> {
    v.iter().map(|n| Nick::from_bytes(n.clone()).unwrap()).collect()
}
fn key(v: &[u8]) -> Key<'static> {
    Key::from_bytes(v.to_vec()).unwrap()
}
fn simple_nick(r: &mut Rng) -> V {
    if r.coin() {
        return r.pick(&["Foo", "Bar", "Fo", "nick", "Zed"]).as_bytes().to_vec();
    }
    let m = 9 + if r.chance(1, 4) { r.below(60) } else { 0 };
    let mut n = gen::nick(r, m);
    n.retain(|b| *b > b' ' && !matches!(b, b'!' | b'@' | b'*' | b':' | b'+' | b'='));
    if Nick::from_bytes(n.clone()).is_ok() && gen::is_arg(&n) {
        n
    } else {
        b"Alt".to_vec()
    }
}

fn dialogue(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(c.rng.chance(1, 3));
    let mut w = World::new(Rng::new(c.rng.next()));
    w.eof = Some(NEVER);
    w.short_writes = c.rng.chance(1, 4);
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let (_, all) = cl.add((), YieldAll).unwrap();
    // ---- the options
    let r = &mut c.rng;
    let mode = r.below(3);
    let mut o: Opts = Options::new();
    let mut burst: Vec<Want> = vec![];
    if r.chance(1, 3) {
        let p = gen::line(r, 20);
        let p = if p.is_empty() { b"pw".to_vec() } else { p };
        o.set_pass(Line::from_bytes(p.clone()).unwrap()).unwrap();
        let plain = gen::is_arg(&p);
        burst.push(line([b"PASS ".as_slice(), if plain { b"" } else { b":" }, &p].concat()));
    }
    burst.push(line("CAP LS 302"));
    let many = if r.chance(1, 12) { 20 } else { 4 };
    let nicks: Vec<V> = (0..r.below(many)).map(|_| simple_nick(r)).collect();
    o.nicks = names_of(&nicks);
    let mut real: V = r.pick(&["???", "Vinezombie Bot", "???"]).as_bytes().to_vec();
    let mut user: V = [&b"user"[..], b"vnzb_bot", b"cust"][mode].to_vec();
    real = if mode == 1 { b"Vinezombie Bot".to_vec() } else if mode == 0 { b"???".to_vec() } else { real };
    if mode == 2 || r.coin() {
        let l = gen::line(r, 20);
        o.realname = Some(Line::from_bytes(l.clone()).unwrap());
        real = l;
    }
    if mode == 2 || r.coin() {
        let u = gen::user(r, 10);
        let u = if User::from_bytes(u.clone()).is_ok() { u } else { b"us".to_vec() };
        o.username = Some(User::from_bytes(u.clone()).unwrap());
        user = u;
    }
    let long = !gen::is_arg(&real);
    burst.push(line([b"USER ".as_slice(), &user, b" 8 * ", if long { b":" } else { b"" }, &real].concat()));
    let mut want_caps: BTreeSet<V> = (0..r.pickv(&[0, 0, 1, 2, 6]))
        .map(|_| r.pickv(&[CAPS[0], CAPS[7], CAPS[8], CAPS[3], "nonesuch", "sts", CAPS[19], "sasl", CAPS[4], CAPS[5], CAPS[6], CAPS[2], CAPS[1]]).as_bytes().to_vec())
        .collect();
    if r.chance(1, 8) {
        // Enough for several requests.
        for i in 0..r.range(10, 40) {
            want_caps.insert(format!("vendor.example/filler-capability-{i}").into_bytes());
        }
    }
    o.caps = want_caps.iter().map(|v| key(v)).collect();
    let seen = Seen::default();
    let mut mechs: Vec<Mech> = vec![];
    if r.chance(2, 3) {
        for id in 0..r.range(1, 4) {
            let (s, m) = mech(r, id, &seen);
            o.sasl.push(Dyn(Arc::from(s)));
            mechs.extend(m);
        }
    }
    o.allow_sasl_fail = r.coin();
    let needs_auth = !mechs.is_empty() && !o.allow_sasl_fail;
    let (common, require) = match mode {
        0 => (true, false),
        1 => (false, true),
        _ => (r.coin(), r.coin()),
    };
    let s_of = |v: Vec<SuffixType>| v;
    let mut names = match (mode, nicks.first()) {
        (0, Some(f)) => {
            let all: VecDeque<V> = seq(f, &s_of(vec![SuffixType::Char('`'), SuffixType::Base10, SuffixType::Base8])).into();
            vec![Names::Exact(nicks.clone().into()), Names::Seq(f.clone(), all)]
        }
        (0, None) => vec![
            Names::Exact([b"Guest".to_vec()].into()),
            Names::Rand(b"Guest".to_vec(), vec![SuffixType::Base10, SuffixType::Base8, SuffixType::Base10, SuffixType::Base8], 7),
        ],
        (1, _) => {
            let mut s = vec![SuffixType::Base10];
            s.extend(vec![SuffixType::Base16(false); 5]);
            vec![Names::Exact(nicks.clone().into()), Names::Rand(b"VNZB".to_vec(), s, 7)]
        }
        (_, None) => vec![Names::Exact([b"Dflt".to_vec()].into())],
        _ => vec![Names::Exact(nicks.clone().into())],
    };
    let r_client = register_as_client::<Clear, Dyn>();
    let r_bot = register_as_bot::<Clear, Dyn>();
    let r_custom: Register<Custom> = register_as_custom(
        |o: &Custom| o.o.pass.clone().map(vinezombie::client::auth::Secret::into_inner),
        |o: &Custom| o.o.username.clone().unwrap(),
        |o: &Custom| o.o.realname.clone().unwrap(),
        |o: &Custom| Box::new(from_iter_or(Nick::from_str("Dflt"), o.o.nicks.clone())),
        |o: &Custom| default_caps(o.o.caps.clone(), o.common, o.require),
        |o: &Custom| o.o.auths(),
    );
    let (id, rx) = match mode {
        0 => cl.add(&r_client, &o).unwrap(),
        1 => cl.add(&r_bot, &o).unwrap(),
        _ => {
            let cu = Custom { o, common, require };
            cl.add(&r_custom, &cu).unwrap()
        }
    };
    let sources = c.rng.chance(4, 5);
    let rejects = c.rng.pickv(&[0, 1, 2, 4, 6, 30]);
    if rejects == 30 {
        // All of them, where they are few enough.
        names.iter_mut().for_each(|n| {
            if let Names::Seq(_, v) = n {
                c.evn("fallback_nicks", v.len() as u64);
            }
        });
    }
    let mut x = Run {
        c,
        drv,
        w,
        cl,
        id,
        drain: Box::new(move || while all.try_recv().is_ok() {}),
        pending: vec![],
        trail: vec![],
        fin: None,
        bad: false,
        nick: vec![],
        userhost: None,
        account: None,
        names,
        source: None,
        caps: BTreeMap::new(),
        needs_auth,
        welcomed: false,
        ends: 0,
        host: b"irc.example".to_vec(),
        sources,
        rejects,
    };
    x.pending = burst;
    let n = x.next_nick();
    x.pending.extend(n);
    if x.c.rng.coin() {
        x.host = x.c.rng.pick(&["irc.example", "a.b", "x", "127.0.0.1", "me", "a-server-with-a-rather-long-name.network.example.org"]).as_bytes().to_vec();
    }
    if x.nick.is_empty() || x.c.rng.coin() {
        // A client may also send before it listens.
        let _ = x.drv.flush(&mut x.cl);
        x.sent(vec![]);
        x.c.ev("sent_first");
    }
    // ---- the server
    let supports = x.c.rng.chance(5, 6);
    let mut model: Option<Model> = None;
    x.asides();
    if supports && !x.over() && !x.trouble() {
        negotiate(&mut x, &want_caps, &mut mechs, common, require, &mut model);
    }
    let left_out = !supports;
    if left_out {
        x.c.ev("without_cap");
    }
    // Nick troubles that are left.
    while !x.over() && x.rejects > 6 && x.c.rng.chance(9, 10) {
        x.reject();
    }
    let mut isup: BTreeMap<V, V> = BTreeMap::new();
    let mut version: Option<V> = None;
    if !x.over() {
        x.asides();
    }
    if !x.over() && !x.trouble() {
        welcome(&mut x, left_out, &want_caps, require, &mut isup, &mut version);
    }
    if x.bad || x.fin.is_none() {
        if !x.bad {
            // The dialogue stopped short (nothing more to reject); fine.
            x.c.ev("unfinished");
        }
        drop(x);
        vclock_stop();
        return;
    }
    // ---- the outcome
    let got = match rx.0.recv_now() {
        None => None,
        Some(Ok(())) => Some(Fin::Ok),
        Some(Err(e)) => Some(match told(x.c, e) {
            HandlerError::NoAccess(l) => Fin::NoAccess(l.as_bytes().to_vec()),
            HandlerError::NoNicks => Fin::NoNicks,
            HandlerError::NoLogin => Fin::NoLogin,
            HandlerError::Redirect(h, p, i) => Fin::Redirect(h.as_bytes().to_vec(), p, i.as_bytes().to_vec()),
            HandlerError::ServerError(m) => {
                let mut b = vec![];
                let _ = m.send_to(&mut b, &mut vec![]);
                while b.ends_with(b"\r") || b.ends_with(b"\n") {
                    b.pop();
                }
                // Compare parsed: the wire form may differ in the last colon.
                Fin::ServerError(format!("{:?}", vinezombie::ircmsg::ServerMsg::parse(b.clone()).map(|m| gen::of_server(&m))).into_bytes())
            }
            HandlerError::MissingCaps(s) => Fin::Missing(s.iter().map(|k| k.as_bytes().to_vec()).collect()),
            e => Fin::Other(e.to_string()),
        }),
    };
    let mut exp = x.fin.clone();
    if let Some(Fin::ServerError(v)) = &mut exp {
        *v = format!("{:?}", vinezombie::ircmsg::ServerMsg::parse(v.clone()).map(|m| gen::of_server(&m))).into_bytes();
    }
    if exp == Some(Fin::AnyError) && !matches!(got, None | Some(Fin::Ok | Fin::Redirect(..))) {
        exp = got.clone();
        x.c.ev("bad_redirects");
    }
    if got != exp {
        let t = x.trail.clone();
        x.c.fail("result", format!("reported {got:?}, expected {exp:?}, dialogue {t:?}"));
    }
    let st = x.cl.state();
    match &exp {
        Some(Fin::Ok) => {
            let src = st.get::<ClientSource>().map(gen::of_source);
            let want = gen::RSource { nick: x.nick.clone(), user: x.userhost.as_ref().map(|u| u.0.clone()), host: x.userhost.as_ref().map(|u| u.1.clone()) };
            ck!(x.c, src.as_ref() == Some(&want), "client-source", "{src:?} expected {want:?} dialogue {:?}", x.trail);
            let acc = st.get::<Account>().map(|a| a.as_ref().map(|a| a.as_bytes().to_vec()));
            ck!(x.c, acc == Some(x.account.clone()), "account", "{acc:?} expected {:?} dialogue {:?}", x.account, x.trail);
            let caps: BTreeMap<V, (V, bool)> = st
                .get::<Caps>()
                .map(|m| {
                    m.keys()
                        .map(|k| {
                            let u = m.get_union_raw(k).unwrap();
                            (k.as_bytes().to_vec(), (u.1.as_bytes().to_vec(), *m.get_extra_raw(k).unwrap()))
                        })
                        .collect()
                })
                .unwrap_or_default();
            ck!(x.c, caps == x.caps, "caps", "{caps:?} expected {:?} dialogue {:?}", x.caps, x.trail);
            let is: BTreeMap<V, V> = st
                .get::<ISupport>()
                .map(|m| m.keys().map(|k| (k.as_bytes().to_vec(), m.get_union_raw(k).unwrap().1.as_bytes().to_vec())).collect())
                .unwrap_or_default();
            ck!(x.c, is == isup, "isupport", "{is:?} expected {isup:?} dialogue {:?}", x.trail);
            let v = st.get::<ServerVersion>().map(|v| v.as_bytes().to_vec());
            ck!(x.c, v == version, "version", "{v:?} expected {version:?}");
            let s = st.get::<ServerSource>().map(|s| gen::wire_source(&gen::of_source(s)));
            let s = s.map(|s| s.strip_prefix(b":").map(|s| s.to_vec()).unwrap_or(s));
            ck!(x.c, s == x.source, "server-source", "{s:?} expected {:?} dialogue {:?}", x.source.as_ref().map(|s| show(s)), x.trail);
            // The longest prefix the server will put before our messages.
            let num = |k: &str| isup.get(k.as_bytes()).and_then(|v| String::from_utf8_lossy(v).parse::<usize>().ok());
            let len = match &x.userhost {
                Some((u, h)) => x.nick.len() + u.len() + !u.starts_with(b"~") as usize + h.len() + 2,
                None => x.nick.len() + num("USERLEN").unwrap_or(10) + num("HOSTLEN").unwrap_or(64) + 2,
            };
            ckeq!(x.c, st.source_len().get(), len, "source-len", "{:?}", x.trail);
            ck!(x.c, x.ends <= 1 && (left_out || x.ends == 1), "cap-end", "{} times CAP END", x.ends);
            x.c.ev("registered");
            if x.account.is_some() {
                x.c.ev("logged_in");
            }
        }
        Some(e) => {
            ck!(x.c, st.get::<Caps>().is_none() && st.get::<ClientSource>().is_none(), "failed-state", "state was saved although {e:?}");
            let k = match e {
                Fin::NoAccess(_) => "no_access",
                Fin::NoNicks => "no_nicks",
                Fin::NoLogin => "no_login",
                Fin::Redirect(..) => "redirects",
                Fin::ServerError(_) => "server_errors",
                Fin::Missing(_) => "missing_caps",
                _ => "other",
            };
            x.c.ev(k);
        }
        None => {}
    }
    if let Some(m) = &model {
        let s = seen.lock().unwrap().clone();
        ck!(x.c, s == m.chals, "challenges", "mechanisms were given {s:?}, server sent {:?}", m.chals);
    }
    // It is over: nothing more is sent.
    x.pending.clear();
    let id = x.id;
    x.id = usize::MAX;
    x.fin = None;
    for l in ["PING :late", "433 * x :in use", "CAP * LS :sasl", "AUTHENTICATE +", "376 x :end"] {
        if !x.bad {
            x.step(l, vec![]);
        }
    }
    x.id = id;
    let t = h64(&x.trail);
    x.c.seen(&t);
    let tr = x.trail.clone();
    x.c.sample(|| format!("{:?}", tr.iter().take(30).collect::<Vec<_>>()));
    drop(x);
    vclock_stop();
}

fn negotiate(x: &mut Run, want_caps: &BTreeSet<V>, mechs: &mut Vec<Mech>, common: bool, require: bool, model: &mut Option<Model>) {
    // What there is.
    let few = x.c.rng.chance(1, 4);
    let mut adv: Vec<(V, V)> = vec![];
    let values = ["", "", "", "x", "a,b", "k=v", "port=6697,duration=9", "=", "é"];
    for k in CAPS {
        if x.c.rng.chance(if few { 1 } else { 6 }, 8) {
            let v = values[x.c.rng.below(values.len())].as_bytes().to_vec();
            adv.push((k.as_bytes().to_vec(), v));
        }
    }
    let lacking = x.c.rng.chance(1, 4);
    for w in want_caps {
        if !adv.iter().any(|a| a.0 == *w) && w != b"nonesuch" && w != b"sasl" && (!lacking || x.c.rng.chance(4, 5)) {
            adv.push((w.clone(), vec![]));
        }
    }
    if x.c.rng.chance(1, 6) {
        for i in 40..x.c.rng.range(50, 80) {
            adv.push((format!("vendor.example/filler-capability-{i}").into_bytes(), vec![]));
        }
    }
    if x.c.rng.chance(1, 10) {
        // Many short ones.
        for i in 0..x.c.rng.range(20, 200) {
            adv.push((format!("x{i}").into_bytes(), if i % 7 == 3 { vec![b'v'] } else { vec![] }));
        }
        x.c.ev("many_caps");
    }
    let mut supported: Option<BTreeSet<String>> = None;
    let mut has_sasl = false;
    if x.c.rng.chance(5, 6) {
        has_sasl = true;
        let mut v = vec![];
        if x.c.rng.chance(3, 4) {
            let mut l: Vec<&str> = ["PLAIN", "EXTERNAL", "TEST-A", "TEST-B", "X", "SCRAM-SHA-256", "TEST-A-PLUS", "TEST", "XX"].into_iter().filter(|_| x.c.rng.chance(4, 5)).collect();
            if l.is_empty() {
                l.push("OTHER");
            }
            x.c.rng.shuffle(&mut l);
            supported = Some(l.iter().map(|s| s.to_string()).collect());
            v = l.join(",").into_bytes();
        }
        adv.push((b"sasl".to_vec(), v));
    }
    if x.c.rng.chance(1, 3) {
        if !adv.iter().any(|a| a.0 == b"sts") {
            adv.push((b"sts".to_vec(), b"port=6697".to_vec()));
        }
    }
    x.c.rng.shuffle(&mut adv);
    let tok = |(k, v): &(V, V)| if v.is_empty() { k.clone() } else { [&k[..], b"=", v].concat() };
    // The list, in some number of lines.
    let mut rest = &adv[..];
    let mut lines: Vec<Vec<V>> = vec![];
    while !rest.is_empty() {
        let n = x.c.rng.pickv(&[1, 3, 8, 12, 12, 60, 300]).min(rest.len());
        lines.push(rest[..n].iter().map(tok).collect());
        rest = &rest[n..];
    }
    if lines.is_empty() || x.c.rng.chance(1, 10) {
        lines.push(vec![]);
    }
    if lines.len() > 1 {
        x.c.ev("long_lists");
    }
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        if i + 1 == n {
            break;
        }
        let l = x.cap_line("LS", true, l);
        x.step(l, vec![]);
        x.asides();
        if x.over() || x.trouble() {
            return;
        }
    }
    x.caps = adv.iter().map(|(k, v)| (k.clone(), (v.clone(), false))).collect();
    // What to make of it.
    if !has_sasl {
        mechs.clear();
    } else if let Some(s) = &supported {
        mechs.retain(|m| s.contains(&m.name));
    }
    let avail: BTreeSet<V> = x.caps.keys().cloned().collect();
    let mut reqs: BTreeSet<V> = want_caps.iter().filter(|w| require || avail.contains(*w)).cloned().collect();
    if common {
        for k in ["account-notify", "account-tag", "chghost", "extended-join", "extended-monitor", "invite-notify", "labeled-response", "message-tags", "msgid", "multi-prefix", "server-time", "setname", "standard-replies", "userhost-in-names"] {
            if avail.contains(k.as_bytes()) {
                reqs.insert(k.as_bytes().to_vec());
            }
        }
    }
    let mut want = vec![];
    if !mechs.is_empty() {
        reqs.insert(b"sasl".to_vec());
    }
    let missing: BTreeSet<V> = reqs.difference(&avail).cloned().collect();
    if mechs.is_empty() && x.needs_auth {
        x.fin = Some(Fin::NoLogin);
    } else if !missing.is_empty() {
        x.fin = Some(Fin::Missing(missing));
    } else {
        reqs.remove(b"sts".as_slice());
        if reqs.is_empty() {
            want = x.cap_end(vec![]);
        } else {
            want.push(Want::Req(reqs.clone()));
        }
    }
    let last = x.cap_line("LS", false, lines.last().unwrap());
    x.step(last, want);
    if x.over() {
        return;
    }
    if reqs.is_empty() {
        x.c.ev("nothing_to_request");
        return;
    }
    x.asides();
    if x.over() || x.trouble() {
        return;
    }
    // The answers.
    let mut left: Vec<V> = reqs.iter().cloned().collect();
    x.c.rng.shuffle(&mut left);
    while !left.is_empty() {
        match x.c.rng.below(20) {
            0 => {
                let n = x.c.rng.pickv(&[1, 1, 2, 5, 30]);
                let mut list = vec![];
                for _ in 0..n {
                    let k = format!("new-{}", x.c.rng.below(1000)).into_bytes();
                    if !x.caps.contains_key(&k) {
                        let v = x.c.rng.pick(&["", "", "v", "a=b"]).as_bytes().to_vec();
                        list.push(tok(&(k.clone(), v.clone())));
                        x.caps.insert(k, (v, false));
                    }
                }
                if list.is_empty() {
                    continue;
                }
                let l = x.cap_line("NEW", false, &list);
                x.step(l, vec![]);
                x.c.ev("new_caps");
            }
            1 => {
                // Something nobody asked for goes away.
                let other: Vec<V> = x.caps.keys().filter(|k| !reqs.contains(*k)).cloned().collect();
                if !other.is_empty() {
                    let mut gone = vec![];
                    for _ in 0..x.c.rng.pickv(&[1, 1, 2, 5, 30]) {
                        let k = other[x.c.rng.below(other.len())].clone();
                        if x.caps.remove(&k).is_some() {
                            gone.push(k);
                        }
                    }
                    let l = x.cap_line("DEL", false, &gone);
                    x.step(l, vec![]);
                    x.c.ev("deleted_caps");
                }
            }
            2 if x.c.rng.chance(1, 4) => {
                // Refused, or gone before it was granted.
                let n = x.c.rng.range(1, left.len());
                let mut l = left[..n].to_vec();
                let sub = x.c.rng.pick(&["NAK", "DEL"]);
                x.fin = Some(Fin::Missing(l.iter().cloned().collect()));
                if sub == "DEL" {
                    l.push(b"unrelated".to_vec());
                }
                let l = x.cap_line(sub, false, &l);
                x.step(l, vec![]);
                x.c.ev("refused");
                return;
            }
            _ => {
                let n = x.c.rng.range(1, left.len());
                let g: Vec<V> = left.drain(..n).collect();
                for k in &g {
                    x.caps.entry(k.clone()).or_insert((vec![], false)).1 = true;
                }
                let mut want = vec![];
                if left.is_empty() {
                    if mechs.is_empty() {
                        want = x.cap_end(vec![]);
                    } else {
                        let mut q: VecDeque<Mech> = std::mem::take(mechs).into();
                        let cur = q.pop_front().unwrap();
                        want.push(line(format!("AUTHENTICATE {}", cur.name)));
                        *model = Some(Model { queue: q, cur, end: None, chals: vec![] });
                    }
                } else {
                    x.c.ev("partial_acks");
                }
                let l = x.cap_line("ACK", false, &g);
                x.step(l, want);
            }
        }
        if x.over() {
            return;
        }
        x.asides();
        if x.over() || x.trouble() {
            return;
        }
    }
    if let Some(m) = model {
        login(x, m);
    }
}

fn wants(v: Vec<V>) -> Vec<Want> {
    v.into_iter().map(Want::Line).collect()
}
fn login(x: &mut Run, m: &mut Model) {
    x.c.ev("logins");
    let mut rounds = 0;
    while !x.over() && m.end.is_none() {
        rounds += 1;
        x.asides();
        if x.over() || x.trouble() {
            return;
        }
        match if rounds > 40 { 0 } else { x.c.rng.below(9) } {
            0 => {
                let num = x.c.rng.pick(&["904", "904", "902"]);
                let mut want = wants(m.fail(b""));
                if m.end.is_some() {
                    want = x.cap_end(want);
                }
                x.step(format!("{num} * :SASL authentication failed"), want);
                x.c.ev("login_failures");
            }
            1 => {
                let mut list: BTreeSet<String> = ["PLAIN", "EXTERNAL", "TEST-A", "TEST-B", "X", "SCRAM-SHA-256", "TEST-A-PLUS", "TEST", "XX"].iter().filter(|_| x.c.rng.chance(3, 5)).map(|s| s.to_string()).collect();
                list.insert("OTHER".into());
                if x.c.rng.chance(1, 6) {
                    // Servers may know many.
                    list.extend((0..x.c.rng.range(1, 40)).map(|i| format!("M-{i}")));
                }
                let l: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
                m.mechs(&list);
                let want = if m.end.is_some() { x.cap_end(vec![]) } else { vec![] };
                x.step(format!("908 * {} :are available SASL mechanisms", l.join(",")), want);
                if m.end.is_none() && !x.over() {
                    let mut want = wants(m.fail(b""));
                    if m.end.is_some() {
                        want = x.cap_end(want);
                    }
                    x.step("904 * :failed", want);
                }
            }
            2 | 3 => {
                let l = x.logged_in();
                m.end = Some(super::c23::End::Ok);
                let want = x.cap_end(vec![]);
                x.step(l, want);
                if x.over() {
                    return;
                }
                x.asides();
                if x.over() || x.trouble() {
                    return;
                }
                x.step("903 * :SASL authentication successful", vec![]);
                if !x.over() && x.c.rng.chance(1, 4) {
                    // Logged out again.
                    let known = x.userhost.is_some();
                    let (mut u, mut h) = x.userhost.clone().unwrap_or_default();
                    if !known || x.c.rng.coin() {
                        // Without the account's cloak.
                        u = x.c.rng.pick(&["~u", "user", "x"]).as_bytes().to_vec();
                        h = x.c.rng.pick(&["plain.example", "10.0.0.1", "h"]).as_bytes().to_vec();
                        x.userhost = Some((u.clone(), h.clone()));
                    }
                    x.account = None;
                    let n = x.nick.clone();
                    if x.c.rng.chance(1, 4) {
                        // A mask that is only a nick: the user and host are not known any more.
                        x.userhost = None;
                        x.c.ev("logged_out_nick_only");
                        x.step([b"901 * ".as_slice(), &n, b" :You are now logged out"].concat(), vec![]);
                    } else {
                        x.step([b"901 * ".as_slice(), &n, b"!", &u, b"@", &h, b" :You are now logged out"].concat(), vec![]);
                    }
                    x.c.ev("logged_out");
                }
            }
            4 if x.c.rng.chance(1, 4) => {
                m.end = Some(super::c23::End::Ok);
                let want = x.cap_end(vec![]);
                x.step("907 * :You have already authenticated", want);
            }
            5 if x.c.rng.chance(1, 3) => {
                m.end = Some(super::c23::End::Broken(None));
                if x.c.rng.coin() {
                    let want = x.cap_end(vec![]);
                    x.step("905 * :SASL message too long", want);
                } else {
                    let want = x.cap_end(vec![line("AUTHENTICATE *")]);
                    x.step("AUTHENTICATE A=B", want);
                }
                if !x.over() && x.c.rng.coin() {
                    x.step("906 * :SASL authentication aborted", vec![]);
                }
                x.c.ev("broken_sasl");
            }
            _ => {
                let data = if x.c.rng.chance(2, 3) { vec![] } else { payload(&mut x.c.rng) };
                let ls = chunks(&data);
                let n = ls.len();
                for (i, l) in ls.into_iter().enumerate() {
                    if i + 1 < n {
                        x.step([b"AUTHENTICATE ".as_slice(), &l].concat(), vec![]);
                        if x.over() {
                            return;
                        }
                        continue;
                    }
                    let (sent, aborted) = m.challenge(&data);
                    let mut want = wants(sent);
                    if m.end.is_some() {
                        want = x.cap_end(want);
                    }
                    x.step([b"AUTHENTICATE ".as_slice(), &l].concat(), want);
                    if x.over() {
                        return;
                    }
                    if aborted {
                        let want = if m.end.is_some() { vec![] } else { vec![line(format!("AUTHENTICATE {}", m.cur.name))] };
                        x.step("906 * :SASL authentication aborted", want);
                    }
                }
                x.c.ev("challenges");
            }
        }
    }
    let _ = (b64, auth_lines);
}

fn welcome(x: &mut Run, left_out: bool, want_caps: &BTreeSet<V>, require: bool, isup: &mut BTreeMap<V, V>, version: &mut Option<V>) {
    // The server may know us by a shorter name.
    if x.c.rng.chance(1, 8) && x.nick.len() > 1 {
        let n = x.c.rng.range(1, x.nick.len());
        let short = x.nick[..n].to_vec();
        if Nick::from_bytes(short.clone()).is_ok() && short.is_ascii() {
            x.nick = short;
            x.c.ev("shortened");
        }
    }
    if x.needs_auth && x.account.is_none() {
        x.fin = Some(Fin::NoLogin);
    } else if left_out && require && !want_caps.is_empty() {
        x.fin = Some(Fin::Missing(want_caps.clone()));
    }
    if x.c.rng.chance(1, 8) {
        // What greets us is not what answered the connection.
        x.host = if x.c.rng.coin() { b"real.example".to_vec() } else { [&x.host[..], b"!u@h"].concat() };
    }
    let t = |x: &Run, n: &str, rest: &str| [n.as_bytes(), b" ", &x.nick, b" ", rest.as_bytes()].concat();
    let text = if x.c.rng.chance(1, 4) { x.c.rng.pickv(&["Welcome", "Welcome to :Example", ":", ":hello", "hello there", "a b c d e f :g"]) } else { ":Welcome to the Example Internet Relay Chat Network" };
    let l = t(x, "001", text);
    x.step(l, vec![]);
    x.welcomed = true;
    if x.over() {
        return;
    }
    let mut script: Vec<V> = vec![];
    script.push(t(x, "002", ":Your host is irc.example, running version v-1"));
    script.push(t(x, "003", ":This server was created just now"));
    let v = x.c.rng.pick(&["v-1", "ircd-seven-1.1.9(20200311-abc)", "UnrealIRCd-6.1.0", "x"]).as_bytes().to_vec();
    let modes = x.c.rng.pick(&[" iow biklmnopstv", " iow biklmnopstv bklov", "", " i :n"]);
    if !x.c.rng.chance(1, 10) {
        script.push([&t(x, "004", "irc.example ")[..], &v, modes.as_bytes()].concat());
        *version = Some(v);
    }
    let mut isl = vec![];
    let nl = if x.c.rng.chance(1, 12) { 16 } else { 4 };
    for _ in 0..x.c.rng.below(nl) {
        let mut toks = vec![];
        let nt = if x.c.rng.chance(1, 12) { 80 } else { 13 };
        for _ in 0..x.c.rng.range(1, nt) {
            let other = format!("T{}", x.c.rng.below(200));
            let k = x.c.rng.pickv(&[other.as_str(), "NICKLEN", "USERLEN", "HOSTLEN", "CHANMODES", "PREFIX", "NETWORK", "CASEMAPPING", "SAFELIST", "EXCEPTS", "TARGMAX", "draft/ICON", "A", "X-Y", "MODES", "UTF8ONLY"]);
            let v: V = match k {
                "NICKLEN" | "USERLEN" | "HOSTLEN" | "MODES" => format!("{}", x.c.rng.range(1, 90)).into_bytes(),
                "SAFELIST" | "UTF8ONLY" => vec![],
                "CASEMAPPING" => b"rfc1459".to_vec(),
                _ => x.c.rng.pick(&["", "a,b,c,d", "(ov)@+", "Example", "K:1,L:", "a=b", "\\x20", "https://example.org/"]).as_bytes().to_vec(),
            };
            let mut tok = k.as_bytes().to_vec();
            if !v.is_empty() || x.c.rng.chance(1, 4) {
                tok.push(b'=');
                tok.extend_from_slice(&v);
            }
            isup.insert(k.as_bytes().to_vec(), v);
            toks.push(tok);
        }
        isl.push([&t(x, "005", "")[..], &toks.join(b" ".as_slice()), b" :are supported by this server"].concat());
    }
    script.extend(isl);
    for _ in 0..x.c.rng.below(4) {
        let l = x.c.rng.pick(&["251 _ :There are 3 users", "252 _ 1 :operators", "265 _ 3 9 :Current local users 3", "250 _ :Highest connection count", "396 _ host.example :is now your displayed host", "372 _ :- 376", "NOTICE _ :hello", "CAP * NEW :later"]);
        if l.starts_with("CAP") {
            x.c.ev("new_caps");
        }
        script.push(l.replace('_', &String::from_utf8_lossy(&x.nick)).into_bytes());
    }
    for l in script {
        if l.starts_with(b"CAP") {
            x.caps.entry(b"later".to_vec()).or_insert((vec![], false));
        }
        x.step(l, vec![]);
        x.asides();
        if x.over() || x.trouble() {
            return;
        }
    }
    let motd = x.c.rng.coin();
    if motd {
        for l in ["375", "372", "372"] {
            let l = t(x, l, ":- message");
            x.step(l, vec![]);
            if x.over() {
                return;
            }
        }
        x.asides();
        if x.over() {
            return;
        }
    }
    x.fin = Some(Fin::Ok);
    let l = if motd { t(x, "376", ":End of /MOTD command.") } else { t(x, "422", ":MOTD File is missing") };
    x.step(l, vec![]);
}

/// Servers that say anything at all: whatever they do, success needs a welcome and its end (and the
/// login, where one is required), pings are answered until then and negotiation ends once at most.
fn hostile(c: &mut Case) {
    vclock_start();
    hostile_in(c);
    vclock_stop();
}
fn hostile_in(c: &mut Case) {
    let mut drv = Driver::new(c.rng.chance(1, 3));
    let mut w = World::new(Rng::new(c.rng.next()));
    w.eof = Some(NEVER);
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let (_, all) = cl.add((), YieldAll).unwrap();
    let mut o: Opts = Options::new();
    o.nicks = names_of(&[b"Foo".to_vec(), b"Bar".to_vec()]);
    let seen = Seen::default();
    let mut mechs = 0;
    if c.rng.coin() {
        let (s, m) = mech(&mut c.rng, 0, &seen);
        mechs = m.len();
        o.sasl.push(Dyn(Arc::from(s)));
    }
    o.allow_sasl_fail = c.rng.coin();
    let needs = mechs > 0 && !o.allow_sasl_fail;
    o.caps = ["batch", "echo-message"].iter().filter(|_| c.rng.coin()).map(|v| key(v.as_bytes())).collect();
    let reg = register_as_client::<Clear, Dyn>();
    let (id, rx) = cl.add(&reg, &o).unwrap();
    let mut rx = Some(rx);
    const POOL: [&str; 44] = [
        "001 Foo :Welcome", "001 Foo :Welcome", "001", "002 Foo :Your host", "004 Foo irc.example v-1 i n", "004 Foo", "004", "005 Foo NICKLEN=9 :are supported", "005", "005 Foo", "376 Foo :End", "376 Foo :End", "422 Foo :None",
        "376", "375 Foo :-", "CAP * LS :sasl=PLAIN batch", "CAP * LS * :echo-message", "CAP * LS :", "CAP * ACK :sasl", "CAP * ACK :batch", "CAP * ACK :batch sasl echo-message account-tag", "CAP * NAK :batch", "CAP * DEL :sasl",
        "CAP * NEW :x", "CAP * NEW :sasl", "CAP", "CAP * LS :batch echo-message sasl", "CAP * ACK :", "AUTHENTICATE +", "AUTHENTICATE", "900 Foo Foo!u@h acct :You are now logged in", "900 * * acct :x", "900", "901 Foo Foo!u@h :out", "903 * :ok", "904 * :no",
        "907 * :already", "908 * PLAIN :mechs", "908", "PING :t", "PING a b", "433 * Foo :in use", "NOTICE * :376", "PONG x",
    ];
    let (mut welcomed, mut account, mut ends) = (false, false, 0usize);
    let mut trail: Vec<String> = vec![];
    let mut over = false;
    for _ in 0..c.rng.range(1, 40) {
        let l = POOL[c.rng.below(POOL.len())].to_string();
        let src = c.rng.pickv(&["", ":irc.example ", ":Foo!u@h "]);
        trail.push(format!("{src}{l}"));
        c.desc = format!("{trail:?}");
        w.lock().unwrap().feed(vnow(), format!("{src}{l}\r\n").as_bytes());
        let out = drv.run(&mut cl, &w);
        while all.try_recv().is_ok() {}
        let _ = drv.flush(&mut cl);
        let log = w.lock().unwrap().log.clone();
        let sent: Vec<V> = std::mem::take(&mut *log.lock().unwrap()).into_iter().map(|e| match e {
            Io::Line(_, b) => b,
            e => format!("{e:?}").into_bytes(),
        }).collect();
        let Outcome::Ran(_, f) = out else {
            c.fail("hostile-outcome", format!("{out:?} {trail:?}"));
            return;
        };
        ends += sent.iter().filter(|s| *s == b"CAP END").count();
        let pongs = sent.iter().filter(|s| s.starts_with(b"PONG")).count();
        ck!(c, pongs == (l.starts_with("PING") && !over) as usize, "hostile-pong", "{pongs} answers, {trail:?}");
        ck!(c, ends <= 1, "hostile-end", "{ends} times CAP END, {trail:?}");
        if l.starts_with("900 ") {
            account = true;
        }
        welcomed |= l.starts_with("001");
        if over {
            ck!(c, sent.is_empty() && !f.contains(&id), "hostile-after", "{sent:?} after the end, {trail:?}");
        } else if f.contains(&id) {
            over = true;
            match rx.take().and_then(|rx| rx.0.recv_now()) {
                None => c.fail("hostile-result", format!("finished without a result, {trail:?}")),
                Some(Ok(())) => {
                    let end = l.starts_with("376") || l.starts_with("422");
                    ck!(c, welcomed && end, "hostile-success", "success without a welcome, {trail:?}");
                    ck!(c, !needs || account, "hostile-login", "success without the login, {trail:?}");
                    ck!(c, cl.state().get::<ClientSource>().is_some(), "hostile-state", "{trail:?}");
                    c.ev("hostile_ok");
                    if needs {
                        c.ev("hostile_login");
                    }
                }
                Some(Err(_)) => {
                    ck!(c, cl.state().get::<ClientSource>().is_none(), "hostile-state", "{trail:?}");
                    c.ev("hostile_err");
                }
            }
        } else {
            ck!(c, !(welcomed && (l.starts_with("376") || l.starts_with("422"))), "hostile-unfinished", "the welcome is complete, {trail:?}");
        }
    }
    c.ev("hostile");
    c.seen(&h64(&trail));
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("dialogue", 400, 4000, dialogue);
    ctx.run("hostile", 400, 4000, hostile);
    for (k, n) in [
        ("messages", 4000),
        ("registered", 60),
        ("logged_in", 15),
        ("no_nicks", 3),
        ("no_login", 20),
        ("missing_caps", 15),
        ("no_access", 2),
        ("redirects", 1),
        ("server_errors", 2),
        ("rejections", 100),
        ("pings", 200),
        ("long_lists", 50),
        ("long_requests", 1),
        ("many_caps", 5),
        ("partial_acks", 50),
        ("logins", 50),
        ("login_failures", 20),
        ("without_cap", 20),
        ("new_caps", 5),
        ("deleted_caps", 5),
        ("refused", 3),
        ("broken_sasl", 3),
        ("hostile", 300),
        ("hostile_ok", 3),
        ("hostile_login", 1),
        ("hostile_err", 50),
    ] {
        ctx.require(k, n);
    }
}
