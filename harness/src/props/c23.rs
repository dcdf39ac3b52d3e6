//! SASL logins against scripted servers; a model says what has to be sent and reported.
use crate::gen;
use crate::infra::*;
use crate::mock::*;
use crate::strm::{b64, unb64};
use crate::sys::{vclock_start, vclock_stop, vnow};
use std::collections::{BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::auth::sasl::{External, Password, PasswordMechanism, Plain};
use vinezombie::client::auth::{AnySasl, Clear, Handler, HandlerError, Sasl, SaslLogic, SaslQueue, Secret};
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::YieldAll;
use vinezombie::client::Client;
use vinezombie::names::cmd::AUTHENTICATE;
use vinezombie::string::*;

pub type Seen = Arc<Mutex<Vec<(usize, Vec<u8>)>>>;
/// A mechanism, as the model sees it.
#[derive(Clone, Debug)]
pub struct Mech {
    pub id: usize,
    pub name: String,
    /// What it answers to each challenge; `None`: it objects to the challenge.
    pub script: VecDeque<Option<Vec<u8>>>,
    /// Objects to challenges that are not empty.
    pub only_empty: bool,
    /// Gives its last answer again and again.
    pub repeats: bool,
}
impl Mech {
    pub fn reply(&mut self, chal: &[u8]) -> Option<Vec<u8>> {
        if self.only_empty && !chal.is_empty() {
            return None;
        }
        if self.repeats {
            return self.script.front().cloned().flatten();
        }
        self.script.pop_front().flatten()
    }
}
struct TestLogic {
    m: Mech,
    seen: Seen,
    junk: bool,
}
impl SaslLogic for TestLogic {
    fn name(&self) -> Arg<'static> {
        Arg::from_bytes(self.m.name.clone()).unwrap()
    }
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        self.seen.lock().unwrap().push((self.m.id, input.to_vec()));
        match self.m.reply(input) {
            Some(v) => {
                output.push_slice(&v);
                Ok(())
            }
            None => {
                // Whatever it wrote before it gave up is not an answer.
                if self.junk {
                    output.push_slice(b"do not send this");
                }
                Err("no".into())
            }
        }
    }
    fn size_hint(&self) -> usize {
        if self.junk {
            700
        } else {
            0
        }
    }
}
struct TestSasl(Mech, Seen, bool);
impl Sasl for TestSasl {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        vec![Box::new(TestLogic { m: self.0.clone(), seen: self.1.clone(), junk: self.2 })]
    }
}
/// Several at once.
struct Many(Vec<Box<dyn Sasl>>);
impl Sasl for Many {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        self.0.iter().flat_map(|s| s.logic()).collect()
    }
}
pub fn payload(r: &mut Rng) -> Vec<u8> {
    let n = r.pickv(&[0, 1, 2, 3, 20, 298, 299, 300, 301, 302, 598, 600, 601, 900]);
    (0..n).map(|_| r.byte()).collect()
}
fn nonul(r: &mut Rng) -> Vec<u8> {
    let mut v = gen::bytes(r, 12);
    v.retain(|b| *b != 0);
    if r.chance(1, 6) {
        let n = r.pickv(&[140, 290, 298, 300, 600]);
        while v.len() < n {
            v.push(b'a' + r.below(26) as u8);
        }
    }
    v
}
pub fn mech(r: &mut Rng, id: usize, seen: &Seen) -> (Box<dyn Sasl>, Vec<Mech>) {
    let nn = |v: &[u8]| NoNul::from_bytes(v.to_vec()).unwrap();
    let one = |name: &str, v: Vec<u8>, repeats| Mech { id, name: name.into(), script: [Some(v)].into(), only_empty: true, repeats };
    match r.below(6) {
        0 | 1 => {
            let (z, a, p) = (if r.coin() { vec![] } else { nonul(r) }, nonul(r), nonul(r));
            let full = [&z[..], b"\0", &a, b"\0", &p].concat();
            let pass: Secret<NoNul, Clear> = Secret::new(nn(&p).secret());
            let (s, m): (Box<dyn Sasl>, _) = match r.below(4) {
                0 => {
                    let mut s = Plain::new(nn(&a), pass);
                    s.authzid = nn(&z);
                    (Box::new(s), vec![one("PLAIN", full, false)])
                }
                1 => {
                    let mut s = Password::new(nn(&a), pass);
                    s.authzid = nn(&z);
                    (Box::new(s), vec![one("PLAIN", full, false)])
                }
                2 => {
                    let mut s = Password::new(nn(&a), pass);
                    s.authzid = nn(&z);
                    (Box::new(AnySasl::from(s)), vec![one("PLAIN", full, false)])
                }
                _ => {
                    let mut s = Password::new(nn(&a), pass);
                    s.deny_methods.insert(PasswordMechanism::Plain);
                    (Box::new(s), vec![])
                }
            };
            (s, m)
        }
        2 => {
            let z = if r.coin() { vec![] } else { nonul(r) };
            let s: Box<dyn Sasl> = if r.coin() { Box::new(External(nn(&z))) } else { Box::new(AnySasl::<Clear>::from(External(nn(&z)))) };
            (s, vec![one("EXTERNAL", z, true)])
        }
        _ => {
            let name = r.pick(&["TEST-A", "TEST-B", "TEST-A", "TEST-B", "PLAIN", "X", "SCRAM-SHA-256", "TEST-A-PLUS", "TEST", "XX"]).to_string();
            let script = (0..r.range(1, 4)).map(|_| if r.chance(1, 8) { None } else { Some(payload(r)) }).collect();
            let m = Mech { id, name, script, only_empty: false, repeats: false };
            (Box::new(TestSasl(m.clone(), seen.clone(), r.coin())), vec![m])
        }
    }
}
/// The lines that carry `data` in pieces of 400.
pub fn chunks(data: &[u8]) -> Vec<Vec<u8>> {
    let e = b64(data);
    let mut v: Vec<Vec<u8>> = e.chunks(400).map(|c| c.to_vec()).collect();
    if e.len() % 400 == 0 {
        v.push(b"+".to_vec());
    }
    v
}
pub fn auth_lines(data: &[u8]) -> Vec<Vec<u8>> {
    chunks(data).into_iter().map(|c| [b"AUTHENTICATE ".as_slice(), &c].concat()).collect()
}
#[derive(Debug, PartialEq, Clone)]
pub enum End {
    Ok,
    Fail(Vec<u8>),
    Broken(Option<String>),
    Unsupported,
}
/// The login as it has to go.
pub struct Model {
    pub queue: VecDeque<Mech>,
    pub cur: Mech,
    pub end: Option<End>,
    pub chals: Vec<(usize, Vec<u8>)>,
}
fn auth(m: &str) -> Vec<u8> {
    format!("AUTHENTICATE {m}").into_bytes()
}
impl Model {
    pub fn fail(&mut self, why: &[u8]) -> Vec<Vec<u8>> {
        match self.queue.pop_front() {
            Some(m) => {
                self.cur = m;
                vec![auth(&self.cur.name)]
            }
            None => {
                self.end = Some(End::Fail(why.to_vec()));
                vec![]
            }
        }
    }
    /// A whole challenge has arrived. Returns what is sent and whether it was an abort.
    pub fn challenge(&mut self, chal: &[u8]) -> (Vec<Vec<u8>>, bool) {
        if !matches!(self.cur.name.as_str(), "EXTERNAL") && !self.cur.only_empty {
            self.chals.push((self.cur.id, chal.to_vec()));
        }
        match self.cur.reply(chal) {
            Some(v) => (auth_lines(&v), false),
            None => {
                let n = self.cur.name.clone();
                self.queue.retain(|m| m.name != n);
                match self.queue.pop_front() {
                    Some(m) => self.cur = m,
                    None => self.end = Some(End::Broken(Some(n))),
                }
                (vec![b"AUTHENTICATE *".to_vec()], true)
            }
        }
    }
    pub fn mechs(&mut self, list: &BTreeSet<String>) {
        self.queue.retain(|m| list.contains(&m.name));
        if self.queue.is_empty() && !list.contains(&self.cur.name) {
            self.end = Some(End::Unsupported);
        }
    }
}
fn lines(w: &Mutex<World>) -> Vec<Vec<u8>> {
    let l = w.lock().unwrap().log.clone();
    let l = std::mem::take(&mut *l.lock().unwrap());
    l.into_iter()
        .map(|e| match e {
            Io::Line(_, b) => b,
            e => format!("{e:?}").into_bytes(),
        })
        .collect()
}
pub fn noise(r: &mut Rng) -> Vec<u8> {
    r.pick(&[
        ":irc.example NOTICE * :*** Looking up your hostname",
        ":irc.example 901 me me!u@h :You are now logged out",
        ":bob!b@h PRIVMSG me :903",
        ":irc.example 020 me :Please wait",
        "NOTICE AUTH :904 hello",
        ":irc.example 999 me :AUTHENTICATE +",
        ":irc.example CAP me NEW :sasl=PLAIN",
    ])
    .as_bytes()
    .to_vec()
}

fn login(c: &mut Case) {
    vclock_start();
    let drv = Driver::new(c.rng.chance(1, 3));
    let mut w = World::new(Rng::new(c.rng.next()));
    w.eof = Some(NEVER);
    w.short_writes = c.rng.chance(1, 4);
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let (_, all) = cl.add((), YieldAll).unwrap();
    let seen = Seen::default();
    let mut mechs: Vec<Mech> = vec![];
    let mut sasls: Vec<Box<dyn Sasl>> = vec![];
    let n = if c.rng.chance(1, 10) { c.rng.range(6, 20) } else { c.rng.below(6) };
    for id in 0..n {
        let (s, m) = mech(&mut c.rng, id, &seen);
        sasls.push(s);
        mechs.extend(m);
    }
    if c.rng.chance(1, 3) {
        // Some of them stand for several.
        let mut groups: Vec<Box<dyn Sasl>> = vec![];
        while !sasls.is_empty() {
            let n = c.rng.range(0, 4.min(sasls.len()));
            groups.push(Box::new(Many(sasls.drain(..n).collect())));
        }
        sasls = groups;
        c.ev("grouped");
    }
    // The same mechanisms, offered in different ways.
    let r = if c.rng.chance(1, 4) {
        c.ev("logins_from_one_sasl");
        cl.add(AUTHENTICATE, &Many(sasls))
    } else {
        let queue: SaslQueue = match c.rng.below(4) {
            0 => sasls.iter().map(|s| &**s).collect(),
            1 => sasls.iter().flat_map(|s| s.logic()).collect::<Vec<_>>().into(),
            k => {
                let mut q = SaslQueue::new();
                if k == 2 {
                    // What was there before is gone.
                    q.push(&External(NoNul::from_bytes("old").unwrap()));
                    q.clear();
                }
                for s in &sasls {
                    q.push(&**s);
                }
                q
            }
        };
        ckeq!(c, queue.len(), mechs.len(), "queue-len", "{mechs:?}");
        ckeq!(c, queue.is_empty(), mechs.is_empty(), "queue-len", "{mechs:?}");
        cl.add(AUTHENTICATE, queue)
    };
    let (id, rx) = match (r, mechs.is_empty()) {
        (Err(_), true) => {
            c.ev("nothing_to_try");
            ck!(c, cl.queue().is_empty(), "sent", "nothing to try, yet something is queued");
            vclock_stop();
            return;
        }
        (Ok((id, rx)), false) => (id, rx),
        (r, _) => {
            c.fail("start", format!("started: {}, mechanisms: {mechs:?}", r.is_ok()));
            vclock_stop();
            return;
        }
    };
    c.sample(|| format!("{:?}", mechs.iter().map(|m| &m.name).collect::<Vec<_>>()));
    let mut q: VecDeque<Mech> = mechs.into();
    let cur = q.pop_front().unwrap();
    let mut m = Model { queue: q, cur, end: None, chals: vec![] };
    let mut pending = vec![auth(&m.cur.name)];
    let mut trail: Vec<String> = vec![];
    // Sends one line and checks what comes back.
    let mut step = |c: &mut Case, cl: &mut Client<Conn, SyncChannels>, line: Vec<u8>, want: Vec<Vec<u8>>, m: &Model| -> bool {
        trail.push(show(&line));
        w.lock().unwrap().feed(vnow(), &[&line[..], b"\r\n"].concat());
        let o = drv.run(cl, &w);
        while all.try_recv().is_ok() {}
        let mut exp = std::mem::take(&mut pending);
        // Answers go out on the next run at the latest; flush to see them now.
        exp.extend(want);
        let _ = drv.flush(cl);
        let got = lines(&w);
        if got != exp {
            let s = |v: &[Vec<u8>]| v.iter().map(|l| show(&l[..l.len().min(80)])).collect::<Vec<_>>();
            c.fail("sent", format!("after {:?}: sent {:?}, expected {:?}", trail, s(&got), s(&exp)));
            return false;
        }
        let Outcome::Ran(y, f) = o else {
            c.fail("outcome", format!("{o:?}"));
            return false;
        };
        let done = m.end.is_some();
        if f.contains(&id) != done || y.contains(&id) != done {
            c.fail("finished", format!("after {trail:?}: yielded {y:?} finished {f:?}, login {id} expected {:?}", m.end));
            return false;
        }
        c.ev("messages");
        true
    };
    let mut rounds = 0;
    let mut bad = false;
    'login: while m.end.is_none() {
        rounds += 1;
        if c.rng.chance(1, 4) {
            let l = noise(&mut c.rng);
            if !step(c, &mut cl, l, vec![], &m) {
                bad = true;
                break;
            }
        }
        let pfx: &[u8] = if c.rng.coin() { b":irc.example " } else { b"" };
        let mk = |s: &[u8]| [pfx, s].concat();
        let kind = if rounds > 60 { 0 } else { c.rng.below(10) };
        match kind {
            0 | 1 => {
                // This mechanism failed; perhaps in the middle of a challenge.
                if c.rng.chance(1, 3) {
                    for _ in 0..c.rng.range(1, 2) {
                        let part: Vec<u8> = (0..300).map(|_| c.rng.byte()).collect();
                        let l = mk(&[b"AUTHENTICATE ".as_slice(), &b64(&part)].concat());
                        if !step(c, &mut cl, l, vec![], &m) {
                            bad = true;
                            break 'login;
                        }
                        c.ev("partial_challenges");
                    }
                }
                let why = c.rng.pick(&["SASL authentication failed", "no", "", "x :y"]).as_bytes();
                let num: &[u8] = if c.rng.chance(1, 4) { b"902 me :" } else { b"904 me :" };
                let want = m.fail(why);
                if !step(c, &mut cl, mk(&[num, why].concat()), want, &m) {
                    bad = true;
                    break;
                }
                c.ev("failures");
            }
            2 => {
                // The server says what it supports, and that this one failed.
                let mut list: BTreeSet<String> = ["PLAIN", "EXTERNAL", "TEST-A", "TEST-B", "X", "TEST-A-PLUS", "TEST", "XX", "SCRAM-SHA-256"].iter().filter(|_| c.rng.chance(3, 5)).map(|s| s.to_string()).collect();
                list.insert("OTHER".into());
                if c.rng.chance(1, 6) {
                    // Servers may know many.
                    list.extend((0..c.rng.range(1, 40)).map(|i| format!("M-{i}")));
                }
                let l: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
                m.mechs(&list);
                if !step(c, &mut cl, mk(format!("908 me {} :are available SASL mechanisms", l.join(",")).as_bytes()), vec![], &m) {
                    bad = true;
                    break;
                }
                c.ev("mechanism_lists");
                if m.end.is_none() && c.rng.coin() {
                    let want = m.fail(b"failed");
                    if !step(c, &mut cl, mk(b"904 me :failed"), want, &m) {
                        bad = true;
                        break;
                    }
                }
            }
            3 => {
                let reply: &[u8] = match c.rng.below(4) {
                    0 => b"907 me :You have already authenticated",
                    1 => b"900 me me!u@h acct :You are now logged in as acct",
                    _ => b"903 me :SASL authentication successful",
                };
                m.end = Some(End::Ok);
                if !step(c, &mut cl, mk(reply), vec![], &m) {
                    bad = true;
                    break;
                }
                c.ev("successes");
            }
            4 if c.rng.chance(1, 4) => {
                m.end = Some(End::Broken(None));
                if !step(c, &mut cl, mk(b"905 me :SASL message too long"), vec![], &m) {
                    bad = true;
                    break;
                }
                c.ev("too_long");
            }
            5 if c.rng.chance(1, 3) => {
                // Not base64.
                let mut junk = gen::word(&mut c.rng, 12);
                junk.retain(|b| (0x21..0x7f).contains(b) && *b != b':');
                junk.extend_from_slice(c.rng.pick(&["!", "=", "A=B", "*a", "A", "====="]).as_bytes());
                if unb64(&junk).is_some() || junk == b"+" || !gen::is_arg(&junk) {
                    continue;
                }
                if c.rng.coin() {
                    let part: Vec<u8> = (0..300).map(|_| c.rng.byte()).collect();
                    let l = mk(&[b"AUTHENTICATE ".as_slice(), &b64(&part)].concat());
                    if !step(c, &mut cl, l, vec![], &m) {
                        bad = true;
                        break;
                    }
                }
                m.end = Some(End::Broken(None));
                if !step(c, &mut cl, mk(&[b"AUTHENTICATE ".as_slice(), &junk].concat()), vec![b"AUTHENTICATE *".to_vec()], &m) {
                    bad = true;
                    break;
                }
                c.ev("not_base64");
            }
            _ => {
                // A challenge, in as many pieces as it takes.
                let data = if c.rng.chance(2, 3) { vec![] } else { payload(&mut c.rng) };
                let ls = chunks(&data);
                let n = ls.len();
                let mut aborted = false;
                for (i, l) in ls.into_iter().enumerate() {
                    let mut want = vec![];
                    if i + 1 == n {
                        (want, aborted) = m.challenge(&data);
                    }
                    // Both ways of writing the last argument are the same message.
                    let colon = c.rng.chance(1, 6);
                    let l = mk(&[if colon { b"AUTHENTICATE :".as_slice() } else { b"AUTHENTICATE " }, &l].concat());
                    if !step(c, &mut cl, l, want, &m) {
                        bad = true;
                        break 'login;
                    }
                    if i + 1 < n && c.rng.chance(1, 4) {
                        let l = noise(&mut c.rng);
                        if !step(c, &mut cl, l, vec![], &m) {
                            bad = true;
                            break 'login;
                        }
                    }
                }
                c.ev("challenges");
                if n > 1 {
                    c.ev("long_challenges");
                }
                if aborted && m.end.is_none() {
                    c.ev("aborts");
                    // The server confirms, then the next one starts.
                    let want = vec![auth(&m.cur.name)];
                    if !step(c, &mut cl, mk(b"906 me :SASL authentication aborted"), want, &m) {
                        bad = true;
                        break;
                    }
                }
            }
        }
    }
    if !bad {
        let got = rx.0.recv_now();
        if let Some(Err(e)) = &got {
            let text = e.to_string();
            let io = std::io::Error::from(e.clone());
            let (part, kind) = match e {
                HandlerError::Fail(l) => (l.to_utf8_lossy().into_owned(), std::io::ErrorKind::PermissionDenied),
                HandlerError::Broken(a) => (a.to_utf8_lossy().into_owned(), std::io::ErrorKind::InvalidData),
                HandlerError::Unsupported => (String::new(), std::io::ErrorKind::Unsupported),
            };
            ck!(c, !text.is_empty() && text.contains(&part), "error-text", "{e:?} is told as {text:?}");
            ck!(c, io.kind() == kind && io.to_string().contains(&part), "io-error", "{e:?} becomes {io:?}");
            c.ev("errors_told");
        }
        let got = match got {
            Some(Ok(())) => Some(End::Ok),
            Some(Err(HandlerError::Fail(l))) => Some(End::Fail(l.as_bytes().to_vec())),
            Some(Err(HandlerError::Broken(a))) => Some(End::Broken(Some(a.to_utf8_lossy().into_owned()))),
            Some(Err(HandlerError::Unsupported)) => Some(End::Unsupported),
            None => None,
        };
        let ok = match (&got, &m.end) {
            (Some(End::Broken(_)), Some(End::Broken(None))) => true,
            (a, b) => a == b,
        };
        ck!(c, ok, "result", "reported {got:?}, expected {:?}", m.end);
        let s = seen.lock().unwrap().clone();
        ck!(c, s == m.chals, "challenges", "mechanisms were given {:?}, server sent {:?}", s, m.chals);
        // It is over: nothing more is sent whatever else comes.
        for l in ["AUTHENTICATE +", ":irc.example 904 me :failed", ":irc.example 906 me :aborted"] {
            w.lock().unwrap().feed(vnow(), format!("{l}\r\n").as_bytes());
            let _ = drv.run(&mut cl, &w);
            let _ = drv.flush(&mut cl);
        }
        let l = lines(&w);
        ck!(c, l.is_empty(), "after", "sent after the login was over: {:?}", l.iter().map(|l| show(l)).collect::<Vec<_>>());
        match m.end {
            Some(End::Ok) => c.ev("ends_ok"),
            Some(End::Fail(_)) => c.ev("ends_fail"),
            Some(End::Broken(_)) => c.ev("ends_broken"),
            _ => c.ev("ends_unsupported"),
        }
        c.seen(&(h64(&trail), h64(&s)));
    }
    vclock_stop();
}

/// Constraining a login to supported mechanisms.
fn retain(c: &mut Case) {
    let seen = Seen::default();
    let mut mechs = vec![];
    let mut queue = SaslQueue::new();
    for id in 0..c.rng.range(1, 6) {
        let (s, m) = mech(&mut c.rng, id, &seen);
        queue.push(&*s);
        mechs.extend(m);
    }
    let names: Vec<String> = mechs.iter().map(|m| m.name.clone()).collect();
    if c.rng.coin() {
        // On the queue itself.
        let keep: BTreeSet<String> = names.iter().filter(|_| c.rng.coin()).cloned().collect();
        queue.retain(&|n| keep.contains(&n.to_string()));
        let want: Vec<_> = names.iter().filter(|n| keep.contains(*n)).cloned().collect();
        let mut got = vec![];
        while let Some(l) = queue.pop() {
            got.push(l.name().to_string());
        }
        ck!(c, got == want, "retain", "{names:?} kept {keep:?}: {got:?}");
        c.ev("queue_retains");
        return;
    }
    let Some(mut h) = Handler::from_queue(queue) else {
        ck!(c, names.is_empty(), "from-queue", "{names:?}");
        return;
    };
    let mut left: VecDeque<String> = names.into();
    let mut cur = left.pop_front().unwrap();
    for _ in 0..c.rng.range(1, 4) {
        let keep: BTreeSet<String> = left.iter().chain([&cur]).filter(|_| c.rng.chance(2, 3)).cloned().collect();
        left.retain(|n| keep.contains(n));
        let want = if keep.contains(&cur) {
            None
        } else if let Some(n) = left.pop_front() {
            cur = n;
            Some(true)
        } else {
            Some(false)
        };
        let got = h.retain(&|n| keep.contains(&n.to_string()));
        ckeq!(c, got, want, "retain", "keeping {keep:?}");
        let mut b = vec![];
        let _ = h.auth_msg().send_to(&mut b, &mut vec![]);
        if want != Some(false) {
            ck!(c, b == [&auth(&cur)[..], b"\r\n"].concat(), "auth-msg", "{} for {cur}", show(&b));
        }
        c.ev("retains");
        if want == Some(false) {
            break;
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("login", 400, 4000, login);
    ctx.run("retain", 60, 600, retain);
    for (k, n) in [
        ("messages", 1000),
        ("challenges", 300),
        ("long_challenges", 20),
        ("partial_challenges", 20),
        ("failures", 100),
        ("mechanism_lists", 30),
        ("aborts", 20),
        ("not_base64", 5),
        ("ends_ok", 30),
        ("ends_fail", 30),
        ("ends_broken", 20),
        ("ends_unsupported", 5),
        ("errors_told", 20),
        ("logins_from_one_sasl", 20),
        ("retains", 10),
    ] {
        ctx.require(k, n);
    }
}
