//! Released memory: an allocator that looks for pieces of secrets in every block it gets back.
use crate::infra::*;
use crate::props::c07::Pieces;
use crate::strm::{self, b64, Cell, Ty, S};
use crate::sys::*;
use std::borrow::Cow;
use std::sync::atomic::Ordering::*;
use vinezombie::client::auth::sasl::{Password, Plain};
use vinezombie::client::auth::{AnySasl, Clear, Handler, LoadSecret, Sasl, SaslLogic, SaslQueue, Secret};
use vinezombie::client::queue::Queue;
use vinezombie::client::register::Options;
use vinezombie::ircmsg::{Args, ClientMsg, MaybeCtcp, ServerMsg, Source, Tags};
use vinezombie::string::base64::ChunkEncoder;
use vinezombie::string::tf::{escape, unescape};
use vinezombie::string::*;

/// Bytes that no case mapping, escape or lossy decoding changes.
const PLAIN: &[u8] = b"0123456789-._+/$%*()<>?\"'";
/// What goes between them.
const ODD: &[&[u8]] = &[b"x", b"Y", b" ", b";", b"\\", b"\xff", "é".as_bytes(), b"{", b"[", b":", b"\x01", b"a", b"Q"];
/// A text whose pieces of eight are recognisable wherever they turn up.
fn secret(r: &mut Rng, parts: usize, odd: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..parts {
        if i > 0 || r.chance(1, 3) {
            v.extend_from_slice(odd[r.below(odd.len())]);
        }
        for _ in 0..r.range(8, 14) {
            v.push(PLAIN[r.below(PLAIN.len())]);
        }
    }
    v
}
struct Needles(Vec<[u8; NEEDLE]>);
impl Needles {
    fn of(secrets: &[&[u8]], base64: bool) -> Needles {
        let mut n: Vec<[u8; NEEDLE]> = vec![];
        for s in secrets {
            for w in s.windows(NEEDLE) {
                if w.iter().all(|b| PLAIN.contains(b)) {
                    n.push(w.try_into().unwrap());
                }
            }
            if base64 {
                for k in 0..3 {
                    let e = b64(&s[k..]);
                    let e = &e[..(e.len() / 4 - 1) * 4];
                    for w in e.windows(NEEDLE).step_by(3) {
                        n.push(w.try_into().unwrap());
                    }
                }
            }
        }
        // Too many: a spread of them, always with the first and the last.
        if n.len() > MAX_NEEDLES {
            let l = n.len();
            n = (0..MAX_NEEDLES).map(|i| n[i * (l - 1) / (MAX_NEEDLES - 1)]).collect();
        }
        Needles(n)
    }
    fn arm(&self) {
        unsafe {
            let first = &mut *std::ptr::addr_of_mut!(NEEDLE_FIRST);
            *first = [false; 256];
            for (i, n) in self.0.iter().enumerate() {
                *std::ptr::addr_of_mut!(NEEDLES[i]) = *n;
                first[n[0] as usize] = true;
            }
        }
        N_NEEDLES.store(self.0.len(), SeqCst);
        SCAN_HITS.store(0, SeqCst);
        SCANNED.store(0, SeqCst);
        SCAN_ON.store(true, SeqCst);
        scan_this_thread(true);
    }
}
fn disarm() {
    scan_this_thread(false);
    SCAN_ON.store(false, SeqCst);
}
/// Runs `f` with the scan on. `f` must keep its own copies of secrets from being freed, and
/// reports what it is doing through the log.
struct Log(Vec<&'static str>, Option<usize>);
impl Log {
    fn at(&mut self, what: &'static str) {
        self.settle();
        if self.0.len() < self.0.capacity() {
            self.0.push(what);
        }
    }
    fn settle(&mut self) {
        if self.1.is_none() && SCAN_HITS.load(SeqCst) > 0 {
            self.1 = Some(self.0.len());
        }
    }
}
fn watch(c: &mut Case, needles: &Needles, f: impl FnOnce(&mut Rng, &mut Log)) {
    let mut log = Log(Vec::with_capacity(256), None);
    let mut r = c.rng.clone();
    needles.arm();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, &mut log)));
    log.settle();
    disarm();
    c.evn("blocks_scanned", SCANNED.load(SeqCst));
    c.evn("needles", needles.0.len() as u64);
    c.evn("steps", log.0.len() as u64);
    c.desc = log.0.join(" ");
    if let Err(e) = res {
        std::panic::resume_unwind(e);
    }
    let hits = SCAN_HITS.load(SeqCst);
    if hits > 0 {
        let k = HIT_NEEDLE.load(SeqCst);
        let end = log.1.unwrap_or(log.0.len());
        c.fail(
            &format!("unwiped-{}", log.0[..end].last().unwrap_or(&"-")),
            format!("{hits} released block(s) hold part of a secret (one of {} bytes holds {}), the first released during: {}", HIT_LEN.load(SeqCst), show(&needles.0[k.min(needles.0.len() - 1)]), log.0[..end].last().unwrap_or(&"-")),
        );
    }
    c.seen(&(log.0.clone(), h64(&needles.0)));
}
fn wipe(mut v: Vec<u8>) {
    for b in v.spare_capacity_mut() {
        b.write(0);
    }
    v.fill(0);
    std::hint::black_box(&mut v);
}

// ---------------------------------------------------------------- buffers
fn buffers(c: &mut Case) {
    let n = if c.rng.chance(1, 10) { 60 } else { c.rng.range(1, 5) };
    let secrets: Vec<Vec<u8>> = (0..4).map(|_| secret(&mut c.rng, n, ODD)).collect();
    let refs: Vec<&[u8]> = secrets.iter().map(|v| &v[..]).collect();
    let needles = Needles::of(&refs, false);
    let steps = c.rng.range(3, 40);
    watch(c, &needles, |r, log| {
        let mut pool: Vec<SecretBuf> = Vec::with_capacity(64);
        for _ in 0..steps {
            let i = r.below(pool.len().max(1));
            let s = &secrets[r.below(4)];
            let op = if pool.is_empty() { r.below(4) } else { r.below(18) };
            match op {
                0 => {
                    log.at("with_capacity");
                    pool.push(SecretBuf::with_capacity(r.below(40)));
                }
                1 => {
                    log.at("from_vec");
                    let mut v = Vec::with_capacity(s.len() + r.below(20));
                    v.extend_from_slice(s);
                    pool.push(v.into());
                }
                2 => {
                    log.at("collect");
                    pool.push(match r.below(4) {
                        3 => {
                            let mut i = 0;
                            std::iter::from_fn(|| {
                                i += 1;
                                s.get(i - 1).copied()
                            })
                            .collect()
                        }
                        0 => s.iter().copied().collect(),
                        1 => s.iter().copied().filter(|_| true).collect(),
                        _ => s.iter().copied().chain(std::iter::from_fn(|| None)).collect(),
                    });
                }
                3 => {
                    log.at("default");
                    pool.push(SecretBuf::default());
                }
                4 => {
                    log.at("reserve");
                    let n = r.below(60);
                    pool[i].reserve(n);
                }
                5 | 6 => {
                    log.at("push");
                    let e = r.below(10);
                    for b in s {
                        pool[i].push(*b, e);
                    }
                }
                7 => {
                    log.at("push_cstr");
                    pool[i].push_cstr(s);
                }
                8 => {
                    log.at("push_slice");
                    pool[i].push_slice(s);
                }
                9 | 10 => {
                    log.at("read_from");
                    let ask = r.below(80);
                    let fail = r.chance(1, 2).then(|| r.below(3));
                    let step = r.below(20) as u64;
                    let _ = pool[i].read_from(ask, &mut Pieces(s, step, fail));
                }
                11 => {
                    log.at("clear");
                    pool[i].clear();
                }
                12 => {
                    log.at("clone");
                    if pool.len() < 60 {
                        let b = pool[i].clone();
                        pool.push(b);
                    }
                }
                13 => {
                    log.at("drop");
                    pool.swap_remove(i);
                }
                14 | 15 => {
                    log.at("into_bytes");
                    let b = pool.swap_remove(i).into_bytes();
                    let d = b.clone();
                    drop(b);
                    drop(d);
                }
                16 => {
                    log.at("as_bytes");
                    let b = pool[i].as_bytes().owning();
                    drop(b);
                }
                _ => {
                    log.at("replace");
                    let b = pool.swap_remove(i);
                    let j = r.below(pool.len().max(1));
                    if pool.is_empty() {
                        pool.push(b);
                    } else {
                        pool[j] = b;
                    }
                }
            }
        }
        log.at("end");
    });
    c.ev("buffer_histories");
}

// ---------------------------------------------------------------- strings
struct H<'a> {
    s: S<'a>,
    /// A handle that is not secret itself but shares its memory with one that is.
    plain: bool,
}
fn strings(c: &mut Case) {
    let n = c.rng.range(1, 4);
    let odd: Vec<&[u8]> = match c.rng.below(3) {
        0 => vec![b"x", b"Y", b"Q"],
        1 => vec![b"x", b"Y", b"{", b"[", b"\\", b";", b":"],
        _ => ODD.to_vec(),
    };
    let secrets: Vec<Vec<u8>> = (0..3).map(|_| secret(&mut c.rng, n, &odd)).collect();
    let refs: Vec<&[u8]> = secrets.iter().map(|v| &v[..]).collect();
    let needles = Needles::of(&refs, true);
    let steps = c.rng.range(3, 50);
    watch(c, &needles, |r, log| {
        let mut pool: Vec<H<'_>> = Vec::with_capacity(64);
        let mut q = Queue::new();
        q.set_rate_limit(std::time::Duration::from_secs(1), 1);
        for _ in 0..steps {
            if pool.len() > 40 {
                log.at("clear");
                pool.clear();
            }
            let i = r.below(pool.len().max(1));
            let src = &secrets[r.below(3)];
            let op = if pool.is_empty() { r.below(4) } else { r.below(26) };
            let push = |pool: &mut Vec<H<'_>>, s: Bytes<'static>| pool.push(H { s: S::Bytes(s), plain: false });
            match op {
                0 => {
                    log.at("from_secret");
                    let mut v = Vec::with_capacity(src.len() + r.below(9));
                    v.extend_from_slice(src);
                    let ty = strm::TYS[r.below(10)];
                    if let Some(s) = strm::of_secret(v, ty) {
                        pool.push(H { s, plain: false });
                    }
                }
                1 => {
                    log.at("mark");
                    let b = Bytes::from(src.to_vec());
                    let p = b.clone();
                    let s = b.secret();
                    pool.push(H { s: S::Bytes(s), plain: false });
                    pool.push(H { s: S::Bytes(p), plain: true });
                }
                2 => {
                    log.at("borrow");
                    pool.push(H { s: S::Bytes(Bytes::from_bytes(src).secret()), plain: false });
                }
                3 => {
                    log.at("collect");
                    push(&mut pool, src.iter().copied().collect::<SecretBuf>().into_bytes());
                }
                4 | 5 => {
                    log.at("clone");
                    let h = H { s: pool[i].s.clone(), plain: pool[i].plain };
                    pool.push(h);
                }
                6 => {
                    log.at("drop");
                    pool.swap_remove(i);
                }
                7 => {
                    log.at("owning");
                    let H { s, plain } = pool.swap_remove(i);
                    pool.push(H { s: s.owning(), plain });
                }
                8 => {
                    log.at("into_vec");
                    let v = pool.swap_remove(i).s.into_vec();
                    wipe(v);
                }
                9 => {
                    log.at("into_cow");
                    let v: Cow<'_, [u8]> = pool.swap_remove(i).s.into_bytes().into();
                    if let Cow::Owned(v) = v {
                        wipe(v);
                    }
                }
                10 => {
                    log.at("convert");
                    let H { s, plain } = pool.swap_remove(i);
                    let ty = strm::TYS[r.below(10)];
                    if let Some(s) = strm::of_bytes(s.into_bytes(), ty) {
                        pool.push(H { s, plain });
                    }
                }
                11 => {
                    log.at("split");
                    let h = &pool[i];
                    let (n, at) = (h.s.raw().len(), r.below(h.s.raw().len() + 1));
                    let mut sp = Splitter::new(h.s.as_b().clone());
                    for _ in 0..at {
                        sp.next_byte();
                    }
                    let plain = h.plain;
                    if r.coin() && n > at {
                        sp.until_count(r.below(n - at + 1));
                    }
                    let s = sp.rest::<Bytes>().unwrap();
                    if r.coin() {
                        pool[i] = H { s: S::Bytes(s), plain };
                    } else {
                        pool.push(H { s: S::Bytes(s), plain });
                    }
                }
                12 => {
                    log.at("mark-again");
                    let H { s, .. } = pool.swap_remove(i);
                    pool.push(H { s: s.secret(), plain: false });
                }
                // What follows makes new memory, which is only secret when the handle is.
                _ if pool[i].plain => {}
                13..=15 => {
                    log.at("transform");
                    let H { s, .. } = pool.swap_remove(i);
                    let mut x = Cell { s, m: Vec::new(), secret: true };
                    strm::transform(&mut x, r.below(9));
                    pool.push(H { s: x.s, plain: false });
                }
                16 => {
                    log.at("escape");
                    if let Ok(v) = NoNul::from_bytes(pool[i].s.as_b().clone()) {
                        let e = escape(v).into_bytes();
                        pool.push(H { s: S::Bytes(e), plain: false });
                    }
                }
                17 => {
                    log.at("unescape");
                    if let Ok(v) = NoNul::from_bytes(pool[i].s.as_b().clone()) {
                        let e = unescape(v).into_bytes();
                        pool.push(H { s: S::Bytes(e), plain: false });
                    }
                }
                18 => {
                    log.at("lossy");
                    let H { s, .. } = pool.swap_remove(i);
                    pool.push(H { s: S::Bytes(s.into_bytes().into_utf8_lossy()), plain: false });
                }
                19 => {
                    log.at("base64");
                    let w = if r.coin() { pool[i].s.as_b().to_base64().into_bytes() } else { pool[i].s.as_b().to_base64_plus().into_bytes() };
                    push(&mut pool, w);
                }
                20 => {
                    log.at("chunks");
                    let max = r.range(1, 60);
                    let e = ChunkEncoder::new(pool[i].s.raw(), max, true);
                    let k = r.below(5);
                    for (j, x) in e.clone().enumerate() {
                        if j >= k && pool.len() < 50 {
                            push(&mut pool, x.into_bytes());
                        }
                    }
                }
                21 => {
                    log.at("message");
                    if let Ok(l) = Line::from_bytes(pool[i].s.as_b().clone().owning()) {
                        let mut m = ClientMsg::new(vinezombie::names::cmd::PRIVMSG);
                        if r.coin() {
                            m.args.edit().add_literal("x");
                        }
                        m.args.edit().add(l);
                        if let Ok(v) = NoNul::from_bytes(pool[i].s.as_b().clone().owning()) {
                            m.tags.edit().insert_pair(Key::from_str("k"), v);
                        }
                        let n = m.clone();
                        let o = m.owning();
                        if r.coin() {
                            q.edit().push(o);
                        }
                        drop(n);
                    }
                }
                22 => {
                    log.at("parse-message");
                    let b = Bytes::from_secret([b"@k=".as_slice(), src, b" :n!u@h NOTICE x :", src].concat());
                    if let Ok(m) = ServerMsg::parse(b) {
                        let m2 = m.clone().owning();
                        drop(m);
                        drop(m2);
                    }
                }
                23 => {
                    log.at("parse-parts");
                    if let Ok(l) = Line::from_bytes(pool[i].s.as_b().clone()) {
                        let a = Args::parse(l.clone());
                        let a2 = a.clone().owning();
                        drop(a);
                        let ct = MaybeCtcp::parse(l.clone());
                        drop(ct);
                        drop(a2);
                    }
                    if let Ok(w) = Word::from_bytes(pool[i].s.as_b().clone()) {
                        let t = Tags::parse(w.clone());
                        drop(t.clone().owning());
                        drop(t);
                        if let Ok(s) = Source::parse(w) {
                            drop(s.clone().owning());
                        }
                    }
                }
                24 => {
                    log.at("queue");
                    if r.coin() {
                        q.edit().clear();
                    } else {
                        let m = q.pop(|_| ());
                        drop(m);
                    }
                }
                _ => {
                    log.at("config");
                    if let Ok(v) = NoNul::from_bytes(pool[i].s.as_b().clone()) {
                        let sec: Secret<NoNul<'static>, Clear> = Secret::new(v.owning());
                        let p = Password::new(NoNul::from_str("me"), sec.clone());
                        let mut o: Options<Clear, AnySasl<Clear>> = Options::new();
                        o.add_sasl(p.clone());
                        if let Ok(l) = Line::from_bytes(pool[i].s.as_b().clone().owning()) {
                            let _ = o.set_pass(l);
                        }
                        let o2 = o.clone();
                        drop(o);
                        drop(o2);
                    }
                    let ld = Secret::<Arg<'static>, Clear>::load(Clear(src.iter().copied().collect()));
                    drop(ld);
                }
            }
        }
        log.at("end");
        drop(q);
        if r.coin() {
            pool.reverse();
        }
    });
    c.ev("string_histories");
}

// ---------------------------------------------------------------- logins
struct Two(Vec<u8>, usize, bool);
impl SaslLogic for Two {
    fn name(&self) -> Arg<'static> {
        Arg::from_str("TWO")
    }
    fn reply(&mut self, _: &[u8], out: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        self.1 += 1;
        out.push_slice(&self.0);
        if self.1 > 2 && self.2 {
            return Err("no".into());
        }
        Ok(())
    }
    fn size_hint(&self) -> usize {
        self.1 * 10
    }
}
impl Drop for Two {
    fn drop(&mut self) {
        wipe(std::mem::take(&mut self.0));
    }
}
struct TwoCfg<'a>(&'a [u8], bool);
impl Sasl for TwoCfg<'_> {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        vec![Box::new(Two(self.0.to_vec(), 0, self.1))]
    }
}
fn logins(c: &mut Case) {
    let parts = c.rng.pickv(&[1usize, 2, 4, 25, 60]);
    let secrets: Vec<Vec<u8>> = (0..3).map(|_| secret(&mut c.rng, parts, &[b"x", b"Y", b" ", b"\xff"])).collect();
    // The payloads, in the three alignments they may have in base64.
    let refs: Vec<&[u8]> = secrets.iter().map(|v| &v[..]).collect();
    let needles = Needles::of(&refs, true);
    watch(c, &needles, |r, log| {
        let mut q = SaslQueue::new();
        for s in &secrets {
            let how = r.below(4);
            let nn = |v: &[u8]| NoNul::from_bytes(Bytes::from_secret(v.to_vec())).unwrap();
            let sec: Secret<NoNul<'static>, Clear> = if r.coin() { Secret::new(nn(s)) } else { Secret::load(Clear(s.iter().copied().collect())).unwrap() };
            let z = r.coin();
            log.at("logic");
            match how {
                0 => {
                    let mut p = Plain::new(NoNul::from_str("acct"), sec);
                    if z {
                        p.authzid = NoNul::from_str("zz");
                    }
                    q.push(&p);
                    if r.coin() {
                        drop(p.logic());
                    }
                }
                1 | 2 => {
                    let mut p = Password::new(NoNul::from_str("acct"), sec);
                    if z {
                        p.authzid = NoNul::from_str("zz");
                    }
                    if how == 1 {
                        q.push(&p);
                    } else {
                        q.push(&AnySasl::from(p));
                    }
                }
                _ => q.push(&TwoCfg(s, r.coin())),
            }
        }
        let Some(mut h) = Handler::from_queue(q) else { return };
        let mut out: Vec<ClientMsg<'static>> = Vec::with_capacity(64);
        for _ in 0..r.range(1, 10) {
            let l: &[u8] = match r.below(8) {
                0..=3 => {
                    log.at("challenge");
                    b"AUTHENTICATE +"
                }
                4 => {
                    log.at("challenge-data");
                    b"AUTHENTICATE Zm9v"
                }
                5 => {
                    log.at("904");
                    b":s 904 * :no"
                }
                6 => {
                    log.at("906");
                    b":s 906 * :aborted"
                }
                _ => {
                    log.at("908");
                    b":s 908 * TWO :are the mechanisms"
                }
            };
            let m = ServerMsg::parse(Bytes::from_bytes(l)).unwrap();
            let e = h.handle(&m, |m: ClientMsg<'static>| {
                if out.len() < 60 {
                    out.push(m)
                }
            });
            if r.coin() {
                log.at("sent");
                out.clear();
            }
            if e.is_err() {
                break;
            }
        }
        log.at("end");
        drop(h);
        log.at("messages-end");
        drop(out);
    });
    c.ev("logins");
}

// ---------------------------------------------------------------- threads
fn threads(c: &mut Case) {
    let s = secret(&mut c.rng, 3, ODD);
    let needles = Needles::of(&[&s], false);
    let n = c.rng.range(2, 4);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.next()).collect();
    watch(c, &needles, |r, log| {
        log.at("threads");
        let b = if r.coin() { Bytes::from_secret(s.clone()) } else { Bytes::from(s.clone()) };
        let gate = std::sync::Barrier::new(n);
        let any = !b.is_secret();
        std::thread::scope(|sc| {
            for (k, seed) in seeds.iter().enumerate() {
                let mut h = b.clone();
                let gate = &gate;
                sc.spawn(move || {
                    scan_this_thread(true);
                    let mut r = Rng::new(*seed);
                    gate.wait();
                    if any && k == 0 {
                        h = h.secret();
                    }
                    if h.is_secret() && r.coin() {
                        h.transform(vinezombie::string::tf::AsciiCasemap::<true>);
                    }
                    let d = h.clone();
                    match r.below(3) {
                        0 => drop(h),
                        1 => wipe(h.into_vec()),
                        _ => {
                            let mut sp = Splitter::new(h);
                            for _ in 0..r.below(10) {
                                sp.next_byte();
                            }
                            drop(sp);
                        }
                    }
                    drop(d);
                    scan_this_thread(false);
                });
            }
            drop(b);
        });
    });
    c.ev("thread_histories");
}
/// The scan itself finds what is left behind.
fn selftest(c: &mut Case) {
    let s = secret(&mut c.rng, 2, ODD);
    let needles = Needles::of(&[&s], true);
    needles.arm();
    let v = s.clone();
    drop(std::hint::black_box(v));
    let a = SCAN_HITS.load(SeqCst);
    let e = Bytes::from_bytes(&s).to_base64();
    drop(e);
    let b = SCAN_HITS.load(SeqCst);
    disarm();
    ck!(c, a == 1 && b == 2, "blind", "the scan saw {a} and {b} blocks");
    c.ev("selftests");
}

// ---------------------------------------------------------------- loading
thread_local! { static TO_LOAD: std::cell::RefCell<Vec<Load>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// A secret that comes in pieces, or not at all.
struct Load {
    data: Vec<u8>,
    hint: usize,
    piece: usize,
    how: usize,
    /// Fails after so many pieces.
    fail: Option<usize>,
}
impl Drop for Load {
    fn drop(&mut self) {
        wipe(std::mem::take(&mut self.data));
    }
}
impl LoadSecret for Load {
    fn size_hint(&self) -> usize {
        self.hint
    }
    fn load_secret(self, out: &mut SecretBuf) -> std::io::Result<()> {
        for (i, p) in self.data.chunks(self.piece).enumerate() {
            if self.fail == Some(i) {
                return Err(std::io::Error::other("gone"));
            }
            match self.how {
                0 => out.push_slice(p),
                1 => p.iter().for_each(|b| out.push(*b, 0)),
                2 => {
                    out.read_from(p.len(), &mut &p[..])?;
                }
                _ => {
                    out.reserve(p.len() * 3);
                    out.push_slice(p);
                }
            }
        }
        Ok(())
    }
}
impl<'de> serde::Deserialize<'de> for Load {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u8::deserialize(d)?;
        Ok(TO_LOAD.with(|t| t.borrow_mut().pop()).expect("nothing to load"))
    }
}
fn loaders(c: &mut Case) {
    let parts = c.rng.pickv(&[1usize, 2, 4, 25, 60, 300]);
    let s = secret(&mut c.rng, parts, &[b"x", b"Y", b"\xff", b"\0", b"\n", b" "]);
    let needles = Needles::of(&[&s], false);
    let mut out = [0usize; 2];
    let mut wrong: Option<&'static str> = None;
    watch(c, &needles, |r, log| {
        TO_LOAD.with(|t| t.borrow_mut().reserve(4));
        for _ in 0..r.range(1, 6) {
            let make = |r: &mut Rng| Load {
                data: s.clone(),
                hint: r.pickv(&[0, 1, 7, 32, 64, 4096]),
                piece: r.pickv(&[1, 3, 8, 16, 50, 100_000]),
                how: r.below(4),
                fail: if r.chance(1, 4) { Some(r.below(9)) } else { None },
            };
            macro_rules! one {
                ($t:ident $bad:literal) => {{
                    let l = make(r);
                    let fails = l.fail.is_some_and(|n| n < l.data.chunks(l.piece).len());
                    let got: Option<$t<'static>> = if r.coin() {
                        log.at("load");
                        Secret::<$t<'static>, Load>::load(l).ok().map(Secret::into_inner)
                    } else {
                        log.at("load-serde");
                        TO_LOAD.with(|t| t.borrow_mut().push(l));
                        serde_json::from_str::<Secret<$t<'static>, Load>>("1").ok().map(Secret::into_inner)
                    };
                    let fits = !s.iter().any(|b| $bad.contains(b));
                    out[got.is_some() as usize] += 1;
                    match got {
                        Some(g) if fails || !fits => {
                            wrong = Some("loaded what could not be");
                            drop(g)
                        }
                        Some(g) => {
                            if *g != *s || !g.is_secret() {
                                wrong = Some("loaded something else");
                            }
                            let h = g.clone();
                            drop(g);
                            drop(h);
                        }
                        None if !fails && fits => wrong = Some("did not load"),
                        None => (),
                    }
                }};
            }
            match r.below(5) {
                0 => one!(Bytes b""),
                1 => one!(NoNul b"\0"),
                2 => one!(Line b"\0\n"),
                3 => one!(Word b"\0\n "),
                _ => {
                    log.at("options");
                    // Malformed text names no secret: what was decoded of it before the error is
                    // no value to be wiped, so it is malformed from the start.
                    let mut e = String::from_utf8(b64(&s)).unwrap();
                    if r.coin() {
                        e.insert_str(0, "!!!!");
                    }
                    let j = format!("{{\"pass\":\"{e}\",\"sasl\":[{{\"Password\":{{\"authcid\":\"me\",\"passwd\":\"{e}\"}}}}]}}");
                    let o = serde_json::from_str::<Options<Clear>>(&j);
                    log.at("options-end");
                    drop(o);
                }
            }
        }
        log.at("end");
    });
    if let Some(w) = wrong {
        c.fail("load", w);
    }
    c.evn("loaded", out[1] as u64);
    c.evn("load_failed", out[0] as u64);
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("loaders", 300, 3000, loaders);
    ctx.require("loaded", 30);
    ctx.require("load_failed", 10);
    ctx.run_all("selftest", 8, selftest);
    ctx.run("buffers", 1000, 8000, buffers);
    ctx.run("strings", 1000, 8000, strings);
    ctx.run("logins", 300, 2000, logins);
    ctx.run("threads", 100, 1000, threads);
    ctx.require("buffer_histories", 100);
    ctx.require("string_histories", 100);
    ctx.require("logins", 30);
    ctx.require("blocks_scanned", 1000);
}
