//! One-shot channels: exactly-once delivery under concurrent sends, clones, polls and drops.
use crate::infra::*;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{mpsc, Arc};
use vinezombie::client::channel::{oneshot, parker, ChannelSpec, Sender as _, Sent, SyncChannels};

pub struct Shared {
    drops: Vec<AtomicUsize>,
    gone: Vec<AtomicBool>,
    sent: AtomicBool,
    rgone: AtomicBool,
    gate: AtomicUsize,
}
struct Tok {
    id: usize,
    data: Box<[u8]>,
    sh: Arc<Shared>,
}
impl Tok {
    fn new(id: usize, sh: &Arc<Shared>) -> Tok {
        Tok { id, data: vec![id as u8 ^ 0x5a; 24 + id].into(), sh: sh.clone() }
    }
    fn ok(&self) -> bool {
        self.data.len() == 24 + self.id && self.data.iter().all(|b| *b == self.id as u8 ^ 0x5a)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.data.fill(0xEE);
        self.sh.drops[self.id].fetch_add(1, SeqCst);
    }
}
enum Snd {
    Raw(oneshot::Sender<Tok>),
    Opt(Option<oneshot::Sender<Tok>>),
    Unp(parker::Unparker<Option<oneshot::Sender<Tok>>>),
    Dyn(Box<dyn vinezombie::client::channel::Sender<Value = Tok> + Send>),
}
impl Snd {
    fn dup(&self) -> Option<Snd> {
        Some(match self {
            Snd::Raw(s) => Snd::Raw(s.clone()),
            Snd::Opt(s) => Snd::Opt(s.clone()),
            Snd::Unp(s) => Snd::Unp(s.clone()),
            Snd::Dyn(_) => return None,
        })
    }
    /// true: sending is guaranteed to fail.
    fn closed(&self) -> bool {
        match self {
            Snd::Raw(s) => s.is_closed(),
            Snd::Opt(s) => !s.may_send(),
            Snd::Unp(s) => !s.may_send(),
            Snd::Dyn(s) => !s.may_send(),
        }
    }
    /// Whether the send claims success, and what it gave back.
    fn send(self, t: Tok) -> (bool, Option<Tok>) {
        fn r(x: ControlFlow<Sent>) -> bool {
            match x {
                ControlFlow::Continue(()) | ControlFlow::Break(Sent::Ok) => true,
                ControlFlow::Break(Sent::Closed) => false,
            }
        }
        match self {
            Snd::Raw(s) => match s.send(t) {
                Ok(()) => (true, None),
                Err(t) => (false, Some(t)),
            },
            Snd::Opt(mut s) => (r(s.send(t)), None),
            Snd::Unp(mut s) => (r(s.send(t)), None),
            Snd::Dyn(mut s) => (r(s.send(t)), None),
        }
    }
}
pub fn spin(r: &mut Rng) {
    match r.below(5) {
        0 => (),
        1 => std::thread::yield_now(),
        _ => {
            let m = r.pickv(&[4usize, 40, 400, 2000]);
            let n = r.below(if cfg!(miri) { 6 } else { m });
            for _ in 0..n {
                std::hint::spin_loop();
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        }
    }
}
pub fn gate(sh: &AtomicUsize, n: usize) {
    sh.fetch_add(1, SeqCst);
    let mut k = 0u32;
    while sh.load(SeqCst) < n {
        k += 1;
        if cfg!(miri) || k > 2000 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}
type Bad = Vec<(&'static str, String)>;
#[derive(Default)]
struct SOut {
    oks: Vec<usize>,
    sends: usize,
    bad: Bad,
    ops: Vec<u8>,
}
/// Uses up one handle: `slot` is its index in `gone`, `id` the token it may send.
fn sender(r: &mut Rng, sh: &Arc<Shared>, mut h: Vec<(Snd, usize)>, o: &mut SOut) {
    while let Some((s, id)) = h.pop() {
        spin(r);
        let mut known_closed = false;
        for _ in 0..r.below(3) {
            o.ops.push(1);
            let rg = sh.rgone.load(SeqCst) || sh.sent.load(SeqCst);
            let cl = s.closed();
            if rg && !cl {
                o.bad.push(("closed-unnoticed", format!("handle {id} does not see that the channel is closed")));
            }
            known_closed |= cl;
            spin(r);
        }
        if r.chance(1, 4) {
            // A clone that comes and goes.
            o.ops.push(2);
            drop(s.dup());
        }
        let act = r.below(5);
        o.ops.push(3 + act as u8);
        if act < 3 {
            let t = Tok::new(id, sh);
            let must_fail = sh.rgone.load(SeqCst) || sh.sent.load(SeqCst) || known_closed;
            o.sends += 1;
            sh.gone[id].store(true, SeqCst);
            let (ok, back) = s.send(t);
            if ok {
                sh.sent.store(true, SeqCst);
                o.oks.push(id);
                if must_fail {
                    o.bad.push(("send-after-close", format!("handle {id} sent on a closed channel")));
                }
            }
            if let Some(b) = back {
                if b.id != id || !b.ok() {
                    o.bad.push(("wrong-value-back", format!("handle {id} got {} back", b.id)));
                }
            }
        } else {
            sh.gone[id].store(true, SeqCst);
            drop(s);
        }
    }
}
#[derive(Default)]
struct ROut {
    got: Option<usize>,
    consumed: bool,
    blocking: bool,
    bad: Bad,
    ops: Vec<u8>,
}
fn receiver(r: &mut Rng, sh: &Arc<Shared>, rx: oneshot::Receiver<Tok>, pk: Option<parker::Parker>, o: &mut ROut) {
    spin(r);
    let mut seen = None;
    for _ in 0..r.below(4) {
        o.ops.push(1);
        let sent = sh.sent.load(SeqCst);
        let empty = rx.is_empty();
        if sent && empty {
            o.bad.push(("sent-unnoticed", "the receiver does not see a completed send".into()));
        }
        match rx.peek() {
            Some(t) => {
                if !t.ok() || seen.is_some_and(|s| s != t.id) {
                    o.bad.push(("peek", format!("token {}", t.id)));
                }
                seen = Some(t.id);
            }
            None => {
                if !empty || seen.is_some() {
                    o.bad.push(("peek", "nothing to peek at although not empty".into()));
                }
            }
        }
        spin(r);
    }
    let act = r.below(6);
    o.ops.push(2 + act as u8);
    let v = match (act, pk) {
        (0, _) => {
            drop(rx);
            sh.rgone.store(true, SeqCst);
            return;
        }
        (1 | 2, _) | (_, None) => {
            let v = rx.recv_now();
            sh.rgone.store(true, SeqCst);
            v
        }
        (_, Some(p)) => {
            o.blocking = true;
            let v = rx.recv(&p);
            if v.is_none() {
                for (i, g) in sh.gone.iter().enumerate() {
                    if !g.load(SeqCst) {
                        o.bad.push(("closed-early", format!("reported closed while handle {i} was still there")));
                    }
                }
            }
            sh.rgone.store(true, SeqCst);
            v
        }
    };
    o.consumed = true;
    if let Some(t) = v {
        if !t.ok() || seen.is_some_and(|s| s != t.id) {
            o.bad.push(("value", format!("token {} damaged or not the one seen before", t.id)));
        }
        o.got = Some(t.id);
    } else if seen.is_some() {
        o.bad.push(("lost", "a value seen before was not received".into()));
    }
}
fn make(r: &mut Rng) -> (Snd, oneshot::Receiver<Tok>, Option<parker::Parker>) {
    match r.below(8) {
        0 => {
            let (s, (rx, p)) = SyncChannels.new_oneshot::<Tok>();
            (Snd::Dyn(s), rx, Some(p))
        }
        1 | 2 => {
            let (s, rx) = oneshot::channel();
            (Snd::Raw(s), rx, None)
        }
        3 => {
            let (s, rx) = oneshot::channel();
            (Snd::Opt(Some(s)), rx, None)
        }
        _ => {
            let (s, rx) = oneshot::channel();
            let (u, p) = parker::new(Some(s));
            (Snd::Unp(u), rx, Some(p))
        }
    }
}
fn concurrent(c: &mut Case) {
    let nthreads = if cfg!(miri) { c.rng.range(1, 2) } else { c.rng.range(1, 3) };
    let (first, rx, pk) = make(&mut c.rng);
    let mut per: Vec<Vec<(Snd, usize)>> = (0..nthreads).map(|_| vec![]).collect();
    let mut n = 0;
    for (t, l) in per.iter_mut().enumerate() {
        for _ in 0..c.rng.range(1, 2) {
            if t == 0 && l.is_empty() {
                continue;
            }
            if let Some(s) = first.dup() {
                l.push((s, n + 1));
                n += 1;
            }
        }
    }
    per[0].insert(0, (first, 0));
    n += 1;
    let sh = Arc::new(Shared {
        drops: (0..n).map(|_| AtomicUsize::new(0)).collect(),
        gone: (0..n).map(|_| AtomicBool::new(false)).collect(),
        sent: AtomicBool::new(false),
        rgone: AtomicBool::new(false),
        gate: AtomicUsize::new(0),
    });
    let total = nthreads + 1;
    c.desc = format!("{n} handles on {nthreads} threads");
    let mut hs = vec![];
    let rthread = {
        let (sh, mut r) = (sh.clone(), Rng::new(c.rng.next()));
        let (tx, done) = mpsc::channel();
        let j = std::thread::spawn(move || {
            let mut o = ROut::default();
            gate(&sh.gate, total);
            receiver(&mut r, &sh, rx, pk, &mut o);
            let _ = tx.send(());
            o
        });
        (j, done)
    };
    for h in per {
        let (sh, mut r) = (sh.clone(), Rng::new(c.rng.next()));
        hs.push(std::thread::spawn(move || {
            let mut o = SOut::default();
            gate(&sh.gate, total);
            sender(&mut r, &sh, h, &mut o);
            o
        }));
    }
    let mut outs = vec![];
    for h in hs {
        match h.join() {
            Ok(o) => outs.push(o),
            Err(_) => return c.fail("panic", "a sender thread panicked"),
        }
    }
    // Every sender is gone: the receiver has no reason to wait any longer.
    if !cfg!(miri) && rthread.1.recv_timeout(std::time::Duration::from_secs(30)).is_err() && !rthread.0.is_finished() {
        return c.fail("receiver-stuck", "still waiting 30 s after every sender was gone");
    }
    let ro = match rthread.0.join() {
        Ok(o) => o,
        Err(_) => return c.fail("panic", "the receiver thread panicked"),
    };
    judge(c, &sh, n, outs, ro);
}
fn judge(c: &mut Case, sh: &Arc<Shared>, n: usize, outs: Vec<SOut>, ro: ROut) {
    let oks: Vec<usize> = outs.iter().flat_map(|o| o.oks.clone()).collect();
    let sends: usize = outs.iter().map(|o| o.sends).sum();
    ck!(c, oks.len() <= 1, "sent-twice", "sends {oks:?} all report success");
    if ro.consumed {
        ckeq!(c, ro.got, oks.first().copied(), "delivery", "received vs reported as sent");
    }
    let mut dropped = 0;
    for i in 0..n {
        let d = sh.drops[i].load(SeqCst);
        ck!(c, d <= 1, "double-drop", "value {i} dropped {d} times");
        dropped += d;
    }
    ckeq!(c, dropped, sends, "leaked-value", "values dropped vs made");
    let mut ops: Vec<Vec<u8>> = vec![ro.ops.clone()];
    for o in outs.iter() {
        ops.push(o.ops.clone());
        for (s, d) in &o.bad {
            c.fail(s, d.clone());
        }
    }
    for (s, d) in &ro.bad {
        c.fail(s, d.clone());
    }
    c.ev("concurrent");
    c.evn("sends", sends as u64);
    match (ro.got.is_some(), ro.blocking, ro.consumed) {
        (true, true, _) => c.ev("received_blocking"),
        (true, false, _) => c.ev("received_now"),
        (false, true, _) => c.ev("closed_blocking"),
        (false, false, true) => c.ev("nothing_now"),
        _ => c.ev("receiver_dropped"),
    }
    if !oks.is_empty() && !ro.consumed {
        c.ev("dropped_in_transit");
    }
    c.seen(&(ops, ro.got, oks));
}
/// Everything on one thread, in any order, against an exact model.
fn sequential(c: &mut Case) {
    let (s, rx, pk) = make(&mut c.rng);
    let n = 6;
    let sh = Arc::new(Shared {
        drops: (0..n).map(|_| AtomicUsize::new(0)).collect(),
        gone: vec![],
        sent: AtomicBool::new(false),
        rgone: AtomicBool::new(false),
        gate: AtomicUsize::new(0),
    });
    let mut hs = vec![s];
    let mut rx = Some(rx);
    let mut value: Option<usize> = None; // in transit
    let mut used = false; // a value was ever sent
    let mut next = 0;
    let mut trace = String::new();
    let mut dropped = vec![0usize; n];
    for _ in 0..c.rng.range(2, 14) {
        match c.rng.below(8) {
            0 if hs.len() < 4 && !hs.is_empty() => {
                let i = c.rng.below(hs.len());
                if let Some(h) = hs[i].dup() {
                    hs.push(h);
                    trace += " clone";
                }
            }
            1 if !hs.is_empty() => {
                let i = c.rng.below(hs.len());
                hs.swap_remove(i);
                trace += " drop-sender";
            }
            2 | 3 if !hs.is_empty() && next < n => {
                let i = c.rng.below(hs.len());
                let h = hs.swap_remove(i);
                let open = rx.is_some() && !used;
                ckeq!(c, h.closed(), !open, "is_closed", "");
                let (ok, back) = h.send(Tok::new(next, &sh));
                trace += &format!(" send{next}");
                ckeq!(c, ok, open, "send", "on a channel that is {}", if open { "open" } else { "closed" });
                if open {
                    value = Some(next);
                    used = true;
                } else {
                    dropped[next] += 1;
                    if let Some(b) = &back {
                        ckeq!(c, b.id, next, "wrong-value-back", "");
                    }
                }
                drop(back);
                next += 1;
            }
            4 | 5 => {
                if let Some(rx) = &rx {
                    ckeq!(c, rx.is_empty(), value.is_none(), "is_empty", "");
                    ckeq!(c, rx.peek().map(|t| (t.id, t.ok())), value.map(|v| (v, true)), "peek", "");
                    trace += " peek";
                }
            }
            6 if c.rng.coin() => {
                if let Some(rx) = rx.take() {
                    trace += " drop-receiver";
                    drop(rx);
                    if let Some(v) = value.take() {
                        dropped[v] += 1;
                    }
                }
            }
            7 if c.rng.coin() => {
                if let Some(r) = rx.take() {
                    let blocking = pk.is_some() && (value.is_some() || hs.is_empty()) && c.rng.coin();
                    let v = if blocking { r.recv(pk.as_ref().unwrap()) } else { r.recv_now() };
                    trace += if blocking { " recv" } else { " recv-now" };
                    ckeq!(c, v.as_ref().map(|t| (t.id, t.ok())), value.map(|v| (v, true)), "recv", "");
                    drop(v);
                    if let Some(v) = value.take() {
                        dropped[v] += 1;
                    }
                }
            }
            _ => (),
        }
        c.desc.clone_from(&trace);
        let d: Vec<usize> = sh.drops.iter().map(|d| d.load(SeqCst)).collect();
        ckeq!(c, d, dropped, "drops", "");
        for h in &hs {
            ckeq!(c, h.closed(), rx.is_none() || used, "is_closed", "");
        }
    }
    drop(hs);
    drop(rx);
    if let Some(v) = value {
        dropped[v] += 1;
    }
    let d: Vec<usize> = sh.drops.iter().map(|d| d.load(SeqCst)).collect();
    ckeq!(c, d, dropped, "drops", "at the end");
    ckeq!(c, Arc::strong_count(&sh), 1, "leaked-value", "");
    c.ev("sequential");
    c.seen(&trace);
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("seq", 4000, 40_000, sequential);
    ctx.run("conc", 4000, 40_000, concurrent);
    for (k, n) in [("sequential", 1000), ("concurrent", 1000), ("received_blocking", 100), ("received_now", 50), ("closed_blocking", 50), ("nothing_now", 50), ("receiver_dropped", 50), ("dropped_in_transit", 20)] {
        ctx.require(k, n);
    }
}
