//! Histories of a client with scripted handlers on a scripted connection, and the trace checker
//! that judges them.
use crate::infra::*;
use crate::mock::*;
use crate::sys::{vadvance, vclock_start, vclock_stop, vnow};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::ErrorKind;
use std::ops::ControlFlow;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::channel::{ChannelSpec, ClosedSender, Sender, SenderRef, Sent, SyncChannels, TokioChannels};
use vinezombie::client::queue::{Adjuster, Queue, QueueEditGuard};
use vinezombie::client::state::ClientStateKey;
use vinezombie::client::{ClientLogic, Client, ClientState, Handler, MakeHandler, SelfMadeHandler};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::*;

/// One observed event. Times are virtual.
#[derive(Clone, Debug)]
pub enum Ev {
    Push(u64),
    /// The last so many pushed messages were discarded again.
    Unpush(usize),
    Adjust(u64, i64),
    Update(u64, bool),
    Enter(u64, i64),
    Call { key: u64, seq: u64, text: String, t: i64, sent: bool, done: bool, state: u64 },
    Out(u64, i64, Vec<u8>),
    Stalled(i64, i64),
    WriteTimeout(i64, i64),
    TimeoutFn(i64),
    Bad(String),
}
#[derive(Default)]
pub struct Log {
    pub evs: Vec<Ev>,
    pub next_push: u64,
    pub wire: HashMap<u64, Vec<u8>>,
    /// Messages are long ones for now.
    pub wordy: bool,
}
pub type L = Arc<Mutex<Log>>;

/// Makes a queue message with a fresh number.
fn qmsg(l: &mut Log, r: &mut Rng) -> ClientMsg<'static> {
    l.next_push += 1;
    let n = l.next_push;
    let mut m = ClientMsg::new_cmd(Cmd::from_str("PRIVMSG"));
    let mut w = format!("PRIVMSG {n}").into_bytes();
    {
        let mut e = m.args.edit();
        e.add_word(Arg::try_from(n.to_string()).unwrap());
        if r.coin() {
            let t = format!("x y{}", "z".repeat(if l.wordy || r.chance(1, 20) { r.range(0, 400) } else { r.below(20) }));
            e.add(Line::try_from(t.clone()).unwrap());
            w.extend_from_slice(b" :");
            w.extend_from_slice(t.as_bytes());
        }
    }
    l.wire.insert(n, w);
    l.evs.push(Ev::Push(n));
    m
}
fn first(a: &vinezombie::ircmsg::Args) -> u64 {
    a.all().and_then(|a| a.first()).or(a.words().first()).and_then(|a| a.to_utf8().and_then(|s| s.parse().ok())).unwrap_or(0)
}
fn num(m: &ClientMsg) -> u64 {
    first(&m.args)
}

#[derive(Default)]
struct Cnt;
impl ClientStateKey for Cnt {
    type Value = u64;
}

/// A handler that does what its own random script says.
/// What a handler's channel does with values.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Chan {
    Open,
    Once,
    Shut,
}
struct H {
    key: u64,
    chan: Chan,
    r: Rng,
    l: L,
    quiet: usize,
    owning: u8,
    sends: bool,
    alive: Arc<Mutex<BTreeSet<u64>>>,
    /// What was sent and accepted.
    ok: Arc<Mutex<Vec<u64>>>,
    initial: usize,
}
impl Drop for H {
    fn drop(&mut self) {
        self.alive.lock().unwrap().remove(&self.key);
    }
}
impl H {
    fn step(&mut self, msg: &ServerMsg<'_>, state: &mut ClientState, mut q: QueueEditGuard<'_>, mut ch: SenderRef<'_, u64>) -> ControlFlow<()> {
        let seq: u64 = first(&msg.args);
        let r = &mut self.r;
        let mut l = self.l.lock().unwrap();
        let text = msg.to_string();
        l.evs.push(Ev::Enter(seq, vnow()));
        if !q.is_empty() {
            l.evs.push(Ev::Bad(format!("handler {} got a guard with {} messages", self.key, q.len())));
        }
        // Queue.
        if r.chance(1, 3) {
            let n = r.range(1, 3);
            for _ in 0..n {
                let m = qmsg(&mut l, r);
                q.push(m);
            }
            if q.len() != n {
                l.evs.push(Ev::Bad(format!("guard counts {} of {n} pushed messages", q.len())));
            }
            if r.chance(1, 6) {
                q.clear();
                l.evs.push(Ev::Unpush(n));
            }
        }
        // Shared state.
        let st = match state.get_mut::<Cnt>() {
            Some(v) => {
                *v += 1;
                *v
            }
            None => {
                state.insert::<Cnt>(1);
                1
            }
        };
        // Values.
        let mut sent = false;
        if ch.did_send() {
            l.evs.push(Ev::Bad("did_send before any send".into()));
        }
        if self.sends && r.below(self.quiet) == 0 {
            for j in 0..r.range(1, 3) as u64 {
                let v = self.key << 32 | seq << 8 | j;
                let may = ch.may_send();
                let res = ch.send(v);
                let ok = Sent::from(res) == Sent::Ok;
                let want = match self.chan {
                    Chan::Open => ControlFlow::Continue(()),
                    Chan::Once if self.ok.lock().unwrap().is_empty() => ControlFlow::Break(Sent::Ok),
                    _ => ControlFlow::Break(Sent::Closed),
                };
                if res != want {
                    l.evs.push(Ev::Bad(format!("a send over {:?} gave {res:?}, expected {want:?}", self.chan)));
                }
                if ok {
                    sent = true;
                    self.ok.lock().unwrap().push(v);
                    if !may {
                        l.evs.push(Ev::Bad("a send succeeded that may_send ruled out".into()));
                    }
                }
                if ch.did_send() != sent {
                    l.evs.push(Ev::Bad(format!("did_send is {} after sends that gave {sent}", ch.did_send())));
                }
                if res.is_break() && r.coin() {
                    break;
                }
            }
        }
        let done = r.below(self.quiet * 3) == 0;
        l.evs.push(Ev::Call { key: self.key, seq, text, t: vnow(), sent, done, state: st });
        if done {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
}
macro_rules! handler {
    ($n:ident, $ch:ident, $recv:ident) => {
        struct $n(H);
        impl Handler for $n {
            type Value = u64;
            fn handle(&mut self, msg: &ServerMsg<'_>, state: &mut ClientState, q: QueueEditGuard<'_>, ch: SenderRef<'_, u64>) -> ControlFlow<()> {
                self.0.step(msg, state, q, ch)
            }
            fn wants_owning(&self) -> bool {
                match self.0.owning {
                    0 => false,
                    1 => true,
                    _ => self.0.r.clone().coin(),
                }
            }
        }
        impl SelfMadeHandler for $n {
            type Receiver<Spec: ChannelSpec> = Spec::$recv<u64>;
            fn queue_msgs(&self, _: &ClientState, mut q: QueueEditGuard<'_>) {
                let mut r = self.0.r.clone();
                let mut l = self.0.l.lock().unwrap();
                for _ in 0..self.0.initial {
                    let m = qmsg(&mut l, &mut r);
                    q.push(m);
                }
            }
            fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = u64> + Send>, Self::Receiver<Spec>) {
                spec.$ch()
            }
        }
    };
}
handler!(Multi, new_queue, Queue);
handler!(Single, new_oneshot, Oneshot);

/// Never makes a handler.
struct Refuse;
impl MakeHandler<()> for Refuse {
    type Value = u64;
    type Error = u8;
    type Receiver<Spec: ChannelSpec> = ();
    fn make_handler(self, _: &ClientState, _: QueueEditGuard<'_>, _: ()) -> Result<Box<dyn Handler<Value = u64>>, u8> {
        Err(7)
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = u64> + Send>, ()) {
        (spec.new_queue().0, ())
    }
}

enum Rx {
    Mpsc(std::sync::mpsc::Receiver<u64>),
    One(vinezombie::client::channel::oneshot::Receiver<u64>, vinezombie::client::channel::parker::Parker),
    TMpsc(tokio::sync::mpsc::UnboundedReceiver<u64>),
    TOne(tokio::sync::oneshot::Receiver<u64>),
    Gone,
}
impl Rx {
    /// Everything receivable now, and whether the sender is known to be gone.
    fn drain(&mut self) -> (Vec<u64>, Option<bool>) {
        let mut v = vec![];
        match self {
            Rx::Mpsc(r) => loop {
                match r.try_recv() {
                    Ok(x) => v.push(x),
                    Err(e) => return (v, Some(e == std::sync::mpsc::TryRecvError::Disconnected)),
                }
            },
            Rx::TMpsc(r) => loop {
                match r.try_recv() {
                    Ok(x) => v.push(x),
                    Err(e) => return (v, Some(e == tokio::sync::mpsc::error::TryRecvError::Disconnected)),
                }
            },
            Rx::TOne(r) => {
                use tokio::sync::oneshot::error::TryRecvError as E;
                match r.try_recv() {
                    Ok(x) => {
                        v.push(x);
                        *self = Rx::Gone;
                        (v, None)
                    }
                    Err(E::Empty) => (v, Some(false)),
                    Err(E::Closed) => (v, Some(true)),
                }
            }
            // Looking without a value closes a one-shot channel: only look at the end.
            Rx::One(..) | Rx::Gone => (v, None),
        }
    }
    fn last(self) -> Vec<u64> {
        match self {
            Rx::One(r, _) => r.recv_now().into_iter().collect(),
            mut o => o.drain().0,
        }
    }
}
struct Sub {
    key: u64,
    rx: Rx,
    kept: bool,
    held: bool,
    one: bool,
    got: Vec<u64>,
    ok: Arc<Mutex<Vec<u64>>>,
}

struct Adj {
    l: L,
    on: bool,
    seq: u64,
}
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.seq = first(&msg.args);
        self.l.lock().unwrap().evs.push(Ev::Adjust(self.seq, vnow()));
        self.on && self.seq % 3 == 0
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let n = num(msg);
        let keep = (n + self.seq) % 7 != 0;
        self.l.lock().unwrap().evs.push(Ev::Update(n, keep));
        keep
    }
    fn reset(&mut self) {
        self.seq = 0;
    }
}

/// What a property's monitor looks at.
#[derive(Clone, Copy)]
pub struct Judge {
    pub dispatch: bool,
    pub timing: bool,
}
/// How hostile the timing of a history is.
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Dispatch,
    Slow,
    Stall,
}

/// The trace checker.
struct Checker {
    judge: Judge,
    tokio: bool,
    live: BTreeMap<u64, usize>,
    /// Fed messages: text and when the last byte arrives.
    fed: BTreeMap<u64, (String, i64)>,
    next_seq: u64,
    cur: u64,
    called: BTreeSet<u64>,
    cur_live: BTreeSet<u64>,
    yielded: BTreeSet<usize>,
    finished: BTreeSet<usize>,
    q: VecDeque<u64>,
    delay: i64,
    burst: i64,
    tat: i64,
    sent: Vec<i64>,
    adjuster: bool,
    update_at: usize,
    // current run
    rto: Option<i64>,
    wto: Option<i64>,
    last: i64,
    last_msg: i64,
    had_live: bool,
    wfail: Option<(i64, i64)>,
    state: u64,
    stalls: bool,
    tfn: Option<bool>,
    tfn_calls: usize,
}
impl Checker {
    fn wait(&self, t: i64) -> i64 {
        (self.tat - self.burst * self.delay - t).max(0)
    }
    fn tol(&self) -> i64 {
        if self.tokio {
            2 * MS
        } else {
            0
        }
    }
    fn d(&self, c: &mut Case, ok: bool, sig: &str, f: impl FnOnce() -> String) {
        if self.judge.dispatch && !ok {
            c.fail(sig, f());
        }
    }
    fn t(&self, c: &mut Case, ok: bool, sig: &str, f: impl FnOnce() -> String) {
        if self.judge.timing && !ok {
            c.fail(sig, f());
        }
    }
    fn end_msg(&mut self, c: &mut Case) {
        if self.cur != 0 {
            let missing: Vec<_> = self.cur_live.difference(&self.called).collect();
            self.d(c, missing.is_empty(), "not-called", || format!("message {} was not given to handlers {missing:?}", self.cur));
        }
    }
    fn begin_msg(&mut self, c: &mut Case, seq: u64, t: i64) {
        self.end_msg(c);
        self.d(c, self.yielded.is_empty() && self.finished.is_empty(), "results-overrun", || {
            format!("a run went on to message {seq} although handlers {:?} yielded and {:?} finished before", self.yielded, self.finished)
        });
        self.d(c, seq == self.next_seq, "message-order", || format!("message {seq} handled, expected {}", self.next_seq));
        self.d(c, self.had_live, "no-handler-read", || format!("message {seq} handled in a run without handlers"));
        self.next_seq = seq + 1;
        self.cur = seq;
        self.called.clear();
        self.cur_live = self.live.keys().copied().collect();
        let arr = self.fed.get(&seq).map(|x| x.1).unwrap_or(0);
        self.t(c, t >= arr, "clairvoyant", || format!("message {seq} handled {} ns before it arrived", arr - t));
        let due = arr.max(self.last);
        self.t(c, t - due <= self.tol(), "late", || format!("message {seq} handled {} ms after it could have been", (t - due) / MS));
        if !self.q.is_empty() && !self.stalls {
            let w = self.wait(self.last);
            self.t(c, t <= self.last + w + self.tol(), "queue-late", || {
                format!("{} messages were still queued {} ms after their rate-limit wait", self.q.len(), (t - self.last - w) / MS)
            });
        } else if let Some(r) = self.rto {
            self.t(c, t <= self.last + r + self.tol(), "no-timeout", || format!("message {seq} accepted after {} ms without a timeout (limit {} ms)", (t - self.last) / MS, r / MS));
        }
        if t - self.last > 1_000_000 {
            c.ev("waited_for_message");
        }
        self.last = t.max(self.last);
        self.last_msg = self.last;
        c.ev("messages");
    }
    fn timeout(&mut self, c: &mut Case, t: i64, how: &str) {
        c.ev(how);
        match self.rto {
            None => self.t(c, false, "timeout-unasked", || format!("{how} without a configured read timeout")),
            Some(r) => {
                let g = t - self.last_msg;
                self.t(c, g + self.tol() >= r, "timeout-early", || format!("{how} {} ms after the last message, limit {} ms", g / MS, r / MS));
                if self.q.is_empty() {
                    self.t(c, t - self.last <= r + self.tol(), "timeout-late", || format!("{how} only after {} ms, limit {} ms", (t - self.last) / MS, r / MS));
                }
            }
        }
        if let Some((s, (_, a))) = self.fed.range(self.next_seq..).next() {
            self.t(c, *a + self.tol() >= t, "timeout-with-message", || format!("{how} although message {s} arrived {} ms earlier", (t - a) / MS));
        }
        self.last = t;
        self.last_msg = t;
    }
    fn feed(&mut self, c: &mut Case, e: Ev, wire: &HashMap<u64, Vec<u8>>) {
        match e {
            Ev::Bad(s) => self.d(c, false, "handler-view", || s),
            Ev::Push(n) => self.q.push_back(n),
            Ev::Unpush(k) => {
                let n = self.q.len();
                self.q.truncate(n - k);
                c.ev("discarded");
            }
            Ev::Adjust(seq, t) => {
                self.begin_msg(c, seq, t);
                self.update_at = 0;
            }
            Ev::Enter(seq, t) => {
                if !self.adjuster && self.cur != seq {
                    self.begin_msg(c, seq, t);
                }
            }
            Ev::Update(n, keep) => {
                let want = self.q.get(self.update_at).copied();
                self.d(c, want == Some(n), "adjust-order", || format!("adjuster shown {n}, expected {want:?}"));
                if keep {
                    self.update_at += 1;
                } else if self.update_at < self.q.len() {
                    self.q.remove(self.update_at);
                    c.ev("adjusted_away");
                }
            }
            Ev::Call { key, seq, text, t, sent, done, state } => {
                c.ev("calls");
                let _ = t;
                self.d(c, self.cur == seq, "message-order", || format!("handler {key} given {seq} while {} is current", self.cur));
                let want = self.fed.get(&seq).map(|x| x.0.clone()).unwrap_or_default();
                self.d(c, want == text, "message-content", || format!("handler {key} given {text:?}, received {want:?}"));
                let fresh = self.called.insert(key);
                self.d(c, fresh, "called-twice", || format!("handler {key} given message {seq} twice"));
                let id = self.live.get(&key).copied();
                self.d(c, id.is_some(), "called-dead", || format!("handler {key} called after it finished or was cancelled"));
                self.state += 1;
                self.d(c, state == self.state, "shared-state", || format!("state {state}, expected {}", self.state));
                if let Some(id) = id {
                    if sent {
                        self.yielded.insert(id);
                        c.ev("yields");
                    }
                    if done {
                        self.live.remove(&key);
                        self.finished.insert(id);
                        c.ev("finishes");
                    }
                }
            }
            Ev::Out(n, t, line) => {
                c.ev("sent");
                let want = self.q.pop_front();
                self.d(c, want == Some(n), "out-order", || format!("message {n} left, expected {want:?}"));
                self.d(c, wire.get(&n).map(|w| *w == line).unwrap_or(false), "out-content", || format!("{}", show(&line)));
                if !self.stalls {
                    let w = self.wait(self.last);
                    self.t(c, t <= self.last + w + self.tol(), "queue-late", || format!("message {n} left {} ms after its rate-limit wait", (t - self.last - w) / MS));
                    let w = self.wait(t);
                    self.d(c, w == 0, "queue-early", || format!("message {n} left {w} ns early"));
                }
                if t > self.last {
                    c.ev("waited_for_rate");
                }
                self.tat = self.tat.max(t) + self.delay;
                self.sent.push(t);
                if self.delay > 0 {
                    for (i, s) in self.sent.iter().enumerate() {
                        let count = (self.sent.len() - i) as i64;
                        let max = 1 + self.burst + (t - s) / self.delay;
                        self.d(c, count <= max, "window", || format!("{count} messages in {} ms", (t - s) / MS));
                    }
                }
                self.last = t.max(self.last);
            }
            Ev::Stalled(from, to) => {
                c.ev("stalls_survived");
                if let Some(w) = self.wto {
                    self.t(c, to - from <= w + self.tol(), "write-timeout-missed", || format!("a write that waited {} ms succeeded, limit {} ms", (to - from) / MS, w / MS));
                }
                self.last = to.max(self.last);
            }
            Ev::WriteTimeout(from, to) => {
                self.wfail = Some((from, to));
            }
            Ev::TimeoutFn(t) => {
                self.tfn_calls += 1;
                self.timeout(c, t, "timeout_fn");
            }
        }
    }
}

pub fn history(c: &mut Case, judge: Judge, style: Style) {
    vclock_start();
    let seed = c.rng.next();
    let mode = c.rng.below(3);
    let desc = |m: &str| format!("{m} client");
    if mode == 2 && style == Style::Dispatch {
        // The same history with both clients: the same calls, results, values and output.
        let keep = c.rng.clone();
        c.desc = desc("sync");
        c.rng = Rng::new(seed);
        let a = one(c, judge, style, false, false);
        vclock_start();
        c.desc = desc("tokio");
        c.rng = Rng::new(seed);
        let b = one(c, judge, style, true, false);
        c.rng = keep;
        if judge.dispatch {
            if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
                c.fail("sync-async", format!("step {i}: sync {:?}, async {:?}", a.get(i), b.get(i)));
            }
        }
        c.ev("both_clients");
    } else {
        c.desc = desc(if mode == 0 { "sync" } else { "tokio" });
        one(c, judge, style, mode == 1, true);
    }
    vclock_stop();
}

fn text(r: &mut Rng, seq: u64) -> String {
    let mut s = String::new();
    if r.chance(1, 5) {
        s += &format!("@k={} ", "v".repeat(if r.chance(1, 10) { r.range(1, 7000) } else { r.range(1, 30) }));
    }
    if r.coin() {
        s += r.pick(&[":srv ", ":nick!user@host ", ":a.b "]);
    }
    s += r.pick(&["PRIVMSG", "NOTICE", "001", "PING", "JOIN", "CUSTOM"]);
    s += &format!(" {seq}");
    if r.coin() {
        s += &format!(" :some text {}", r.next());
    }
    s
}

fn one(c: &mut Case, judge: Judge, style: Style, tokio: bool, interrupts: bool) -> Vec<String> {
    let mut trail: Vec<String> = vec![];
    let drv = Driver::new(tokio);
    let log: L = Default::default();
    let alive: Arc<Mutex<BTreeSet<u64>>> = Default::default();
    let sink = |l: &L| -> Box<dyn FnMut(Io) + Send> {
        let l = l.clone();
        Box::new(move |e| {
            let mut l = l.lock().unwrap();
            match e {
                Io::Line(t, b) => {
                    let n = std::str::from_utf8(&b).ok().and_then(|s| s.split(' ').nth(1).and_then(|s| s.parse().ok())).unwrap_or(0);
                    l.evs.push(Ev::Out(n, t, b));
                }
                Io::BadEnd(_, b) => l.evs.push(Ev::Bad(format!("line {} not terminated by CRLF", show(&b)))),
                Io::Stalled(a, b) => l.evs.push(Ev::Stalled(a, b)),
                Io::WriteTimeout(a, b) => l.evs.push(Ev::WriteTimeout(a, b)),
            }
        })
    };
    let (limit_any, base) = (style != Style::Stall, vnow());
    let new_world = |c: &mut Case| {
        let mut w = World::new(Rng::new(c.rng.next()));
        w.short_writes = c.rng.coin();
        w.interrupts = c.rng.chance(1, 3) && interrupts;
        w.buffered = if style == Style::Stall { c.rng.chance(1, 3) } else { c.rng.coin() };
        w.sink = Some(sink(&log));
        w.last_arrival = vnow();
        if style == Style::Stall {
            let mut at = 0;
            for _ in 0..c.rng.below(4) {
                at += c.rng.range(0, 200);
                let d = match c.rng.below(6) {
                    0 => NEVER,
                    1 => c.rng.range(1, 60) as i64 * SEC + 500 * MS,
                    _ => c.rng.range(1, 4000) as i64 * MS,
                };
                w.stalls.push_back((at, d));
            }
        }
        w
    };
    let (conn, mut w) = Conn::new(new_world(c));
    let mut ck = Checker {
        judge,
        tokio,
        live: BTreeMap::new(),
        fed: BTreeMap::new(),
        next_seq: 1,
        cur: 0,
        called: BTreeSet::new(),
        cur_live: BTreeSet::new(),
        yielded: BTreeSet::new(),
        finished: BTreeSet::new(),
        q: VecDeque::new(),
        delay: 2 * SEC,
        burst: 4,
        tat: base,
        sent: vec![],
        adjuster: false,
        update_at: 0,
        rto: None,
        wto: None,
        last: base,
        last_msg: base,
        had_live: false,
        wfail: None,
        state: 0,
        stalls: style == Style::Stall,
        tfn: None,
        tfn_calls: 0,
    };
    // Configured after it was made, or made out of configured parts.
    let parts = c.rng.below(3);
    let mut q0 = Queue::new();
    let mut client = None;
    let mut conn = Some(conn);
    if parts == 0 {
        client = Some(Client::new(conn.take().unwrap(), SyncChannels));
    }
    macro_rules! queue0 {
        () => {
            match &mut client {
                Some(c) => c.queue_mut(),
                None => &mut q0,
            }
        };
    }
    macro_rules! cl {
        () => {
            client.as_mut().unwrap()
        };
    }
    // Configuration.
    let conf = |c: &mut Case, ck: &mut Checker, q: &mut Queue| {
        let (d, b) = if !limit_any {
            (0, 0)
        } else {
            (c.rng.pickv(&[0i64, 1, 100, 500, 1000, 2000, 7000, 45_000]) * MS, c.rng.below(6) as i64)
        };
        q.set_rate_limit(Duration::from_nanos(d as u64), b as u32);
        ck.delay = d;
        ck.burst = b;
        ck.tat = vnow() + d * (b + 1);
        ck.sent.clear();
    };
    if style == Style::Stall || c.rng.coin() {
        conf(c, &mut ck, queue0!());
    }
    if c.rng.coin() {
        ck.adjuster = true;
        let on = c.rng.coin();
        queue0!().use_adjuster(Adj { l: log.clone(), on, seq: 0 });
    }
    let rto = |r: &mut Rng| match style {
        Style::Dispatch => {
            if r.coin() {
                None
            } else {
                Some(r.range(1, 30) as i64 * SEC)
            }
        }
        _ => r.pickv(&[None, Some(500 * MS), Some(SEC), Some(3 * SEC), Some(20 * SEC)]),
    };
    let wto = |r: &mut Rng| r.pickv(&[None, Some(300 * MS), Some(SEC), Some(2 * SEC), Some(10 * SEC)]);
    macro_rules! timeouts {
        () => {{
            let t = rto(&mut c.rng);
            cl!().set_read_timeout(t.map(|n| Duration::from_nanos(n as u64)));
            // Limits below a second are raised to a second.
            ck.rto = t.map(|t| t.max(SEC));
            if style == Style::Stall || c.rng.coin() {
                let t = wto(&mut c.rng);
                cl!().set_write_timeout(t.map(|n| Duration::from_nanos(n as u64)));
                ck.wto = t.map(|t| t.max(SEC));
            }
        }};
    }
    match parts {
        0 => timeouts!(),
        1 => {
            #[allow(deprecated)]
            let made = Client::new_with_queue(conn.take().unwrap(), SyncChannels, std::mem::take(&mut q0));
            client = Some(made);
            timeouts!();
        }
        _ => {
            let mut l = ClientLogic::new();
            if c.rng.coin() {
                l = l.with_queue(std::mem::take(&mut q0));
            } else {
                *l.queue_mut() = std::mem::take(&mut q0);
            }
            if let Some(t) = rto(&mut c.rng) {
                l = l.with_read_timeout(Duration::from_nanos(t as u64));
                ck.rto = Some(t.max(SEC));
            }
            if let Some(t) = wto(&mut c.rng) {
                l = l.with_write_timeout(Duration::from_nanos(t as u64));
                ck.wto = Some(t.max(SEC));
            }
            client = Some(Client::new_with_logic(conn.take().unwrap(), SyncChannels, l));
            c.ev("made_from_parts");
        }
    }
    let mut subs: Vec<Sub> = vec![];
    let mut strong = vec![];
    let mut next_key = 1u64;
    let mut seq_fed = 0u64;
    let mut partial = false;
    let mut pending_tail: Vec<(i64, Vec<u8>)> = vec![];
    let steps = c.rng.range(8, 40);
    let mut over = false;
    for _ in 0..steps {
        if over {
            break;
        }
        let op = c.rng.below(16);
        match op {
            0..=2 => {
                // Add a handler, rarely a crowd of them.
                let crowd = if c.rng.chance(1, 150) { c.rng.range(10, 150) } else { 1 };
                for _ in 0..crowd {
                let key = next_key;
                next_key += 1;
                let ok: Arc<Mutex<Vec<u64>>> = Default::default();
                alive.lock().unwrap().insert(key);
                let kind = c.rng.below(8);
                let dropped = c.rng.chance(1, 8);
                let chan = if dropped || kind == 4 || kind == 5 {
                    Chan::Shut
                } else if kind == 1 || kind == 3 {
                    Chan::Once
                } else {
                    Chan::Open
                };
                let h = H {
                    key,
                    chan,
                    r: Rng::new(c.rng.next()),
                    l: log.clone(),
                    quiet: c.rng.pickv(&[1, 2, 4, 12]) * if crowd > 1 { 4 } else { 1 },
                    owning: c.rng.below(3) as u8,
                    sends: c.rng.chance(3, 4),
                    alive: alive.clone(),
                    ok: ok.clone(),
                    initial: c.rng.below(3),
                };
                let cl = cl!();
                let (id, mut rx) = match kind {
                    0 => cl.add((), Multi(h)).map(|(i, r)| (i, Rx::Mpsc(r))).unwrap(),
                    1 => cl.add((), Single(h)).map(|(i, (r, p))| (i, Rx::One(r, p))).unwrap(),
                    2 => cl.add_with_spec(&TokioChannels, (), Multi(h)).map(|(i, r)| (i, Rx::TMpsc(r))).unwrap(),
                    3 => cl.add_with_spec(&TokioChannels, (), Single(h)).map(|(i, r)| (i, Rx::TOne(r))).unwrap(),
                    4 => (cl.add_with_sender(Box::new(ClosedSender::default()), (), Multi(h)).unwrap(), Rx::Gone),
                    5 | 6 => {
                        let (s, r) = tokio::sync::mpsc::unbounded_channel();
                        let weak = s.downgrade();
                        let id = cl.add_with_sender(Box::new(weak), (), Multi(h)).unwrap();
                        // A weak sender works for as long as somebody else holds a strong one.
                        if kind == 6 {
                            strong.push(s);
                        }
                        (id, Rx::TMpsc(r))
                    }
                    _ => cl.add_with_spec(&SyncChannels, (), Multi(h)).map(|(i, r)| (i, Rx::Mpsc(r))).unwrap(),
                };
                let dup = ck.live.values().any(|i| *i == id);
                ck.d(c, !dup, "id-reused", || format!("handler {key} got id {id} of a live handler"));
                ck.live.insert(key, id);
                let kept = kind != 4 && kind != 5 && !dropped;
                if dropped {
                    rx = Rx::Gone;
                    c.ev("receiver_dropped");
                }
                subs.push(Sub { key, rx, kept, held: kind == 6, one: kind == 1 || kind == 3, got: vec![], ok });
                c.ev("added");
                trail.push(format!("add {id}"));
                }
                if crowd > 64 {
                    c.ev("crowds");
                }
            }
            3 => {
                if c.rng.chance(1, 3) {
                    let r = cl!().add(Refuse, ());
                    ck.d(c, r.is_err(), "refused-added", || "a handler that refused to be made was added".into());
                } else {
                    let n = if c.rng.chance(1, 60) { c.rng.range(20, 400) } else { c.rng.range(1, 4) };
                    log.lock().unwrap().wordy = n > 4 && c.rng.coin();
                    for _ in 0..n {
                        let m = qmsg(&mut log.lock().unwrap(), &mut c.rng);
                        cl!().queue_mut().edit().push(m);
                    }
                    log.lock().unwrap().wordy = false;
                }
            }
            4..=7 => {
                // More input, arriving in pieces.
                let n = if c.rng.chance(1, 5) { 0 } else { c.rng.range(1, 5) };
                let mut ww = w.lock().unwrap();
                let mut t = vnow().max(ww.last_arrival);
                for (at, b) in pending_tail.drain(..) {
                    ww.feed(vnow().max(at), &b);
                    t = ww.last_arrival;
                }
                if partial {
                    let (_, a) = ck.fed.get_mut(&seq_fed).unwrap();
                    *a = t;
                    partial = false;
                }
                for _ in 0..n {
                    seq_fed += 1;
                    let s = text(&mut c.rng, seq_fed);
                    let mut bytes = s.clone().into_bytes();
                    bytes.extend_from_slice(c.rng.pick(&[b"\r\n", b"\n".as_slice(), b"\r\n\r\n"]));
                    let gap = match style {
                        // Ties between a message and a wait may go either way.
                        Style::Dispatch if !interrupts => 0,
                        Style::Dispatch => c.rng.pickv(&[0i64, 0, 1, 10, 900]),
                        _ => c.rng.pickv(&[0i64, 0, 1, 300, 900, 999, 1001, 2500, 2999, 3001, 8000, 25_000]),
                    } * MS;
                    t += gap;
                    // The arrival of the last byte that matters: the first '\n'.
                    let mut cuts: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(bytes.len())).collect();
                    cuts.push(bytes.len());
                    cuts.sort();
                    let nl = bytes.iter().position(|b| *b == b'\n').unwrap();
                    let mut at = 0;
                    let mut arr = t;
                    let mut pieces = vec![];
                    for cut in cuts {
                        if cut == at {
                            continue;
                        }
                        let g = match style {
                            Style::Dispatch => 0,
                            _ => c.rng.pickv(&[0i64, 0, 0, 1, 400, 1300, 6000]) * MS,
                        };
                        if at > 0 {
                            t += g;
                        }
                        if at <= nl && nl < cut {
                            arr = t;
                        }
                        pieces.push((t, bytes[at..cut].to_vec()));
                        at = cut;
                    }
                    ck.fed.insert(seq_fed, (s, arr));
                    for (t, b) in pieces {
                        ww.feed(t, &b);
                    }
                }
                // Sometimes the last line stays unfinished for now.
                if style != Style::Stall && c.rng.chance(1, 5) {
                    seq_fed += 1;
                    let s = text(&mut c.rng, seq_fed);
                    let b = format!("{s}\r\n").into_bytes();
                    let cut = c.rng.range(1, b.len() - 1);
                    ww.feed(t, &b[..cut]);
                    pending_tail.push((0, b[cut..].to_vec()));
                    ck.fed.insert(seq_fed, (s, NEVER));
                    partial = true;
                    c.ev("unfinished_line");
                }
            }
            8..=12 => {
                // Run. With no timeout and nothing left to read this would wait for ever.
                ck.last = vnow();
                ck.last_msg = vnow();
                ck.had_live = !ck.live.is_empty();
                ck.yielded.clear();
                ck.finished.clear();
                ck.tfn_calls = 0;
                ck.wfail = None;
                ck.cur = 0;
                let out = drv.run(cl!(), &w);
                let t = vnow();
                let l = std::mem::take(&mut *log.lock().unwrap());
                log.lock().unwrap().next_push = l.next_push;
                log.lock().unwrap().wire = l.wire.clone();
                for e in l.evs {
                    if style == Style::Dispatch {
                        trail.push(match &e {
                            Ev::Call { key, seq, sent, done, .. } => format!("call {key} {seq} {sent} {done}"),
                            Ev::Out(n, ..) => format!("out {n}"),
                            Ev::Adjust(s, _) => format!("adjust {s}"),
                            Ev::TimeoutFn(_) => "timeout fn".into(),
                            _ => "-".into(),
                        });
                        if trail.last().map(|s| s == "-").unwrap_or(false) {
                            trail.pop();
                        }
                    }
                    if std::env::var("VZ_TRACE").is_ok() {
                        eprintln!("{e:?} last {} q {:?} wait {}", ck.last, ck.q, ck.wait(ck.last));
                    }
                    ck.feed(c, e, &l.wire);
                }
                ck.end_msg(c);
                trail.push(match &out {
                    Outcome::Ran(y, f) => format!("ran {y:?} {f:?}"),
                    o => format!("{o:?}"),
                });
                if w.lock().unwrap().zero_limit {
                    ck.t(c, false, "zero-limit", || "a limit of zero was set on the connection".into());
                }
                if let Some((from, to)) = ck.wfail {
                    // Sync only: the connection itself gave up.
                    match ck.wto {
                        None => ck.t(c, false, "write-timeout-unasked", || format!("a write gave up after {} ms without a configured limit", (to - from) / MS)),
                        Some(w) => ck.t(c, to - from == w, "write-timeout-when", || format!("a write gave up after {} ms, limit {} ms", (to - from) / MS, w / MS)),
                    }
                }
                match out {
                    Outcome::Ran(y, f) => {
                        c.ev("runs");
                        ck.d(c, ck.wfail.is_none(), "write-failure-hidden", || "a failed write was reported as success".into());
                        let (ys, fs): (BTreeSet<_>, BTreeSet<_>) = (y.iter().copied().collect(), f.iter().copied().collect());
                        if ck.had_live {
                            ck.d(c, ys == ck.yielded && y.len() == ys.len(), "yield-report", || format!("reported {y:?}, yielded {:?}", ck.yielded));
                            ck.d(c, fs == ck.finished && f.len() == fs.len(), "finish-report", || format!("reported {f:?}, finished {:?}", ck.finished));
                            ck.d(c, !(y.is_empty() && f.is_empty()), "empty-report", || "a run ended without results".into());
                            if !ck.q.is_empty() {
                                let wait = ck.wait(t);
                                ck.d(c, wait > 0, "left-queued", || format!("{} messages still queued after a run although they could be sent", ck.q.len()));
                            }
                        } else {
                            ck.d(c, y.is_empty() && f.is_empty(), "invented-report", || format!("{y:?} {f:?} without handlers"));
                            ck.d(c, ck.q.is_empty(), "left-queued", || format!("{} messages left after a run without handlers", ck.q.len()));
                            c.ev("flush_runs");
                        }
                    }
                    Outcome::TimedOut => {
                        ck.d(c, ck.yielded.is_empty() && ck.finished.is_empty(), "results-lost", || format!("timeout although {:?} yielded and {:?} finished", ck.yielded, ck.finished));
                        ck.timeout(c, t, "timeout");
                        ck.t(c, ck.tfn.is_none(), "timeout-fn-ignored", || "no timeout expected with a timeout function".into());
                        if partial {
                            c.ev("timeout_in_message");
                        }
                    }
                    Outcome::Err(k, s) => {
                        over = true;
                        match k {
                            ErrorKind::TimedOut | ErrorKind::WouldBlock if ck.wfail.is_some() => c.ev("write_timeouts"),
                            ErrorKind::TimedOut if ck.tfn == Some(false) && ck.tfn_calls > 0 => c.ev("timeout_fn_broke"),
                            ErrorKind::TimedOut | ErrorKind::WouldBlock if tokio && w.lock().unwrap().stalled_since().is_some() => {
                                let from = w.lock().unwrap().stalled_since().unwrap();
                                match ck.wto {
                                    None => ck.t(c, false, "write-timeout-unasked", || format!("a write gave up after {} ms without a configured limit", (t - from) / MS)),
                                    Some(w) => ck.t(c, (t - from - w).abs() <= ck.tol(), "write-timeout-when", || format!("a write gave up after {} ms, limit {} ms", (t - from) / MS, w / MS)),
                                }
                                c.ev("write_timeouts");
                            }
                            _ => {
                                if judge.dispatch || judge.timing {
                                    c.fail("run-error", format!("{k:?} {s}"));
                                }
                            }
                        }
                    }
                    Outcome::Blocked => {
                        // Legitimate if nothing limits the wait and nothing more comes.
                        over = true;
                        c.ev("blocked");
                        let wstall = w.lock().unwrap().stalled_since().is_some();
                        if wstall {
                            ck.t(c, ck.wto.is_none(), "write-timeout-missed", || format!("a write waits for ever, limit {:?} ms", ck.wto.map(|w| w / MS)));
                        } else {
                            ck.t(c, ck.rto.is_none(), "no-timeout", || format!("a read waits for ever, limit {:?} ms", ck.rto.map(|w| w / MS)));
                            ck.t(c, ck.q.is_empty() || ck.stalls, "queue-late", || format!("waits for ever with {} messages queued", ck.q.len()));
                            let un = ck.fed.range(ck.next_seq..).any(|(_, (_, a))| *a < NEVER);
                            ck.d(c, !un, "stuck", || format!("waits for ever although message {} arrived", ck.next_seq));
                        }
                    }
                }
            }
            13 => {
                if c.rng.coin() {
                    let d = c.rng.pickv(&[1i64, 500, 1999, 2000, 10_000]) * MS;
                    vadvance(d);
                } else if limit_any && c.rng.chance(1, 3) {
                    conf(c, &mut ck, cl!().queue_mut());
                } else {
                    timeouts!();
                }
            }
            14 => {
                // A function to call on timeouts.
                let l = log.clone();
                let mut n = c.rng.range(1, 3);
                let mut r = Rng::new(c.rng.next());
                match c.rng.below(3) {
                    0 => {
                        cl!().set_timeout_fn(None::<fn(&mut vinezombie::client::ClientLogic) -> ControlFlow<()>>);
                        ck.tfn = None;
                    }
                    _ => {
                        ck.tfn = Some(false);
                        cl!().set_timeout_fn(Some(move |lg: &mut vinezombie::client::ClientLogic| {
                            let mut l = l.lock().unwrap();
                            l.evs.push(Ev::TimeoutFn(vnow()));
                            if n == 0 {
                                return ControlFlow::Break(());
                            }
                            n -= 1;
                            if r.coin() {
                                let m = qmsg(&mut l, &mut r);
                                lg.queue_mut().edit().push(m);
                            }
                            ControlFlow::Continue(())
                        }));
                    }
                }
            }
            _ => match c.rng.below(4) {
                0 => {
                    let cl = client.take().unwrap();
                    if c.rng.coin() {
                        client = Some(cl.with_spec(SyncChannels));
                    } else {
                        // A replacement connection carries on where the old one stopped.
                        let (conn, nw) = Conn::new(new_world(c));
                        {
                            let mut old = w.lock().unwrap();
                            let mut n = nw.lock().unwrap();
                            n.input = std::mem::take(&mut old.input);
                            if !old.held.is_empty() {
                                n.input.push_front((vnow(), std::mem::take(&mut old.held)));
                            }
                            n.last_arrival = old.last_arrival.max(vnow());
                        }
                        used_before(c, &nw);
                        client = Some(cl.with_conn(conn));
                        w = nw;
                        c.ev("with_conn");
                    }
                }
                1 => {
                    // Start over on a new connection, also in the middle of a line.
                    let keep = c.rng.coin();
                    let (conn, nw) = Conn::new(new_world(c));
                    if keep && !partial && seq_fed + 1 == ck.next_seq {
                        cl!().reset();
                        drop(conn);
                    } else {
                        used_before(c, &nw);
                        let old = cl!().reset_with_conn(conn);
                        drop(old);
                        w = nw;
                        partial = false;
                        pending_tail.clear();
                        ck.next_seq = seq_fed + 1;
                    }
                    ck.live.clear();
                    ck.q.clear();
                    ck.tat = vnow();
                    ck.sent.clear();
                    ck.state = 0;
                    log.lock().unwrap().evs.clear();
                    let left = alive.lock().unwrap().clone();
                    ck.d(c, left.is_empty(), "reset-keeps-handlers", || format!("{left:?}"));
                    let st = cl!().state().get::<Cnt>().copied();
                    ck.d(c, st.is_none(), "reset-keeps-state", || format!("{st:?}"));
                    c.ev("reset");
                    trail.push("reset".into());
                }
                _ => {
                    ck.last = vnow();
                    let r = drv.flush(cl!());
                    let l = std::mem::take(&mut *log.lock().unwrap());
                    log.lock().unwrap().next_push = l.next_push;
                    log.lock().unwrap().wire = l.wire.clone();
                    for e in l.evs {
                        ck.feed(c, e, &l.wire);
                    }
                    match r {
                        Some(Ok(d)) => {
                            if !ck.stalls {
                                let want = if ck.q.is_empty() { None } else { Some(ck.wait(vnow())) };
                                ck.d(c, d.map(|d| d.as_nanos() as i64) == want && want != Some(0), "flush-wait", || format!("told {d:?}, expected {want:?} ns"));
                            }
                            c.ev("flushes");
                        }
                        _ => over = true,
                    }
                }
            },
        }
        // Events outside a run: only pushes.
        let evs = std::mem::take(&mut log.lock().unwrap().evs);
        for e in evs {
            match e {
                Ev::Push(_) | Ev::Unpush(_) => ck.feed(c, e, &HashMap::new()),
                e => ck.d(c, false, "idle-activity", || format!("{e:?} outside a run")),
            }
        }
        if over {
            break;
        }
        let want = !ck.live.is_empty() || !ck.q.is_empty();
        ck.d(c, cl!().needs_run() == want, "needs-run", || format!("needs_run {}, {} handlers, {} queued", !want, ck.live.len(), ck.q.len()));
        ck.d(c, cl!().queue().len() == ck.q.len(), "queue-len", || format!("{} queued, expected {}", cl!().queue().len(), ck.q.len()));
        let a = alive.lock().unwrap().clone();
        let lv: BTreeSet<u64> = ck.live.keys().copied().collect();
        ck.d(c, a == lv, "handler-lifetime", || format!("handlers in memory {a:?}, active {lv:?}"));
        for s in subs.iter_mut() {
            let (v, gone) = s.rx.drain();
            s.got.extend(v);
            if let Some(gone) = gone {
                if s.kept {
                    let dead = !ck.live.contains_key(&s.key) && !s.held;
                    let full = s.one && !s.ok.lock().unwrap().is_empty();
                    ck.d(c, gone == dead || full, "receiver-state", || format!("handler {} active: {}, its channel closed: {gone}", s.key, !dead));
                }
            }
        }
        c.seen(&(h64(&trail), trail.len()));
    }
    drop(client);
    let left = alive.lock().unwrap().clone();
    ck.d(c, left.is_empty(), "leaked-handlers", || format!("{left:?}"));
    for mut s in subs {
        let v = std::mem::replace(&mut s.rx, Rx::Gone).last();
        s.got.extend(v);
        let ok = s.ok.lock().unwrap().clone();
        if s.kept {
            ck.d(c, s.got == ok, "values", || format!("handler {} sent {ok:x?}, received {:x?}", s.key, s.got));
            c.evn("values", ok.len() as u64);
        }
    }
    c.sample(|| trail.join("; ").chars().take(600).collect());
    trail
}

/// A connection that someone else used (and limited) before the client gets it.
fn used_before(c: &mut Case, w: &Mutex<World>) {
    let mut w = w.lock().unwrap();
    if c.rng.chance(1, 3) {
        w.write_limit = Some(Duration::from_millis(c.rng.range(1, 900) as u64));
    }
    if c.rng.chance(1, 3) {
        w.read_limit = Some(Duration::from_millis(c.rng.range(1, 900) as u64));
    }
}
