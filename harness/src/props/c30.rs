//! Shared client state against an ordinary map from keys to values; values are counted until they are gone.
use crate::infra::*;
use crate::{ck, ckeq};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vinezombie::client::state::{self, ClientStateKey};
use std::ops::ControlFlow;
use vinezombie::client::channel::{ChannelSpec, Sender, SenderRef, SyncChannels};
use vinezombie::client::queue::QueueEditGuard;
use vinezombie::client::{Client, ClientLogic, ClientState, Handler, MakeHandler};
use vinezombie::ircmsg::{ClientMsg, ServerMsg, Source};
use vinezombie::names::NameMap;
use vinezombie::string::{Arg, Nick};

type Gone = Arc<Mutex<BTreeMap<u64, u32>>>;
/// A value that tells when it goes away.
#[derive(Debug)]
pub struct Tok(u64, Gone);
impl Drop for Tok {
    fn drop(&mut self) {
        *self.1.lock().unwrap().entry(self.0).or_default() += 1;
    }
}
/// Many keys, some sharing a value type.
#[derive(Default)]
struct K<const N: usize>;
#[derive(Default)]
struct T<const N: usize>;
#[derive(Default)]
struct U<const N: usize>;
impl<const N: usize> ClientStateKey for K<N> {
    type Value = Tok;
}
impl<const N: usize> ClientStateKey for T<N> {
    type Value = String;
}
impl<const N: usize> ClientStateKey for U<N> {
    type Value = ();
}
/// Same name as another key, and the same kind of value.
mod other {
    #[derive(Default)]
    pub struct K<const N: usize>;
    impl<const N: usize> super::ClientStateKey for K<N> {
        type Value = super::Tok;
    }
}
/// Keys that carry data are told apart by type alone.
struct Data(u64);
impl Default for Data {
    fn default() -> Self {
        Data(std::sync::atomic::AtomicU64::fetch_add(&N, 1, std::sync::atomic::Ordering::Relaxed))
    }
}
static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl ClientStateKey for Data {
    type Value = u64;
}

const KEYS: usize = 24;
macro_rules! by_n {
    ($n:expr, |$k:ident| $b:expr; $($i:literal)*) => { match $n { $($i => { type $k = K<$i>; $b })* _ => { type $k = other::K<0>; $b } } };
    ($n:expr, |$k:ident| $b:expr) => { by_n!($n, |$k| $b; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22) };
}
macro_rules! text_n {
    ($n:expr, |$k:ident| $b:expr) => { match $n { 0 => { type $k = T<0>; $b } 1 => { type $k = T<1>; $b } 2 => { type $k = T<2>; $b } _ => { type $k = T<3>; $b } } };
}
/// What the state should hold.
struct Model {
    toks: BTreeMap<usize, u64>,
    texts: BTreeMap<usize, String>,
    unit: bool,
    data: Option<u64>,
    nick: Option<String>,
    account: Option<Option<String>>,
    version: Option<String>,
    len: usize,
    next: u64,
    gone: Gone,
}
impl Default for Model {
    fn default() -> Model {
        // Before anything is known, a source is reckoned at 85 bytes.
        Model { len: 85, toks: BTreeMap::new(), texts: BTreeMap::new(), unit: false, data: None, nick: None, account: None, version: None, next: 0, gone: Gone::default() }
    }
}
fn look(c: &mut Case, s: &mut ClientState, m: &Model, held: &[u64], trail: &[String]) {
    for i in 0..KEYS {
        let want = m.toks.get(&i).copied();
        let got = by_n!(i, |X| s.get::<X>().map(|t| t.0));
        let gotm = by_n!(i, |X| s.get_mut::<X>().map(|t| t.0));
        ck!(c, got == want && gotm == want, "value", "key {i}: {got:?} and {gotm:?}, stored {want:?}; {trail:?}");
    }
    for i in 0..4 {
        let want = m.texts.get(&i);
        ck!(c, text_n!(i, |X| s.get::<X>()) == want, "value", "text {i}, stored {want:?}; {trail:?}");
    }
    ckeq!(c, s.get::<U<0>>().is_some(), m.unit, "value", "unit; {trail:?}");
    ck!(c, s.get::<U<1>>().is_none() && s.get::<other::K<1>>().is_none() && s.get_mut::<T<9>>().is_none(), "invented", "{trail:?}");
    ckeq!(c, s.get::<Data>().copied(), m.data, "value", "data; {trail:?}");
    ckeq!(c, s.get::<state::ClientSource>().map(|x| x.nick.to_utf8_lossy().into_owned()), m.nick, "value", "source; {trail:?}");
    ckeq!(c, s.get::<state::Account>().map(|x| x.as_ref().map(|x| x.to_utf8_lossy().into_owned())), m.account, "value", "account; {trail:?}");
    ckeq!(c, s.get::<state::ServerVersion>().map(|x| x.to_utf8_lossy().into_owned()), m.version, "value", "version; {trail:?}");
    ck!(c, s.get::<state::ServerSource>().is_none(), "invented", "server source; {trail:?}");
    ckeq!(c, s.source_len().get(), m.len, "source-length", "{trail:?}");
    let gone = m.gone.lock().unwrap();
    for id in 0..m.next {
        let live = held.contains(&id) || m.toks.values().any(|x| *x == id);
        let n = gone.get(&id).copied().unwrap_or(0);
        if n != !live as u32 {
            c.fail("lifetime", format!("value {id} is {}, yet went away {n} times; {trail:?}", if live { "stored" } else { "replaced" }));
            return;
        }
    }
}

/// Who holds the state. It moves from one to the next, never back.
enum Hold {
    State(ClientState),
    Logic(ClientLogic),
    Client(Client<u32, SyncChannels>),
    Moved,
}
impl Hold {
    fn st(&mut self) -> &mut ClientState {
        match self {
            Hold::State(s) => s,
            Hold::Logic(l) => l.state_mut(),
            Hold::Client(c) => c.state_mut(),
            Hold::Moved => unreachable!(),
        }
    }
    fn shared(&self) -> &ClientState {
        match self {
            Hold::State(s) => s,
            Hold::Logic(l) => l.state(),
            Hold::Client(c) => c.state(),
            Hold::Moved => unreachable!(),
        }
    }
}
struct H(#[allow(dead_code)] Tok);
impl Handler for H {
    type Value = u8;
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, _: SenderRef<'_, u8>) -> ControlFlow<()> {
        ControlFlow::Break(())
    }
}
/// Makes a handler only if it sees what it should.
struct Mk(Tok, Option<u64>, Option<String>);
impl MakeHandler<bool> for Mk {
    type Value = u8;
    type Error = Option<String>;
    type Receiver<Spec: ChannelSpec> = Spec::Queue<u8>;
    fn make_handler(self, st: &ClientState, mut q: QueueEditGuard<'_>, ok: bool) -> Result<Box<dyn Handler<Value = u8>>, Option<String>> {
        let k = st.get::<K<0>>().map(|t| t.0);
        let t = st.get::<T<0>>().cloned();
        if k != self.1 || t != self.2 {
            return Err(Some(format!("a new handler sees {k:?} {t:?}, stored {:?} {:?}", self.1, self.2)));
        }
        if !ok {
            return Err(None);
        }
        q.push(ClientMsg::new(vinezombie::names::cmd::PING));
        Ok(Box::new(H(self.0)))
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = u8> + Send>, Self::Receiver<Spec>) {
        spec.new_queue()
    }
}
fn history(c: &mut Case) {
    let mut h = Hold::State(if c.rng.coin() { ClientState::new() } else { ClientState::default() });
    let mut m = Model::default();
    let mut trail: Vec<String> = vec![];
    // Values held by handlers, messages they queued, the connection's number.
    let mut held: Vec<u64> = vec![];
    let mut queued = 0;
    let mut conn = 0u32;
    let few = c.rng.chance(1, 3);
    let steps = if c.rng.chance(1, 30) { 150 } else { 40 };
    let mut rxs = vec![];
    for _ in 0..c.rng.range(1, steps) {
        match c.rng.below(18) {
            0..=4 => {
                let i = c.rng.below(if few { 3 } else { KEYS });
                let id = m.next;
                m.next += 1;
                let v = Tok(id, m.gone.clone());
                by_n!(i, |X| h.st().insert::<X>(v));
                m.toks.insert(i, id);
                trail.push(format!("key {i} = {id}"));
                c.ev("inserts");
            }
            5 => {
                let i = c.rng.below(KEYS);
                let id = m.next;
                if let Some(v) = by_n!(i, |X| h.st().get_mut::<X>()) {
                    m.next += 1;
                    *v = Tok(id, m.gone.clone());
                    m.toks.insert(i, id);
                    trail.push(format!("key {i} := {id}"));
                    c.ev("updates");
                }
            }
            6 => {
                let i = c.rng.below(4);
                let v = format!("t{}", c.rng.below(1000));
                text_n!(i, |X| h.st().insert::<X>(v.clone()));
                trail.push(format!("text {i} = {v}"));
                m.texts.insert(i, v);
            }
            7 => {
                let i = c.rng.below(4);
                if let Some(t) = text_n!(i, |X| h.st().get_mut::<X>()) {
                    t.push('x');
                    m.texts.get_mut(&i).unwrap().push('x');
                    trail.push(format!("text {i} + x"));
                }
            }
            8 => {
                if c.rng.coin() {
                    h.st().insert::<U<0>>(());
                    m.unit = true;
                    trail.push("unit".into());
                } else {
                    let v = c.rng.next();
                    h.st().insert::<Data>(v);
                    m.data = Some(v);
                    trail.push(format!("data {v}"));
                }
            }
            9 => {
                let n = c.rng.pickv(&["Foo", "Bar", "Longer_nick"]);
                h.st().insert::<state::ClientSource>(Source { nick: Nick::from_str(n), userhost: None });
                m.nick = Some(n.into());
                trail.push(format!("nick {n}"));
            }
            10 => {
                let a = if c.rng.coin() { Some(c.rng.pickv(&["acct", "other"])) } else { None };
                h.st().insert::<state::Account>(a.map(Arg::from_str));
                m.account = Some(a.map(String::from));
                trail.push(format!("account {a:?}"));
                if c.rng.coin() {
                    h.st().insert::<state::ServerVersion>(Arg::from_str("v1"));
                    m.version = Some("v1".into());
                    trail.push("version".into());
                }
                if c.rng.chance(1, 3) {
                    h.st().insert::<state::Caps>(NameMap::new());
                    trail.push("caps".into());
                }
            }
            11 => {
                let n = c.rng.range(1, 500);
                h.st().set_source_len(std::num::NonZeroUsize::new(n).unwrap());
                m.len = n;
                trail.push(format!("length {n}"));
            }
            12 => {
                // Into something bigger.
                h = match std::mem::replace(&mut h, Hold::Moved) {
                    Hold::State(s) => Hold::Logic(ClientLogic::new().with_state(s)),
                    Hold::Logic(l) => {
                        conn = c.rng.next() as u32;
                        Hold::Client(Client::new_with_logic(conn, SyncChannels, l))
                    }
                    o => o,
                };
                trail.push("grow".into());
            }
            13 | 14 => {
                // A handler, which may refuse to be made.
                let id = m.next;
                let ok = c.rng.chance(4, 5);
                let mk = Mk(Tok(id, m.gone.clone()), m.toks.get(&0).copied(), m.texts.get(&0).cloned());
                let r = match &mut h {
                    Hold::Logic(l) => l.add_with_spec(&SyncChannels, mk, ok),
                    Hold::Client(cl) => cl.add(mk, ok),
                    _ => {
                        m.next += 1;
                        continue;
                    }
                };
                m.next += 1;
                match r {
                    Ok((_, rx)) => {
                        rxs.push(rx);
                        held.push(id);
                        queued += 1;
                        ck!(c, ok, "made", "{trail:?}");
                        c.ev("handlers");
                    }
                    Err(None) => ck!(c, !ok, "made", "{trail:?}"),
                    Err(Some(e)) => return c.fail("maker-view", format!("{e}; {trail:?}")),
                }
                trail.push(format!("handler {id} {ok}"));
            }
            15 => match &mut h {
                // What is left after a reset is configuration.
                Hold::State(_) | Hold::Moved => (),
                o => {
                    match o {
                        Hold::Logic(l) => l.reset(),
                        Hold::Client(cl) if c.rng.coin() => cl.reset(),
                        Hold::Client(cl) => {
                            let n = c.rng.next() as u32;
                            ckeq!(c, cl.reset_with_conn(n), conn, "connection", "{trail:?}");
                            conn = n;
                        }
                        _ => (),
                    }
                    m = Model { next: m.next, gone: m.gone, ..Model::default() };
                    held.clear();
                    queued = 0;
                    trail.push("reset".into());
                    c.ev("resets");
                }
            },
            16 => {
                // To another connection or channel kind, nothing else changes.
                h = match std::mem::replace(&mut h, Hold::Moved) {
                    Hold::Client(cl) => {
                        let n = c.rng.next() as u32;
                        trail.push("with_conn".into());
                        c.ev("moves");
                        conn = n;
                        Hold::Client(if c.rng.coin() { cl.with_conn(n) } else { cl.with_conn("x").with_spec(SyncChannels).with_conn(n) })
                    }
                    o => o,
                };
            }
            _ => {
                // To another thread and back.
                let t = std::mem::replace(&mut h, Hold::Moved);
                h = std::thread::spawn(move || t).join().unwrap();
                trail.push("thread".into());
                c.ev("threads");
            }
        }
        look(c, h.st(), &m, &held, &trail);
        ckeq!(c, h.shared().get::<K<1>>().map(|t| t.0), m.toks.get(&1).copied(), "value", "shared view; {trail:?}");
        let (need, q) = match &h {
            Hold::Logic(l) => (l.needs_run(), l.queue().len()),
            Hold::Client(cl) => (cl.needs_run(), cl.queue().len()),
            _ => (false, 0),
        };
        ck!(c, q == queued && need == (queued > 0 || !held.is_empty()), "leftovers", "{q} queued, needs a run: {need}; expected {queued} queued, {} handlers; {trail:?}", held.len());
    }
    c.evn("keys", m.toks.len() as u64);
    if m.toks.len() >= 12 {
        c.ev("many_keys");
    }
    match h {
        Hold::Client(cl) if c.rng.coin() => ckeq!(c, cl.take_conn(), conn, "connection", "{trail:?}"),
        h => drop(h),
    }
    let gone = m.gone.lock().unwrap();
    ck!(c, gone.len() as u64 == m.next && gone.values().all(|n| *n == 1), "lifetime", "after the end: {gone:?} of {}; {trail:?}", m.next);
    c.ev("histories");
    drop(gone);
    c.seen(&trail);
    c.sample(|| trail.join("; "));
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("history", 1500, 20_000, history);
    ctx.require("inserts", 100);
    ctx.require("updates", 20);
    ctx.require("many_keys", 2);
    ctx.require("handlers", 10);
    ctx.require("resets", 10);
    ctx.require("moves", 5);
    ctx.require("histories", 20);
}
