# Planted bugs in capability replies, shared state, and what mutation testing let through at first.
HAND = r'''
use std::io::Cursor;
use vinezombie::client::{channel::SyncChannels, conn::Bidir, Client};
#[allow(dead_code)]
fn client(msg: &str) -> Client<Bidir<Cursor<Vec<u8>>, Vec<u8>>, SyncChannels> {
    let mut c = Client::new(Bidir(Cursor::new(msg.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(std::time::Duration::ZERO, 1);
    c
}
'''
REGA = r'''
use std::{io::Cursor, time::Duration};
use vinezombie::{client::{auth::Clear, channel::SyncChannels, conn::Bidir, register::{register_as_bot, Options}, state::*, Client}, string::Nick};
#[allow(dead_code)]
fn register(msg: &str) -> Client<Bidir<Cursor<Vec<u8>>, Vec<u8>>, SyncChannels> {
    let mut options: Options<Clear> = Options::new();
    options.nicks = vec![Nick::from_str("Me")];
    let reg = register_as_bot();
    let mut c = Client::new(Bidir::<Cursor<Vec<u8>>, Vec<u8>>(Cursor::new(msg.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 1);
    let (_, r) = c.add(&reg, &options).unwrap();
    c.run().unwrap();
    r.0.recv_now().unwrap().unwrap();
    c
}
'''
bug("welcome-last-word", "C22",
 [("src/client/register/handler.rs", "                    .first()\n                    .filter(|n| *n != crate::names::STAR.as_bytes())", "                    .last()\n                    .filter(|n| *n != crate::names::STAR.as_bytes())")],
 "a welcome (001) whose text is more than one argument",
 "the client takes a word of the greeting for its nick",
REGA + r'''
fn main() {
    let c = register(":x CAP * LS :\r\n:x 001 Me Welcome to :the network\r\n:x 004 Me x v i n\r\n:x 422 Me :no\r\n");
    assert_eq!(c.state().get::<ClientSource>().unwrap().nick, "Me");
}
''')
bug("cap-subcommand-case", "C29",
 [("src/client/cap.rs", "        subcmd.transform(crate::string::tf::AsciiCasemap::<true>);", "        if subcmd.len() > 2 {\n            subcmd.transform(crate::string::tf::AsciiCasemap::<true>);\n        }")],
 "a server that writes CAP * ls in small letters",
 "the reply is rejected",
r'''
use vinezombie::{client::cap::ServerMsgArgs, ircmsg::ServerMsg};
fn main() {
    for s in ["ls", "Ls", "ack", "nEW"] {
        let m = ServerMsg::parse(format!("CAP * {s} :a b=c")).unwrap();
        assert_eq!(ServerMsgArgs::parse(&m.args).expect(s).caps.len(), 2);
    }
}
''')
bug("cap-bad-item-ends-list", "C29",
 [("src/client/cap.rs", "                _ => continue,\n            };\n            caps.insert(key, value);", "                _ => break,\n            };\n            caps.insert(key, value);")],
 "an item whose name is no capability name in the middle of a list",
 "the capabilities after it are dropped",
r'''
use vinezombie::{client::cap::ServerMsgArgs, ircmsg::ServerMsg};
fn main() {
    let m = ServerMsg::parse("CAP * LS :a x;y=1 b=c :z d").unwrap();
    let a = ServerMsgArgs::parse(&m.args).unwrap();
    assert!(a.contains("a") && a.contains("b") && a.contains("d"));
    assert_eq!(a.caps.len(), 3);
}
''')
bug("cap-combine-other-nick", "C29",
 [("src/client/cap.rs", "if self.is_last || self.subcmd != newer.subcmd || self.nick != newer.nick {", "if self.is_last || self.subcmd != newer.subcmd || self.nick.len() != newer.nick.len() {")],
 "lines of two replies addressed to different nicks of the same length",
 "they are joined into one",
r'''
use vinezombie::{client::cap::ServerMsgArgs, ircmsg::ServerMsg};
fn main() {
    let m = ServerMsg::parse("CAP Foo LS * :a").unwrap();
    let n = ServerMsg::parse("CAP Bar LS :b").unwrap();
    let mut a = ServerMsgArgs::parse(&m.args).unwrap();
    assert!(a.combine(ServerMsgArgs::parse(&n.args).unwrap()).is_some());
    assert!(!a.contains("b"));
}
''')
bug("cap-combine-first-value", "C29",
 [("src/client/cap.rs", "        for (key, value) in newer.caps {\n            self.caps.insert(key, value);\n        }", "        for (key, value) in newer.caps {\n            self.caps.entry(key).or_insert(value);\n        }")],
 "a capability listed again, with another value, on a later line of the same reply",
 "the older value wins",
r'''
use vinezombie::{client::cap::ServerMsgArgs, ircmsg::ServerMsg};
fn main() {
    let m = ServerMsg::parse("CAP Foo LS * :sasl=PLAIN").unwrap();
    let n = ServerMsg::parse("CAP Foo LS :sasl=EXTERNAL").unwrap();
    let mut a = ServerMsgArgs::parse(&m.args).unwrap();
    assert!(a.combine(ServerMsgArgs::parse(&n.args).unwrap()).is_none());
    assert_eq!(a.caps["sasl".as_bytes()], "EXTERNAL");
}
''')
STATE = r'''
use vinezombie::client::{channel::SyncChannels, state::ClientStateKey, Client, ClientLogic, ClientState};
#[derive(Default)] struct K<const N: usize>;
impl<const N: usize> ClientStateKey for K<N> { type Value = usize; }
'''
bug("reset-needs-handlers", "C30",
 [("src/client/logic.rs", "        self.handlers.cancel();\n        self.queue.reset();\n        self.state.clear();", "        if self.needs_run() {\n            self.state.clear();\n        }\n        self.handlers.cancel();\n        self.queue.reset();")],
 "a reset while no handler is active and nothing is queued",
 "shared state outlives the reset",
STATE + r'''
fn main() {
    let mut c = Client::new((), SyncChannels);
    c.state_mut().insert::<K<1>>(7);
    c.reset();
    assert!(c.state().get::<K<1>>().is_none());
    let mut l = ClientLogic::new().with_state(ClientState::new());
    l.state_mut().insert::<K<2>>(7);
    l.reset();
    assert!(l.state().get::<K<2>>().is_none());
}
''')
bug("state-replace-after-eight", "C30",
 [("src/client/logic.rs", "        self.state.edit().insert((K::default().type_id(), Box::new(value)));", "        if self.state.len() > 8 && self.get::<K>().is_some() {\n            return;\n        }\n        self.state.edit().insert((K::default().type_id(), Box::new(value)));")],
 "more than eight keys in the shared state, one of which is stored again",
 "the new value is dropped",
STATE + r'''
macro_rules! all { ($($n:literal)*) => { fn put(s: &mut ClientState, v: usize) { $( s.insert::<K<$n>>(v + $n); )* } fn check(s: &ClientState, v: usize) { $( assert_eq!(s.get::<K<$n>>().copied(), Some(v + $n)); )* } } }
all!(0 1 2 3 4 5 6 7 8 9 10 11);
fn main() {
    let _ = (Client::<(), SyncChannels>::needs_run, ClientLogic::needs_run, SyncChannels);
    let mut s = ClientState::new();
    put(&mut s, 100); check(&s, 100);
    put(&mut s, 200); check(&s, 200);
}
''')
bug("secret-hint-trusted", "C07",
 [("src/string/secretbuf.rs", "(min, Some(max)) => std::cmp::max(min, std::cmp::min(u16::MAX as usize, max)),", "(min, Some(max)) => std::cmp::max(min, max),")],
 "a secret collected from an iterator that gives no useful upper bound",
 "a huge allocation is attempted and the program dies",
r'''
use vinezombie::string::SecretBuf;
struct It(u8);
impl Iterator for It {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { if self.0 < 5 { self.0 += 1; Some(self.0) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(usize::MAX)) }
}
fn main() {
    let b: SecretBuf = It(0).collect();
    assert_eq!(b.into_bytes().as_ref(), [1, 2, 3, 4, 5]);
}
''')
bug("invalid-byte-reported", "C05",
 [("src/string/subtypes/macros.rs", "                return Some(InvalidString::Byte($bytes[i]));", "                return Some(InvalidString::Byte($bytes[i & 0xFF]));")],
 "a forbidden byte more than 256 bytes into a string",
 "the error names a byte that is not the offence",
r'''
use vinezombie::{error::InvalidString, string::Line};
fn main() {
    let mut v = vec![b'a'; 300];
    v.push(b'\n');
    assert_eq!(Line::from_bytes(v).unwrap_err(), InvalidString::Byte(b'\n'));
}
''')
bug("weak-sender-break", "C18",
 [("src/client/handler/channel.rs", "            if sender.send(value).is_ok() {\n                return ControlFlow::Continue(());\n            }\n        }\n        ControlFlow::Break(Sent::Closed)\n    }\n}\n\n/// Spec", "            if sender.send(value).is_ok() && sender.strong_count() > 2 {\n                return ControlFlow::Continue(());\n            }\n        }\n        ControlFlow::Break(Sent::Closed)\n    }\n}\n\n/// Spec")],
 "a handler whose channel is a weak sender, kept open by one strong sender elsewhere",
 "a value that was delivered is not reported as yielded",
HAND + r'''
use std::ops::ControlFlow;
use vinezombie::{client::{channel::{ChannelSpec, Sender, SenderRef}, queue::QueueEditGuard, ClientState, Handler, SelfMadeHandler}, ircmsg::ServerMsg};
struct H;
impl Handler for H {
    type Value = u8;
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, mut ch: SenderRef<'_, u8>) -> ControlFlow<()> {
        assert!(ch.send(7).is_continue(), "the channel is open");
        ControlFlow::Continue(())
    }
}
impl SelfMadeHandler for H {
    type Receiver<S: ChannelSpec> = S::Queue<u8>;
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(s: &S) -> (Box<dyn Sender<Value = u8> + Send>, S::Queue<u8>) { s.new_queue() }
}
fn main() {
    let (s, mut r) = tokio::sync::mpsc::unbounded_channel();
    let mut c = client("PING :a\r\n");
    let id = c.add_with_sender(Box::new(s.downgrade()), (), H).unwrap();
    let res = c.run().unwrap().unwrap();
    assert!(res.0.contains(&id), "yield not reported");
    assert_eq!(r.try_recv().ok(), Some(7));
    drop(s);
}
''', features=("base64", "client", "serde", "tokio"), deps='tokio = { version = "1", features = ["sync"] }')
