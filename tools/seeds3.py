# More planted bugs: mostly ones that an earlier version of the checks missed.
HAND = r'''
use std::io::Cursor;
use vinezombie::client::{channel::SyncChannels, conn::Bidir, Client};
#[allow(dead_code)]
fn client(msg: &str) -> Client<Bidir<Cursor<Vec<u8>>, Vec<u8>>, SyncChannels> {
    let mut c = Client::new(Bidir(Cursor::new(msg.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(std::time::Duration::ZERO, 1);
    c
}
'''
COUNT = HAND + r'''
use std::ops::ControlFlow;
use vinezombie::{client::{channel::{ChannelSpec, ClosedSender, Sender, SenderRef}, queue::QueueEditGuard, ClientState, Handler, SelfMadeHandler}, ircmsg::ServerMsg};
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
/// Counts messages; ends after so many.
struct Count(Arc<AtomicUsize>, usize);
impl Handler for Count {
    type Value = ();
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, _: SenderRef<'_, ()>) -> ControlFlow<()> {
        self.0.fetch_add(1, SeqCst);
        self.1 -= 1;
        if self.1 == 0 { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
    }
}
impl SelfMadeHandler for Count {
    type Receiver<S: ChannelSpec> = ();
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(_: &S) -> (Box<dyn Sender<Value = ()> + Send>, ()) { (Box::<ClosedSender<_>>::default(), ()) }
}
'''
bug("handlers-beyond-64", "C18",
 [("src/client/handler.rs", "while let Some((handler, id)) = self.handlers.get_mut(i) {", "while let Some((handler, id)) = self.handlers.get_mut(i).filter(|_| i < 64) {")],
 "a client with more than 64 handlers at once",
 "handlers past the 64th are not shown messages",
COUNT + r'''
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let mut c = client("PING :a\r\nPING :b\r\n");
    for _ in 0..70 { c.add((), Count(n.clone(), 9)).unwrap(); }
    while c.run().is_ok() {}
    assert_eq!(n.load(SeqCst), 140, "handler calls");
}
''')
bug("handler-id-reused", "C18",
 [("src/client/handler.rs", "let id = self.finished.pop().unwrap_or(self.handlers.len());", "let id = self.finished.pop().filter(|id| *id < 16).unwrap_or(self.handlers.len());")],
 "more than sixteen handlers, of which a late one ends while earlier ones stay, then more are added",
 "two handlers that are both active get the same number",
COUNT + r'''
use std::collections::BTreeSet;
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let mut c = client("PING :a\r\nPING :b\r\n");
    let mut live = BTreeSet::new();
    for i in 0..30 {
        let last = (16..26).contains(&i);
        let id = c.add((), Count(n.clone(), if last { 1 } else { 99 })).unwrap().0;
        assert!(live.insert(id));
    }
    let done: Vec<usize> = c.run().unwrap().unwrap().1.to_vec();
    assert_eq!(done.len(), 10);
    for id in done { live.remove(&id); }
    for _ in 0..12 {
        let id = c.add((), Count(n.clone(), 99)).unwrap().0;
        assert!(live.insert(id), "the number {id} is in use");
    }
}
''')
bug("adjuster-stale-flag", "C17",
 [("src/client/queue.rs", "*should_adjust = adj.should_adjust(msg);\n            retval |= *should_adjust;", "*should_adjust |= adj.should_adjust(msg);\n            retval |= *should_adjust;")],
 "two adjusters, one that reacts to a first message and the other to a later one",
 "the first adjuster rewrites or drops queued messages because of a message it did not react to",
r'''
use vinezombie::{client::queue::*, ircmsg::{ClientMsg, ServerMsg}, names::cmd::LUSERS};
struct A(&'static str, bool);
impl Adjuster for A {
    fn should_adjust(&mut self, m: &ServerMsg<'_>) -> bool { m.kind.as_str() == self.0 }
    fn update(&mut self, _: &mut ClientMsg<'_>) -> bool { self.1 }
    fn reset(&mut self) {}
}
fn main() {
    let mut q = Queue::new();
    let mut m = MultiAdjuster::new();
    m.add(A("JOIN", false));
    m.add(A("PART", true));
    q.use_adjuster(m);
    q.edit().push(ClientMsg::new(LUSERS));
    q.adjust(&ServerMsg::parse("JOIN #x").unwrap());
    assert_eq!(q.len(), 0);
    q.edit().push(ClientMsg::new(LUSERS));
    q.adjust(&ServerMsg::parse("PART #x").unwrap());
    assert_eq!(q.len(), 1, "an adjuster that did not react dropped a message");
}
''')
bug("label-wrap-16", "C17",
 [("src/client/queue.rs", "id = id.overflowing_add(1).0;", "id = (id + 1) & 0xFFFF;")],
 "more than 65536 labeled messages on one client",
 "labels repeat, so that replies are matched with the wrong message",
r'''
use vinezombie::{client::queue::*, ircmsg::ClientMsg, names::cmd::LUSERS};
fn main() {
    let mut q = Queue::new();
    q.use_labeler_default();
    let mut seen = std::collections::HashSet::new();
    for i in 0..70_000u32 {
        let l = q.edit().push_labeled(ClientMsg::new(LUSERS)).unwrap();
        assert!(seen.insert(l.as_bytes().to_vec()), "label {l} repeats after {i}");
        if i % 1000 == 0 { q.clear(); }
    }
}
''')
bug("auth-broken-prefix", "C23",
 [("src/client/auth/handler.rs", "self.queue.retain(&|ln| name != *ln);", "self.queue.retain(&|ln| !ln.starts_with(&name));")],
 "a mechanism whose name starts with the name of the one that just proved broken",
 "the other mechanism is ruled out too and login fails although it would have worked",
HAND + r'''
use vinezombie::{client::auth::{Sasl, SaslLogic, SaslQueue}, names::cmd::AUTHENTICATE, string::{Arg, SecretBuf}};
struct M(&'static str, bool);
impl SaslLogic for M {
    fn name(&self) -> Arg<'static> { Arg::from_str(self.0) }
    fn reply(&mut self, _: &[u8], out: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        if self.1 { out.push_slice(b"hi"); Ok(()) } else { Err("odd challenge".into()) }
    }
}
struct S(&'static str, bool);
impl Sasl for S { fn logic(&self) -> Vec<Box<dyn SaslLogic>> { vec![Box::new(M(self.0, self.1))] } }
fn main() {
    let mut q = SaslQueue::new();
    q.push(&S("TEST", false));
    q.push(&S("TEST-PLUS", true));
    let mut c = client("AUTHENTICATE +\r\n:x 906 Me :aborted\r\nAUTHENTICATE +\r\n:x 903 Me :ok\r\n");
    let (_, r) = c.add(AUTHENTICATE, q).unwrap();
    while c.run().is_ok_and(|r| r.is_some_and(|r| r.1.is_empty())) {}
    let sent = String::from_utf8(c.take_conn().1).unwrap();
    let _ = r;
    assert!(sent.contains("AUTHENTICATE TEST-PLUS\r\n"), "{sent}");
}
''')
bug("cap-req-drops-line", "C26",
 [("src/client/cap.rs", "            if !cap_string.is_empty() {\n                let mut msg_clone", "            if cap_string.len() > cap.len() {\n                let mut msg_clone")],
 "a capability with a name longer than all those collected for the line before it",
 "the capabilities collected for that line are never requested",
r'''
use vinezombie::{client::cap, ircmsg::ClientMsg, string::Key};
fn main() {
    let long = "vendor.example/".to_string() + &"x".repeat(465);
    let caps = ["batch", "echo-message", &long, "setname"];
    let mut got = vec![];
    cap::req(caps.map(|c| Key::from_bytes(c.as_bytes().to_vec()).unwrap()), None, None, |m: ClientMsg<'static>| {
        let a = m.args.split_last().1.unwrap().to_utf8_lossy().into_owned();
        got.extend(a.split(' ').map(|s| s.to_string()).collect::<Vec<_>>());
    });
    assert_eq!(got, caps, "requested");
}
''')
bug("decoder-64k", "C15",
 [("src/string/base64.rs", "            self.0.extend_from_slice(chunk);\n            None", "            self.0.extend(chunk.iter().take(usize::from(u16::MAX) - self.0.len().min(65535)));\n            None")],
 "a SASL payload of more than 64 KiB in chunks",
 "what lies beyond is cut off without an error",
r'''
use vinezombie::string::base64::{ChunkDecoder, ChunkEncoder};
fn main() {
    let data: Vec<u8> = (0..90_000u32).map(|i| (i % 251) as u8).collect();
    let mut d = ChunkDecoder::new(400);
    let mut out = None;
    for c in ChunkEncoder::new(&data, 400, false) {
        if let Some(r) = d.add(c.as_bytes()) { out = Some(r.unwrap().to_vec()); }
    }
    let out = out.unwrap_or_else(|| d.decode().unwrap().to_vec());
    assert_eq!(out.len(), data.len());
    assert!(out == data);
}
''')
bug("isupport-first-13", "C22",
 [("src/client/register/handler.rs", "                for isupport in isupports {", "                for isupport in isupports.iter().take(13) {")],
 "a server that puts more than thirteen tokens on one 005 line",
 "the tokens after the thirteenth are not recorded",
r'''
use std::{io::Cursor, time::Duration};
use vinezombie::{client::{auth::Clear, channel::SyncChannels, conn::Bidir, register::{register_as_bot, Options}, state::ISupport, Client}, string::{Key, Nick}};
fn main() {
    let toks: Vec<String> = (0..20).map(|i| format!("T{i}={i}")).collect();
    let msg = format!(":x CAP * LS :\r\n:x 001 Me :hi\r\n:x 004 Me x v i n\r\n:x 005 Me {} :are supported\r\n:x 422 Me :no\r\n", toks.join(" "));
    let mut options: Options<Clear> = Options::new();
    options.nicks = vec![Nick::from_str("Me")];
    let reg = register_as_bot();
    let mut c = Client::new(Bidir::<Cursor<Vec<u8>>, Vec<u8>>(Cursor::new(msg.into_bytes()), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 1);
    let (_, r) = c.add(&reg, &options).unwrap();
    c.run().unwrap();
    r.0.recv_now().unwrap().unwrap();
    let is = c.state().get::<ISupport>().unwrap();
    for i in 0..20 {
        assert!(is.get_union_raw(&Key::from_bytes(format!("T{i}").into_bytes()).unwrap()).is_some(), "T{i} is missing");
    }
}
''')
bug("flush-stops-at-16k", "C18",
 [("src/client/conn/sync.rs", "        while let Some(popped) = self.logic.queue.pop(|new_timeout| timeout = new_timeout) {", "        while let Some(popped) = Some(&self.conn.buf_o).filter(|b| b.len() < 16384).and_then(|_| self.logic.queue.pop(|new_timeout| timeout = new_timeout)) {")],
 "messages of more than 16 KiB altogether that may all be sent at once",
 "the rest stays queued although no wait is reported",
HAND + r'''
use vinezombie::{ircmsg::ClientMsg, names::cmd::PRIVMSG, string::Line};
fn main() {
    let mut c = client("");
    for _ in 0..60 {
        let mut m = ClientMsg::new(PRIVMSG);
        m.args.edit().add(Line::from_bytes(vec![b'x'; 400]).unwrap());
        c.queue_mut().edit().push(m);
    }
    let wait = c.flush_partial().unwrap();
    assert!(wait.is_some() || c.queue_mut().is_empty(), "{} messages stay queued with nothing to wait for", c.queue_mut().len());
}
''')
bug("nicks-long-list", "C24",
 [("src/client/nick.rs", "let is_finite = self.iter.size_hint().1.is_some();", "let is_finite = self.iter.size_hint().1.is_some_and(|n| n <= 64);")],
 "a list of more than 65 nicknames, one of which the server calls invalid",
 "the remaining names are never tried",
r'''
use vinezombie::{client::nick::{from_iter, NickGen}, string::Nick};
fn main() {
    let v: Vec<Nick<'static>> = (0..100).map(|i| Nick::from_bytes(format!("nick{i}").into_bytes()).unwrap()).collect();
    let g: Box<dyn NickGen> = Box::new(from_iter(v).unwrap());
    let (first, rest) = g.next_nick();
    let rest = rest.unwrap().handle_invalid(&first);
    assert!(rest.is_some(), "given up after the first invalid nickname");
}
''')
bug("map-bytes-tail", "C16",
 [("src/string/tf.rs", "        for byte in &bytes[idx..] {\n            let mapped = f(byte);\n            ascii_only &= mapped < 128;\n            new_bytes.push(mapped);\n        }", "        for byte in &bytes[idx..] {\n            let mapped = if new_bytes.len() < 512 { f(byte) } else { *byte };\n            ascii_only &= mapped < 128;\n            new_bytes.push(mapped);\n        }")],
 "a casemapping of a string longer than 512 bytes with something to change past that",
 "the far end of the string is not casemapped",
r'''
use vinezombie::string::{tf::AsciiCasemap, Bytes};
fn main() {
    let mut b: Bytes<'static> = Bytes::from(vec![b'A'; 600]);
    b.transform(AsciiCasemap::<false>);
    assert_eq!(b.as_bytes(), &[b'a'; 600][..]);
}
''')
