REG = r'''
use std::{io::Cursor, time::Duration};
use vinezombie::{client::{auth::Clear, channel::SyncChannels, conn::Bidir, register::{register_as_bot, HandlerError, Options}, Client, ClientState}, string::Nick};
#[allow(dead_code)]
fn register(opts: impl FnOnce(&mut Options<Clear>), msg: &str) -> (Result<ClientState, HandlerError>, String) {
    let mut options: Options<Clear> = Options::new();
    options.nicks = vec![Nick::from_str("Me")];
    opts(&mut options);
    let reg = register_as_bot();
    let io = Bidir::<Cursor<Vec<u8>>, Vec<u8>>(Cursor::new(msg.as_bytes().to_vec()), Vec::new());
    let mut client = Client::new(io, SyncChannels);
    client.queue_mut().set_rate_limit(Duration::ZERO, 1);
    let (_, reg) = client.add(&reg, &options).unwrap();
    let run = client.run().map(|_| ());
    let state = std::mem::take(client.state_mut());
    let sent = String::from_utf8_lossy(&client.take_conn().1).into_owned();
    let res = match reg.0.recv_now() {
        Some(Ok(())) => Ok(state),
        Some(Err(e)) => Err(e),
        None => panic!("no verdict: {run:?}; sent {sent}"),
    };
    (res, sent)
}
'''
HAND = r'''
use std::io::Cursor;
use vinezombie::client::{channel::SyncChannels, conn::Bidir, Client};
#[allow(dead_code)]
fn client(msg: &str) -> Client<Bidir<Cursor<Vec<u8>>, Vec<u8>>, SyncChannels> {
    let mut c = Client::new(Bidir(Cursor::new(msg.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(std::time::Duration::ZERO, 1);
    c
}
'''
bug("tags-empty-last-hang", "C02",
 [("src/ircmsg/tags.rs", "            let value = if matches!(splitter.next_byte(), Some(b'=')) {\n                let value = splitter.save_end().until_byte_eq(b';').rest::<NoNul>().unwrap();\n                splitter.next_byte();",
   "            let value = if matches!(splitter.next_byte(), Some(b'=')) {\n                let value = splitter.save_end().until_byte_eq(b';').rest::<NoNul>().unwrap(); tags.reserve(splitter.len() * size_hint);\n                splitter.next_byte();")],
 "a tag section near the size limit made of very many short tags",
 "memory reserved while parsing grows with the product of the remaining length and the number of tags instead of with the input",
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); if l.size() > 1 << 30 { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAX.fetch_max(n, Relaxed); if n > 1 << 30 { return std::ptr::null_mut(); } System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let s = "a=b;".repeat(1000);
    let t = vinezombie::ircmsg::Tags::parse(vinezombie::string::Word::from_str(&s));
    assert_eq!(t.len(), 1);
    assert!(MAX.load(Relaxed) < 4_000_000, "allocated {} bytes for a line of {}", MAX.load(Relaxed), s.len());
}
''')
bug("nick-from-arg-target-only", "C05",
 [("src/string/subtypes/impls.rs", "Nick::from_super(Target::from_super(arg.into())?)",
   "let target = Target::from_super(arg.into())?;\n        if target.first().is_some_and(Nick::is_invalid) {\n            return Nick::from_super(target);\n        }\n        Ok(unsafe { Nick::from_unchecked(target.into()) })")],
 "an argument whose forbidden byte is not its first one",
 "the conversion from arguments checks only the first byte against the nick rule, so nicks can contain '!' or '@'",
r'''
use vinezombie::string::{Arg, Nick};
fn main() {
    for b in ["a!b", "x@y", "nick!", "q@"] {
        assert!(Nick::from_arg(Arg::from_str(b)).is_err() || Nick::from_bytes(b.as_bytes().to_vec()).is_ok(), "{b} became a nick");
    }
    assert!(Nick::from_arg(Arg::from_str("plain")).is_ok());
}
''')
bug("thinarc-clone-split", "C08",
 [("src/util/thinarc.rs", "self.ret_rc().fetch_add(1, Ordering::Relaxed);",
   "let rc = self.ret_rc().load(Ordering::Relaxed);\n        let _ = self.ret_rc().compare_exchange(rc, rc + 1, Ordering::Relaxed, Ordering::Relaxed);")],
 "two threads cloning the same shared string at the same moment",
 "a clone whose increment loses the race is not counted, so the buffer is freed while handles are alive",
r'''
use vinezombie::string::Bytes;
fn main() {
    // A lost increment frees the buffer early: watch the contents of the last handle.
    for round in 0..400u32 {
        let b: Bytes<'static> = Bytes::from(vec![round as u8 | 1; 64]);
        let hs: Vec<_> = (0..8).map(|_| {
            let b = b.clone();
            std::thread::spawn(move || { for _ in 0..2000 { let c = b.clone(); std::hint::black_box(&c); } })
        }).collect();
        for h in hs { h.join().unwrap(); }
        let noise: Vec<_> = (0..64).map(|_| Bytes::from(vec![0u8; 64])).collect();
        assert_eq!(b.as_bytes(), &[round as u8 | 1; 64][..], "contents changed while a handle was alive");
        drop(noise);
    }
}
''')
bug("secret-debug-bytes", "C09",
 [("src/string/bytes.rs", "        if !self.is_secret() {\n            if let Some(v)", "        if !self.is_secret() || self.is_utf8_lazy() == Some(false) {\n            if let Some(v)")],
 "a secret that is not valid UTF-8 and was checked for that before, printed with {:?}",
 "the bytes of the secret are printed",
r'''
use vinezombie::string::Bytes;
fn main() {
    let b = Bytes::from_secret(vec![200, 201, 202, 203, 204]);
    assert!(b.to_utf8().is_none());
    let s = format!("{b:?}");
    assert!(!s.contains("201"), "{s}");
}
''')
bug("secretbuf-grow-len", "C10",
 [("src/string/secretbuf.rs", "            resized.reinit_all();\n            std::mem::ManuallyDrop::into_inner(resized);",
   "            resized.init_capacity(self.len);\n            std::mem::ManuallyDrop::into_inner(resized);")],
 "a secret buffer that has to grow after it was filled past half its capacity",
 "growing wipes the wrong part of the old block, so the secret stays in freed memory",
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static LEAK: AtomicBool = AtomicBool::new(false);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = std::slice::from_raw_parts(p, l.size());
        if s.windows(8).any(|w| w == [0xA7; 8]) { LEAK.store(true, SeqCst); }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    use vinezombie::string::SecretBuf;
    let mut s = SecretBuf::with_capacity(32);
    for _ in 0..32 { s.push(0xA7, 0); }
    s.push(0xA7, 0);
    for _ in 0..10 { s.push_cstr(&[0xA7; 20]); }
    drop(s);
    assert!(!LEAK.load(SeqCst), "secret bytes in a freed block");
}
''')
bug("serde-byte-buf-lossy", "C13",
 [("src/string/serde.rs", "        Ok(Bytes::from_bytes(v).owning())", "        Ok(Bytes::from_bytes(v.trim_ascii_end()).owning())")],
 "a string that is not UTF-8 and ends in whitespace, in a format with byte strings",
 "deserialising returns a different string (its trailing whitespace is gone)",
r'''
use serde::{de::{value::{BytesDeserializer, Error}, IntoDeserializer}, Deserialize};
use vinezombie::string::Bytes;
fn main() {
    for v in [&b"a\xff "[..], b"\xfe\n", b"\xff", b" x\xf0"] {
        let d: BytesDeserializer<'_, Error> = IntoDeserializer::into_deserializer(v);
        if let Ok(b) = Bytes::deserialize(d) { assert_eq!(b.as_bytes(), v); }
    }
}
''', deps='serde = "1"')
bug("status-prefix-shift", "C14",
 [("src/state/mode.rs", "            let Some(mode) = Mode::new(mode) else {\n                continue;\n            };\n            for (mode_b, prefix_b) in map.iter().copied() {",
   "            let Some(mode) = Mode::new(mode) else { skip_prefixes = true;\n                continue;\n            };\n            for (mode_b, prefix_b) in map.iter().copied() {")],
 "a PREFIX value whose list of modes contains a character that is not a letter",
 "every status mode after it loses its prefix",
r'''
use std::num::NonZeroU8;
use vinezombie::state::{Mode, StatusModes};
fn main() {
    let s = StatusModes::parse(b"(o1v)@!+").unwrap();
    let v = Mode::new(b'v').unwrap();
    assert_eq!(s.get_prefix(v), NonZeroU8::new(b'+'));
    assert_eq!(s.get_mode(NonZeroU8::new(b'+').unwrap()), Some(v));
}
''')
bug("casemap-strict-caret", "C16",
 [("src/string/tf/casemap.rs", "if matches!(byte, b'['..=b']') {", "if matches!(byte, b'['..=b'^') {")],
 "a name containing '^' under one of the RFC 1459 mappings",
 "'^' is folded to '~', so the mapping is no longer idempotent and names with ^ and ~ compare wrongly",
r'''
use vinezombie::string::{tf::IrcCasemap, Nick};
fn main() {
    for (m, want) in [(IrcCasemap::Rfc1459Strict, "a^{b}|"), (IrcCasemap::Rfc1459, "a^{b}|")] {
        let mut n = Nick::from_str("A^[b]\\");
        n.transform(m);
        assert_eq!(n.as_bytes(), want.as_bytes());
    }
}
''')
bug("handler-finish-skips-next", "C18",
 [("src/client/handler.rs", "                    let _ = self.handlers.swap_remove(i);", "                    let _ = self.handlers.swap_remove(i); i += yielded as usize;")],
 "a handler that yields and finishes on a message while a later-added handler is active",
 "the handler moved into the freed slot does not see the message",
HAND + r'''
use std::ops::ControlFlow;
use vinezombie::{client::{channel::{ChannelSpec, ClosedSender, Sender, SenderRef, SyncChannels as SC}, queue::QueueEditGuard, ClientState, Handler, SelfMadeHandler}, ircmsg::ServerMsg};
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
struct Once; struct Count(Arc<AtomicUsize>);
impl Handler for Once {
    type Value = ();
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, mut c: SenderRef<'_, ()>) -> ControlFlow<()> { c.send(()); ControlFlow::Break(()) }
}
impl SelfMadeHandler for Once {
    type Receiver<S: ChannelSpec> = S::Oneshot<()>;
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(s: &S) -> (Box<dyn Sender<Value = ()> + Send>, Self::Receiver<S>) { s.new_oneshot() }
}
impl Handler for Count {
    type Value = ();
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, _: SenderRef<'_, ()>) -> ControlFlow<()> { self.0.fetch_add(1, SeqCst); ControlFlow::Continue(()) }
}
impl SelfMadeHandler for Count {
    type Receiver<S: ChannelSpec> = ();
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(_: &S) -> (Box<dyn Sender<Value = ()> + Send>, ()) { (Box::<ClosedSender<_>>::default(), ()) }
}
fn main() {
    let _ = SC;
    let n = Arc::new(AtomicUsize::new(0));
    let mut c = client("PING :a\r\nPING :b\r\nPING :c\r\n");
    let _r = c.add((), Once).unwrap();
    c.add((), Count(n.clone())).unwrap();
    while c.run().is_ok() {}
    assert_eq!(n.load(SeqCst), 3, "messages seen by the second handler");
}
''')
bug("rate-wait-drops-partial", "C19",
 [("src/client/conn/sync.rs", "                if rto_from_queue {\n                    // If we're here, the actual", "                if rto_from_queue { self.conn.buf_i.clear();\n                    // If we're here, the actual")],
 "a wait for the send rate limit that ends while only part of a message has arrived",
 "the part that had arrived is thrown away and the rest is taken for a message of its own",
HAND + r'''
use std::io::{BufRead, Read};
use std::time::Duration;
use vinezombie::client::conn::ReadTimeout;
struct R(Vec<&'static [u8]>, bool);
impl ReadTimeout for R { fn set_read_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> { Ok(()) } }
impl Read for R { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { unreachable!() } }
impl BufRead for R {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.1 { self.1 = false; std::thread::sleep(Duration::from_millis(120)); return Err(std::io::ErrorKind::TimedOut.into()); }
        Ok(self.0.first().copied().unwrap_or(&[]))
    }
    fn consume(&mut self, n: usize) {
        if n == 0 { return; }
        self.0[0] = &self.0[0][n..];
        if self.0[0].is_empty() { self.0.remove(0); self.1 = !self.0.is_empty(); }
    }
}
fn main() {
    let mut c = Client::new(Bidir(R(vec![b"PING :one two", b" three\r\n"], false), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::from_millis(100), 0);
    c.add((), vinezombie::client::handlers::AutoPong).unwrap();
    for _ in 0..3 {
        c.queue_mut().edit().push(vinezombie::ircmsg::ClientMsg::new(vinezombie::names::cmd::LUSERS));
    }
    while c.run().is_ok() {}
    while let Ok(Some(d)) = c.flush_partial() { std::thread::sleep(d); }
    let sent = String::from_utf8(c.take_conn().1).unwrap();
    assert!(sent.contains("PONG :one two three\r\n"), "{sent}");
}
''')
bug("nak-outside-request", "C22",
 [("src/client/register/handler.rs", "                let missing: BTreeSet<_> = ackd.intersection(&caps).cloned().collect();",
   "                let missing: BTreeSet<_> = ackd.intersection(&caps).skip(1).cloned().collect();")],
 "a server that refuses exactly one of the capabilities required",
 "the refusal is overlooked and registration never finishes negotiation or reports the missing capability",
REG + r'''
fn main() {
    let (res, sent) = register(|o| { o.caps.insert(vinezombie::string::Key::from_str("labeled-response")); }, concat!(
        ":x CAP * LS :labeled-response echo-message\r\n",
        ":x CAP * NAK :labeled-response\r\n",
        ":x 001 Me :hi\r\n:x 002 Me :.\r\n:x 003 Me :.\r\n:x 004 Me x v iw bnt\r\n:x 422 Me :no\r\n"));
    assert!(matches!(res, Err(HandlerError::MissingCaps(_))), "registered although a required capability was refused; sent {sent}");
}
''')
bug("suffix-after-invalid", "C24",
 [("src/client/nick/suffix.rs", "        if nick.starts_with(&self.prefix) {", "        if *nick == self.prefix {")],
 "a server that accepts the plain nick's form but rejects a suffixed one as invalid",
 "suffixes keep being added to a nick whose suffixed form was rejected as invalid",
r'''
use vinezombie::{client::nick::{NickTransformer, Suffix, SuffixStrategy, SuffixType}, string::Nick};
fn main() {
    let s = Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Base10].into() };
    let g = s.transform(Nick::from_str("toolong"));
    let (n, g) = g.next_nick();
    let g = g.unwrap().handle_invalid(&n);
    assert!(g.is_none(), "more suffixes for {n} although it is invalid");
}
''')
bug("pong-first-arg", "C25",
 [("src/client/handlers/ping.rs", "        if let Some(last) = msg.args.split_last().1 {\n            reply.args.edit().add(last.clone().owning());", "        if let Some(last) = msg.args.split_last().1 {\n            let last = msg.args.words().first().filter(|_| last.len() < 2).map_or(last.clone(), |w| w.clone().into());\n            reply.args.edit().add(last.owning());")],
 "a PING with two arguments of which the last is shorter", "the PONG carries the wrong token",
HAND + r'''
fn main() {
    let mut c = client("PING longtoken :b\r\nPING :a c\r\n");
    c.add((), vinezombie::client::handlers::AutoPong).unwrap();
    while c.run().is_ok() {}
    let _ = c.run();
    let sent = String::from_utf8(c.take_conn().1).unwrap();
    assert_eq!(sent, "PONG b\r\nPONG :a c\r\n");
}
''')
bug("source-len-userlen", "C26",
 [("src/client/logic.rs", "                    .get_parsed(crate::names::isupport::USERLEN)", "                    .get_parsed(crate::names::isupport::NICKLEN)")],
 "a server that advertises a user name limit longer than its nick limit, before the client's user name is known",
 "the assumed sender prefix is too short, so messages reported to fit are cut by the server",
REG + r'''
fn main() {
    let (res, _) = register(|_| (), concat!(
        ":x 001 Me :hi\r\n:x 002 Me :.\r\n:x 003 Me :.\r\n:x 004 Me x v iw bnt\r\n",
        ":x 005 Me NICKLEN=9 USERLEN=30 HOSTLEN=63 :are supported\r\n:x 422 Me :no\r\n"));
    let st = res.unwrap();
    assert_eq!(st.source_len().get(), 2 + 30 + 63 + 2);
}
''')
bug("isupport-number-list", "C27",
 [("src/names/isupport.rs", "                Ok(this.parse()?)\n", "                Ok(this.split(',').next_back().unwrap_or(this).parse()?)\n")],
 "a numeric feature advertised with a malformed value that contains a comma",
 "the value is read as part of what was advertised instead of being rejected",
r'''
use vinezombie::{names::{isupport::{NICKLEN, HOSTLEN}, ISupport, NameMap}, string::{Key, Word}};
fn main() {
    let mut m = NameMap::<ISupport, ()>::new();
    m.edit().insert((Key::from_str("NICKLEN"), Word::from_str("30,9")), ());
    m.edit().insert((Key::from_str("HOSTLEN"), Word::from_str("63")), ());
    assert!(m.get_parsed(NICKLEN).unwrap().is_err());
    assert_eq!(m.get_parsed(HOSTLEN).unwrap().unwrap().get(), 63);
}
''')
bug("trust-file-skips-bad", "C28",
 [("src/client/tls.rs", "        let cert = cert?;\n        certs.add(cert)", "        let Ok(cert) = cert else {\n            break;\n        };\n        certs.add(cert)")],
 "a file of root certificates with a damaged entry after good ones",
 "the damaged file is accepted and the certificates after the damage are silently not trusted",
r'''
use vinezombie::client::tls::{TlsConfigOptions, Trust};
fn main() {
    rustls::crypto::ring::default_provider().install_default().unwrap();
    let d = std::env::temp_dir().join(format!("vzdemo{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let f = d.join("roots.pem");
    std::fs::write(&f, "-----BEGIN CERTIFICATE-----\n!!!not base64!!!\n-----END CERTIFICATE-----\n").unwrap();
    let res = TlsConfigOptions { trust: Trust::Only(vec![f]), cert: None }.build();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(res.is_err(), "a damaged certificate file was accepted");
}
''', features=("base64", "client", "tls", "crypto"), deps='rustls = { version = "0.23.5", default-features = false, features = ["std", "tls12", "ring"] }')
