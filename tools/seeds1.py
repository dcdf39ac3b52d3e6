bug("flatmap-sorted-prefix", "C11",
 [("src/util/flatmap.rs", "sorted_until == self.real_len && Some(key) > self.as_slice().last().map(X::extract_key);",
   "Some(key) > self.as_slice().last().map(X::extract_key);")],
 "one edit session that inserts keys out of order and then in order, with a lookup or overwrite in the same session",
 "the edit guard counts out-of-order entries as part of the sorted prefix, so binary search misses keys and duplicates appear",
r'''
use vinezombie::{ircmsg::Tags, string::{Key, NoNul}};
fn main() {
    let names = ["m", "a", "z", "c", "y", "b"];
    let mut tags = Tags::new();
    {
        let mut e = tags.edit();
        for (i, n) in names.iter().enumerate() {
            e.insert_pair(Key::from_str(n), NoNul::from_bytes(vec![b'0' + i as u8]).unwrap());
            for (j, m) in names[..=i].iter().enumerate() {
                let v = e.get(Key::from_str(m)).map(|v| v.to_vec());
                assert_eq!(v, Some(vec![b'0' + j as u8]), "lookup of {m} after inserting {n}");
            }
        }
    }
    assert_eq!(tags.len(), names.len());
}
''')
bug("split-keeps-utf8", "C06",
 [("src/string/splitter.rs", "if count > 0 && self.encoding == Encoding::Utf8 {", "if !end && count > 0 && self.encoding == Encoding::Utf8 {")],
 "a string known to be UTF-8 truncated by byte count inside a multi-byte character",
 "the truncated piece keeps the cached 'is UTF-8' verdict and hands out a &str that is not UTF-8",
r'''
use vinezombie::string::{Bytes, Splitter};
fn main() {
    let mut s = Splitter::new(Bytes::from_str("aé€"));
    let b: Bytes = s.until_count(2).rest().unwrap();
    assert_eq!(b.as_bytes(), &"aé".as_bytes()[..2]);
    match b.to_utf8() {
        None => (),
        Some(v) => assert!(std::str::from_utf8(v.as_bytes()).is_ok(), "&str that is not UTF-8"),
    }
}
''')
bug("chunk-decoder-stale", "C15",
 [("src/string/base64.rs", "ENGINE.decode(std::mem::take(&mut self.0)).map(Bytes::from)",
   "let retval = ENGINE.decode(&self.0).map(Bytes::from)?;\n        self.0.clear();\n        Ok(retval)")],
 "a payload that fails to decode followed by a good one through the same decoder",
 "chunks of the rejected payload stay in the decoder and are prepended to the next payload",
r'''
use vinezombie::string::base64::ChunkDecoder;
fn main() {
    let mut d = ChunkDecoder::new(400);
    assert!(d.add(b"!!!!").unwrap().is_err());
    let got = d.add(b"aGVsbG8=").unwrap();
    assert_eq!(got.ok().map(|b| b.to_vec()), Some(b"hello".to_vec()));
}
''')
bug("queue-idle-credit", "C17",
 [("src/client/queue.rs", "self.timepoint = std::cmp::max(self.timepoint, Instant::now()) + self.delay;", "self.timepoint += self.delay;")],
 "a queue that was idle for several delays before a burst of messages",
 "time spent idle accrues as unlimited credit, so more messages than the burst leave at once",
r'''
use std::time::Duration;
use vinezombie::{client::queue::Queue, ircmsg::ClientMsg, names::cmd::PING};
fn main() {
    let mut q = Queue::new();
    q.set_rate_limit(Duration::from_millis(200), 1);
    std::thread::sleep(Duration::from_millis(1600));
    for _ in 0..8 { q.edit().push(ClientMsg::new(PING)); }
    let mut n = 0;
    while q.pop(|_| ()).is_some() { n += 1; }
    assert!(n <= 3, "{n} messages in one burst");
}
''')
bug("args-before-last-long", "C12",
 [("src/ircmsg/args.rs", """        if self.1.is_none() {
            if let Some(last) = self.0.last_mut() {
                std::mem::swap(&mut s, last);
            }
        }
        self.0.push(s);""", """        if let Some(last) = self.0.last_mut() {
            std::mem::swap(&mut s, last);
        }
        self.0.push(s);""")],
 "adding a word before the last argument of a list whose last argument is long",
 "the word lands before the last single-word argument instead of directly before the long one",
r'''
use vinezombie::{ircmsg::ClientMsg, names::cmd::PRIVMSG, string::{Arg, Line}};
fn main() {
    let mut m = ClientMsg::new(PRIVMSG);
    {
        let mut e = m.args.edit();
        e.add_word(Arg::from_str("first"));
        e.add(Line::from_str("long last"));
        e.add_before_last(Arg::from_str("second"));
    }
    assert_eq!(m.to_string(), "PRIVMSG first second :long last");
}
''')
bug("read-limit-partial", "C04",
 [("src/ircmsg/codec.rs", "let read_count = $limit - buflen;", "let read_count = $limit - std::cmp::min(buflen, 1);")],
 "a message line that arrives in two reads (the first ending in WouldBlock) and is longer than the limit in total",
 "the length limit is applied to each read rather than to the whole line, so overlong messages are accepted",
r'''
use std::io::{BufRead, Read};
use vinezombie::ircmsg::{ClientCodec, ServerMsg};
struct R(Vec<Vec<u8>>, bool);
impl Read for R { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { unreachable!() } }
impl BufRead for R {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.1 && !self.0.is_empty() { self.1 = false; return Err(std::io::ErrorKind::WouldBlock.into()); }
        Ok(self.0.first().map(|v| v.as_slice()).unwrap_or(&[]))
    }
    fn consume(&mut self, n: usize) {
        if n == 0 { return; }
        self.0[0].drain(..n);
        if self.0[0].is_empty() { self.0.remove(0); self.1 = true; }
    }
}
fn main() {
    let mut a = b"PRIVMSG #chan :".to_vec();
    a.extend(std::iter::repeat(b'x').take(6000));
    let mut b = vec![b'y'; 6000];
    b.extend(b"\r\n");
    let mut r = R(vec![a, b], false);
    let mut buf = Vec::new();
    assert!(ClientCodec::read_owning_from(&mut r, &mut buf).is_err());
    let res: std::io::Result<ServerMsg<'static>> = ClientCodec::read_owning_from(&mut r, &mut buf);
    assert!(res.is_err(), "accepted a message of {} bytes", 12017);
}
''')
bug("write-colon-leading", "C01",
 [("src/ircmsg/codec.rs", "        if args.is_last_long() {\n            write.write_all(b\" :\")?;", "        if last.is_empty() || last.contains(&b' ') {\n            write.write_all(b\" :\")?;")],
 "a last argument that starts with a colon but contains no space",
 "the message is written without the colon that marks the last argument, so the argument loses its first byte when parsed",
r'''
use vinezombie::{ircmsg::{ClientMsg, ServerMsg}, names::cmd::PRIVMSG, string::Line};
fn main() {
    for text in [":-)", "plain", "", "two words", ":)"] {
        let mut m = ClientMsg::new(PRIVMSG);
        m.args.edit().add_literal("#chan");
        m.args.edit().add(Line::from_bytes(text.as_bytes().to_vec()).unwrap());
        let s = m.to_string();
        let mut w = Vec::new();
        m.write_to(&mut w).unwrap();
        let back = ClientMsg::parse(w).unwrap();
        assert_eq!(back.args.split_last().1.unwrap().to_vec(), text.as_bytes(), "{s}");
        let _ = ServerMsg::parse("PING a");
    }
}
''')
bug("escape-backslash-in-rest", "C03",
 [("src/string/tf/escape.rs", "        if esc {\n            new_bytes.push(unescape_byte(byte));\n            esc = false;\n        } else if *byte == b'\\\\' {\n            esc = true;",
   "        if std::mem::take(&mut esc) {\n            new_bytes.push(unescape_byte(byte));\n        }\n        if *byte == b'\\\\' {\n            esc = true;")],
 "a tag value with an escaped backslash followed by a letter that is an escape code",
 "an escaped backslash also starts a new escape, so the byte after it is decoded a second time",
r'''
use vinezombie::ircmsg::ServerMsg;
fn main() {
    let m = ServerMsg::parse("@k=a\\\\\\\\nb PING x").unwrap();
    assert_eq!(m.tags.get("k").unwrap().to_vec(), b"a\\\\nb".to_vec());
    let m = ServerMsg::parse("@k=a\\\\nb PING x").unwrap();
    assert_eq!(m.tags.get("k").unwrap().to_vec(), b"a\\nb".to_vec());
}
''')
bug("oneshot-recv-flag", "C20",
 [("src/client/handler/channel/oneshot.rs", "        let mut has_value = true;\n        inner_ref.lock.call_once(|| has_value = false);\n        let retval = has_value.then(|| unsafe {",
   "        let has_value = inner_ref.lock.is_completed();\n        let retval = has_value.then(|| unsafe {")],
 "a send that runs at the same moment as a non-blocking receive that finds nothing",
 "the receiver leaves without closing the channel, so a concurrent send reports success for a value that nobody gets and nobody drops",
r'''
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
use vinezombie::client::channel::oneshot::channel;
struct V(Arc<AtomicUsize>);
impl Drop for V { fn drop(&mut self) { self.0.fetch_add(1, SeqCst); } }
fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut n = 0u64;
    while std::time::Instant::now() < end {
        let drops = Arc::new(AtomicUsize::new(0));
        let (s, r) = channel::<V>();
        let go = Arc::new(AtomicUsize::new(0));
        let (g, d) = (go.clone(), drops.clone());
        let spin = n % 64;
        let t = std::thread::spawn(move || {
            g.fetch_add(1, SeqCst);
            while g.load(SeqCst) < 2 {}
            for _ in 0..spin { std::hint::black_box(0); }
            s.send(V(d)).is_ok()
        });
        go.fetch_add(1, SeqCst);
        while go.load(SeqCst) < 2 {}
        let got = r.recv_now();
        let sent = t.join().unwrap();
        assert_eq!(sent, got.is_some(), "send reported {sent} but the receiver got {}", got.is_some());
        drop(got);
        assert_eq!(drops.load(SeqCst), 1);
        n += 1;
    }
}
''')
bug("secretbuf-cstr-reserve", "C07",
 [("src/string/secretbuf.rs", "        if self.data.write_capacity(self.len) < len {", "        if self.data.capacity() < len {"),],
 "appending to a secret buffer that already holds data when the new piece alone would fit its capacity",
 "reserve compares with the whole capacity instead of what is left of it, so appends write past the buffer (or panic)",
r'''
use vinezombie::string::SecretBuf;
fn main() {
    let mut b = SecretBuf::with_capacity(0);
    let mut model = Vec::new();
    for i in 0..40u8 {
        let piece = vec![i; (i % 7) as usize];
        b.push_slice(&piece);
        model.extend(&piece);
        for _ in 0..3 { b.push(i, 2); model.push(i); }
    }
    let mut c = SecretBuf::with_capacity(8);
    c.push_slice(b"abcdef");
    c.push_slice(b"ghij");
    assert_eq!(&*c.into_bytes(), b"abcdefghij");
    assert_eq!(&*b.into_bytes(), model.as_slice());
}
''')
bug("casemap-first-ascii", "C06",
 [("src/string/tf.rs", "    let mut ascii_only = true;\n    for byte in bytes {\n        let mapped = f(byte);\n        ascii_only &= mapped < 128;\n        if mapped != *byte {",
   "    let mut ascii_only = true;\n    for byte in bytes {\n        let mapped = f(byte);\n        ascii_only = mapped < 128;\n        if mapped != *byte {")],
 "case mapping a string with non-ASCII, non-UTF-8 bytes in front of the first letter that changes",
 "only the byte at the first change decides whether everything before it was ASCII, so a string that is not UTF-8 is marked as UTF-8",
r'''
use vinezombie::string::{tf::IrcCasemap, Bytes, NoNul};
fn main() {
    let mut s = NoNul::from_bytes(vec![0xff, 0xfe, b'A', b'b']).unwrap();
    s.transform(IrcCasemap::Ascii);
    let b: Bytes = s.into();
    assert_eq!(b.as_bytes(), &[0xff, 0xfe, b'a', b'b']);
    assert!(b.to_utf8().is_none(), "&str that is not UTF-8");
}
''')
