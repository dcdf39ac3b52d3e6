//! Framing: the same messages come out whatever the chunking, faults and reader.
#![allow(deprecated)]
use crate::gen::*;
use crate::infra::*;
use crate::refm::{self, Verdict};
use std::io::{self, ErrorKind};
#[allow(deprecated)]
use vinezombie::ircmsg::*;

/// What the stream hands to the reader next.
#[derive(Clone, Debug)]
enum Step {
    /// This many more bytes become readable.
    Data(usize),
    Fail(ErrorKind),
    /// End of file for now (an async reader may report it, or the peer's data comes later).
    Eof,
    /// Not ready (async only; the synchronous reader sees would-block).
    Pending,
}
#[derive(Clone, Debug)]
struct Script {
    data: Vec<u8>,
    steps: Vec<Step>,
}
struct Src<'a> {
    s: &'a Script,
    pos: usize,
    avail: usize,
    next: usize,
    faults: u64,
    cut_inside: u64,
}
impl<'a> Src<'a> {
    fn new(s: &'a Script) -> Self {
        Src { s, pos: 0, avail: 0, next: 0, faults: 0, cut_inside: 0 }
    }
    fn done(&self) -> bool {
        self.pos == self.s.data.len() && self.next >= self.s.steps.len()
    }
    fn fault(&mut self) {
        self.faults += 1;
        if self.pos > 0 && self.s.data[self.pos - 1] != b'\n' {
            self.cut_inside += 1;
        }
    }
    fn fill(&mut self) -> io::Result<Option<()>> {
        while self.avail == self.pos {
            let Some(st) = self.s.steps.get(self.next) else {
                if self.avail < self.s.data.len() {
                    self.avail = self.s.data.len();
                }
                return Ok(Some(()));
            };
            self.next += 1;
            match st {
                Step::Data(n) => self.avail = (self.avail + n).min(self.s.data.len()),
                Step::Fail(k) => {
                    self.fault();
                    return Err((*k).into());
                }
                Step::Eof => {
                    self.fault();
                    return Ok(Some(()));
                }
                Step::Pending => {
                    self.fault();
                    return Ok(None);
                }
            }
        }
        Ok(Some(()))
    }
}
impl io::Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let a = io::BufRead::fill_buf(self)?;
            let n = a.len().min(b.len());
            b[..n].copy_from_slice(&a[..n]);
            n
        };
        io::BufRead::consume(self, n);
        Ok(n)
    }
}
impl io::BufRead for Src<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        match self.fill()? {
            Some(()) => Ok(&self.s.data[self.pos..self.avail]),
            None => Err(ErrorKind::WouldBlock.into()),
        }
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        assert!(self.pos <= self.avail, "reader consumed more than was available");
    }
}
#[cfg(feature = "full")]
mod asy {
    use super::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    impl tokio::io::AsyncRead for Src<'_> {
        fn poll_read(
            mut self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            b: &mut tokio::io::ReadBuf<'_>,
        ) -> Poll<io::Result<()>> {
            match self.fill() {
                Ok(Some(())) => {
                    let n = (self.avail - self.pos).min(b.remaining());
                    b.put_slice(&self.s.data[self.pos..self.pos + n]);
                    self.pos += n;
                    Poll::Ready(Ok(()))
                }
                Ok(None) => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                Err(e) => Poll::Ready(Err(e)),
            }
        }
    }
    impl tokio::io::AsyncBufRead for Src<'_> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let this = self.get_mut();
            match this.fill() {
                Ok(Some(())) => Poll::Ready(Ok(&this.s.data[this.pos..this.avail])),
                Ok(None) => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                Err(e) => Poll::Ready(Err(e)),
            }
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            self.pos += n;
            assert!(self.pos <= self.avail, "reader consumed more than was available");
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Msg(RMsg),
    Bad,
}
const RETRY: &[ErrorKind] = &[ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Interrupted, ErrorKind::ConnectionReset];

struct Plan {
    expect: Vec<Ev>,
    /// The last expected event is an overlong line: nothing is claimed beyond it.
    stop_after_bad: bool,
    script: Script,
    maxline: usize,
}

fn sized(r: &mut Rng, server: bool, total: usize) -> Vec<u8> {
    // A valid message of exactly `total` bytes (no terminator).
    let mut l = match r.below(3) {
        0 => b"X :".to_vec(),
        1 if server => b"@a=b :n!u@h PRIVMSG #c :".to_vec(),
        _ => b"@k=v X a :".to_vec(),
    };
    while l.len() < total {
        let b = if r.chance(1, 20) { b' ' } else { b'a' + r.below(26) as u8 };
        l.push(b);
    }
    l
}

fn plan(c: &mut Case, server: bool, max: usize) -> Option<Plan> {
    let r = &mut c.rng;
    let limit = if server { 8703 } else { 4608 };
    let mut data = Vec::new();
    let mut expect = Vec::new();
    let mut stop = false;
    let mut ends = Vec::new();
    let mut maxline = 0;
    let n = 1 + r.below(max);
    for _ in 0..n {
        while r.chance(1, 5) {
            data.extend_from_slice(r.pick(&["\r\n", "\n", "\r\r\n"]).as_bytes());
            ends.push(data.len());
        }
        let term: &[u8] = match r.below(5) {
            0 | 1 => b"\n",
            2 if r.chance(1, 4) => b"\r\r\n",
            _ => b"\r\n",
        };
        let line = match r.below(40) {
            0 | 1 => {
                // On one or the other side of the limit.
                let d = r.below(7) as isize - 3;
                let total = (limit as isize - term.len() as isize + d) as usize;
                sized(r, server, total)
            }
            2 => r.pick(&[": X", ":! X", "12 X", "X1 a", "@a", ":a", "X \0 y", "X a\rb", "@a=\0 X", "X a\0"]).as_bytes().to_vec(),
            3 => {
                let n = r.range(300, 4000);
                sized(r, server, n)
            }
            _ => wire(&msg(r, server)),
        };
        let start = data.len();
        data.extend_from_slice(&line);
        data.extend_from_slice(term);
        let len = data.len() - start;
        maxline = maxline.max(len);
        ends.push(data.len());
        if len > limit {
            expect.push(Ev::Bad);
            stop = true;
            break;
        }
        match refm::line(&line, server) {
            Verdict::Ok(m) => expect.push(Ev::Msg(m)),
            Verdict::Err(_) => expect.push(Ev::Bad),
            Verdict::Open => return None,
        }
    }
    // Perhaps an incomplete line at the end, which must never be delivered.
    if !stop && r.chance(1, 3) {
        let mut w = wire(&msg(r, server));
        if r.coin() {
            w.push(b'\r');
        }
        data.extend_from_slice(&w);
    }
    // Chunking.
    let mut steps = Vec::new();
    let mode = r.below(5);
    let mut at = 0;
    while at < data.len() && steps.len() < 3000 {
        let n = match mode {
            0 => data.len(),
            1 => 1,
            2 => 1 + r.below(4),
            3 => 1 + r.below(200),
            // Right around a line end.
            _ => {
                let e = ends.iter().copied().find(|e| *e + 1 > at).unwrap_or(data.len());
                (e as isize + r.below(5) as isize - 2 - at as isize).max(1) as usize
            }
        };
        steps.push(Step::Data(n));
        at += n;
        while r.chance(1, 4) && steps.len() < 3000 {
            steps.push(match r.below(6) {
                0 => Step::Eof,
                1 | 2 => Step::Pending,
                _ => Step::Fail(RETRY[r.below(RETRY.len())]),
            });
        }
    }
    Some(Plan { expect, stop_after_bad: stop, script: Script { data, steps }, maxline })
}

fn compare(c: &mut Case, who: &str, got: &[Ev], p: &Plan, complete: bool) {
    c.ev(&format!("reader:{who}"));
    for (i, g) in got.iter().enumerate() {
        match p.expect.get(i) {
            None => {
                if p.stop_after_bad {
                    break;
                }
                c.fail(&format!("invented:{who}"), format!("event {i} {g:?} but only {} lines were complete", p.expect.len()));
                return;
            }
            Some(e) if e == g => c.ev(if matches!(e, Ev::Bad) { "lines:rejected" } else { "lines:delivered" }),
            Some(e) => {
                c.fail(&format!("differs:{who}"), format!("event {i}: got {g:?}, expected {e:?}"));
                return;
            }
        }
    }
    if complete && got.len() < p.expect.len() {
        c.fail(&format!("lost:{who}"), format!("{} of {} lines delivered; next expected {:?}", got.len(), p.expect.len(), p.expect[got.len()]));
    }
}

macro_rules! drive {
    // Generic driver: `$read` yields io::Result<RMsg>; `$src` and `$buf` live outside.
    ($c:expr, $who:expr, $p:expr, $src:ident, $buf:ident, $read:expr) => {{
        let mut got = Vec::new();
        let mut tail_eofs = 0;
        let cap = $p.script.steps.len() * 2 + $p.expect.len() * 2 + 1000;
        let mut iters = 0;
        loop {
            iters += 1;
            if iters > cap {
                $c.fail(&format!("no-progress:{}", $who), format!("{iters} calls, {} messages, stream at {}/{}", got.len(), $src.pos, $p.script.data.len()));
                break;
            }
            let r: io::Result<RMsg> = $read;
            match r {
                Ok(m) => {
                    got.push(Ev::Msg(m));
                    $buf.clear();
                }
                Err(e) if RETRY.contains(&e.kind()) => $c.ev("fault:resumed"),
                Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                    if $src.done() {
                        tail_eofs += 1;
                        if tail_eofs > 2 {
                            break;
                        }
                    } else {
                        $c.ev("fault:eof-resumed");
                    }
                }
                Err(e) if e.kind() == ErrorKind::InvalidData => {
                    got.push(Ev::Bad);
                    $buf.clear();
                    if $p.stop_after_bad && got.len() >= $p.expect.len() {
                        break;
                    }
                }
                Err(e) => {
                    $c.fail(&format!("error-kind:{}", $who), format!("unexpected error {e:?}"));
                    break;
                }
            }
        }
        let (f, ci) = ($src.faults, $src.cut_inside);
        $c.evn("faults", f);
        $c.evn("faults:inside-line", ci);
        compare($c, $who, &got, $p, true);
    }};
}
fn own_s(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ClientCodec::read_owning_from(r, b).map(|m| of_server(&m))
}
fn bor_s(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ClientCodec::read_borrowing_from(r, b).map(|m| of_server(&m))
}
fn own_c(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ServerCodec::read_owning_from(r, b).map(|m| of_client(&m))
}
fn bor_c(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ServerCodec::read_borrowing_from(r, b).map(|m| of_client(&m))
}
fn own_s2(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ServerMsg::read_owning_from(r, b).map(|m| of_server(&m))
}
fn bor_s2(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ServerMsg::read_borrowing_from(r, b).map(|m| of_server(&m))
}
fn bor_c2(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ClientMsg::read_borrowing_from(r, b).map(|m| of_client(&m))
}
fn own_c2(r: &mut Src, b: &mut Vec<u8>) -> io::Result<RMsg> {
    ClientMsg::read_owning_from(r, b).map(|m| of_client(&m))
}

#[cfg(feature = "full")]
fn poll_some<T>(mut f: std::pin::Pin<&mut impl std::future::Future<Output = io::Result<T>>>, max: usize) -> io::Result<T> {
    use std::task::{Context, Poll, Waker};
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..max {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    // The future is dropped by the caller: a cancelled read.
    Err(ErrorKind::WouldBlock.into())
}

fn one(c: &mut Case, server: bool, max: usize) {
    let Some(p) = plan(c, server, max) else {
        c.ev("open");
        return;
    };
    let p = &p;
    c.desc = format!("server={server} data={} steps={:?}", show(&p.script.data), &p.script.steps[..p.script.steps.len().min(40)]);
    let lim = if server { 8703usize } else { 4608 };
    if p.maxline.abs_diff(lim) <= 3 {
        c.ev(if p.maxline > lim { "limit:just-over" } else { "limit:at-or-just-under" });
    }
    let d = (p.script.data.clone(), format!("{:?}", p.script.steps));
    c.seen(&d);
    {
        let mut src = Src::new(&p.script);
        let mut buf = Vec::new();
        let alt = c.rng.coin();
        drive!(c, "sync-owning", p, src, buf, match (server, alt) {
            (true, false) => own_s(&mut src, &mut buf),
            (true, true) => own_s2(&mut src, &mut buf),
            (false, false) => own_c(&mut src, &mut buf),
            (false, true) => own_c2(&mut src, &mut buf),
        });
    }
    {
        let mut src = Src::new(&p.script);
        let mut buf = Vec::new();
        let alt = c.rng.coin();
        drive!(c, "sync-borrowing", p, src, buf, match (server, alt) {
            (true, false) => bor_s(&mut src, &mut buf),
            (true, true) => bor_s2(&mut src, &mut buf),
            (false, false) => bor_c(&mut src, &mut buf),
            (false, true) => bor_c2(&mut src, &mut buf),
        });
    }
    {
        // Through a BufReader of odd capacity.
        let mut src = Src::new(&p.script);
        let cap = 1 + c.rng.below(40);
        let mut br = io::BufReader::with_capacity(cap, &mut src);
        let mut buf = Vec::new();
        let mut got = Vec::new();
        let mut eofs = 0;
        for _ in 0..p.script.steps.len() * 2 + 2000 {
            let r = if server {
                ClientCodec::read_owning_from(&mut br, &mut buf).map(|m| of_server(&m))
            } else {
                ServerCodec::read_owning_from(&mut br, &mut buf).map(|m| of_client(&m))
            };
            match r {
                Ok(m) => got.push(Ev::Msg(m)),
                Err(e) if RETRY.contains(&e.kind()) => (),
                Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                    if br.get_ref().done() {
                        eofs += 1;
                        if eofs > 2 {
                            break;
                        }
                    }
                }
                Err(_) => {
                    got.push(Ev::Bad);
                    buf.clear();
                    if p.stop_after_bad && got.len() >= p.expect.len() {
                        break;
                    }
                }
            }
        }
        compare(c, "sync-bufreader", &got, p, true);
    }
    #[cfg(feature = "full")]
    {
        let mut src = Src::new(&p.script);
        let mut buf = Vec::new();
        let cancel = c.rng.coin();
        let alt = c.rng.coin();
        let mut rng = c.rng.clone();
        drive!(c, "async-owning", p, src, buf, {
            let n = if cancel { 1 + rng.below(3) } else { 100_000 };
            if server && alt {
                let f = std::pin::pin!(async { ServerMsg::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| of_server(&m)) });
                poll_some(f, n)
            } else if alt {
                let f = std::pin::pin!(async { ClientMsg::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| of_client(&m)) });
                poll_some(f, n)
            } else if server {
                let f = std::pin::pin!(async { ClientCodec::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| of_server(&m)) });
                poll_some(f, n)
            } else {
                let f = std::pin::pin!(async { ServerCodec::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| of_client(&m)) });
                poll_some(f, n)
            }
        });
        if cancel {
            c.ev("async:cancelled-reads");
        }
        let mut src = Src::new(&p.script);
        let mut buf = Vec::new();
        drive!(c, "async-borrowing", p, src, buf, {
            let n = if cancel { 1 + rng.below(3) } else { 100_000 };
            if server && alt {
                let f = std::pin::pin!(async { ServerMsg::read_borrowing_from_tokio(&mut src, &mut buf).await.map(|m| of_server(&m)) });
                poll_some(f, n)
            } else if alt {
                let f = std::pin::pin!(async { ClientMsg::read_borrowing_from_tokio(&mut src, &mut buf).await.map(|m| of_client(&m)) });
                poll_some(f, n)
            } else if server {
                let f = std::pin::pin!(async { ClientCodec::read_borrowing_from_tokio(&mut src, &mut buf).await.map(|m| of_server(&m)) });
                poll_some(f, n)
            } else {
                let f = std::pin::pin!(async { ServerCodec::read_borrowing_from_tokio(&mut src, &mut buf).await.map(|m| of_client(&m)) });
                poll_some(f, n)
            }
        });
        framed(c, p, server);
    }
}
#[cfg(feature = "full")]
fn framed(c: &mut Case, p: &Plan, server: bool) {
    use tokio_util::codec::Decoder;
    let mut b = tokio_util::bytes::BytesMut::new();
    let mut got = Vec::new();
    let mut at = 0;
    let d = &p.script.data;
    let mut bad = false;
    let dec = |b: &mut tokio_util::bytes::BytesMut, eof: bool| -> io::Result<Option<RMsg>> {
        match (server, eof) {
            (true, false) => ClientCodec.decode(b).map(|o| o.map(|m| of_server(&m))),
            (true, true) => ClientCodec.decode_eof(b).map(|o| o.map(|m| of_server(&m))),
            (false, false) => ServerCodec.decode(b).map(|o| o.map(|m| of_client(&m))),
            (false, true) => ServerCodec.decode_eof(b).map(|o| o.map(|m| of_client(&m))),
        }
    };
    let sizes: Vec<usize> = p.script.steps.iter().filter_map(|s| if let Step::Data(n) = s { Some(*n) } else { None }).chain([d.len()]).collect();
    'o: for n in sizes {
        let e = (at + n).min(d.len());
        b.extend_from_slice(&d[at..e]);
        at = e;
        loop {
            match dec(&mut b, false) {
                Ok(Some(m)) => got.push(Ev::Msg(m)),
                Ok(None) => break,
                Err(_) => {
                    got.push(Ev::Bad);
                    bad = true;
                    break 'o;
                }
            }
        }
        // Each line must be out as soon as its terminator is in.
        let have = count_lines(&d[..at]);
        if p.expect.len() > have && got.len() > have {
            c.fail("early:framed", format!("{} messages after {} complete lines", got.len(), have));
        }
        if got.len() < have.min(p.expect.len()) {
            c.fail("late:framed", format!("{} messages after {} complete lines", got.len(), have));
            break;
        }
    }
    if !bad {
        for _ in 0..p.expect.len() + 2 {
            match dec(&mut b, true) {
                Ok(Some(m)) => got.push(Ev::Msg(m)),
                _ => break,
            }
        }
    }
    compare(c, "framed", &got, p, !bad);
}
/// Complete non-blank lines.
#[cfg(feature = "full")]
fn count_lines(d: &[u8]) -> usize {
    let mut n = 0;
    let mut it = d.split(|b| *b == b'\n').peekable();
    while let Some(l) = it.next() {
        if it.peek().is_some() && l.iter().any(|b| *b != b'\r') {
            n += 1;
        }
    }
    n
}

/// Every cut of a short stream into two or three pieces, with a fault at each cut.
fn cuts(c: &mut Case) {
    let streams: &[(&[u8], bool)] = &[
        (b"PING :a\r\n:n!u@h PRIVMSG #c :hi there\r\n\r\n@t=v 001 a\nX\r\n", true),
        (b"\r\n\nPONG :a b\r\nNICK x\n@a;b= USER a b c :d\r\n", false),
    ];
    let per = 60 * 60 * RETRY.len() as u64;
    let (data, server) = streams[(c.idx / per) as usize % streams.len()];
    let i = c.idx % per;
    let a = (i % 60) as usize;
    let b = (i / 60 % 60) as usize;
    let k = (i / 3600) as usize;
    if a > data.len() || b > data.len() - a {
        return;
    }
    let mut expect = Vec::new();
    for l in data.split(|b| *b == b'\n') {
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        if !l.is_empty() {
            match refm::line(l, server) {
                Verdict::Ok(m) => expect.push(Ev::Msg(m)),
                v => panic!("{v:?}"),
            }
        }
    }
    let f = if k == 3 { Step::Eof } else { Step::Fail(RETRY[k]) };
    let steps = vec![Step::Data(a), f.clone(), Step::Data(b), f, Step::Data(data.len())];
    let p = Plan { expect, stop_after_bad: false, script: Script { data: data.to_vec(), steps }, maxline: 0 };
    let p = &p;
    c.desc = format!("cuts {a} {b} {k} of {}", show(data));
    let d = (a, b, k, server);
    c.seen(&d);
    let mut src = Src::new(&p.script);
    let mut buf = Vec::new();
    drive!(c, "sync-owning", p, src, buf, if server { own_s(&mut src, &mut buf) } else { own_c(&mut src, &mut buf) });
    let mut src = Src::new(&p.script);
    let mut buf = Vec::new();
    drive!(c, "sync-borrowing", p, src, buf, if server { bor_s(&mut src, &mut buf) } else { bor_c(&mut src, &mut buf) });
    #[cfg(feature = "full")]
    {
        let mut src = Src::new(&p.script);
        let mut buf = Vec::new();
        drive!(c, "async-owning", p, src, buf, {
            if server {
                let f = std::pin::pin!(async { ClientCodec::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| of_server(&m)) });
                poll_some(f, 1)
            } else {
                let f = std::pin::pin!(async { ServerCodec::read_owning_from_tokio(&mut src, &mut buf).await.map(|m| of_client(&m)) });
                poll_some(f, 1)
            }
        });
        framed(c, p, server);
    }
}

/// Exact lengths around the limit through every reader.
fn limits(c: &mut Case) {
    let server = c.idx % 2 == 0;
    let lim: usize = if server { 8703 } else { 4608 };
    let d = (c.idx / 2 % 9) as isize - 4;
    let term: &[u8] = if c.idx / 18 % 2 == 0 { b"\r\n" } else { b"\n" };
    let total = (lim as isize + d) as usize - term.len();
    let l = sized(&mut c.rng, server, total);
    let mut data = b"A\r\n".to_vec();
    data.extend_from_slice(&l);
    data.extend_from_slice(term);
    let mut expect = vec![];
    let Verdict::Ok(m) = refm::line(b"A", server) else { panic!() };
    expect.push(Ev::Msg(m.clone()));
    let over = d > 0;
    if over {
        expect.push(Ev::Bad);
    } else {
        let Verdict::Ok(m2) = refm::line(&l, server) else { panic!() };
        expect.push(Ev::Msg(m2));
        data.extend_from_slice(b"A\r\n");
        expect.push(Ev::Msg(m));
    }
    let mut steps = Vec::new();
    match c.idx / 36 % 3 {
        0 => (),
        1 => steps.extend([Step::Data(lim / 2), Step::Pending, Step::Data(lim / 2 + 1), Step::Pending]),
        _ => steps.extend([Step::Data(lim + 2), Step::Pending, Step::Data(1), Step::Pending]),
    }
    let p = Plan { expect, stop_after_bad: over, script: Script { data, steps }, maxline: lim };
    let p = &p;
    c.desc = format!("line of limit{d:+} bytes, server={server}");
    c.ev(if over { "limit:just-over" } else { "limit:at-or-just-under" });
    c.seen(&c.idx.clone());
    let mut src = Src::new(&p.script);
    let mut buf = Vec::new();
    drive!(c, "sync-owning", p, src, buf, if server { own_s(&mut src, &mut buf) } else { own_c(&mut src, &mut buf) });
    let mut src = Src::new(&p.script);
    let mut buf = Vec::new();
    drive!(c, "sync-borrowing", p, src, buf, if server { bor_s(&mut src, &mut buf) } else { bor_c(&mut src, &mut buf) });
    #[cfg(feature = "full")]
    {
        macro_rules! a {
            ($who:literal, $f:ident) => {
                let mut src = Src::new(&p.script);
                let mut buf = Vec::new();
                drive!(c, $who, p, src, buf, {
                    if server {
                        let f = std::pin::pin!(async { ClientCodec::$f(&mut src, &mut buf).await.map(|m| of_server(&m)) });
                        poll_some(f, 1)
                    } else {
                        let f = std::pin::pin!(async { ServerCodec::$f(&mut src, &mut buf).await.map(|m| of_client(&m)) });
                        poll_some(f, 1)
                    }
                });
            };
        }
        a!("async-owning", read_owning_from_tokio);
        a!("async-borrowing", read_borrowing_from_tokio);
        framed(c, p, server);
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.run("streams-server", 3000, 30_000, |c| one(c, true, 8));
    ctx.run("streams-client", 3000, 30_000, |c| one(c, false, 8));
    ctx.run("long-streams", 100, 1000, |c| one(c, true, 200));
    ctx.run_all("cuts", 2 * 60 * 60 * RETRY.len() as u64, cuts);
    ctx.run_all("limits", 108, limits);
    ctx.require("faults:inside-line", 1000);
    ctx.require("fault:resumed", 1000);
    ctx.require("fault:eof-resumed", 100);
    ctx.require("limit:just-over", 20);
    ctx.require("limit:at-or-just-under", 20);
    ctx.require("lines:rejected", 50);
    ctx.require("reader:sync-borrowing", 100);
    if cfg!(feature = "full") {
        ctx.require("reader:framed", 100);
        ctx.require("async:cancelled-reads", 100);
    }
}
