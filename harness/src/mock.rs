//! A connection whose bytes, timing and faults are scripted, on the virtual clock; works with the
//! synchronous and the asynchronous client.
use crate::infra::Rng;
use crate::sys::{vnow, VNOW};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error, ErrorKind};
use std::pin::Pin;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use vinezombie::client::conn::{Bidir, Connection, ConnectionTokio, ReadTimeout, WriteTimeout};
use vinezombie::client::Client;

pub const MS: i64 = 1_000_000;
pub const SEC: i64 = 1_000_000_000;
pub const NEVER: i64 = i64::MAX / 4;
/// In virtual time: nothing legitimate waits this long.
pub const FOREVER_S: u64 = 400_000;

/// What the connection saw.
#[derive(Clone, Debug)]
pub enum Io {
    /// A complete line left, without its terminator.
    Line(i64, Vec<u8>),
    /// A line left whose terminator is not exactly CRLF.
    BadEnd(i64, Vec<u8>),
    /// A write had to wait, from when to when.
    Stalled(i64, i64),
    /// A write gave up: since when nothing was accepted, when.
    WriteTimeout(i64, i64),
}

pub type Responder = Box<dyn FnMut(&[u8], i64) -> Vec<(i64, Vec<u8>)> + Send>;

pub struct World {
    pub input: VecDeque<(i64, Vec<u8>)>,
    pub eof: Option<i64>,
    pub out: Vec<u8>,
    /// Accepted but not flushed yet (only when `buffered`).
    pub unflushed: Vec<u8>,
    pub buffered: bool,
    pub rng: Rng,
    pub short_writes: bool,
    pub interrupts: bool,
    /// (after how many accepted bytes, how long): the stalls still to come.
    pub stalls: VecDeque<(usize, i64)>,
    stalled_since: Option<i64>,
    stalled_until: i64,
    pub accepted: usize,
    pub read_limit: Option<Duration>,
    pub write_limit: Option<Duration>,
    pub zero_limit: bool,
    /// The client waits for something that never happens.
    pub blocked: bool,
    pub log: Arc<Mutex<Vec<Io>>>,
    pub sink: Option<Box<dyn FnMut(Io) + Send>>,
    pub responder: Option<Responder>,
    pub last_arrival: i64,
    /// Handed to the connection's own buffer but not consumed by the client yet.
    pub held: Vec<u8>,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    wsleep: Option<Pin<Box<tokio::time::Sleep>>>,
}

impl World {
    pub fn new(rng: Rng) -> World {
        World {
            input: VecDeque::new(),
            eof: None,
            out: vec![],
            unflushed: vec![],
            buffered: false,
            rng,
            short_writes: false,
            interrupts: false,
            stalls: VecDeque::new(),
            stalled_since: None,
            stalled_until: 0,
            accepted: 0,
            read_limit: None,
            write_limit: None,
            zero_limit: false,
            blocked: false,
            log: Default::default(),
            sink: None,
            responder: None,
            last_arrival: 0,
            held: vec![],
            sleep: None,
            wsleep: None,
        }
    }
    /// Server bytes that arrive at `at` (or after what is already on its way).
    pub fn feed(&mut self, at: i64, bytes: &[u8]) -> i64 {
        let at = at.max(self.last_arrival);
        self.last_arrival = at;
        self.input.push_back((at, bytes.to_vec()));
        at
    }
    fn ev(&mut self, e: Io) {
        if let Some(s) = self.sink.as_mut() {
            s(e.clone());
        }
        self.log.lock().unwrap().push(e);
    }
    fn lines(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.out.push(*b);
            if *b == b'\n' {
                let mut l = std::mem::take(&mut self.out);
                l.pop();
                let now = vnow();
                if l.last() == Some(&b'\r') {
                    l.pop();
                    self.ev(Io::Line(now, l.clone()));
                } else {
                    self.ev(Io::BadEnd(now, l.clone()));
                }
                if let Some(mut r) = self.responder.take() {
                    for (lat, bytes) in r(&l, now) {
                        self.feed(now + lat, &bytes);
                    }
                    self.responder = Some(r);
                }
            }
        }
    }
    fn accept(&mut self, buf: &[u8]) -> usize {
        let mut n = buf.len();
        if self.short_writes && n > 0 {
            n = self.rng.range(1, n.min(40));
        }
        if let Some((at, _)) = self.stalls.front() {
            n = n.min((*at).max(self.accepted + 1) - self.accepted);
        }
        self.accepted += n;
        if self.buffered {
            self.unflushed.extend_from_slice(&buf[..n]);
        } else {
            let b = buf[..n].to_vec();
            self.lines(&b);
        }
        n
    }
    /// Until when writing has to wait, if at all.
    fn stall(&mut self) -> Option<i64> {
        if self.stalled_since.is_none() {
            if let Some((at, dur)) = self.stalls.front().copied() {
                if self.accepted >= at {
                    self.stalls.pop_front();
                    self.stalled_since = Some(vnow());
                    self.stalled_until = if dur >= NEVER { NEVER } else { vnow() + dur };
                }
            }
        }
        self.stalled_since.map(|_| self.stalled_until)
    }
    fn stall_over(&mut self) {
        if let Some(s) = self.stalled_since.take() {
            self.ev(Io::Stalled(s, vnow()));
        }
    }
    pub fn stalled_since(&self) -> Option<i64> {
        self.stalled_since
    }
    fn flush_now(&mut self) {
        let b = std::mem::take(&mut self.unflushed);
        self.lines(&b);
    }
}

/// One direction of the connection. The library puts the two together.
pub struct Half {
    pub w: Arc<Mutex<World>>,
    buf: Vec<u8>,
    pos: usize,
    reads: bool,
}
pub type Conn = Bidir<Half, Half>;
pub trait MkConn: Sized {
    fn new(w: World) -> (Self, Arc<Mutex<World>>);
}
impl MkConn for Conn {
    fn new(w: World) -> (Conn, Arc<Mutex<World>>) {
        let w = Arc::new(Mutex::new(w));
        let half = |reads| Half { w: w.clone(), buf: vec![], pos: 0, reads };
        (Bidir(half(true), half(false)), w.clone())
    }
}
fn set_now(t: i64) {
    VNOW.fetch_max(t, Relaxed);
}
impl std::io::Read for Half {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::BufRead;
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl std::io::BufRead for Half {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.pos < self.buf.len() {
            return Ok(&self.buf[self.pos..]);
        }
        let mut w = self.w.lock().unwrap();
        if w.interrupts && w.rng.chance(1, 4) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let at = w.input.front().map(|x| x.0).or(w.eof).unwrap_or(NEVER);
        if at > vnow() {
            let deadline = w.read_limit.map(|d| vnow().saturating_add(d.as_nanos().min(NEVER as u128) as i64)).unwrap_or(NEVER);
            if at <= deadline && at < NEVER {
                set_now(at);
            } else if deadline < NEVER {
                set_now(deadline);
                let k = if w.rng.coin() { ErrorKind::WouldBlock } else { ErrorKind::TimedOut };
                return Err(Error::from(k));
            } else {
                w.blocked = true;
                return Err(Error::new(ErrorKind::Other, "blocked for ever"));
            }
        }
        self.buf = w.input.pop_front().map(|x| x.1).unwrap_or_default();
        self.pos = 0;
        w.held = self.buf.clone();
        drop(w);
        Ok(&self.buf)
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.w.lock().unwrap().held.drain(..n);
        assert!(self.pos <= self.buf.len(), "consumed more than offered");
    }
}
fn sync_stall(w: &mut World) -> std::io::Result<()> {
    if let Some(until) = w.stall() {
        if until > vnow() {
            let deadline = w.write_limit.map(|d| vnow() + d.as_nanos() as i64).unwrap_or(NEVER);
            if until < deadline {
                set_now(until);
            } else if deadline < NEVER {
                let since = w.stalled_since().unwrap();
                set_now(deadline);
                let now = vnow();
                w.ev(Io::WriteTimeout(since, now));
                return Err(Error::from(ErrorKind::WouldBlock));
            } else {
                w.blocked = true;
                return Err(Error::new(ErrorKind::Other, "blocked for ever"));
            }
        }
        w.stall_over();
    }
    Ok(())
}
impl std::io::Write for Half {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut w = self.w.lock().unwrap();
        if buf.is_empty() {
            return Ok(0);
        }
        if w.interrupts && w.rng.chance(1, 6) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        sync_stall(&mut w)?;
        Ok(w.accept(buf))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut w = self.w.lock().unwrap();
        if w.buffered && !w.unflushed.is_empty() {
            // Passing on what was buffered may take time, too.
            sync_stall(&mut w)?;
        }
        w.flush_now();
        Ok(())
    }
}
impl ReadTimeout for Half {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        let mut w = self.w.lock().unwrap();
        if t == Some(Duration::ZERO) {
            w.zero_limit = true;
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        if self.reads {
            w.read_limit = t;
        }
        Ok(())
    }
}
impl WriteTimeout for Half {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        let mut w = self.w.lock().unwrap();
        if t == Some(Duration::ZERO) {
            w.zero_limit = true;
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        if !self.reads {
            w.write_limit = t;
        }
        Ok(())
    }
}
fn sleep_until(at: i64) -> Pin<Box<tokio::time::Sleep>> {
    let d = at.saturating_sub(vnow()).clamp(0, FOREVER_S as i64 * SEC * 2);
    Box::pin(tokio::time::sleep(Duration::from_nanos(d as u64)))
}
impl tokio::io::AsyncRead for Half {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        use tokio::io::AsyncBufRead;
        let n = match self.as_mut().poll_fill_buf(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(b)) => {
                let n = b.len().min(buf.remaining());
                buf.put_slice(&b[..n]);
                n
            }
        };
        self.consume(n);
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for Half {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.pos < this.buf.len() {
            return Poll::Ready(Ok(&this.buf[this.pos..]));
        }
        let mut w = this.w.lock().unwrap();
        if w.interrupts && w.rng.chance(1, 4) {
            // Not ready after all, ask again.
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let at = w.input.front().map(|x| x.0).or(w.eof).unwrap_or(NEVER);
        if at > vnow() {
            let mut s = sleep_until(at);
            let r = s.as_mut().poll(cx);
            w.sleep = Some(s);
            if r.is_pending() {
                return Poll::Pending;
            }
        }
        w.sleep = None;
        this.buf = w.input.pop_front().map(|x| x.1).unwrap_or_default();
        this.pos = 0;
        w.held = this.buf.clone();
        drop(w);
        Poll::Ready(Ok(&this.buf))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n;
        self.w.lock().unwrap().held.drain(..n);
        assert!(self.pos <= self.buf.len(), "consumed more than offered");
    }
}
impl tokio::io::AsyncWrite for Half {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut w = self.w.lock().unwrap();
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if w.interrupts && w.rng.chance(1, 6) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(until) = w.stall() {
            if until > vnow() {
                let mut s = sleep_until(until);
                let r = s.as_mut().poll(cx);
                w.wsleep = Some(s);
                if r.is_pending() {
                    return Poll::Pending;
                }
            }
            w.wsleep = None;
            w.stall_over();
        }
        Poll::Ready(Ok(w.accept(buf)))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut w = self.w.lock().unwrap();
        if w.buffered && !w.unflushed.is_empty() {
            if let Some(until) = w.stall() {
                if until > vnow() {
                    let mut s = sleep_until(until);
                    let r = s.as_mut().poll(cx);
                    w.wsleep = Some(s);
                    if r.is_pending() {
                        return Poll::Pending;
                    }
                }
                w.wsleep = None;
                w.stall_over();
            }
        }
        w.flush_now();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.poll_flush(cx)
    }
}
// ---------------------------------------------------------------- driving a client
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// (yielded, finished)
    Ran(Vec<usize>, Vec<usize>),
    TimedOut,
    Err(ErrorKind, String),
    Blocked,
}
pub struct Driver {
    rt: Option<tokio::runtime::Runtime>,
}
impl Driver {
    /// Call with the virtual clock running.
    pub fn new(tokio: bool) -> Driver {
        let rt = tokio.then(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
        Driver { rt }
    }
    pub fn is_tokio(&self) -> bool {
        self.rt.is_some()
    }
    /// Drives a future in virtual time; `None` if it waits for something that never happens.
    pub fn block<T>(&self, f: impl Future<Output = T>) -> Option<T> {
        self.rt.as_ref().unwrap().block_on(async { tokio::time::timeout(Duration::from_secs(FOREVER_S), f).await.ok() })
    }
    pub fn run<S>(&self, c: &mut Client<Conn, S>, w: &Mutex<World>) -> Outcome {
        let r = if self.rt.is_some() {
            match self.block(c.run_tokio()) {
                Some(r) => r,
                None => return Outcome::Blocked,
            }
        } else {
            c.run()
        };
        match r {
            Ok(Some((y, f))) => Outcome::Ran(y.to_vec(), f.to_vec()),
            Ok(None) => Outcome::TimedOut,
            Err(e) => {
                if self.rt.is_none() && w.lock().unwrap().blocked {
                    return Outcome::Blocked;
                }
                Outcome::Err(e.kind(), e.to_string())
            }
        }
    }
    pub fn flush<S>(&self, c: &mut Client<Conn, S>) -> Option<std::io::Result<Option<Duration>>> {
        if self.rt.is_some() {
            self.block(c.flush_partial_tokio())
        } else {
            Some(c.flush_partial())
        }
    }
}
