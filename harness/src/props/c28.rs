//! C28: connections over real sockets. TLS exactly when asked for, the server authenticated as
//! configured, the client certificate presented, and bytes carried intact in both directions.
use crate::gen;
use crate::infra::*;
use crate::{ck, ckeq};
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::{ClientHello, ResolvesServerCert};
use rustls::sign::CertifiedKey;
use rustls::{ServerConfig, ServerConnection};
use std::io::{self, BufRead, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::handlers::YieldAll;
use vinezombie::client::tls::{TlsConfigOptions, Trust};
use vinezombie::client::Client;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

fn pki(name: &str) -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/pki")).join(name)
}
fn certs_of(name: &str) -> Vec<CertificateDer<'static>> {
    let b = std::fs::read(pki(name)).unwrap();
    rustls_pemfile::certs(&mut &b[..]).map(|c| c.unwrap()).collect()
}
fn key_of(name: &str) -> PrivateKeyDer<'static> {
    let b = std::fs::read(pki(name)).unwrap();
    rustls_pemfile::private_key(&mut &b[..]).unwrap().unwrap()
}
/// A server certificate: file, chain sent, key, roots it hangs off, names it covers, currently valid for a server.
struct SrvCert {
    name: &'static str,
    chain: &'static [&'static str],
    key: &'static str,
    root: char,
    host: bool,
    ip: bool,
    valid: bool,
}
const CERTS: &[SrvCert] = &[
    SrvCert { name: "both", chain: &["both.pem"], key: "both.key", root: 'A', host: true, ip: true, valid: true },
    SrvCert { name: "host (RSA)", chain: &["host.pem"], key: "host.key", root: 'A', host: true, ip: false, valid: true },
    SrvCert { name: "ip (Ed25519)", chain: &["ip.pem"], key: "ip.key", root: 'A', host: false, ip: true, valid: true },
    SrvCert { name: "chain", chain: &["inter.pem", "interA.pem"], key: "inter.key", root: 'A', host: true, ip: true, valid: true },
    SrvCert { name: "from B", chain: &["fromB.pem"], key: "fromB.key", root: 'B', host: true, ip: true, valid: true },
    SrvCert { name: "incomplete chain", chain: &["inter.pem"], key: "inter.key", root: '-', host: true, ip: true, valid: true },
    SrvCert { name: "self-signed", chain: &["self.pem"], key: "self.key", root: '-', host: true, ip: true, valid: true },
    SrvCert { name: "other name", chain: &["other.pem"], key: "other.key", root: 'A', host: false, ip: false, valid: true },
    SrvCert { name: "common name only", chain: &["cnonly.pem"], key: "cnonly.key", root: 'A', host: false, ip: false, valid: true },
    SrvCert { name: "expired", chain: &["expired.pem"], key: "expired.key", root: 'A', host: true, ip: true, valid: false },
    SrvCert { name: "not yet valid", chain: &["future.pem"], key: "future.key", root: 'A', host: true, ip: true, valid: false },
    SrvCert { name: "client purpose", chain: &["clientonly.pem"], key: "clientonly.key", root: 'A', host: true, ip: true, valid: false },
    // Presents a certificate whose key it does not have.
    SrvCert { name: "stolen", chain: &["both.pem"], key: "fromB.key", root: 'A', host: true, ip: true, valid: false },
];
fn provider() -> Arc<rustls::crypto::CryptoProvider> {
    Arc::new(rustls::crypto::ring::default_provider())
}
#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello<'_>) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}
/// Asks for a client certificate and takes any.
#[derive(Debug)]
struct AnyClient;
impl rustls::server::danger::ClientCertVerifier for AnyClient {
    fn root_hint_subjects(&self) -> &[rustls::DistinguishedName] {
        &[]
    }
    fn client_auth_mandatory(&self) -> bool {
        false
    }
    fn verify_client_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: rustls::pki_types::UnixTime) -> Result<rustls::server::danger::ClientCertVerified, rustls::Error> {
        Ok(rustls::server::danger::ClientCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls12_signature(m, c, d, &provider().signature_verification_algorithms)
    }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls13_signature(m, c, d, &provider().signature_verification_algorithms)
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        provider().signature_verification_algorithms.supported_schemes()
    }
}
fn server_config(s: &SrvCert, versions: usize, ask: bool) -> Arc<ServerConfig> {
    let chain: Vec<_> = s.chain.iter().flat_map(|f| certs_of(f)).collect();
    let key = provider().key_provider.load_private_key(key_of(s.key)).unwrap();
    let ck = Arc::new(CertifiedKey::new(chain, key));
    let b = ServerConfig::builder_with_provider(provider());
    let b = match versions {
        0 => b.with_protocol_versions(&[&rustls::version::TLS12]),
        1 => b.with_protocol_versions(&[&rustls::version::TLS13]),
        _ => b.with_protocol_versions(&[&rustls::version::TLS12, &rustls::version::TLS13]),
    }
    .unwrap();
    let b = if ask { b.with_client_cert_verifier(Arc::new(AnyClient)) } else { b.with_no_client_auth() };
    Arc::new(b.with_cert_resolver(Arc::new(Fixed(ck))))
}
/// One exchange: bytes the server must read, then bytes it writes in pieces.
#[derive(Clone, Debug, Default)]
struct Round {
    expect: Vec<u8>,
    reply: Vec<Vec<u8>>,
}
#[derive(Clone)]
enum Kind {
    Plain,
    Tls(Arc<ServerConfig>),
    /// Sends these bytes and closes.
    Junk(Vec<u8>),
}
#[derive(Debug, Default)]
struct Seen {
    accepted: bool,
    /// A whole TLS handshake took place.
    secured: bool,
    certs: Vec<Vec<u8>>,
    got: Vec<Vec<u8>>,
    /// What came before the end of the stream, after the rounds.
    rest: Vec<u8>,
    ended: bool,
    /// The TLS session was closed properly.
    goodbye: bool,
    err: Option<String>,
}
fn exchange<S: Read + Write>(s: &mut S, rounds: &[Round], seen: &mut Seen, cut: usize) -> io::Result<()> {
    for r in rounds {
        let mut b = vec![0; r.expect.len()];
        let mut n = 0;
        while n < b.len() {
            match s.read(&mut b[n..]) {
                Ok(0) => {
                    b.truncate(n);
                    seen.got.push(b);
                    return Err(io::ErrorKind::UnexpectedEof.into());
                }
                Ok(k) => n += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => {
                    b.truncate(n);
                    seen.got.push(b);
                    return Err(e);
                }
            }
        }
        seen.got.push(b);
        for p in &r.reply {
            for q in p.chunks(cut.max(1)) {
                s.write_all(q)?;
                s.flush()?;
            }
        }
    }
    Ok(())
}
/// Sends TLS records in pieces, so that the client sees incomplete ones.
struct Dribble {
    sock: TcpStream,
    piece: usize,
    pause: Duration,
}
impl Read for Dribble {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.sock.read(b)
    }
}
impl Write for Dribble {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for p in b.chunks(self.piece.max(1)) {
            self.sock.write_all(p)?;
            if !self.pause.is_zero() {
                std::thread::sleep(self.pause);
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.sock.flush()
    }
}
fn serve(l: TcpListener, kind: Kind, rounds: Vec<Round>, cut: usize, piece: usize, pause: Duration, until_eof: bool, stop: Arc<AtomicBool>) -> Seen {
    let mut seen = Seen::default();
    l.set_nonblocking(true).unwrap();
    let sock = loop {
        match l.accept() {
            Ok((s, _)) => break s,
            Err(_) if stop.load(Ordering::SeqCst) => return seen,
            Err(_) => std::thread::sleep(Duration::from_micros(100)),
        }
    };
    drop(l);
    seen.accepted = true;
    sock.set_nonblocking(false).unwrap();
    sock.set_nodelay(true).unwrap();
    sock.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
    sock.set_write_timeout(Some(Duration::from_secs(30))).unwrap();
    let mut sock = Dribble { sock, piece: 100_000, pause: Duration::ZERO };
    let r = (|| -> io::Result<()> {
        match kind {
            Kind::Junk(b) => {
                sock.write_all(&b)?;
                sock.sock.shutdown(Shutdown::Write)?;
                let _ = sock.sock.read_to_end(&mut seen.rest);
            }
            Kind::Plain => {
                (sock.piece, sock.pause) = (piece, pause);
                exchange(&mut sock, &rounds, &mut seen, cut)?;
                if until_eof {
                    sock.sock.read_to_end(&mut seen.rest)?;
                    seen.ended = true;
                    sock.write_all(b"LAST :one\r\n")?;
                }
                sock.sock.shutdown(Shutdown::Write)?;
                let _ = sock.sock.read_to_end(&mut seen.rest);
            }
            Kind::Tls(conf) => {
                let mut conn = ServerConnection::new(conf).unwrap();
                if pause.is_zero() {
                    sock.piece = piece;
                }
                while conn.is_handshaking() {
                    conn.complete_io(&mut sock)?;
                }
                seen.secured = true;
                seen.certs = conn.peer_certificates().unwrap_or_default().iter().map(|c| c.to_vec()).collect();
                // The handshake itself is cut up only if that takes no time.
                (sock.piece, sock.pause) = (piece, pause);
                let mut s = rustls::StreamOwned { conn, sock };
                exchange(&mut s, &rounds, &mut seen, cut)?;
                if until_eof {
                    match s.read_to_end(&mut seen.rest) {
                        Ok(_) => seen.goodbye = true,
                        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => (),
                        Err(e) => return Err(e),
                    }
                    seen.ended = true;
                    s.write_all(b"LAST :one\r\n")?;
                }
                s.conn.send_close_notify();
                let _ = s.flush();
                let _ = s.sock.sock.shutdown(Shutdown::Write);
                let _ = s.sock.sock.read_to_end(&mut Vec::new());
            }
        }
        Ok(())
    })();
    seen.err = r.err().map(|e| e.to_string());
    seen
}
fn client_lines(r: &mut Rng) -> (Vec<ClientMsg<'static>>, Vec<u8>) {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(20, 120),
        _ => r.range(1, 4),
    };
    let (mut ms, mut bytes) = (vec![], vec![]);
    for _ in 0..n {
        let m = gen::msg(r, false);
        let w = gen::wire(&m);
        let Ok(m) = ClientMsg::parse(w) else { continue };
        let m = m.owning();
        // What the codec writes is C01's business.
        let _ = ClientCodec::write_to(&m, &mut bytes);
        bytes.extend_from_slice(b"\r\n");
        ms.push(m);
    }
    (ms, bytes)
}
fn server_lines(r: &mut Rng) -> (Vec<gen::RMsg>, Vec<Vec<u8>>) {
    let n = match r.below(8) {
        0 => r.range(20, 120),
        _ => r.range(1, 4),
    };
    let (mut ms, mut out) = (vec![], vec![]);
    for _ in 0..n {
        let m = gen::msg(r, true);
        let mut w = gen::wire(&m);
        let Ok(p) = ServerMsg::parse(w.clone()) else { continue };
        ms.push(gen::of_server(&p));
        w.extend_from_slice(b"\r\n");
        out.push(w);
    }
    if out.is_empty() {
        out.push(b"X\r\n".to_vec());
        ms.push(gen::of_server(&ServerMsg::parse("X").unwrap()));
    }
    (ms, out)
}
/// Listens on a free port, waiting for one if this machine has run out.
fn listen(ip: &str) -> TcpListener {
    for _ in 0..400 {
        if let Ok(l) = TcpListener::bind((ip, 0)) {
            return l;
        }
        std::thread::sleep(Duration::from_millis(200));
    }
    eprintln!("no port to listen on");
    std::process::exit(9);
}
fn dial(l: &TcpListener) -> TcpStream {
    for _ in 0..400 {
        if let Ok(s) = TcpStream::connect(l.local_addr().unwrap()) {
            return s;
        }
        std::thread::sleep(Duration::from_millis(200));
    }
    eprintln!("no port to connect from");
    std::process::exit(9);
}
/// Whether an error comes from this machine having run out of ports, files or memory.
fn exhausted(e: &io::Error) -> bool {
    matches!(e.raw_os_error(), Some(12 | 23 | 24 | 98 | 99 | 105))
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
const TIMEOUT: Duration = Duration::from_secs(60);
struct Plan {
    addr: ServerAddr<'static>,
    opts: TlsConfigOptions,
    is_async: bool,
    no_tls: bool,
    /// The messages of each round.
    out: Vec<Vec<ClientMsg<'static>>>,
    back: Vec<usize>,
    half_close: bool,
}
/// Connects and talks. Returns whether connecting worked, what was read, and how often TLS options were asked for.
fn talk(c: &mut Case, p: &Plan) -> (io::Result<()>, Vec<gen::RMsg>, usize, Option<String>) {
    let mut calls = 0;
    let mut got = vec![];
    let mut err = None;
    macro_rules! rounds { ($cl:ident, $rx:ident, $run:expr, $flush:expr) => {
        'all: for (msgs, back) in p.out.iter().zip(&p.back) {
            for m in msgs {
                $cl.queue_mut().edit().push(m.clone());
            }
            if *back == 0 {
                if let Err(e) = $flush { err = Some(e); break 'all; }
            }
            for _ in 0..*back {
                match $run {
                    Ok(true) => (),
                    Ok(false) => { err = Some("timeout without a time limit".into()); break 'all; }
                    Err(e) => { err = Some(e); break 'all; }
                }
                match $rx.try_recv() {
                    Ok(m) => got.push(gen::of_server(&m)),
                    Err(_) => { err = Some("run returned without a message".into()); break 'all; }
                }
            }
        }
    };}
    let res = if p.is_async {
        let rt = rt();
        let r = rt.block_on(async {
            let f = async {
                if p.no_tls {
                    p.addr.connect_tokio_no_tls().await
                } else {
                    p.addr.connect_tokio(|| { calls += 1; p.opts.build() }).await
                }
            };
            tokio::time::timeout(TIMEOUT, f).await.map_err(|_| "connecting hangs".to_string())
        });
        match r {
            Err(e) => {
                err = Some(e);
                Err(io::ErrorKind::TimedOut.into())
            }
            Ok(Err(e)) => Err(e),
            Ok(Ok(conn)) => {
                let mut cl = Client::new(conn, SyncChannels);
                cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
                let (_, rx) = cl.add((), YieldAll).unwrap();
                rounds!(cl, rx,
                    rt.block_on(async { tokio::time::timeout(TIMEOUT, cl.run_tokio()).await }).map_err(|_| "hangs".to_string()).and_then(|r| r.map(|o| o.is_some()).map_err(|e| e.to_string())),
                    rt.block_on(cl.flush_partial_tokio()).map_err(|e| e.to_string()));
                if p.half_close && err.is_none() {
                    use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt};
                    let mut conn = cl.take_conn();
                    let mut l = vec![];
                    let r = rt.block_on(async {
                        let all = async {
                            conn.shutdown().await?;
                            conn.read_until(b'\n', &mut l).await?;
                            conn.read(&mut [0; 8]).await
                        };
                        tokio::time::timeout(TIMEOUT, all).await
                    });
                    ck!(c, matches!(r, Ok(Ok(0))) && l == b"LAST :one\r\n", "half-close-read", "{r:?} {}", show(&l));
                }
                Ok(())
            }
        }
    } else {
        let r = if p.no_tls { p.addr.connect_no_tls() } else { p.addr.connect(|| { calls += 1; p.opts.build() }) };
        match r {
            Err(e) => Err(e),
            Ok(conn) => {
                let mut cl = Client::new(conn, SyncChannels);
                cl.queue_mut().set_rate_limit(Duration::ZERO, 0);
                let (_, rx) = cl.add((), YieldAll).unwrap();
                rounds!(cl, rx, cl.run().map(|o| o.is_some()).map_err(|e| e.to_string()), cl.flush_partial().map_err(|e| e.to_string()));
                if p.half_close && err.is_none() {
                    let mut conn = cl.take_conn();
                    if let Err(e) = conn.get_ref().shutdown(Shutdown::Write) {
                        err = Some(format!("shutdown: {e}"));
                    }
                    let mut l = vec![];
                    let r = conn.read_until(b'\n', &mut l);
                    ck!(c, r.is_ok() && l == b"LAST :one\r\n", "half-close-read", "{r:?} {}", show(&l));
                    // Nothing more, and after shutting the read half down too it stays that way.
                    let r = conn.get_ref().shutdown(Shutdown::Both);
                    let _ = r;
                    let mut b = [0; 8];
                    let r = conn.read(&mut b);
                    ck!(c, !matches!(r, Ok(1..)), "read-after-end", "{r:?}");
                }
                Ok(())
            }
        }
    };
    (res, got, calls, err)
}
fn trust(r: &mut Rng) -> (Trust, &'static str, String, Result<bool, ()>) {
    // (option, SSL_CERT_FILE, roots trusted, Ok(no verification) or unreadable)
    let env = *r.pick(&[&"rootA.pem", &"rootB.pem", &"roots.pem", &"empty.pem"]);
    let roots = |f: &str| match f {
        "rootA.pem" => "A",
        "rootB.pem" => "B",
        "roots.pem" => "AB",
        "interA.pem" => "",
        _ => "",
    };
    let mut files: Vec<&'static str> = vec![];
    for _ in 0..r.below(4) {
        files.push(r.pick(&[&"rootA.pem", &"rootB.pem", &"roots.pem", &"empty.pem"]));
    }
    let mut bad = false;
    if r.chance(1, 12) {
        let at = r.below(files.len() + 1);
        files.insert(at, *r.pick(&[&"garbage.pem", &"notacert.pem", &"missing.pem"]));
        bad = true;
    }
    let paths: Vec<PathBuf> = files.iter().map(|f| pki(f)).collect();
    let listed: String = files.iter().map(|f| roots(f)).collect();
    match r.below(4) {
        0 => (Trust::Default, env, roots(env).to_string(), Ok(false)),
        1 => (Trust::NoVerify, env, String::new(), Ok(true)),
        2 => (Trust::Also(paths), env, format!("{}{listed}", roots(env)), if bad { Err(()) } else { Ok(false) }),
        _ => (Trust::Only(paths), env, listed, if bad { Err(()) } else { Ok(false) }),
    }
}
fn session(c: &mut Case) {
    let tls = c.rng.chance(4, 5);
    let no_tls = c.rng.chance(1, 12);
    let host = c.rng.coin() && localhost();
    let cert = if c.rng.chance(2, 5) { &CERTS[c.rng.below(4)] } else { &CERTS[c.rng.below(CERTS.len())] };
    let versions = c.rng.below(3);
    let ask = c.rng.coin();
    let (tr, env, roots, verdict) = trust(&mut c.rng);
    let (cl_cert, cl_chain, cl_ok): (Option<&str>, Vec<Vec<u8>>, bool) = match c.rng.below(12) {
        0..=2 => (Some("client1.pem"), certs_of("client1.pem").iter().map(|c| c.to_vec()).collect(), true),
        3..=4 => (Some("client2.pem"), certs_of("client2.pem").iter().map(|c| c.to_vec()).collect(), true),
        5 => (Some("client3.pem"), certs_of("client3.pem").iter().map(|c| c.to_vec()).collect(), true),
        6 => (Some(c.rng.pick(&["client_nokey.pem", "client_pkcs1.pem", "empty.pem", "missing.pem", "garbage.pem"])), vec![], false),
        _ => (None, vec![], true),
    };
    let secure = tls && !no_tls;
    let junk = secure && c.rng.chance(1, 15);
    let mut rounds = vec![];
    let (mut out, mut back, mut expect_msgs) = (vec![], vec![], vec![]);
    let n = c.rng.range(1, 3);
    for i in 0..n {
        let (ms, bytes) = client_lines(&mut c.rng);
        out.push(ms);
        // The last word is the server's, so that a client that heard it was heard in full.
        let (want, reply) = if i + 1 < n && c.rng.chance(1, 4) { (vec![], vec![]) } else { server_lines(&mut c.rng) };
        back.push(want.len());
        expect_msgs.extend(want);
        rounds.push(Round { expect: bytes, reply });
    }
    let cut = *c.rng.pick(&[&1usize, &3, &17, &100, &5000, &100_000]);
    let cut = if rounds.iter().flat_map(|r| &r.reply).map(|l| l.len()).sum::<usize>() > 4000 { cut.max(100) } else { cut };
    let piece = *c.rng.pick(&[&1usize, &7, &100, &100_000, &100_000]);
    let piece = if rounds.iter().flat_map(|r| &r.reply).map(|l| l.len()).sum::<usize>() > 2000 { piece.max(100) } else { piece };
    std::env::set_var("SSL_CERT_FILE", pki(env));
    std::env::remove_var("SSL_CERT_DIR");
    let l = listen("127.0.0.1");
    let port = l.local_addr().unwrap().port();
    let kind = if junk {
        Kind::Junk(if c.rng.coin() { b":irc NOTICE * :hello\r\n".to_vec() } else { gen::bytes(&mut c.rng, 60) })
    } else if secure {
        Kind::Tls(server_config(cert, versions, ask))
    } else {
        Kind::Plain
    };
    let p = Plan {
        addr: ServerAddr { address: Word::from_str(if host { "localhost" } else { "127.0.0.1" }), tls, port: Some(port) },
        opts: TlsConfigOptions { trust: tr.clone(), cert: cl_cert.map(pki) },
        is_async: c.rng.coin(),
        no_tls,
        half_close: c.rng.coin(),
        out,
        back,
    };
    c.desc = format!("tls {tls} no_tls {no_tls} host {host} cert {:?} versions {versions} ask {ask} trust {tr:?} env {env} client {cl_cert:?} junk {junk} async {}", cert.name, p.is_async);
    let stop = Arc::new(AtomicBool::new(false));
    let half = p.half_close;
    let (s2, r2) = (stop.clone(), rounds.clone());
    let th = std::thread::spawn(move || serve(l, kind, r2, cut, piece, Duration::ZERO, half, s2));
    let (res, got, calls, err) = talk(c, &p);
    stop.store(true, Ordering::SeqCst);
    let seen = th.join().unwrap();
    ckeq!(c, calls, secure as usize, "tls-options-asked", "how often TLS options were asked for");
    // Whether the connection must have been made.
    let config_ok = cl_ok && verdict.is_ok();
    let no_verify = verdict == Ok(true);
    let trusted = roots.contains(cert.root) && cert.valid && (if host { cert.host } else { cert.ip });
    let want = if !secure {
        Some(true)
    } else if !config_ok || junk {
        Some(false)
    } else if no_verify {
        // Whether the server also has to have the certificate's key is left open.
        (cert.name != "stolen").then_some(true)
    } else {
        Some(trusted)
    };
    let Some(want) = want else { return };
    match (&res, want) {
        (Ok(()), true) => {}
        (Err(e), true) if exhausted(e) => {
            c.ev("exhausted");
            return;
        }
        (Err(_), false) => {}
        (Ok(()), false) => c.fail("connected-despite", format!("{} roots {roots}", cert.name)),
        (Err(e), true) => c.fail("refused-despite", format!("{e} server {:?}", seen.err)),
    }
    if !want {
        ck!(c, !seen.got.iter().any(|g| !g.is_empty()), "sent-anyway", "{seen:?}");
        if !config_ok {
            c.ev("bad-config");
        } else if junk {
            c.ev("not-tls");
        } else if !cert.valid {
            c.ev("invalid-cert");
        } else if !roots.contains(cert.root) {
            c.ev("untrusted");
        } else {
            c.ev("wrong-name");
        }
    } else if res.is_ok() {
        ck!(c, err.is_none(), "session-error", "{err:?} server {:?}", seen.err);
        ckeq!(c, seen.secured, secure, "tls-used", "TLS");
        for (i, r) in rounds.iter().enumerate() {
            let g = seen.got.get(i).map(|g| &g[..]).unwrap_or_default();
            ck!(c, g == r.expect, "sent-bytes", "round {i}: the server read {} bytes {}, sent were {} bytes {}", g.len(), show(g), r.expect.len(), show(&r.expect));
        }
        let at = got.iter().zip(&expect_msgs).position(|(a, b)| a != b);
        ck!(c, got == expect_msgs, "received", "{} messages, {} sent, first different at {at:?}", got.len(), expect_msgs.len());
        if secure {
            let want: Vec<Vec<u8>> = if ask { cl_chain.clone() } else { vec![] };
            ck!(c, seen.certs == want, "client-certificate", "{} presented to the server, {} configured", seen.certs.len(), want.len());
        }
        if half {
            ck!(c, seen.ended && seen.rest.is_empty(), "half-close", "{seen:?}");
            // (The synchronous stream closes the socket under the session.)
            ck!(c, !secure || !p.is_async || seen.goodbye, "close-notify", "{seen:?}");
            c.ev(if secure { "tls-half-closed" } else { "half-closed" });
            c.ev("half-closes");
        }
        c.ev(if secure { "secured" } else { "plain" });
        if no_verify && secure {
            c.ev("unverified");
        }
        if cl_cert.is_some() && ask && secure {
            c.ev("client-certs");
        }
        c.evn("bytes-out", rounds.iter().map(|r| r.expect.len() as u64).sum());
        c.evn("messages-in", expect_msgs.len() as u64);
        c.ev(if p.is_async { "async-ok" } else { "sync-ok" });
    }
    c.sample(|| c_desc(&res));
    c.seen(&(tls, no_tls, host, cert.name, versions, ask, format!("{tr:?}{env}{cl_cert:?}{junk}{}", p.is_async), c_bytes(&rounds)));
}
fn c_desc(r: &io::Result<()>) -> String {
    match r {
        Ok(()) => "connected".into(),
        Err(e) => e.to_string(),
    }
}
fn c_bytes(r: &[Round]) -> u64 {
    h64(&r.iter().map(|r| (r.expect.clone(), r.reply.clone())).collect::<Vec<_>>())
}
/// Time limits set on a real stream interrupt reads without losing anything.
fn dribble(c: &mut Case) {
    let secure = c.rng.chance(2, 3);
    let (want, mut reply) = server_lines(&mut c.rng);
    reply.truncate(6);
    let want: Vec<_> = want.into_iter().take(reply.len()).collect();
    let total: usize = reply.iter().map(|l| l.len()).sum();
    let piece = (total / c.rng.range(2, 8)).max(1);
    std::env::set_var("SSL_CERT_FILE", pki("empty.pem"));
    let l = listen("127.0.0.1");
    let port = l.local_addr().unwrap().port();
    let kind = if secure { Kind::Tls(server_config(&CERTS[0], c.rng.below(3), false)) } else { Kind::Plain };
    let stop = Arc::new(AtomicBool::new(false));
    let s2 = stop.clone();
    c.desc = format!("secure {secure} {total} bytes in pieces of {piece}");
    // The greeting comes with the pieces unpaused, else the handshake takes as long as the test.
    let first = b"READY\r\n".to_vec();
    let rounds = vec![Round { expect: first, reply }];
    let th = std::thread::spawn(move || serve(l, kind, rounds, 100_000, piece, Duration::from_millis(9), false, s2));
    let addr = ServerAddr { address: Word::from_str(if localhost() { "localhost" } else { "127.0.0.1" }), tls: secure, port: Some(port) };
    let opts = TlsConfigOptions { trust: Trust::Only(vec![pki("rootA.pem")]), cert: None };
    let mut conn = match addr.connect(|| opts.build()) {
        Ok(k) => k,
        Err(e) => {
            stop.store(true, Ordering::SeqCst);
            if exhausted(&e) {
                c.ev("exhausted");
            } else {
                c.fail("refused-despite", e.to_string());
            }
            return;
        }
    };
    let secs = Duration::from_secs(c.rng.range(1, 100) as u64);
    let s = conn.get_ref();
    ck!(c, s.read_timeout().unwrap().is_none() && s.write_timeout().unwrap().is_none(), "timeout-default", "{:?} {:?}", s.read_timeout(), s.write_timeout());
    s.set_write_timeout(Some(secs)).unwrap();
    ck!(c, s.write_timeout().unwrap() == Some(secs) && s.read_timeout().unwrap().is_none(), "timeout-write", "{secs:?}: {:?} {:?}", s.read_timeout(), s.write_timeout());
    s.set_read_timeout(Some(secs * 2)).unwrap();
    ck!(c, s.write_timeout().unwrap() == Some(secs) && s.read_timeout().unwrap() == Some(secs * 2), "timeout-read", "{secs:?}: {:?} {:?}", s.read_timeout(), s.write_timeout());
    s.set_write_timeout(None).unwrap();
    ck!(c, s.write_timeout().unwrap().is_none(), "timeout-unset", "{:?}", s.write_timeout());
    // The same through the traits the client uses.
    fn set<C: vinezombie::client::conn::Connection>(k: &mut C, r: Option<Duration>, w: Option<Duration>) {
        k.set_read_timeout(r).unwrap();
        k.set_write_timeout(w).unwrap();
    }
    let some = |n: u32| Some(secs * n);
    for (r, w) in [(some(3), some(4)), (None, some(5)), (some(6), None), (None, None)] {
        set(&mut conn, r, w);
        let s = conn.get_ref();
        ck!(c, s.read_timeout().unwrap() == r && s.write_timeout().unwrap() == w, "timeout-trait", "{r:?} {w:?}: {:?} {:?}", s.read_timeout(), s.write_timeout());
    }
    let s = conn.get_ref();
    s.set_read_timeout(Some(Duration::from_millis(1))).unwrap();
    let w = conn.get_mut();
    w.write_all(b"READY\r\n").unwrap();
    w.flush().unwrap();
    let (mut got, mut buf, mut waits) = (vec![], vec![], 0u64);
    while got.len() < want.len() {
        match ClientCodec::read_owning_from(&mut conn, &mut buf) {
            Ok(m) => got.push(gen::of_server(&m)),
            Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut | io::ErrorKind::Interrupted) => {
                waits += 1;
                if waits > 60_000 {
                    c.fail("hangs", format!("{} of {} messages", got.len(), want.len()));
                    break;
                }
            }
            Err(e) => {
                c.fail("read-error", format!("{e}"));
                break;
            }
        }
    }
    ckeq!(c, got, want, "received", "messages");
    drop(conn);
    let seen = th.join().unwrap();
    ck!(c, seen.secured == secure, "tls-used", "{seen:?}");
    c.evn("interrupted-reads", waits);
    c.evn("messages-in", want.len() as u64);
    c.ev("dribbled");
    c.seen(&(secure, total, piece));
}
/// A loopback address that no other process of this check uses.
fn own_ip() -> String {
    let pid = std::process::id();
    format!("127.{}.{}.{}", 16 + (pid / 62_500) % 200, (pid / 250) % 250, 1 + pid % 250)
}
/// Whether the name in the certificates leads to the test server.
fn localhost() -> bool {
    use std::net::ToSocketAddrs;
    static OK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *OK.get_or_init(|| ("localhost", 1u16).to_socket_addrs().is_ok_and(|mut a| a.any(|a| a.ip() == std::net::Ipv4Addr::LOCALHOST)))
}
/// The port used when none is given, on a loopback address of this process's own.
fn default_port(c: &mut Case) {
    let ip = own_ip();
    let tls = c.rng.coin();
    let no_tls = c.rng.chance(1, 3);
    let want: u16 = if tls { 6697 } else { 6667 };
    let secure = tls && !no_tls;
    c.desc = format!("{ip} tls {tls} no_tls {no_tls}");
    let Ok(l) = TcpListener::bind((ip.as_str(), want)) else {
        c.ev("port-taken");
        return;
    };
    let addr = ServerAddr { address: Word::from_bytes(ip.clone().into_bytes()).unwrap(), tls, port: None };
    let stop = Arc::new(AtomicBool::new(false));
    let s2 = stop.clone();
    let kind = if secure { Kind::Tls(server_config(&CERTS[0], 2, false)) } else { Kind::Plain };
    let rounds = vec![Round { expect: b"NICK x\r\n".to_vec(), reply: vec![b"PING :y\r\n".to_vec()] }];
    let th = std::thread::spawn(move || serve(l, kind, rounds, 100, 100_000, Duration::ZERO, false, s2));
    let p = Plan {
        addr,
        opts: TlsConfigOptions { trust: Trust::NoVerify, cert: None },
        is_async: c.rng.coin(),
        no_tls,
        out: vec![vec![ClientMsg::parse("NICK x").unwrap().owning()]],
        back: vec![1],
        half_close: false,
    };
    let (res, got, _, err) = talk(c, &p);
    stop.store(true, Ordering::SeqCst);
    let seen = th.join().unwrap();
    if res.as_ref().is_err_and(exhausted) {
        c.ev("exhausted");
        return;
    }
    ck!(c, res.is_ok() && got.len() == 1 && seen.secured == secure, "default-port", "{res:?} {err:?} {seen:?}");
    c.ev("default-ports");
    c.seen(&(tls, no_tls, p.is_async));
}
/// Addresses that cannot be connected to.
fn bad_addr(c: &mut Case) {
    let mut l = None;
    let (address, port): (Vec<u8>, u16) = match c.rng.below(3) {
        0 => (b"irc\xff.example".to_vec(), 1),
        1 => (vec![], 1),
        _ => {
            // A port nobody listens on.
            // The address is this process's own, so that no other test server gets the port.
            let ip = own_ip();
            let t = listen(&ip);
            let p = t.local_addr().unwrap().port();
            l = Some(t);
            (ip.into_bytes(), p)
        }
    };
    drop(l);
    let a = ServerAddr { address: Word::from_bytes(address.clone()).unwrap(), tls: c.rng.coin(), port: Some(port) };
    c.desc = format!("{a:?}");
    let opts = TlsConfigOptions { trust: Trust::NoVerify, cert: None };
    let fail_opts = c.rng.chance(1, 4);
    let mk = || if fail_opts { Err(io::Error::new(io::ErrorKind::AlreadyExists, "mine")) } else { opts.build() };
    let (r, what) = match c.rng.below(4) {
        0 => (a.connect(mk).map(|_| ()), "connect"),
        1 => (a.connect_no_tls().map(|_| ()), "connect_no_tls"),
        2 => (rt().block_on(async { tokio::time::timeout(TIMEOUT, a.connect_tokio(mk)).await.expect("hangs") }).map(|_| ()), "connect_tokio"),
        _ => (rt().block_on(async { tokio::time::timeout(TIMEOUT, a.connect_tokio_no_tls()).await.expect("hangs") }).map(|_| ()), "connect_tokio_no_tls"),
    };
    ck!(c, r.is_err(), "connected-to-nothing", "{what}");
    c.ev("bad-addresses");
    c.seen(&(address, a.tls, what, fail_opts));
}
/// Two addresses are the same exactly when they lead to the same place.
fn addresses(c: &mut Case) {
    let mk = |r: &mut Rng| {
        let mut v = match r.below(3) {
            0 => b"irc.example".to_vec(),
            1 => b"localhost".to_vec(),
            _ => gen::bytes(r, 6),
        };
        v.retain(|b| gen::ok_word(*b));
        let port = *r.pick(&[&None, &Some(6667u16), &Some(6697), &Some(6668), &Some(0), &Some(65535)]);
        ServerAddr { address: Word::from_bytes(v).unwrap(), tls: r.coin(), port }
    };
    let (a, b) = (mk(&mut c.rng), mk(&mut c.rng));
    let num = |a: &ServerAddr<'_>| a.port.unwrap_or(if a.tls { 6697 } else { 6667 });
    c.desc = format!("{a:?} {b:?}");
    ckeq!(c, a.port_num(), num(&a), "port", "{a:?}");
    let same = a.address.as_bytes() == b.address.as_bytes() && a.tls == b.tls && num(&a) == num(&b);
    ckeq!(c, a == b, same, "address-equality", "{a:?} {b:?}");
    if same {
        ckeq!(c, h64(&a), h64(&b), "address-hash", "{a:?} {b:?}");
        c.ev("same-address");
    }
    let h = ServerAddr::from_host(a.address.clone()).unwrap();
    ck!(c, h.tls && h.port.is_none() && h.address == a.address, "from-host", "{h:?}");
    if let Some(t) = a.address.to_utf8() {
        let h = ServerAddr::from_host_str(t);
        ck!(c, h.tls && h.port.is_none() && h.address == a.address, "from-host", "const {h:?}");
    }
    if c.idx % 64 == 0 {
        // A stream that is connected to nothing has nothing to read and takes nothing.
        use std::task::Poll;
        use tokio::io::{AsyncRead, AsyncWrite};
        let mut s = vinezombie::client::conn::StreamTokio::default();
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        let mut room = [7u8; 8];
        let mut room = tokio::io::ReadBuf::new(&mut room);
        let r = std::pin::Pin::new(&mut s).poll_read(&mut cx, &mut room);
        ck!(c, !matches!(r, Poll::Ready(Ok(()))) || room.filled().is_empty(), "closed-read", "{r:?}");
        let w = std::pin::Pin::new(&mut s).poll_write(&mut cx, b"x");
        ck!(c, !matches!(w, Poll::Ready(Ok(1..))), "closed-write", "{w:?}");
        c.ev("closed");
    }
    c.ev("address-pairs");
    c.seen(&format!("{a:?}{b:?}"));
}
/// A user's own sockets as connections: the traits set what they say on the socket underneath.
fn own_sockets(c: &mut Case) {
    use vinezombie::client::conn::{Bidir, ReadTimeout, WriteTimeout};
    fn set<C: ReadTimeout + WriteTimeout>(k: &mut C, r: Option<Duration>, w: Option<Duration>) {
        ReadTimeout::set_read_timeout(k, r).unwrap();
        WriteTimeout::set_write_timeout(k, w).unwrap();
    }
    let l = listen("127.0.0.1");
    let mut sock = dial(&l);
    let t = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(Duration::from_secs(r.range(1, 900) as u64)) };
    let conf = || TlsConfigOptions { trust: Trust::NoVerify, cert: None }.build().unwrap();
    for _ in 0..c.rng.range(1, 6) {
        let (r, w) = (t(&mut c.rng), t(&mut c.rng));
        let probe = sock.try_clone().unwrap();
        let probe2 = sock.try_clone().unwrap();
        let how = c.rng.below(5);
        let (pr, pw) = (&probe, &probe2);
        match how {
            0 => set(&mut sock, r, w),
            1 => set(&mut io::BufReader::new(sock.try_clone().unwrap()), r, w),
            2 => {
                let conn = rustls::ClientConnection::new(conf(), "localhost".try_into().unwrap()).unwrap();
                set(&mut rustls::StreamOwned { conn, sock: sock.try_clone().unwrap() }, r, w)
            }
            3 => {
                let mut conn = rustls::ClientConnection::new(conf(), "localhost".try_into().unwrap()).unwrap();
                let mut s = sock.try_clone().unwrap();
                set(&mut rustls::Stream { conn: &mut conn, sock: &mut s }, r, w)
            }
            _ => {
                // Two sockets: each direction gets its own limit.
                let other = dial(&l);
                let p = other.try_clone().unwrap();
                let before = (probe.write_timeout().unwrap(), p.read_timeout().unwrap());
                set(&mut Bidir(sock.try_clone().unwrap(), other), r, w);
                ck!(c, probe.read_timeout().unwrap() == r && p.write_timeout().unwrap() == w, "own-socket", "two sockets {r:?} {w:?}");
                ck!(c, (probe.write_timeout().unwrap(), p.read_timeout().unwrap()) == before, "own-socket", "the other limits changed");
                c.ev("own-sockets");
                continue;
            }
        }
        ck!(c, pr.read_timeout().unwrap() == r && pw.write_timeout().unwrap() == w, "own-socket", "kind {how} {r:?} {w:?}: {:?} {:?}", pr.read_timeout(), pw.write_timeout());
        c.ev("own-sockets");
        c.seen(&(how, r, w));
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("own-sockets", 40, 400, own_sockets);
    ctx.run("sessions", 400, 4000, session);
    ctx.run("dribble", 40, 400, dribble);
    ctx.run("default-port", 8, 80, default_port);
    ctx.run("bad-addresses", 40, 400, bad_addr);
    ctx.run("addresses", 4000, 40_000, addresses);
    for (k, n) in [("secured", 60), ("plain", 40), ("unverified", 20), ("client-certs", 15), ("untrusted", 20), ("wrong-name", 5), ("invalid-cert", 8), ("bad-config", 15), ("not-tls", 5), ("half-closes", 5), ("sync-ok", 50), ("async-ok", 50), ("interrupted-reads", 20), ("default-ports", 1), ("own-sockets", 20), ("same-address", 20)] {
        ctx.require(k, n);
    }
}
