# Planted bugs found wanting by hand-written changes at first.
REGA = r'''
use std::{io::Cursor, time::Duration};
use vinezombie::{client::{auth::Clear, channel::SyncChannels, conn::Bidir, register::{register_as_bot, Options}, state::*, Client}, string::Nick};
#[allow(dead_code)]
fn register(msg: &str) -> Client<Bidir<Cursor<Vec<u8>>, Vec<u8>>, SyncChannels> {
    let mut options: Options<Clear> = Options::new();
    options.nicks = vec![Nick::from_str("Me")];
    let reg = register_as_bot();
    let mut c = Client::new(Bidir::<Cursor<Vec<u8>>, Vec<u8>>(Cursor::new(msg.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 1);
    let (_, r) = c.add(&reg, &options).unwrap();
    c.run().unwrap();
    r.0.recv_now().unwrap().unwrap();
    c
}
'''
bug("logout-keeps-userhost", "C22",
 [("src/client/register/handler.rs", "                    self.reg.userhost = whoami.userhost;\n                }\n                Ok(None)\n            }\n            // Ignore", "                    self.reg.userhost = whoami.userhost.or(self.reg.userhost.take());\n                }\n                Ok(None)\n            }\n            // Ignore")],
 "a logout (901) during registration that names the client by its nick alone, after a login that told its user and host",
 "the client still believes in the user and host of the account it is no longer logged in to",
REGA + r'''
fn main() {
    let c = register(concat!(
        ":x CAP * LS :\r\n:x 900 Me Me!acct@users.example acct :You are now logged in\r\n:x 901 Me Me :You are now logged out\r\n",
        ":x 001 Me :hi\r\n:x 004 Me x v i n\r\n:x 422 Me :no\r\n"));
    let s = c.state().get::<ClientSource>().unwrap();
    assert_eq!(s.nick, "Me");
    assert!(s.userhost.is_none(), "{s:?}");
}
''')
bug("chghost-long-host", "C26",
 [("src/client/handlers/track.rs", "                                user: Some(user),", "                                user: Some(user).filter(|u| u.len() + host.len() < 74),")],
 "a CHGHOST to a host name of more than 63 bytes",
 "the client forgets its user name, and reckons its messages shorter than they are relayed",
r'''
use std::io::Cursor;
use vinezombie::client::{channel::SyncChannels, conn::Bidir, handlers::TrackClientSource, state::ClientSource, Client};
use vinezombie::{ircmsg::Source, string::Word};
fn main() {
    for n in [1, 20, 63, 64, 80, 200] {
        let host = "h".repeat(n);
        let msg = format!(":Me!old@host CHGHOST username {host}\r\n");
        let mut c = Client::new(Bidir::<Cursor<Vec<u8>>, Vec<u8>>(Cursor::new(msg.into_bytes()), Vec::new()), SyncChannels);
        c.state_mut().insert::<ClientSource>(Source::parse(Word::from_str("Me!old@host")).unwrap());
        let _ = c.add((), TrackClientSource::new());
        let _ = c.run();
        let s = c.state().get::<ClientSource>().unwrap();
        let uh = s.userhost.as_ref().unwrap();
        assert_eq!(uh.host, Word::from_bytes(host).unwrap());
        assert_eq!(uh.user.as_ref().map(|u| u.as_bytes().to_vec()), Some(b"username".to_vec()));
    }
}
''')
bug("cap-req-no-source", "C22",
 [("src/client/register/handler.rs", "                                    self.reg.source.as_ref(),\n", "                                    self.reg.source.as_ref().filter(|_| reqs.len() < 24),\n")],
 "a server that offers more capabilities than fit one request",
 "the request lines leave no room for the server's name, so its acknowledgements do not fit a line",
REGA + r'''
struct W(std::sync::Arc<std::sync::Mutex<Vec<u8>>>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl vinezombie::client::conn::WriteTimeout for W {
    fn set_write_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let name = "a-server-with-a-rather-long-name.network.example.org";
    let mut many = 0;
    for len in 9..24 {
        let caps: Vec<String> = (0..60).map(|i| format!("{i:03}{}", "c".repeat(len))).collect();
        let mut msg = String::new();
        for p in caps.chunks(12) {
            msg += &format!(":{name} CAP * LS * :{}\r\n", p.join(" "));
        }
        msg += &format!(":{name} CAP * LS :\r\n:{name} CAP Me NAK :{}\r\n", caps[0]);
        let mut options: Options<Clear> = Options::new();
        options.nicks = vec![Nick::from_str("Me")];
        options.caps = caps.iter().map(|c| vinezombie::string::Key::from_bytes(c.clone()).unwrap()).collect();
        let reg = register_as_bot();
        let out = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let mut c = Client::new(Bidir::<Cursor<Vec<u8>>, W>(Cursor::new(msg.into_bytes()), W(out.clone())), SyncChannels);
        c.queue_mut().set_rate_limit(Duration::ZERO, 1);
        let _ = c.add(&reg, &options).unwrap();
        let _ = c.run();
        let out = String::from_utf8(out.lock().unwrap().clone()).unwrap();
        for l in out.lines().filter_map(|l| l.strip_prefix("CAP REQ :")) {
            many += 1;
            let reply = format!(":{name} CAP Me ACK :{l}\r\n");
            assert!(reply.len() <= 512, "{}", reply.len());
        }
    }
    assert!(many > 30, "{many}");
}
''')
