# Planted bugs in equality, ordering and hashing.
bug("secret-never-text", "C31",
 [("src/string/bytes.rs", "        self.utf8.load(Relaxed) != -1 && self.value == other.as_bytes()", "        self.utf8.load(Relaxed) != -1 && !self.secret && self.value == other.as_bytes()")],
 "a secret string compared with text",
 "a secret is unequal to the very text it holds",
r'''
use vinezombie::string::Line;
fn main() {
    let s = Line::from_secret(b"hunter2".to_vec()).unwrap();
    assert!(s == Line::from_str("hunter2"));
    assert!(s == "hunter2");
}
''')
bug("address-port-as-given", "C31",
 [("src/client/conn.rs", "            && self.port_num() == other.port_num()\n", "            && self.port == other.port\n")],
 "one address that names the default port and one that leaves it out",
 "two addresses of the same place are unequal although they hash alike",
r'''
use vinezombie::client::conn::ServerAddr;
fn main() {
    let a = ServerAddr::from_host_str("irc.example");
    let mut b = a.clone();
    b.port = Some(6697);
    assert!(a == b);
}
''')
bug("kind-hashed-as-text", "C31",
 [("src/ircmsg/servermsgkind.rs", "            ServerMsgKindRaw::Cmd(c) => c.hash(state),", "            ServerMsgKindRaw::Cmd(c) => c.as_str().hash(state),")],
 "a hash map keyed by message kinds and searched by the bytes of a command",
 "commands hash differently from their bytes, so they are not found",
r'''
use std::collections::HashMap;
use vinezombie::{ircmsg::ServerMsgKindRaw, string::Cmd};
fn main() {
    let mut m = HashMap::new();
    m.insert(ServerMsgKindRaw::from(Cmd::from_str("PRIVMSG")), 1);
    assert_eq!(m.get(b"PRIVMSG".as_slice()), Some(&1));
}
''')
bug("shortlex-strings", "C31",
 [("src/string/bytes.rs", "        self.value.cmp(other.value)", "        self.value.len().cmp(&other.value.len()).then_with(|| self.value.cmp(other.value))")],
 "a tree map keyed by strings of different lengths, searched by bytes",
 "strings do not order like their bytes, so they are not found",
r'''
use std::collections::BTreeMap;
use vinezombie::string::Word;
fn main() {
    let m: BTreeMap<Word, usize> = ["b", "aa", "c", "bbb", "abc"].iter().enumerate().map(|(i, w)| (Word::from_str(w), i)).collect();
    for (i, w) in ["b", "aa", "c", "bbb", "abc"].iter().enumerate() {
        assert_eq!(m.get(w.as_bytes()), Some(&i), "{w}");
    }
}
''')
bug("tags-ordered-by-count", "C31",
 [("src/util/flatmap.rs", "        self.0.cmp(&other.0)\n", "        self.0.len().cmp(&other.0.len())\n")],
 "two tag lists with equally many tags",
 "neither is less than the other although they are not equal",
r'''
use vinezombie::ircmsg::Tags;
fn main() {
    let (a, b) = (Tags::parse(vinezombie::string::Word::from_str("a=1")), Tags::parse(vinezombie::string::Word::from_str("a=2")));
    assert!(a != b);
    assert!(a < b);
}
''')
bug("numeric-hash-padded", "C31",
 [("src/ircmsg/numeric.rs", "        self.as_bytes().as_slice().hash(state);", "        self.as_bytes().hash(state);\n        state.write_u8(0);")],
 "a hash map keyed by numerics or kinds and searched by digits",
 "numerics hash differently from their digits",
r'''
use std::collections::HashMap;
use vinezombie::ircmsg::Numeric;
fn main() {
    let mut m = HashMap::new();
    m.insert(Numeric::from_int(5).unwrap(), 1);
    assert_eq!(m.get(b"005".as_slice()), Some(&1));
}
''')
