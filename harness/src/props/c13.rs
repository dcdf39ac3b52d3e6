//! Serialisation round trips and hostile documents, in a text format and two binary ones.
use crate::gen::{self, RMsg};
use crate::infra::*;
use crate::strm::{b64, Ty, TYS};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use vinezombie::client::auth::{AnySasl, Clear, Secret};
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::register::Options;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

/// All formats. `text`: every string inside is UTF-8, so the value must come back; otherwise an
/// error is allowed but a different value never is. `tagged` types need a self-describing format.
fn rt<T: Serialize + DeserializeOwned>(c: &mut Case, x: &T, text: bool, tagged: bool, same: &dyn Fn(&T) -> Result<(), String>) {
    let one = |c: &mut Case, how: &str, must: bool, r: Result<T, String>| match r {
        Ok(y) => {
            if let Err(e) = same(&y) {
                c.fail(&format!("{how}-differs"), e);
            }
            c.ev(how);
        }
        Err(e) => {
            ck!(c, !must, &format!("{how}-refused"), "{e}");
            c.ev("unserialisable");
        }
    };
    let s = serde_json::to_string(x).map_err(|e| e.to_string());
    one(c, "json", text, s.and_then(|s| serde_json::from_str(&s).map_err(|e| format!("{e} in {s}"))));
    let s = serde_json::to_vec_pretty(x).map_err(|e| e.to_string());
    one(c, "json-reader", text, s.and_then(|s| serde_json::from_reader(&s[..]).map_err(|e| e.to_string())));
    let v = serde_json::to_value(x).map_err(|e| e.to_string());
    one(c, "json-value", text, v.and_then(|v| serde_json::from_value(v.clone()).map_err(|e| format!("{e} in {v}"))));
    let mut b = vec![];
    let r = ciborium::into_writer(x, &mut b).map_err(|e| e.to_string());
    one(c, "cbor", text, r.and_then(|_| ciborium::from_reader(&b[..]).map_err(|e| e.to_string())));
    let r = bincode::serialize(x).map_err(|e| e.to_string());
    one(c, "bincode", text && !tagged, r.and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())));
}
macro_rules! each {
    ($ty:expr, $f:ident($($a:expr),*)) => {
        match $ty {
            Ty::Bytes => $f::<Bytes<'static>>($($a),*), Ty::NoNul => $f::<NoNul<'static>>($($a),*),
            Ty::Line => $f::<Line<'static>>($($a),*), Ty::Word => $f::<Word<'static>>($($a),*),
            Ty::Arg => $f::<Arg<'static>>($($a),*), Ty::Key => $f::<Key<'static>>($($a),*),
            Ty::Target => $f::<Target<'static>>($($a),*), Ty::Nick => $f::<Nick<'static>>($($a),*),
            Ty::User => $f::<User<'static>>($($a),*), Ty::Cmd => $f::<Cmd<'static>>($($a),*),
        }
    };
}
fn is_text(v: &[u8]) -> bool {
    std::str::from_utf8(v).is_ok()
}
fn value_of(r: &mut Rng, ty: Ty) -> Vec<u8> {
    let mut v = match r.below(3) {
        0 => gen::filtered(r, 30, |b| ty.bad(b)),
        1 => gen::text(r, 20).into_bytes(),
        _ => gen::bytes(r, 20),
    };
    if ty == Ty::Cmd {
        v = gen::cmd(r);
    }
    v.retain(|b| !ty.bad(*b));
    while ty.nonempty() && v.first() == Some(&b':') {
        v.remove(0);
    }
    if ty.nonempty() && v.is_empty() {
        v.push(b'Q');
    }
    v
}
fn strings(c: &mut Case) {
    let ty = c.rng.pickv(&TYS);
    let v = value_of(&mut c.rng, ty);
    c.desc = format!("{ty:?} {}", show(&v));
    each!(ty, string_rt(c, &v));
    c.seen(&(ty, &v));
    c.sample(|| format!("{ty:?} {}", show(&v)));
}
fn string_rt<T>(c: &mut Case, v: &[u8])
where
    T: Serialize + DeserializeOwned + TryFrom<Vec<u8>> + PartialEq + std::fmt::Debug + AsRef<[u8]>,
{
    let Ok(x) = T::try_from(v.to_vec()) else {
        c.fail("constructor", show(v));
        return;
    };
    rt(c, &x, is_text(v), false, &|y: &T| {
        if y.as_ref() == v && *y == x {
            Ok(())
        } else {
            Err(format!("{} came back as {}", show(v), show(y.as_ref())))
        }
    });
}
/// Any document for any string type.
fn doc_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 9 } else { 12 }) {
        0 => Value::Null,
        1 => json!(r.coin()),
        2 => json!(r.next() as i64 >> r.below(60)),
        3 => json!(r.below(2000)),
        4 => json!((r.next() as f64) / 3.0),
        5..=8 => {
            let v = match r.below(3) {
                0 => gen::text(r, 12).into_bytes(),
                1 => {
                    let ty = r.pickv(&TYS);
                    value_of(r, ty)
                }
                _ => gen::bytes(r, 6),
            };
            json!(String::from_utf8_lossy(&v))
        }
        9 | 10 => Value::Array((0..r.below(4)).map(|_| doc_value(r, depth - 1)).collect()),
        _ => {
            let keys = ["nick", "userhost", "user", "host", "tags", "source", "kind", "cmd", "args", "a", "b=c", "", "pass", "nicks"];
            Value::Object((0..r.below(4)).map(|_| (r.pick(&keys).to_string(), doc_value(r, depth - 1))).collect())
        }
    }
}
fn string_docs(c: &mut Case) {
    let ty = c.rng.pickv(&TYS);
    let d = doc_value(&mut c.rng, 2);
    c.desc = format!("{ty:?} from {d}");
    each!(ty, string_doc(c, ty, &d));
    c.seen(&(ty, d.to_string()));
}
fn string_doc<T>(c: &mut Case, ty: Ty, d: &Value)
where
    T: DeserializeOwned + AsRef<[u8]>,
{
    let mut cb = vec![];
    let _ = ciborium::into_writer(d, &mut cb);
    let rs: [(&str, Option<T>); 4] = [
        ("json", serde_json::from_str(&d.to_string()).ok()),
        ("json-value", serde_json::from_value(d.clone()).ok()),
        ("json-reader", serde_json::from_reader(d.to_string().as_bytes()).ok()),
        ("cbor", ciborium::from_reader(&cb[..]).ok()),
    ];
    for (how, r) in rs {
        if let Some(x) = &r {
            ck!(c, ty.ok(x.as_ref()), "invalid-value", "{how} produced {}", show(x.as_ref()));
        }
        if let Some(s) = d.as_str() {
            let want = ty.ok(s.as_bytes());
            ck!(c, r.is_some() == want, "document-verdict", "{how}: accepted={}, rule says {want}", r.is_some());
            if let Some(x) = &r {
                ck!(c, x.as_ref() == s.as_bytes(), "document-value", "{how} produced {}", show(x.as_ref()));
            }
            c.ev(if want { "documents-accepted" } else { "documents-refused" });
        }
    }
    // Raw binary: any length-prefixed bytes.
    let raw = gen::bytes(&mut c.rng, 10);
    let mut b = (raw.len() as u64).to_le_bytes().to_vec();
    b.extend_from_slice(&raw);
    if let Ok(x) = bincode::deserialize::<T>(&b) {
        ck!(c, ty.ok(x.as_ref()) && x.as_ref() == raw, "invalid-value", "bincode of {} produced {}", show(&raw), show(x.as_ref()));
        c.ev("binary-accepted");
    } else {
        ck!(c, !(ty.ok(&raw) && is_text(&raw)), "document-verdict", "bincode refused {}", show(&raw));
    }
    let mut cb = vec![];
    let _ = ciborium::into_writer(&ciborium::Value::Bytes(raw.clone()), &mut cb);
    if let Ok(x) = ciborium::from_reader::<T, _>(&cb[..]) {
        ck!(c, ty.ok(x.as_ref()) && x.as_ref() == raw, "invalid-value", "cbor bytes {} produced {}", show(&raw), show(x.as_ref()));
    }
}
/// Every form in which a format may hand over a string or something else.
fn forms(c: &mut Case) {
    let ty = c.rng.pickv(&TYS);
    let v = match c.rng.below(3) {
        0 => value_of(&mut c.rng, ty),
        1 => gen::bytes(&mut c.rng, 8),
        _ => {
            let mut v = value_of(&mut c.rng, ty);
            let at = c.rng.below(v.len() + 1);
            v.insert(at, c.rng.pickv(b"\0\r\n :;=!@\xff\t"));
            v
        }
    };
    c.desc = format!("{ty:?} from {}", show(&v));
    each!(ty, form(c, ty, &v));
    c.seen(&(ty, v));
}
fn form<T>(c: &mut Case, ty: Ty, v: &[u8])
where
    T: DeserializeOwned + AsRef<[u8]>,
{
    use serde::de::value::*;
    use serde::de::IntoDeserializer;
    type E = serde::de::value::Error;
    let want = ty.ok(v);
    // Bytes: the same or an error.
    let d: BytesDeserializer<'_, E> = v.into_deserializer();
    let mut rs = vec![("bytes", T::deserialize(d).ok(), false), ("borrowed-bytes", T::deserialize(BorrowedBytesDeserializer::<E>::new(v)).ok(), false)];
    rs.push(("byte-sequence", T::deserialize(SeqDeserializer::<_, E>::new(v.iter().copied())).ok(), false));
    struct Buf(Vec<u8>);
    impl<'de> serde::Deserializer<'de> for Buf {
        type Error = E;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
            vis.visit_byte_buf(self.0)
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    rs.push(("byte-buffer", T::deserialize(Buf(v.to_vec())).ok(), false));
    if let Ok(s) = std::str::from_utf8(v) {
        let d: StrDeserializer<'_, E> = s.into_deserializer();
        rs.push(("str", T::deserialize(d).ok(), true));
        rs.push(("borrowed-str", T::deserialize(BorrowedStrDeserializer::<E>::new(s)).ok(), true));
        let d: StringDeserializer<E> = s.to_owned().into_deserializer();
        rs.push(("string", T::deserialize(d).ok(), true));
        let d: CowStrDeserializer<'_, E> = std::borrow::Cow::Borrowed(s).into_deserializer();
        rs.push(("cow", T::deserialize(d).ok(), true));
        if let Some(ch) = s.chars().next().filter(|ch| ch.len_utf8() == s.len()) {
            let d: CharDeserializer<E> = ch.into_deserializer();
            rs.push(("char", T::deserialize(d).ok(), true));
        }
    }
    for (how, r, must) in rs {
        match r {
            Some(x) => {
                ck!(c, ty.ok(x.as_ref()), "invalid-value", "{how} produced {}", show(x.as_ref()));
                ck!(c, x.as_ref() == v, "document-value", "{how} produced {}", show(x.as_ref()));
                c.ev("forms-accepted");
            }
            None => {
                ck!(c, !(must && want), "document-verdict", "{how} refused");
                c.ev("forms-refused");
            }
        }
    }
    // What is not a string at all.
    let i = c.rng.next() as i64 >> c.rng.below(63);
    let (u, b) = (i as u64, i & 1 == 0);
    let d: BoolDeserializer<E> = b.into_deserializer();
    let n: UnitDeserializer<E> = ().into_deserializer();
    let i: I64Deserializer<E> = i.into_deserializer();
    let u: U64Deserializer<E> = u.into_deserializer();
    for (how, x) in [("bool", T::deserialize(d).ok()), ("unit", T::deserialize(n).ok()), ("i64", T::deserialize(i).ok()), ("u64", T::deserialize(u).ok())] {
        if let Some(x) = x {
            ck!(c, ty.ok(x.as_ref()), "invalid-value", "{how} produced {}", show(x.as_ref()));
        }
    }
}
fn numerics(c: &mut Case) {
    let k = c.idx as u16;
    let n = Numeric::from_int(k);
    ck!(c, n.is_some() == (k < 1000), "from_int", "{k}");
    let t: Option<Numeric> = Numeric::try_from(k).ok();
    ck!(c, t == n, "try_from", "{k}: {t:?} {n:?}");
    let mut cb = vec![];
    let _ = ciborium::into_writer(&k, &mut cb);
    let docs: [(&str, Option<Numeric>); 4] = [
        ("json", serde_json::from_str(&k.to_string()).ok()),
        ("json-value", serde_json::from_value(json!(k)).ok()),
        ("bincode", bincode::deserialize(&k.to_le_bytes()).ok()),
        ("cbor", ciborium::from_reader(&cb[..]).ok()),
    ];
    for (how, d) in docs {
        ck!(c, d == n, "numeric-document", "{how} {k}: {d:?} expected {n:?}");
        if let Some(d) = d {
            ck!(c, d.as_str() == format!("{k:03}") && d.into_int() == k, "numeric-value", "{how} {k}: {}", d.as_str());
        }
    }
    for d in [json!(k as i64 + 65536), json!(-(k as i64) - 1), json!(k as f64 + 0.5), json!(format!("{k:03}")), json!([k])] {
        if let Ok(n) = serde_json::from_value::<Numeric>(d.clone()) {
            ck!(c, d == json!(format!("{k:03}")) && n.into_int() == k, "numeric-document", "{d} gave {n:?}");
        }
    }
    if let Some(n) = n {
        rt(c, &n, true, false, &|y| if *y == n { Ok(()) } else { Err(format!("{n:?} came back as {y:?}")) });
        let kind = ServerMsgKindRaw::Numeric(n);
        rt(c, &kind, true, true, &|y| if *y == kind { Ok(()) } else { Err(format!("{kind:?} came back as {y:?}")) });
    }
    c.ev("numerics");
    c.seen(&k);
}
fn txt(m: &RMsg) -> bool {
    m.tags.iter().all(|(k, v)| is_text(k) && is_text(v)) && m.args.iter().all(|a| is_text(a)) && m.source.as_ref().map(|s| is_text(&s.nick) && s.user.as_deref().map(is_text).unwrap_or(true) && s.host.as_deref().map(is_text).unwrap_or(true)).unwrap_or(true)
}
/// Makes most messages text, so that most must survive.
fn textify(m: &mut RMsg) {
    let f = |v: &mut Vec<u8>| {
        for b in v.iter_mut() {
            if *b >= 0x80 {
                *b = b'a' + *b % 26;
            }
        }
    };
    m.tags = std::mem::take(&mut m.tags)
        .into_iter()
        .map(|(mut k, mut v)| {
            f(&mut k);
            f(&mut v);
            (k, v)
        })
        .collect();
    m.args.iter_mut().for_each(f);
    if let Some(s) = &mut m.source {
        f(&mut s.nick);
        s.user.iter_mut().for_each(f);
        s.host.iter_mut().for_each(f);
    }
}
fn cmp<T: PartialEq + std::fmt::Debug>(a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{a:?} expected {b:?}"))
    }
}
fn messages(c: &mut Case) {
    let mut m = gen::msg(&mut c.rng, true);
    if c.rng.chance(2, 3) {
        textify(&mut m);
    }
    c.desc = show(&gen::wire(&m));
    let text = txt(&m);
    let lib = gen::lib_server(&mut c.rng, &m).owning();
    rt(c, &lib, text, true, &|y: &ServerMsg<'static>| {
        cmp(gen::of_server(y), m.clone())?;
        if *y == lib {
            Ok(())
        } else {
            Err("not equal to the original".into())
        }
    });
    rt(c, &lib.tags, text, false, &|y: &Tags<'static>| cmp(gen::of_tags(y), m.tags.clone()).and_then(|_| cmp(y == &lib.tags, true)));
    rt(c, &lib.args, text, false, &|y: &Args<'static>| cmp(gen::of_args(y), m.args.clone()).and_then(|_| cmp(y == &lib.args, true)));
    if let Some(s) = &lib.source {
        let src: Source<'static> = (**s).clone();
        rt(c, &src, text, false, &|y: &Source<'static>| cmp(gen::of_source(y), m.source.clone().unwrap()).and_then(|_| cmp(y == &src, true)));
        rt(c, s, text, false, &|y: &SharedSource<'static>| cmp(gen::of_source(y), m.source.clone().unwrap()));
    }
    let mut mc = m.clone();
    mc.source = None;
    if !mc.kind.iter().all(u8::is_ascii_uppercase) {
        mc.kind = b"X".to_vec();
    }
    let cl = gen::lib_client(&mut c.rng, &mc).owning();
    rt(c, &cl, text, false, &|y: &ClientMsg<'static>| cmp(gen::of_client(y), mc.clone()).and_then(|_| cmp(y == &cl, true)));
    c.ev(if text { "text-messages" } else { "binary-messages" });
    c.seen(&gen::wire(&m));
}
fn mutate(r: &mut Rng, v: &mut Value, depth: usize) {
    match v {
        Value::Array(a) if !a.is_empty() && r.chance(3, 4) && depth < 5 => {
            let i = r.below(a.len());
            if r.chance(1, 5) {
                a.remove(i);
            } else if r.chance(1, 5) {
                let d = doc_value(r, 1);
                a.insert(i, d);
            } else {
                mutate(r, &mut a[i], depth + 1);
            }
        }
        Value::Object(o) if !o.is_empty() && r.chance(4, 5) && depth < 5 => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = r.pickv(&keys);
            if r.chance(1, 6) {
                o.remove(&k);
            } else if r.chance(1, 6) {
                let nk = gen::text(r, 4);
                let x = o.remove(&k).unwrap();
                o.insert(nk, x);
            } else {
                mutate(r, o.get_mut(&k).unwrap(), depth + 1);
            }
        }
        Value::String(s) if r.coin() => {
            let at = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect::<Vec<_>>();
            let i = r.pickv(&at);
            s.insert(i, r.pickv(&['\0', '\r', '\n', ' ', ':', '=', ';', ',', '!', '@', '%', 'x', '\u{e9}']));
        }
        v => *v = doc_value(r, 2),
    }
}
/// What a message holds must satisfy every rule, whatever document it came from.
fn valid(m: &RMsg) -> Result<(), String> {
    for (k, v) in &m.tags {
        if !Ty::Key.ok(k) || !Ty::NoNul.ok(v) {
            return Err(format!("tag {}={}", show(k), show(v)));
        }
    }
    if let Some(s) = &m.source {
        let ok = Ty::Nick.ok(&s.nick) && s.user.as_ref().map(|u| Ty::User.ok(u)).unwrap_or(true) && s.host.as_ref().map(|u| Ty::Word.ok(u)).unwrap_or(true);
        if !ok {
            return Err(format!("source {s:?}"));
        }
    }
    if !Ty::Cmd.ok(&m.kind) && !(m.kind.len() == 3 && m.kind.iter().all(u8::is_ascii_digit)) {
        return Err(format!("kind {}", show(&m.kind)));
    }
    if let Some((l, w)) = m.args.split_last() {
        if !Ty::Line.ok(l) || w.iter().any(|w| !Ty::Arg.ok(w)) {
            return Err(format!("args {:?}", m.args.iter().map(|a| show(a)).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
fn message_docs(c: &mut Case) {
    let mut m = gen::msg(&mut c.rng, true);
    textify(&mut m);
    let lib = gen::lib_server(&mut c.rng, &m);
    let Ok(mut d) = serde_json::to_value(&lib) else { return };
    for _ in 0..c.rng.range(1, 4) {
        mutate(&mut c.rng, &mut d, 0);
    }
    c.desc = d.to_string();
    let mut cb = vec![];
    let _ = ciborium::into_writer(&d, &mut cb);
    let rs: [Option<ServerMsg<'static>>; 3] = [serde_json::from_value(d.clone()).ok(), serde_json::from_str(&d.to_string()).ok(), ciborium::from_reader(&cb[..]).ok()];
    for x in rs.into_iter().flatten() {
        let got = gen::of_server(&x);
        if let Err(e) = valid(&got) {
            c.fail("invalid-message", e);
        }
        let mut w = vec![];
        let _ = ServerCodec::write_to(&x, &mut w);
        ck!(c, !w.iter().any(|b| matches!(b, 0 | b'\r' | b'\n')), "not-one-line", "{}", show(&w));
        c.ev("message-documents-accepted");
        c.seen(&w);
    }
    let d2 = {
        let mut o = d.as_object().cloned().unwrap_or_default();
        let k = o.remove("kind").unwrap_or(json!("X"));
        o.insert("cmd".into(), k);
        Value::Object(o)
    };
    if let Ok(x) = serde_json::from_value::<ClientMsg<'static>>(d2) {
        let got = gen::of_client(&x);
        if let Err(e) = valid(&got) {
            c.fail("invalid-message", e);
        }
        c.ev("message-documents-accepted");
    }
    c.ev("message-documents");
}
/// Argument and tag documents with an exact verdict.
fn part_docs(c: &mut Case) {
    let n = c.rng.below(5);
    let strs: Vec<String> = (0..n)
        .map(|_| {
            let ty = c.rng.pickv(&[Ty::Arg, Ty::Arg, Ty::Arg, Ty::Word, Ty::Line, Ty::NoNul, Ty::Key]);
            String::from_utf8_lossy(&value_of(&mut c.rng, ty)).into_owned()
        })
        .collect();
    let d = json!(strs);
    c.desc = d.to_string();
    let want = match strs.split_last() {
        None => true,
        Some((l, w)) => Ty::Line.ok(l.as_bytes()) && w.iter().all(|w| Ty::Arg.ok(w.as_bytes())),
    };
    for r in [serde_json::from_value::<Args<'static>>(d.clone()).ok(), bincode::deserialize(&bincode::serialize(&strs).unwrap()).ok()] {
        ck!(c, r.is_some() == want, "args-document", "accepted={}", r.is_some());
        if let Some(a) = r {
            ckeq!(c, gen::of_args(&a), strs.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>(), "args-value", "");
            let mut m = ClientMsg::new_cmd(Cmd::from_str("X"));
            m.args = a.clone();
            let mut w = vec![];
            let _ = ClientCodec::write_to(&m, &mut w);
            let back = ClientMsg::parse(w.clone());
            ck!(c, back.as_ref().map(|b| gen::of_args(&b.args) == gen::of_args(&a)).unwrap_or(false), "args-write", "{} read back as {back:?}", show(&w));
            c.ev("arg-documents");
        }
    }
    // Tags, duplicates included: raw text.
    let mut text = String::from("{");
    let mut model = std::collections::BTreeMap::new();
    let mut ok = true;
    for i in 0..c.rng.below(7) {
        let ty = c.rng.pickv(&[Ty::Key, Ty::Key, Ty::Key, Ty::Key, Ty::Key, Ty::Key, Ty::Arg]);
        let k = if c.rng.coin() { c.rng.pick(&["a", "b", "+c/d", "zz", "b"]).to_string() } else { String::from_utf8_lossy(&value_of(&mut c.rng, ty)).into_owned() };
        let ty = c.rng.pickv(&[Ty::NoNul, Ty::NoNul, Ty::NoNul, Ty::NoNul, Ty::NoNul, Ty::Bytes]);
        let v = String::from_utf8_lossy(&value_of(&mut c.rng, ty)).into_owned();
        ok &= Ty::Key.ok(k.as_bytes()) && Ty::NoNul.ok(v.as_bytes());
        text += &format!("{}{}:{}", if i > 0 { "," } else { "" }, json!(k), json!(v));
        model.insert(k.into_bytes(), v.into_bytes());
    }
    text += "}";
    c.desc = text.clone();
    let r = serde_json::from_str::<Tags<'static>>(&text).ok();
    ck!(c, r.is_some() == ok, "tags-document", "accepted={}", r.is_some());
    if let Some(t) = r {
        match gen::tags_vec(&t) {
            Ok(v) => ckeq!(c, v, model.into_iter().collect::<Vec<_>>(), "tags-value", ""),
            Err(e) => c.fail("tags-inconsistent", e),
        }
        c.ev("tag-documents");
    }
    // Sources.
    let nick = String::from_utf8_lossy(&value_of(&mut c.rng, Ty::Arg)).into_owned();
    let user = c.rng.coin().then(|| String::from_utf8_lossy(&value_of(&mut c.rng, Ty::Arg)).into_owned());
    let host = c.rng.coin().then(|| String::from_utf8_lossy(&value_of(&mut c.rng, Ty::Line)).into_owned());
    let d = json!({"nick": nick, "userhost": host.as_ref().map(|h| json!({"user": user, "host": h}))});
    let want = Ty::Nick.ok(nick.as_bytes()) && host.as_ref().map(|h| Ty::Word.ok(h.as_bytes()) && user.as_ref().map(|u| Ty::User.ok(u.as_bytes())).unwrap_or(true)).unwrap_or(true);
    c.desc = d.to_string();
    let r = serde_json::from_value::<Source<'static>>(d).ok();
    ck!(c, r.is_some() == want, "source-document", "accepted={}", r.is_some());
    if r.is_some() {
        c.ev("source-documents");
    }
    c.seen(&text);
}
fn options(c: &mut Case) {
    let pass = c.rng.chance(2, 3).then(|| {
        let ty = c.rng.pickv(&[Ty::Line, Ty::Line, Ty::Bytes]);
        value_of(&mut c.rng, ty)
    });
    let strs = |c: &mut Case, ty: Ty, other: Ty| {
        let t = if c.rng.chance(1, 12) { other } else { ty };
        String::from_utf8_lossy(&value_of(&mut c.rng, t)).into_owned()
    };
    let nicks: Vec<String> = (0..c.rng.below(4)).map(|_| strs(c, Ty::Nick, Ty::Line)).collect();
    let username = c.rng.coin().then(|| strs(c, Ty::User, Ty::Line));
    let realname = c.rng.coin().then(|| strs(c, Ty::Line, Ty::NoNul));
    let caps: Vec<String> = (0..c.rng.below(4)).map(|_| strs(c, Ty::Key, Ty::Arg)).collect();
    let allow = c.rng.coin();
    let pw = value_of(&mut c.rng, Ty::NoNul);
    let authcid = strs(c, Ty::NoNul, Ty::Bytes);
    let sasl: Vec<Value> = (0..c.rng.below(3))
        .map(|_| {
            if c.rng.coin() {
                json!({"External": authcid})
            } else {
                json!({"Password": {"authcid": authcid, "passwd": String::from_utf8(b64(&pw)).unwrap()}})
            }
        })
        .collect();
    let mut o = serde_json::Map::new();
    let put = |c: &mut Case, o: &mut serde_json::Map<String, Value>, k: &str, v: Value| {
        if v.as_array().map(|a| !a.is_empty()).unwrap_or(!v.is_null()) || c.rng.coin() {
            o.insert(k.into(), v);
        }
    };
    put(c, &mut o, "pass", pass.as_ref().map(|p| json!(String::from_utf8(b64(p)).unwrap())).unwrap_or(Value::Null));
    put(c, &mut o, "nicks", json!(nicks));
    put(c, &mut o, "username", json!(username));
    put(c, &mut o, "realname", json!(realname));
    put(c, &mut o, "caps", json!(caps));
    put(c, &mut o, "sasl", json!(sasl));
    o.insert("allow_sasl_fail".into(), json!(allow));
    let d = Value::Object(o);
    c.desc = d.to_string();
    let want = pass.as_ref().map(|p| Ty::Line.ok(p)).unwrap_or(true)
        && nicks.iter().all(|n| Ty::Nick.ok(n.as_bytes()))
        && username.as_ref().map(|u| Ty::User.ok(u.as_bytes())).unwrap_or(true)
        && realname.as_ref().map(|u| Ty::Line.ok(u.as_bytes())).unwrap_or(true)
        && caps.iter().all(|n| Ty::Key.ok(n.as_bytes()))
        && (sasl.is_empty() || Ty::NoNul.ok(authcid.as_bytes()));
    let mut cb = vec![];
    let _ = ciborium::into_writer(&d, &mut cb);
    for r in [serde_json::from_str::<Options<Clear>>(&d.to_string()).ok(), ciborium::from_reader::<Options<Clear>, _>(&cb[..]).ok()] {
        ck!(c, r.is_some() == want, "options-document", "accepted={}", r.is_some());
        let Some(x) = r else { continue };
        let p = x.pass.clone().map(Secret::into_inner);
        ck!(c, p.as_ref().map(|p| p.as_bytes().to_vec()) == pass, "options-pass", "");
        ck!(c, p.map(|p| p.is_secret() || p.is_empty()).unwrap_or(true), "options-pass-secret", "");
        ck!(c, x.nicks.iter().map(|n| n.as_bytes()).eq(nicks.iter().map(|n| n.as_bytes())), "options-nicks", "{:?}", x.nicks);
        ck!(c, x.username.as_ref().map(|n| n.as_bytes()) == username.as_ref().map(|n| n.as_bytes()), "options-username", "{:?}", x.username);
        ck!(c, x.realname.as_ref().map(|n| n.as_bytes()) == realname.as_ref().map(|n| n.as_bytes()), "options-realname", "{:?}", x.realname);
        let cs: std::collections::BTreeSet<&[u8]> = caps.iter().map(|s| s.as_bytes()).collect();
        ck!(c, x.caps.iter().map(|n| n.as_bytes()).collect::<std::collections::BTreeSet<_>>() == cs && x.caps.len() == cs.len(), "options-caps", "{:?}", x.caps);
        ck!(c, x.allow_sasl_fail == allow, "options-allow", "");
        ck!(c, x.sasl.len() == sasl.len(), "options-sasl", "");
        for (a, w) in x.sasl.iter().zip(&sasl) {
            match a {
                AnySasl::External(e) => ck!(c, w.get("External").is_some() && e.0.as_bytes() == authcid.as_bytes(), "options-external", ""),
                AnySasl::Password(p) => ck!(
                    c,
                    w.get("Password").is_some() && p.authcid.as_bytes() == authcid.as_bytes() && p.passwd.as_bytes() == pw && p.authzid.is_empty() && (p.passwd.is_secret() || pw.is_empty()),
                    "options-password",
                    ""
                ),
                _ => (),
            }
        }
        let (q, req) = x.auths();
        ck!(c, q.len() == sasl.len() && req == (!sasl.is_empty() && !allow), "options-auths", "{} {req}", q.len());
        c.ev("options");
    }
    c.seen(&d.to_string());
}
fn addrs(c: &mut Case) {
    let ty = c.rng.pickv(&[Ty::Word, Ty::Arg]);
    let mut v = value_of(&mut c.rng, ty);
    if c.rng.coin() {
        v = String::from_utf8_lossy(&v).into_owned().into_bytes();
    }
    let a = ServerAddr { address: Word::from_bytes(v.clone()).unwrap(), tls: c.rng.coin(), port: if c.rng.coin() { Some(c.rng.next() as u16) } else { c.rng.pickv(&[None, Some(6697), Some(6667), Some(0)]) } };
    c.desc = format!("{a:?}");
    rt(c, &a, is_text(&v), false, &|y: &ServerAddr<'static>| {
        if y.address == a.address && y.tls == a.tls && y.port == a.port && *y == a && y.port_num() == a.port_num() {
            Ok(())
        } else {
            Err(format!("{a:?} came back as {y:?}"))
        }
    });
    ckeq!(c, a.port_num(), a.port.unwrap_or(if a.tls { 6697 } else { 6667 }), "port_num", "");
    c.ev("addrs");
    c.seen(&(v, a.tls, a.port));
}
pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run_all("numerics", 65536, numerics);
    ctx.run("strings", 4000, 40_000, strings);
    ctx.run("forms", 6000, 100_000, forms);
    ctx.run("string-docs", 6000, 60_000, string_docs);
    ctx.run("messages", 2000, 20_000, messages);
    ctx.run("message-docs", 4000, 40_000, message_docs);
    ctx.run("part-docs", 4000, 40_000, part_docs);
    ctx.run("options", 2000, 20_000, options);
    ctx.run("addrs", 1000, 10_000, addrs);
    for (k, n) in [("numerics", 65536), ("json", 4000), ("cbor", 4000), ("bincode", 4000), ("documents-accepted", 1000), ("documents-refused", 1000), ("message-documents-accepted", 300), ("arg-documents", 500), ("tag-documents", 500), ("source-documents", 300), ("options", 500), ("text-messages", 300), ("binary-messages", 200)] {
        ctx.require(k, n);
    }
}
