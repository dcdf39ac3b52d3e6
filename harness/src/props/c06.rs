//! Text views are valid UTF-8, equal the bytes, and do not depend on history.
use crate::infra::*;
use crate::strm::*;
use vinezombie::string::*;

fn same(c: &mut Case, got: &str, want: &str, what: &str, m: &[u8]) {
    // Judged on bytes: the view itself might be invalid.
    let g: &[u8] = got.as_bytes();
    if std::str::from_utf8(g).is_err() {
        c.fail(&format!("invalid-utf8:{what}"), format!("{what} of {} holds {}", show(m), show(g)));
    } else if g != want.as_bytes() {
        c.fail(&format!("wrong-text:{what}"), format!("{what} of {} is {} expected {}", show(m), show(g), show(want.as_bytes())));
    }
}
fn oracle(c: &mut Case, x: &Cell<'_>, _at: &str) {
    let b = x.s.as_b();
    let m = &x.m;
    let text = std::str::from_utf8(m).ok();
    match b.is_utf8_lazy() {
        Some(k) => {
            ckeq!(c, k, text.is_some(), "cached-validity", "{}", show(m));
            c.ev(if k { "cached:valid" } else { "cached:invalid" });
        }
        None => c.ev("cached:unknown"),
    }
    // Any order of checks; each fresh clone starts from the cached state.
    for _ in 0..2 {
        let y = x.s.clone();
        let b = y.as_b();
        for k in 0..3 {
            match (c.rng.below(3) + k) % 5 {
                0 | 3 => match (b.to_utf8(), text) {
                    (Some(g), Some(t)) => same(c, g, t, "to_utf8", m),
                    (None, None) => (),
                    (g, _) => c.fail("offered", format!("to_utf8 of {} offered={}", show(m), g.is_some())),
                },
                1 => same(c, &b.to_utf8_lossy(), &String::from_utf8_lossy(m), "to_utf8_lossy", m),
                _ => {
                    if !x.secret && !y.is_secret() {
                        same(c, &y.display(), text.unwrap_or("<?>"), "display", m);
                    }
                }
            }
        }
        if c.rng.chance(1, 4) {
            let l = b.clone().into_utf8_lossy();
            let want = String::from_utf8_lossy(m).into_owned();
            match l.to_utf8() {
                Some(g) => same(c, g, &want, "into_utf8_lossy", m),
                None => c.fail("lossy-not-text", format!("into_utf8_lossy of {} is not offered as text", show(m))),
            }
            let st = b.clone().owning::<'static>().to_utf8_lossy_static();
            same(c, &st, &want, "to_utf8_lossy_static", m);
        }
    }
    c.ev("views-checked");
    if text.is_none() {
        c.ev("views-checked:not-text");
    } else if !m.is_ascii() {
        c.ev("views-checked:multibyte");
    }
}
/// Every range of short multi-byte strings, cut with every splitter operation, before and after a
/// validity check.
fn cuts(c: &mut Case) {
    const T: &[&[u8]] = &[
        "é".as_bytes(), "a€b".as_bytes(), "😀".as_bytes(), "é€😀".as_bytes(), b"a\xffb", b"\xe2\x82", "x é y".as_bytes(), b"\xc3\xa9\xc3", b"a b\xe9 c", "ab".as_bytes(),
    ];
    let n = c.idx as usize;
    let v = T[n % T.len()];
    let n = n / T.len();
    let (i, n) = (n % 12, n / 12);
    let (j, n) = (n % 12, n / 12);
    let how = n;
    if i > v.len() || j > v.len() {
        return;
    }
    c.desc = format!("{} from {i} to {j} how {how}", show(v));
    let b: Bytes = match how % 4 {
        0 => Bytes::from_bytes(v),
        1 => Bytes::from(v.to_vec()),
        2 => match std::str::from_utf8(v) {
            Ok(s) => Bytes::from_str(s),
            Err(_) => return,
        },
        _ => {
            let b = Bytes::from(v.to_vec());
            let _ = b.to_utf8();
            b
        }
    };
    let precheck = how / 4 % 2 == 1;
    let op = how / 8 % 5;
    let mut sp = Splitter::new(b);
    if precheck {
        ckeq!(c, sp.check_encoding().is_ok(), std::str::from_utf8(v).is_ok(), "check_encoding", "");
    }
    let (mut a, mut z) = (0, v.len());
    {
        // Narrow inside a saved session, learn its encoding, then restore.
        let mut g = sp.save(op == 1 || op == 3, op == 2 || op == 3);
        for _ in 0..i {
            g.next_byte();
        }
        if j < i {
            drop(g);
            return;
        }
        match op {
            4 => {
                for _ in j..v.len() {
                    g.rnext_byte();
                }
            }
            _ => {
                g.until_count(j - i);
            }
        }
        let sl = &v[i..j];
        ckeq!(c, g.as_slice(), sl, "view", "");
        ckeq!(c, g.check_encoding().is_ok(), std::str::from_utf8(sl).is_ok(), "check_encoding", "{}", show(sl));
        if let Ok(x) = g.peek_rest::<Bytes>() {
            oracle(c, &Cell { s: x.into(), m: sl.to_vec(), secret: false }, "cut");
        }
        if op != 1 && op != 3 {
            a = i;
        }
        if op != 2 && op != 3 {
            z = j;
        }
    }
    let sl = &v[a..z];
    ckeq!(c, sp.as_slice(), sl, "view", "after restore");
    if sp.is_utf8_lazy() {
        ckeq!(c, std::str::from_utf8(sl).is_ok(), true, "splitter-claims-utf8", "{}", show(sl));
    }
    let x: Bytes = sp.rest_or_default();
    oracle(c, &Cell { s: x.into(), m: sl.to_vec(), secret: false }, "restored");
    c.seen(&c.idx.clone());
}
/// Joins of every two halves of a multi-byte character.
fn joins(c: &mut Case) {
    const P: &[&[u8]] = &[b"", b"a", b"\xe2\x82", b"\xac", b"\xe2", b"\x82\xac", "é".as_bytes(), b"\xff", b"\xc3", b"\xa9", "€".as_bytes()];
    let n = c.idx as usize;
    let (p, q, r) = (P[n % 11], P[n / 11 % 11], P[n / 121 % 11]);
    let how = n / 1331;
    let mk = |v: &'static [u8], k: usize| -> Bytes<'static> {
        match (k, std::str::from_utf8(v)) {
            (0, _) => Bytes::from_bytes(v),
            (1, Ok(s)) => Bytes::from_str(s),
            _ => {
                let b = Bytes::from_bytes(v);
                let _ = b.to_utf8();
                b
            }
        }
    };
    let k = how % 3;
    let mut b = Builder::<Bytes>::new(mk(p, k));
    if how / 3 % 2 == 1 {
        let _ = b.check_utf8();
    }
    match (how / 6 % 3, std::str::from_utf8(q)) {
        (0, _) => b.append(mk(q, k)),
        (1, Ok(s)) => b.try_append_str(s).unwrap(),
        _ => b.try_append(q).unwrap(),
    }
    if how / 18 % 2 == 1 {
        let _ = b.check_utf8();
    }
    for x in r {
        b.try_push(*x).unwrap();
    }
    let m = [p, q, r].concat();
    ckeq!(c, b.clone().check_utf8().is_ok(), std::str::from_utf8(&m).is_ok(), "builder-check", "{}", show(&m));
    let s = b.build();
    oracle(c, &Cell { s: s.into(), m: m.clone(), secret: false }, "joined");
    let d = (m, how);
    c.seen(&d);
}
pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run_all("cuts", 10 * 144 * 40, cuts);
    ctx.run_all("joins", 1331 * 36, joins);
    ctx.run("machine", 3000, 20_000, |c| machine(c, 30, oracle));
    ctx.run("long-machine", 200, 2000, |c| machine(c, 200, oracle));
    for k in ["views-checked:not-text", "views-checked:multibyte", "cached:valid", "cached:invalid", "check_encoding", "saved-range-restored"] {
        ctx.require(k, 500);
    }
}
