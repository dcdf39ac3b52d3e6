//! Case mapping and trimming against tables written from their definitions.
use crate::gen;
use crate::infra::*;
use crate::strm::*;
use vinezombie::string::tf::*;
use vinezombie::string::*;

fn map(k: usize, b: &mut Bytes) {
    match k {
        0 => b.transform(AsciiCasemap::<true>),
        1 => b.transform(AsciiCasemap::<false>),
        2 => b.transform(IrcCasemap::Ascii),
        3 => b.transform(IrcCasemap::Rfc1459Strict),
        _ => b.transform(IrcCasemap::Rfc1459),
    }
}
const NAMES: [&str; 5] = ["ascii-upper", "ascii-lower", "ascii", "rfc1459-strict", "rfc1459"];
const SIDES: [StringSide; 4] = [StringSide::Start, StringSide::End, StringSide::StartFirst, StringSide::EndFirst];

/// Every byte value, alone and inside every small context.
fn all_bytes(c: &mut Case) {
    let b = c.idx as u8;
    for k in 0..5 {
        for ctx in [&b""[..], b"a", b"A", b"[", b"~", b"^", b"\xc3\x9f", b"zZ{"] {
            for side in 0..3 {
                let v = match side {
                    0 => [ctx, &[b]].concat(),
                    1 => [&[b], ctx].concat(),
                    _ => [ctx, &[b], ctx].concat(),
                };
                let mut s = Bytes::from_bytes(&v[..]);
                map(k, &mut s);
                let want: Vec<u8> = v.iter().map(|b| ref_casemap(k, *b)).collect();
                ck!(c, s.as_bytes() == want, NAMES[k], "{} gave {} expected {}", show(&v), show(&s), show(&want));
                c.ev("mapped");
            }
        }
        c.seen(&(k, b));
    }
    for side in SIDES {
        for v in [vec![b], vec![b, b'x', b], vec![b' ', b, b'x', b, b' '], vec![b'x', b, b'x'], vec![b, b' ', b], vec![b' ', b' ', b, b]] {
            let mut s = Bytes::from_bytes(&v[..]);
            s.transform(TrimAscii(side));
            ck!(c, s.as_bytes() == ref_trim(side, &v), "trim", "{side:?} of {} gave {}", show(&v), show(&s));
            c.ev("trimmed");
        }
    }
}
fn strings(c: &mut Case) {
    let v = match c.rng.below(4) {
        0 => gen::bytes(&mut c.rng, 40),
        1 => gen::text(&mut c.rng, 30).into_bytes(),
        2 => {
            // Mostly the bytes the mappings differ on.
            let n = c.rng.below(20);
            (0..n).map(|_| c.rng.pickv(b"[]\\{}|~^aAzZ@`_\x7f\xdb\xfb5")).collect()
        }
        _ => {
            let ws = b" \t\r\n\x0c\x0b\x00\x85\xa0x";
            let (a, n, z) = (c.rng.below(5), c.rng.below(8), c.rng.below(5));
            let mut v: Vec<u8> = (0..a).map(|_| c.rng.pickv(ws)).collect();
            v.extend(gen::bytes(&mut c.rng, n + 1));
            v.extend((0..z).map(|_| c.rng.pickv(ws)));
            v
        }
    };
    c.desc = show(&v);
    let base = gen::mk_bytes(&mut c.rng, &v);
    let other = base.clone();
    let utf8_before = c.rng.coin() && base.to_utf8().is_some();
    for k in 0..5 {
        let mut s = base.clone();
        map(k, &mut s);
        let want: Vec<u8> = v.iter().map(|b| ref_casemap(k, *b)).collect();
        ck!(c, s.as_bytes() == want, NAMES[k], "gave {} expected {}", show(&s), show(&want));
        ck!(c, s.to_utf8().is_some() == std::str::from_utf8(&v).is_ok(), "utf8", "{}: {}", NAMES[k], show(&s));
        let mut t = s.clone();
        map(k, &mut t);
        ck!(c, t == s, "not-idempotent", "{}: {} then {}", NAMES[k], show(&s), show(&t));
        ck!(c, base.as_bytes() == v && other.as_bytes() == v, "other-handle-changed", "{}", NAMES[k]);
        c.ev("mapped");
        c.seen(&(k, &v, utf8_before));
    }
    for side in SIDES {
        let mut s = base.clone();
        s.transform(TrimAscii(side));
        ck!(c, s.as_bytes() == ref_trim(side, &v), "trim", "{side:?} gave {}", show(&s));
        ck!(c, s.to_utf8().is_some() == std::str::from_utf8(s.as_bytes()).is_ok(), "utf8", "trim: {}", show(&s));
        ck!(c, base.as_bytes() == v && other.as_bytes() == v, "other-handle-changed", "trim {side:?}");
        c.ev("trimmed");
    }
    // Typed strings: the mapping of a sole owner may happen in place and still must be right.
    if Ty::Nick.ok(&v) {
        let mut n = Nick::from_bytes(v.clone()).unwrap();
        let k = c.rng.pickv(&[IrcCasemap::Ascii, IrcCasemap::Rfc1459Strict, IrcCasemap::Rfc1459]);
        n.transform(k);
        let i = match k {
            IrcCasemap::Ascii => 2,
            IrcCasemap::Rfc1459Strict => 3,
            _ => 4,
        };
        let want: Vec<u8> = v.iter().map(|b| ref_casemap(i, *b)).collect();
        ck!(c, n.as_bytes() == want, "nick", "{k:?} gave {}", show(&n));
        c.ev("nicks");
    }
    c.sample(|| show(&v));
}
/// Two names are equal after mapping exactly when they are the same name.
fn pairs(c: &mut Case) {
    let al = b"aA[{\\|]}~^_5\xe9\xc9";
    let n = c.rng.range(1, 4);
    let a: Vec<u8> = (0..n).map(|_| c.rng.pickv(al)).collect();
    let mut b = a.clone();
    for x in b.iter_mut() {
        if c.rng.coin() {
            // A related byte: the other case under some mapping.
            *x = match *x {
                b'a'..=b'z' | b'A'..=b'Z' | b'[' | b'{' | b'\\' | b'|' | b']' | b'}' | b'~' | b'^' => *x ^ 32,
                y => y,
            };
            if c.rng.chance(1, 5) {
                *x = c.rng.pickv(al);
            }
        }
    }
    c.desc = format!("{} {}", show(&a), show(&b));
    // Equivalence classes from the definitions, as pairs.
    let same = |k: usize, x: u8, y: u8| {
        x == y
            || x.eq_ignore_ascii_case(&y)
            || (k >= 3 && [(b'[', b'{'), (b'\\', b'|'), (b']', b'}')].iter().any(|p| *p == (x, y) || *p == (y, x)))
            || (k == 4 && ((x, y) == (b'~', b'^') || (x, y) == (b'^', b'~')))
    };
    for k in 2..5 {
        let (mut s, mut t) = (Bytes::from_bytes(&a[..]), Bytes::from(b.clone()));
        map(k, &mut s);
        map(k, &mut t);
        let want = a.iter().zip(&b).all(|(x, y)| same(k, *x, *y));
        ck!(c, (s == t) == want, "same-name", "{}: {} {}", NAMES[k], show(&s), show(&t));
        c.ev(if want { "same" } else { "different" });
    }
    c.seen(&(a, b));
}
fn oracle(c: &mut Case, x: &Cell, _how: &str) {
    ck!(c, x.s.raw() == x.m, "contents", "{} expected {}", show(x.s.raw()), show(&x.m));
}
fn names(c: &mut Case) {
    for (n, want) in [(&b"ascii"[..], Some(IrcCasemap::Ascii)), (b"rfc1459", Some(IrcCasemap::Rfc1459)), (b"rfc1459-strict", Some(IrcCasemap::Rfc1459Strict)), (b"rfc3454", None), (b"", None), (b"strict-rfc1459", None)] {
        ckeq!(c, IrcCasemap::from_name(n), want, "from_name", "{}", show(n));
    }
    c.ev("names");
}
pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    ctx.run_all("bytes", 256, all_bytes);
    ctx.run_all("names", 1, names);
    ctx.run("strings", 8000, 80_000, strings);
    ctx.run("pairs", 8000, 80_000, pairs);
    ctx.run("histories", 800, 8000, |c| machine(c, 25, oracle));
    for (k, n) in [("mapped", 20_000), ("trimmed", 6000), ("same", 1000), ("different", 1000), ("nicks", 300), ("transformed", 300)] {
        ctx.require(k, n);
    }
}
