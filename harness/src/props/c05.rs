//! String types never hold what their type forbids; checked constructors accept exactly the rest.
use crate::infra::*;
use crate::strm::*;
use vinezombie::string::*;

fn oracle(c: &mut Case, x: &Cell<'_>, at: &str) {
    let raw = x.s.raw();
    ck!(c, x.s.ty().ok(raw), "invariant", "{at}: a {:?} holds {}", x.s.ty(), show(raw));
    ck!(c, raw == x.m.as_slice(), "bytes", "{at}: a {:?} holds {} expected {}", x.s.ty(), show(raw), show(&x.m));
    c.ev("invariant-checked");
}
/// Every string of up to three bytes over a small alphabet that has a representative of every rule.
fn small(c: &mut Case) {
    const AL: &[u8] = b"\0\r\n :;=,!@%aAZ[\x80\xff{\x1f";
    let mut n = c.idx as usize;
    let len = n % 4;
    n /= 4;
    let mut v = Vec::new();
    for _ in 0..len {
        v.push(AL[n % AL.len()]);
        n /= AL.len();
    }
    if n > 0 {
        return;
    }
    c.desc = show(&v);
    for ty in TYS {
        for _ in 0..4 {
            if let Some(s) = construct(c, &v, ty) {
                oracle(c, &Cell { s, m: v.clone(), secret: false }, "constructed");
            }
        }
        // All conversions from this type.
        if ty.ok(&v) {
            for to in TYS {
                if let Some(s) = construct(c, &v, ty) {
                    if let Some(y) = convert(c, Cell { s, m: v.clone(), secret: false }, to) {
                        oracle(c, &y, "converted");
                    }
                }
            }
        }
    }
    c.seen(&v);
}
/// Every byte value in every position of a short string, in every type.
fn bytewise(c: &mut Case) {
    let b = c.idx as u8;
    let pos = (c.idx / 256) as usize;
    let mut v = b"ABCD".to_vec();
    v[pos] = b;
    c.desc = show(&v);
    macro_rules! inv { ($($t:ident),*) => { $( ckeq!(c, $t::is_invalid(&b), Ty::$t.bad(b), "is_invalid", "{} byte {b}", stringify!($t)); )* } }
    inv!(NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd);
    for ty in TYS {
        for _ in 0..3 {
            if let Some(s) = construct(c, &v, ty) {
                oracle(c, &Cell { s, m: v.clone(), secret: false }, "constructed");
            }
        }
        for k in 0..9 + OWN {
            if let Some(s) = construct(c, &v, ty) {
                let mut x = Cell { s, m: v.clone(), secret: false };
                if transform(&mut x, k) {
                    oracle(c, &x, "transformed");
                }
            }
        }
    }
    c.seen(&v);
}
fn generated(c: &mut Case) {
    let id = c.rng.next() as u32;
    for (u, m) in [(User::from_id(id), format!("i{id:08x}")), (User::from_id_short(id as u16), format!("i{:05}", id as u16))] {
        oracle(c, &Cell { s: u.clone().into(), m: m.into_bytes(), secret: false }, "from_id");
        ckeq!(c, u.no_tilde(), true, "tilde", "");
    }
    for n in ["", "~a", "a~", "~"] {
        if let Ok(u) = User::from_bytes(n) {
            ckeq!(c, u.no_tilde(), !n.starts_with('~'), "no_tilde", "{n}");
            ckeq!(c, u.len_with_tilde(), n.len() + !n.starts_with('~') as usize, "len_with_tilde", "{n}");
        }
    }
    let v = crate::gen::key(&mut c.rng, 6);
    let k = Key::from_bytes(v.clone()).unwrap();
    ckeq!(c, k.is_client_tag(), v[0] == b'+', "is_client_tag", "{}", show(&v));
    let nz: Vec<u8> = k.as_bytes_nonzero().iter().map(|b| b.get()).collect();
    ckeq!(c, nz, v, "as_bytes_nonzero", "");
    // Values that come out of the parser and of deserialisers.
    let m = crate::gen::msg(&mut c.rng, true);
    let w = crate::gen::wire(&m);
    if let Ok(p) = vinezombie::ircmsg::ServerMsg::parse(w.clone()) {
        for a in p.args.words() {
            oracle(c, &Cell { s: a.clone().into(), m: a.as_bytes().to_vec(), secret: false }, "parsed arg");
        }
        if let Some(s) = &p.source {
            oracle(c, &Cell { s: s.nick.clone().into(), m: s.nick.as_bytes().to_vec(), secret: false }, "parsed nick");
            if let Some(u) = s.user() {
                oracle(c, &Cell { s: u.clone().into(), m: u.as_bytes().to_vec(), secret: false }, "parsed user");
            }
        }
        let k = p.kind.as_arg();
        oracle(c, &Cell { m: k.as_bytes().to_vec(), s: k.into(), secret: false }, "parsed kind");
    }
    c.seen(&w);
}
pub fn run(ctx: &mut Ctx) {
    crate::gen::heavy_tail();
    let n = 4 * 19u64.pow(3);
    ctx.run_all("small", n, small);
    ctx.run_all("bytewise", 256 * 4, bytewise);
    ctx.run("machine", 3000, 20_000, |c| machine(c, 30, oracle));
    ctx.run("long-machine", 200, 2000, |c| machine(c, 200, oracle));
    ctx.run("generated", 500, 5000, generated);
    for k in ["split", "built", "transformed", "converted", "refused", "constructed", "saved-range-restored"] {
        ctx.require(k, 500);
    }
}
