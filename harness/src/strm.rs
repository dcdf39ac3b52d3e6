//! A machine that runs random sequences of safe string operations on the real types next to a
//! plain byte-vector model. Used by several properties; each passes the oracle it is about.
use crate::gen;
use crate::infra::*;
use vinezombie::string::tf::*;
use vinezombie::error::InvalidString;
use vinezombie::string::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bytes,
    NoNul,
    Line,
    Word,
    Arg,
    Key,
    Target,
    Nick,
    User,
    Cmd,
}
pub const TYS: [Ty; 10] =
    [Ty::Bytes, Ty::NoNul, Ty::Line, Ty::Word, Ty::Arg, Ty::Key, Ty::Target, Ty::Nick, Ty::User, Ty::Cmd];
impl Ty {
    /// Reference rule, from the documentation of each type.
    pub fn bad(self, b: u8) -> bool {
        let line = matches!(b, 0 | b'\r' | b'\n');
        let word = line || b == b' ';
        match self {
            Ty::Bytes => false,
            Ty::NoNul => b == 0,
            Ty::Line => line,
            Ty::Word | Ty::Arg => word,
            Ty::Key => word || b == b'=' || b == b';',
            Ty::Target => word || b == b',',
            Ty::Nick => word || b == b',' || b == b'!' || b == b'@',
            Ty::User => word || b == b'@' || b == b'%',
            Ty::Cmd => !b.is_ascii_uppercase(),
        }
    }
    pub fn nonempty(self) -> bool {
        !matches!(self, Ty::Bytes | Ty::NoNul | Ty::Line | Ty::Word)
    }
    pub fn shape(self, v: &[u8]) -> bool {
        !self.nonempty() || (!v.is_empty() && v[0] != b':')
    }
    pub fn ok(self, v: &[u8]) -> bool {
        self.shape(v) && !v.iter().any(|b| self.bad(*b))
    }
}
macro_rules! svar {
    ($($t:ident),*) => {
        #[derive(Clone, Debug)]
        pub enum S<'a> { $($t($t<'a>)),* }
        impl<'a> S<'a> {
            pub fn ty(&self) -> Ty { match self { $(S::$t(_) => Ty::$t),* } }
            pub fn raw(&self) -> &[u8] { match self { $(S::$t(x) => x.as_bytes()),* } }
            pub fn into_bytes(self) -> Bytes<'a> { match self { S::Bytes(b) => b, $(S::$t(x) => x.into()),* } }
            pub fn owning(self) -> S<'a> { match self { $(S::$t(x) => S::$t(x.owning())),* } }
            pub fn secret(self) -> S<'a> { match self { $(S::$t(x) => S::$t(x.secret())),* } }
            pub fn is_secret(&self) -> bool { match self { $(S::$t(x) => x.is_secret()),* } }
            pub fn is_owning(&self) -> bool { match self { $(S::$t(x) => x.is_owning()),* } }
            pub fn as_b(&self) -> &Bytes<'a> { self.deref_b() }
            pub fn with<T>(&self, f: impl FnOnce(&dyn std::fmt::Display, &dyn std::fmt::Debug) -> T) -> T {
            match self { $(S::$t(x) => f(x, x)),* }
    }
    pub fn display(&self) -> String { match self { $(S::$t(x) => format!("{x}")),* } }
            pub fn debug(&self) -> String { match self { $(S::$t(x) => format!("{x:?}")),* } }
            pub fn into_vec(self) -> Vec<u8> { match self { $(S::$t(x) => Vec::<u8>::from(x)),* } }
            pub fn make_owning(&mut self) { use vinezombie::owning::MakeOwning; match self { $(S::$t(x) => x.make_owning()),* } }
        }
        #[macro_export]
        macro_rules! sm {
            ($s:expr, $x:ident => $e:expr) => { match $s { $( $crate::strm::S::$t($x) => $e ),* } };
        }
        $(impl<'a> From<$t<'a>> for S<'a> { fn from(x: $t<'a>) -> Self { S::$t(x) } })*
    };
}
svar!(Bytes, NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd);
impl<'a> S<'a> {
    fn deref_b(&self) -> &Bytes<'a> {
        match self {
            S::Bytes(b) => b,
            S::NoNul(b) => b,
            S::Line(b) => b,
            S::Word(b) => b,
            S::Arg(b) => b,
            S::Key(b) => b,
            S::Target(b) => b,
            S::Nick(b) => b,
            S::User(b) => b,
            S::Cmd(b) => b,
        }
    }
}
/// Marker so that generic code can name the type tag.
pub trait Tag<'a>: BytesNewtype<'a> + Clone + Into<S<'a>> {
    const TY: Ty;
}
macro_rules! tag { ($($t:ident),*) => { $(impl<'a> Tag<'a> for $t<'a> { const TY: Ty = Ty::$t; })* } }
tag!(Bytes, NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd);

/// Calls `$f::<T>` for the type named by `$ty`.
macro_rules! by_ty {
    ($ty:expr, |$T:ident| $e:expr) => {
        match $ty {
            Ty::Bytes => { type $T<'x> = Bytes<'x>; $e }
            Ty::NoNul => { type $T<'x> = NoNul<'x>; $e }
            Ty::Line => { type $T<'x> = Line<'x>; $e }
            Ty::Word => { type $T<'x> = Word<'x>; $e }
            Ty::Arg => { type $T<'x> = Arg<'x>; $e }
            Ty::Key => { type $T<'x> = Key<'x>; $e }
            Ty::Target => { type $T<'x> = Target<'x>; $e }
            Ty::Nick => { type $T<'x> = Nick<'x>; $e }
            Ty::User => { type $T<'x> = User<'x>; $e }
            Ty::Cmd => { type $T<'x> = Cmd<'x>; $e }
        }
    };
}
/// The same without plain `Bytes`, which has no checked constructors.
macro_rules! by_sub {
    ($ty:expr, |$T:ident| $e:expr, $other:expr) => {
        match $ty {
            Ty::Bytes => $other,
            Ty::NoNul => { type $T<'x> = NoNul<'x>; $e }
            Ty::Line => { type $T<'x> = Line<'x>; $e }
            Ty::Word => { type $T<'x> = Word<'x>; $e }
            Ty::Arg => { type $T<'x> = Arg<'x>; $e }
            Ty::Key => { type $T<'x> = Key<'x>; $e }
            Ty::Target => { type $T<'x> = Target<'x>; $e }
            Ty::Nick => { type $T<'x> = Nick<'x>; $e }
            Ty::User => { type $T<'x> = User<'x>; $e }
            Ty::Cmd => { type $T<'x> = Cmd<'x>; $e }
        }
    };
}

/// A value, what its bytes must be, and whether it must be secret.
#[derive(Clone)]
pub struct Cell<'a> {
    pub s: S<'a>,
    pub m: Vec<u8>,
    pub secret: bool,
}
pub type Oracle = fn(&mut Case, &Cell<'_>, &str);

/// Tries to make a `ty` out of `v` by a randomly chosen way in; the verdict must follow the rule.
pub fn construct<'a>(c: &mut Case, v: &'a [u8], ty: Ty) -> Option<S<'a>> {
    let how = c.rng.below(10);
    let b: Bytes<'a> = gen::mk_bytes(&mut c.rng, v);
    let want = ty.ok(v);
    let text = std::str::from_utf8(v).ok();
    let got: Option<S<'a>> = by_sub!(
        ty,
        |T| {
            let e = T::find_invalid(v);
            if e.is_none() != want {
                c.fail("find_invalid", format!("{}::find_invalid({}) = {e:?}, rule says {want}", stringify!(T), show(v)));
            }
            // A refusal names something that is really wrong.
            let fits = match e {
                None => true,
                Some(InvalidString::Empty) => v.is_empty(),
                Some(InvalidString::Colon) => v.first() == Some(&b':'),
                Some(InvalidString::Byte(x)) => v.contains(&x) && ty.bad(x),
            };
            if !fits || T::from_bytes(v.to_vec()).err() != e {
                c.fail("invalid-reason", format!("{}: {} refused with {e:?}", stringify!(T), show(v)));
            }
            match how {
                0 => T::from_bytes(b).ok().map(S::from),
                1 => T::try_from(v).ok().map(S::from),
                2 => T::try_from(v.to_vec()).ok().map(S::from),
                3 => text.map(|t| T::try_from(t).ok().map(S::from)).unwrap_or_else(|| T::try_from(b).ok().map(S::from)),
                4 => text
                    .map(|t| T::try_from(t.to_string()).ok().map(S::from))
                    .unwrap_or_else(|| T::from_bytes(v.to_vec()).ok().map(S::from)),
                5 => T::from_secret(v.to_vec()).ok().map(S::from),
                6 if want && text.is_some() => Some(T::from_str(text.unwrap()).into()),
                7 if !want && text.is_some() => {
                    // The literal constructor must refuse.
                    let r = std::panic::catch_unwind(|| T::from_str(text.unwrap()).len());
                    let _ = crate::infra::take_panic();
                    if r.is_ok() {
                        Some(unsafe { T::from_unchecked(Bytes::from_bytes(v)) }.into())
                    } else {
                        None
                    }
                }
                8 if text.is_some() => {
                    let j = serde_json::to_string(text.unwrap()).unwrap();
                    serde_json::from_str::<T<'a>>(&j).ok().map(S::from)
                }
                _ => {
                    // Through the nearest more general types.
                    match ty {
                        Ty::NoNul => NoNul::try_from(b).ok().map(S::from),
                        Ty::Line => NoNul::try_from(b).ok().and_then(|x| Line::from_super(x).ok()).map(S::from),
                        Ty::Word => Line::try_from(b).ok().and_then(|x| Word::from_super(x).ok()).map(S::from),
                        Ty::Arg => Word::try_from(b).ok().and_then(|x| Arg::from_super(x).ok()).map(S::from),
                        Ty::Key => Arg::try_from(b).ok().and_then(|x| Key::from_super(x).ok()).map(S::from),
                        Ty::Target => Arg::try_from(b).ok().and_then(|x| Target::from_super(x).ok()).map(S::from),
                        Ty::Nick => match c.rng.coin() {
                            true => Target::try_from(b).ok().and_then(|x| Nick::from_super(x).ok()).map(S::from),
                            _ => Arg::try_from(b).ok().and_then(|x| Nick::from_arg(x).ok()).map(S::from),
                        },
                        Ty::User => Arg::try_from(b).ok().and_then(|x| User::from_super(x).ok()).map(S::from),
                        Ty::Cmd => Arg::try_from(b).ok().and_then(|x| Cmd::from_super(x).ok()).map(S::from),
                        Ty::Bytes => unreachable!(),
                    }
                }
            }
        },
        Some(match how {
            0 | 1 => S::Bytes(b),
            2 => S::Bytes(v.to_vec().into()),
            3 => S::Bytes(Bytes::from_secret(v.to_vec())),
            4 => S::Bytes(v.into()),
            5 => S::Bytes(std::borrow::Cow::Borrowed(v).into()),
            6 => S::Bytes(v.iter().copied().collect::<SecretBuf>().into_bytes()),
            _ => S::Bytes(Bytes::from_bytes(v)),
        })
    );
    match &got {
        Some(s) => {
            if !want {
                c.fail("accepted", format!("{:?} (way {how}) accepted {}", ty, show(v)));
                return None;
            }
            ck!(c, s.raw() == v, "constructor-bytes", "{ty:?} (way {how}) of {} holds {}", show(v), show(s.raw()));
            c.ev("constructed");
        }
        None => {
            ck!(c, !want, "rejected", "{ty:?} (way {how}) rejected {}", show(v));
            c.ev("refused");
        }
    }
    got
}

/// A string of this type without any checks by us (`None` if the type refuses).
pub fn plain<'a>(v: &'a [u8], ty: Ty, owned: bool) -> Option<S<'a>> {
    let b: Bytes<'a> = if owned { v.to_vec().into() } else { Bytes::from_bytes(v) };
    of_bytes(b, ty)
}
pub fn of_bytes<'a>(b: Bytes<'a>, ty: Ty) -> Option<S<'a>> {
    by_sub!(ty, |T| T::from_bytes(b).ok().map(S::from), Some(S::Bytes(b)))
}
pub fn of_secret<'a>(v: Vec<u8>, ty: Ty) -> Option<S<'a>> {
    by_sub!(ty, |T| T::from_secret(v).ok().map(S::from), Some(S::Bytes(Bytes::from_secret(v))))
}
/// Converts to another type by one of the conversion impls.
pub fn convert<'a>(c: &mut Case, x: Cell<'a>, ty: Ty) -> Option<Cell<'a>> {
    let want = ty.ok(&x.m);
    let from = x.s.ty();
    macro_rules! try_list { ($x:expr, $($to:ident),*) => { match ty { $(Ty::$to => { $to::try_from($x).ok().map(S::from) })* _ => return None } } }
    macro_rules! up_list { ($x:expr, $($to:ident),*) => { match ty { $(Ty::$to => Some(S::from($to::from($x))),)* _ => unreachable!() } } }
    let Cell { s, m, secret } = x;
    let got: Option<S> = match s {
        S::Bytes(b) => {
            if ty == Ty::Bytes {
                Some(S::Bytes(b))
            } else {
                try_list!(b, NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd)
            }
        }
        S::NoNul(b) if ty == Ty::Bytes => Some(S::Bytes(b.into())),
        S::NoNul(b) => try_list!(b, Line, Word, Arg, Key, Target, Nick, User, Cmd),
        S::Line(b) => match ty {
            Ty::Bytes | Ty::NoNul => up_list!(b, Bytes, NoNul),
            _ => try_list!(b, Word, Arg, Key, Target, Nick, User, Cmd),
        },
        S::Word(b) => match ty {
            Ty::Bytes | Ty::NoNul | Ty::Line => up_list!(b, Bytes, NoNul, Line),
            _ => try_list!(b, Arg, Key, Target, Nick, User, Cmd),
        },
        S::Arg(b) => match ty {
            Ty::Bytes | Ty::NoNul | Ty::Line | Ty::Word => up_list!(b, Bytes, NoNul, Line, Word),
            _ => try_list!(b, Key, Target, Nick, User, Cmd),
        },
        S::Target(b) => match ty {
            Ty::Bytes | Ty::NoNul | Ty::Line | Ty::Word | Ty::Arg => up_list!(b, Bytes, NoNul, Line, Word, Arg),
            _ => try_list!(b, Nick),
        },
        S::Key(b) if !matches!(ty, Ty::Key | Ty::Target | Ty::Nick | Ty::User | Ty::Cmd) => up_list!(b, Bytes, NoNul, Line, Word, Arg),
        S::User(b) if !matches!(ty, Ty::Key | Ty::Target | Ty::Nick | Ty::User | Ty::Cmd) => up_list!(b, Bytes, NoNul, Line, Word, Arg),
        S::Cmd(b) if !matches!(ty, Ty::Key | Ty::Target | Ty::Nick | Ty::User | Ty::Cmd) => up_list!(b, Bytes, NoNul, Line, Word, Arg),
        S::Nick(b) if !matches!(ty, Ty::Key | Ty::Nick | Ty::User | Ty::Cmd) => up_list!(b, Bytes, NoNul, Line, Word, Arg, Target),
        _ => return None,
    };
    if got.is_some() != want {
        c.fail("conversion-verdict", format!("{from:?} to {ty:?} of {}: accepted={}, rule says {want}", show(&m), got.is_some()));
        return None;
    }
    c.ev(if want { "converted" } else { "refused" });
    got.map(|s| Cell { s, m, secret })
}

// ---------------------------------------------------------------- transforms
/// Transformations of a user's own, one for each thing they may say about the text they leave.
#[derive(Clone, Copy)]
pub struct Own(pub usize);
pub const OWN: usize = 10;
/// What they do, and what they may truthfully say about it.
fn own(k: usize, v: &[u8]) -> (std::ops::Range<usize>, Option<Vec<u8>>, Utf8Policy) {
    let valid = std::str::from_utf8(v).is_ok();
    let good = std::str::from_utf8(v).map(|s| s.len()).unwrap_or_else(|e| e.valid_up_to());
    let half = v.len() / 2;
    let known = |w: &[u8]| if std::str::from_utf8(w).is_ok() { Utf8Policy::Valid } else { Utf8Policy::Invalid };
    match k {
        // The longest start that is text: text if it was text before, and if it was not.
        0 => (0..good, None, Utf8Policy::Preserve),
        1 => (0..0, Some(v[..good].to_vec()), Utf8Policy::Preserve),
        2 => (0..good, None, Utf8Policy::Valid),
        // Some half of it.
        3 => (half..v.len(), None, Utf8Policy::Recheck),
        4 => (0..half, None, known(&v[..half])),
        5 => (0..0, Some(v[half..].to_vec()), known(&v[half..])),
        6 => (0..0, Some(v[..half].to_vec()), Utf8Policy::Recheck),
        // Nothing at all, in both ways to say so.
        7 => (0..v.len(), None, Utf8Policy::PreserveStrict),
        8 => (0..0, Some(v.to_vec()), Utf8Policy::PreserveStrict),
        _ => (0..v.len(), None, if valid { Utf8Policy::Preserve } else { Utf8Policy::Invalid }),
    }
}
pub fn ref_own(k: usize, v: &[u8]) -> Vec<u8> {
    let (r, o, _) = own(k, v);
    o.unwrap_or_else(|| v[r].to_vec())
}
unsafe impl Transform for Own {
    type Value = usize;
    fn transform<'a>(self, bytes: &Bytes<'a>) -> Transformation<'a, usize> {
        let v = unsafe { bytes.as_bytes_unsafe() };
        let (r, o, utf8) = own(self.0, v);
        let transformed: std::borrow::Cow<'a, [u8]> = match o {
            Some(o) => o.into(),
            None => v[r].into(),
        };
        Transformation { value: self.0, transformed, utf8 }
    }
}
unsafe impl NoNulSafe for Own {}
unsafe impl LineSafe for Own {}
unsafe impl WordSafe for Own {}

/// Calls `$x.transform($tf)` if the transform claims to be safe for that type, else does nothing.
/// (An inherent method whose bound does not hold is skipped in favour of the trait method.)
macro_rules! probes {
    ($($m:ident $t:ident $bound:ident;)*) => {
        $(mod $m {
            use super::*;
            pub struct W<T>(pub T);
            impl<T: $bound + Copy> W<T> {
                pub fn go(&self, x: &mut $t) -> bool { x.transform(self.0); true }
            }
            #[allow(dead_code)]
            pub trait No { fn go<X>(&self, _: &mut X) -> bool { false } }
            impl<T> No for W<T> {}
        })*
    };
}
probes! {
    p_bytes Bytes Transform; p_nonul NoNul NoNulSafe; p_line Line LineSafe; p_word Word WordSafe; p_arg Arg ArgSafe;
    p_key Key KeySafe; p_target Target TargetSafe; p_nick Nick NickSafe; p_user User UserSafe; p_cmd Cmd CmdSafe;
}
pub fn ref_casemap(k: usize, b: u8) -> u8 {
    match k {
        // ascii upper, ascii lower, ascii, rfc1459-strict, rfc1459
        0 => b.to_ascii_uppercase(),
        1 | 2 => b.to_ascii_lowercase(),
        3 | 4 => match b {
            b'A'..=b'Z' => b + 32,
            b'[' => b'{',
            b'\\' => b'|',
            b']' => b'}',
            b'~' if k == 4 => b'^',
            _ => b,
        },
        _ => unreachable!(),
    }
}
pub fn ref_trim(side: StringSide, v: &[u8]) -> &[u8] {
    let ws = |b: &u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | b'\x0c');
    let mut v = v;
    if !matches!(side, StringSide::End) {
        while v.first().map(ws) == Some(true) {
            v = &v[1..];
        }
    }
    if !matches!(side, StringSide::Start) {
        while v.last().map(ws) == Some(true) {
            v = &v[..v.len() - 1];
        }
    }
    v
}
/// Applies a transform in place; returns false when it is not offered for that type.
pub fn transform(x: &mut Cell<'_>, k: usize) -> bool {
    #[allow(unused_imports)]
    macro_rules! one {
        ($tf:expr) => {{
            let tf = $tf;
            #[allow(unused_imports)]
            match &mut x.s {
                S::Bytes(b) => { use p_bytes::{No, W}; W(tf).go(b) }
                S::NoNul(b) => { use p_nonul::{No, W}; W(tf).go(b) }
                S::Line(b) => { use p_line::{No, W}; W(tf).go(b) }
                S::Word(b) => { use p_word::{No, W}; W(tf).go(b) }
                S::Arg(b) => { use p_arg::{No, W}; W(tf).go(b) }
                S::Key(b) => { use p_key::{No, W}; W(tf).go(b) }
                S::Target(b) => { use p_target::{No, W}; W(tf).go(b) }
                S::Nick(b) => { use p_nick::{No, W}; W(tf).go(b) }
                S::User(b) => { use p_user::{No, W}; W(tf).go(b) }
                S::Cmd(b) => { use p_cmd::{No, W}; W(tf).go(b) }
            }
        }};
    }
    const SIDES: [StringSide; 4] = [StringSide::Start, StringSide::End, StringSide::StartFirst, StringSide::EndFirst];
    let (done, m) = match k {
        0 => (one!(AsciiCasemap::<true>), x.m.iter().map(|b| ref_casemap(0, *b)).collect()),
        1 => (one!(AsciiCasemap::<false>), x.m.iter().map(|b| ref_casemap(1, *b)).collect()),
        2 => (one!(IrcCasemap::Ascii), x.m.iter().map(|b| ref_casemap(2, *b)).collect()),
        3 => (one!(IrcCasemap::Rfc1459Strict), x.m.iter().map(|b| ref_casemap(3, *b)).collect()),
        4 => (one!(IrcCasemap::Rfc1459), x.m.iter().map(|b| ref_casemap(4, *b)).collect()),
        9.. => (one!(Own(k - 9)), ref_own(k - 9, &x.m)),
        _ => {
            let side = SIDES[k % 4];
            (one!(TrimAscii(side)), ref_trim(side, &x.m).to_vec())
        }
    };
    if done {
        x.m = m;
    }
    done
}

// ---------------------------------------------------------------- splitter
#[derive(Clone, Copy, Debug)]
struct Rg {
    a: usize,
    z: usize,
}
struct Sess<'a, 'm> {
    base: &'m [u8],
    secret: bool,
    out: &'m mut Vec<Cell<'a>>,
}
fn take_as<'a, T: Tag<'a>, U: Tag<'a>>(c: &mut Case, sp: &mut Splitter<T>, se: &mut Sess<'a, '_>, r: &mut Rg, peek: bool, rr: bool) {
    let sl = &se.base[r.a..r.z];
    let cut = sl.iter().position(|b| U::TY.bad(*b));
    let want = match cut {
        Some(_) if rr => None,
        Some(i) => Some(&sl[..i]),
        None => Some(sl),
    }
    .filter(|s| U::TY.shape(s));
    let got = if peek { sp.peek_string::<U>(rr) } else { sp.string::<U>(rr) };
    c.ev("split");
    match (got, want) {
        (Ok(g), Some(w)) => {
            if g.as_ref() != w {
                c.fail("split-bytes", format!("{:?} from {} gave {} expected {}", U::TY, show(sl), show(g.as_ref()), show(w)));
            }
            if !peek {
                r.a += w.len();
            }
            let secret = se.secret && !w.is_empty();
            se.out.push(Cell { s: g.into(), m: w.to_vec(), secret });
        }
        (Err(_), None) => (),
        (g, w) => c.fail("split-verdict", format!("{:?} (rest={rr}) from {}: ok={} expected ok={}", U::TY, show(sl), g.is_ok(), w.is_some())),
    }
}
fn rest_as<'a, T: Tag<'a>, U: Tag<'a> + From<T>>(c: &mut Case, sp: &mut Splitter<T>, se: &mut Sess<'a, '_>, r: &mut Rg, peek: bool) {
    let sl = &se.base[r.a..r.z];
    let want = U::TY.shape(sl);
    let got = if peek { sp.peek_rest::<U>() } else { sp.rest::<U>() };
    match (got, want) {
        (Ok(g), true) => {
            ck!(c, g.as_ref() == sl, "rest-bytes", "rest of {} gave {}", show(sl), show(g.as_ref()));
            if !peek {
                r.a = r.z;
            }
            let secret = se.secret && !sl.is_empty();
            se.out.push(Cell { s: g.into(), m: sl.to_vec(), secret });
        }
        (Err(_), false) => (),
        (g, w) => c.fail("rest-verdict", format!("rest of {} as {:?}: ok={} expected {w}", show(sl), U::TY, g.is_ok())),
    }
}
fn split_ops<'a, T: Tag<'a>>(c: &mut Case, sp: &mut Splitter<T>, se: &mut Sess<'a, '_>, r: &mut Rg, depth: usize, budget: &mut usize)
where
    Bytes<'a>: From<T>,
{
    let n = 1 + c.rng.below(6);
    for _ in 0..n {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let sl = &se.base[r.a..r.z];
        ckeq!(c, sp.as_slice(), sl, "splitter-view", "depth {depth}");
        ckeq!(c, sp.len(), sl.len(), "splitter-len", "");
        ckeq!(c, sp.is_empty(), sl.is_empty(), "splitter-empty", "");
        if sp.is_utf8_lazy() && std::str::from_utf8(sl).is_err() {
            c.fail("splitter-claims-utf8", format!("range {} of {} is not UTF-8 but claimed so", show(sl), show(se.base)));
        }
        match c.rng.below(19) {
            0 => {
                let g = if c.rng.coin() { sp.next_byte() } else { sp.next() };
                ckeq!(c, g, sl.first().copied(), "next_byte", "");
                r.a += g.is_some() as usize;
            }
            1 => {
                let g = sp.rnext_byte();
                ckeq!(c, g, sl.last().copied(), "rnext_byte", "");
                r.z -= g.is_some() as usize;
            }
            2 => {
                ckeq!(c, sp.peek_byte(), sl.first().copied(), "peek_byte", "");
                ckeq!(c, sp.rpeek_byte(), sl.last().copied(), "rpeek_byte", "");
            }
            3 => {
                let ty = c.rng.pickv(&TYS);
                by_ty!(ty, |U| sp.consume_invalid::<U<'a>>());
                r.a += sl.iter().position(|b| !ty.bad(*b)).unwrap_or(sl.len());
            }
            4 => {
                sp.consume_whitespace();
                r.a += sl.iter().position(|b| !matches!(b, b' ' | b'\t' | b'\n' | b'\r' | b'\x0c')).unwrap_or(sl.len());
            }
            5 => {
                let t = c.rng.byte();
                sp.until_byte(|b| *b >= t);
                if let Some(i) = sl.iter().position(|b| *b >= t) {
                    r.z = r.a + i;
                }
            }
            6 | 7 => {
                let t = if sl.is_empty() || c.rng.chance(1, 4) { c.rng.byte() } else { sl[c.rng.below(sl.len())] };
                sp.until_byte_eq(t);
                if let Some(i) = sl.iter().position(|b| *b == t) {
                    r.z = r.a + i;
                }
            }
            8 => {
                let k = c.rng.below(sl.len() + 2);
                sp.until_count(k);
                r.z = r.z.min(r.a + k);
            }
            9 | 10 => {
                let e = sp.check_encoding().is_ok();
                ckeq!(c, e, std::str::from_utf8(sl).is_ok(), "check_encoding", "slice {}", show(sl));
                c.ev("check_encoding");
            }
            11 | 12 => {
                let (peek, rr) = (c.rng.chance(1, 4), c.rng.chance(1, 3));
                let ty = c.rng.pickv(&TYS);
                by_ty!(ty, |U| take_as::<T, U<'a>>(c, sp, se, r, peek, rr));
            }
            13 => {
                let peek = c.rng.coin();
                if c.rng.coin() {
                    rest_as::<T, Bytes<'a>>(c, sp, se, r, peek);
                } else {
                    rest_as::<T, T>(c, sp, se, r, peek);
                }
            }
            14 => {
                // Defaulting forms.
                let want: &[u8] = if c.rng.coin() {
                    let g: Word = sp.string_or_default(false);
                    let cut = sl.iter().position(|b| Ty::Word.bad(*b)).unwrap_or(sl.len());
                    ck!(c, g.as_bytes() == &sl[..cut], "string_or_default", "{} from {}", show(g.as_bytes()), show(sl));
                    se.out.push(Cell { secret: se.secret && cut > 0, s: g.into(), m: sl[..cut].to_vec() });
                    &sl[..cut]
                } else {
                    let g: Bytes = sp.rest_or_default();
                    ck!(c, g.as_bytes() == sl, "rest_or_default", "{} from {}", show(g.as_bytes()), show(sl));
                    se.out.push(Cell { secret: se.secret && !sl.is_empty(), s: g.into(), m: sl.to_vec() });
                    sl
                };
                r.a += want.len();
            }
            _ => {
                if depth < 3 {
                    let (a, z) = (c.rng.coin(), c.rng.coin());
                    let old = *r;
                    let mut g = sp.save(a, z);
                    split_ops::<T>(c, &mut g, se, r, depth + 1, budget);
                    drop(g);
                    if a {
                        r.a = old.a;
                    }
                    if z {
                        r.z = old.z;
                    }
                    c.ev("saved-range-restored");
                }
            }
        }
        if r.a > r.z {
            // Restoring only one end can never invert a range: ends only shrink inside a session.
            unreachable!();
        }
    }
}
pub fn split<'a>(c: &mut Case, x: &Cell<'a>, out: &mut Vec<Cell<'a>>) {
    let mut budget = 14;
    let mut r = Rg { a: 0, z: x.m.len() };
    let mut se = Sess { base: &x.m, secret: x.secret, out };
    sm!(x.s.clone(), b => {
        let mut sp = Splitter::new(b);
        split_ops(c, &mut sp, &mut se, &mut r, 0, &mut budget);
        if c.rng.coin() {
            let mut sp2 = sp.clone();
            split_ops(c, &mut sp2, &mut se, &mut r.clone(), 0, &mut 6);
        }
    });
}

// ---------------------------------------------------------------- builder
pub fn build<'a>(c: &mut Case, x: &Cell<'a>, pool: &[Cell<'a>]) -> Cell<'a> {
    let ty = x.s.ty();
    let mut m = x.m.clone();
    macro_rules! go {
        ($t:ident, $b:expr) => {{
            let mut bl = Builder::<$t<'static>>::new($b.clone());
            for _ in 0..1 + c.rng.below(6) {
                match c.rng.below(9) {
                    0 => {
                        let v = gen::bytes(&mut c.rng, 10);
                        let want = !v.iter().any(|b| ty.bad(*b));
                        let got = bl.try_append(&v).is_ok();
                        ckeq!(c, got, want, "try_append", "{ty:?} + {}", show(&v));
                        if want { m.extend_from_slice(&v); }
                    }
                    1 => {
                        let v = gen::text(&mut c.rng, 10);
                        let want = !v.bytes().any(|b| ty.bad(b));
                        let got = bl.try_append_str(&v).is_ok();
                        ckeq!(c, got, want, "try_append_str", "{ty:?} + {v:?}");
                        if want { m.extend_from_slice(v.as_bytes()); }
                    }
                    2 | 3 => {
                        let v = if c.rng.coin() { c.rng.byte() } else { b"\xe2\x82\xac\xc3a :="[c.rng.below(8)] };
                        let want = !ty.bad(v);
                        let got = bl.try_push(v).is_ok();
                        ckeq!(c, got, want, "try_push", "{ty:?} + {v}");
                        if want { m.push(v); }
                    }
                    4 => {
                        let s = c.rng.pick(gen::MULTI);
                        let ch = if c.rng.coin() { s.chars().next().unwrap() } else { c.rng.byte() as char };
                        let mut buf = [0; 4];
                        let e = ch.encode_utf8(&mut buf).as_bytes();
                        let want = !e.iter().any(|b| ty.bad(*b));
                        let got = bl.try_push_char(ch).is_ok();
                        ckeq!(c, got, want, "try_push_char", "{ty:?} + {ch:?}");
                        if want { m.extend_from_slice(e); }
                    }
                    5 => {
                        let e = bl.check_utf8().is_ok();
                        ckeq!(c, e, std::str::from_utf8(&m).is_ok(), "builder-check_utf8", "{}", show(&m));
                    }
                    6 => {
                        // Another string of the same type.
                        let k = c.rng.below(pool.len().max(1));
                        if let Some(S::$t(o)) = pool.get(k).map(|p| &p.s) {
                            bl.append(o.clone());
                            m.extend_from_slice(&pool[k].m);
                        } else {
                            bl.append($b.clone());
                            m.extend_from_slice(&x.m);
                        }
                    }
                    7 => {
                        bl.reserve(c.rng.below(20));
                        if c.rng.coin() { bl.shrink_to_fit(); } else { bl.reserve_exact(3); }
                    }
                    _ => ckeq!(c, &*bl, m.as_slice(), "builder-view", ""),
                }
                if c.rng.chance(1, 8) { bl = bl.clone(); }
            }
            c.ev("built");
            S::from(bl.build())
        }};
    }
    let s = match &x.s {
        S::Bytes(b) => go!(Bytes, b),
        S::NoNul(b) => go!(NoNul, b),
        S::Line(b) => go!(Line, b),
        S::Word(b) => go!(Word, b),
        S::Arg(b) => go!(Arg, b),
        S::Key(b) => go!(Key, b),
        S::Target(b) => go!(Target, b),
        S::Nick(b) => go!(Nick, b),
        S::User(b) => go!(User, b),
        S::Cmd(b) => go!(Cmd, b),
    };
    // Joining drops secrecy by design.
    Cell { s, m, secret: false }
}

// ---------------------------------------------------------------- the machine
pub fn views(c: &mut Case, x: &Cell<'_>) {
    let b = x.s.as_b();
    match c.rng.below(7) {
        0 => {
            let _ = b.to_utf8();
        }
        1 => {
            let _ = b.to_utf8_lossy();
        }
        2 => {
            let _ = x.s.display();
        }
        3 => {
            let _ = x.s.debug();
        }
        4 => {
            // Comparison with text and bytes depends on the bytes only.
            let t = String::from_utf8_lossy(&x.m).into_owned();
            let eq = t.as_bytes() == x.m.as_slice();
            sm!(&x.s, b => {
                ckeq!(c, *b == t.as_str(), eq, "eq-str", "{} vs {t:?}", show(&x.m));
                ckeq!(c, *b == x.m.as_slice(), true, "eq-bytes", "{}", show(&x.m));
            });
        }
        5 => {
            let h1 = h64(b);
            let h2 = h64(&Bytes::from_bytes(&x.m));
            ckeq!(c, h1, h2, "hash", "{}", show(&x.m));
        }
        _ => (),
    }
}
pub fn machine(c: &mut Case, steps: usize, oracle: Oracle) {
    let narena = 3 + c.rng.below(3);
    let arena: Vec<(Vec<u8>, Ty)> = (0..narena)
        .map(|_| {
            let ty = c.rng.pickv(&TYS);
            let r = &mut c.rng;
            let mx = r.pickv(&[4usize, 12, 40]);
            let v = match r.below(4) {
                0 => {
                    let mut v = gen::bytes(r, mx);
                    if r.coin() {
                        v.extend(gen::bytes(r, 12));
                    }
                    v
                }
                1 => gen::text(r, mx).into_bytes(),
                _ => {
                    // Mostly valid for its type, so that long chains happen.
                    let mut v = gen::filtered(r, mx, |b| ty.bad(b));
                    if ty == Ty::Cmd {
                        v = gen::cmd(r);
                    }
                    while ty.nonempty() && v.first() == Some(&b':') {
                        v.remove(0);
                    }
                    if ty.nonempty() && v.is_empty() {
                        v.push(b'Z');
                    }
                    v
                }
            };
            (v, ty)
        })
        .collect();
    run_pool(c, &arena, steps, oracle);
}
fn run_pool<'a>(c: &mut Case, arena: &'a [(Vec<u8>, Ty)], steps: usize, oracle: Oracle) {
    let mut pool: Vec<Cell<'a>> = Vec::new();
    let mut trace = String::new();
    for step in 0..steps {
        let op = if pool.is_empty() { 0 } else { c.rng.below(22) };
        let i = c.rng.below(pool.len().max(1));
        if trace.len() < 1500 {
            use std::fmt::Write;
            let _ = write!(trace, "{op}");
            if let Some(p) = pool.get(i) {
                let _ = write!(trace, "[{:?} {}] ", p.s.ty(), show(&p.m));
            }
            c.desc.clone_from(&trace);
        }
        let mut fresh: Vec<Cell<'a>> = Vec::new();
        match op {
            0 | 1 => {
                let (v, ty) = &arena[c.rng.below(arena.len())];
                let ty = if c.rng.chance(1, 3) { c.rng.pickv(&TYS) } else { *ty };
                if let Some(s) = construct(c, v, ty) {
                    let secret = s.is_secret();
                    fresh.push(Cell { s, m: v.clone(), secret });
                }
            }
            2 => fresh.push(pool[i].clone()),
            3 => {
                let mut x = pool.swap_remove(i);
                if c.rng.coin() {
                    x.s = x.s.owning();
                } else {
                    x.s.make_owning();
                }
                ck!(c, x.s.is_owning() || x.m.is_empty(), "owning", "owning() of {} still borrows", show(&x.m));
                fresh.push(x);
            }
            4 => {
                if c.rng.chance(1, 2) {
                    let mut x = pool.swap_remove(i);
                    x.s = x.s.secret();
                    x.secret = true;
                    fresh.push(x);
                }
            }
            5..=7 => {
                let ty = c.rng.pickv(&TYS);
                let x = if c.rng.coin() { pool[i].clone() } else { pool.swap_remove(i) };
                fresh.extend(convert(c, x, ty));
            }
            8..=11 => {
                let x = pool[i].clone();
                split(c, &x, &mut fresh);
                fresh.truncate(6);
            }
            12 | 13 => {
                let x = pool[i].clone();
                fresh.push(build(c, &x, &pool));
            }
            14 | 15 => {
                let mut x = pool[i].clone();
                let k = c.rng.below(9 + OWN);
                let was = x.secret;
                if transform(&mut x, k) {
                    c.ev("transformed");
                    x.secret = was && !x.m.is_empty();
                    fresh.push(x);
                }
            }
            16 => {
                if let S::NoNul(n) = &pool[i].s {
                    let e = escape(n.clone());
                    let m = gen::escape(&pool[i].m);
                    ck!(c, e.as_bytes() == m, "escape", "{} gave {}", show(&pool[i].m), show(&e));
                    let sec = pool[i].secret;
                    fresh.push(Cell { secret: sec, s: e.into(), m });
                    let u = unescape(n.clone());
                    let m = crate::refm::unescape(&pool[i].m);
                    ck!(c, u.as_bytes() == m, "unescape", "{} gave {}", show(&pool[i].m), show(&u));
                    fresh.push(Cell { secret: sec && !m.is_empty(), s: u.into(), m });
                } else if let S::Word(w) = &pool[i].s {
                    match Cmd::from_word(w.clone()) {
                        Ok(x) => {
                            let m = pool[i].m.to_ascii_uppercase();
                            ck!(c, Ty::Cmd.ok(&m), "from_word", "accepted {}", show(&pool[i].m));
                            ckeq!(c, x.as_str().as_bytes(), m.as_slice(), "from_word-bytes", "");
                            let secret = pool[i].secret;
                            fresh.push(Cell { secret, s: x.into(), m });
                        }
                        Err(_) => {
                            ck!(c, !Ty::Cmd.ok(&pool[i].m.to_ascii_uppercase()), "from_word", "rejected {}", show(&pool[i].m));
                        }
                    }
                }
            }
            17 => {
                let x = pool.swap_remove(i);
                let cs = x.s.ty() != Ty::Bytes && c.rng.coin();
                let v = if cs {
                    by_cstring(x.s)
                } else if c.rng.coin() {
                    x.s.into_vec()
                } else {
                    let cow: std::borrow::Cow<[u8]> = x.s.into_bytes().into();
                    cow.into_owned()
                };
                ck!(c, v == x.m, "into_vec", "{} gave {}", show(&x.m), show(&v));
                fresh.push(Cell { s: S::Bytes(v.into()), m: x.m, secret: false });
            }
            18 => {
                let x = pool[i].clone();
                let sec = x.secret;
                let m = String::from_utf8_lossy(&x.m).into_owned().into_bytes();
                let s = x.s.into_bytes().into_utf8_lossy();
                fresh.push(Cell { secret: sec && !m.is_empty(), s: S::Bytes(s), m });
            }
            19 => {
                let x = &pool[i];
                let w = x.s.as_b().to_base64();
                let m = b64(&x.m);
                ck!(c, w.as_bytes() == m, "base64", "{} gave {}", show(&x.m), show(&w));
                let p = x.s.as_b().to_base64_plus();
                let pm = if m.is_empty() { b"+".to_vec() } else { m.clone() };
                ck!(c, p.as_bytes() == pm, "base64_plus", "{} gave {}", show(&x.m), show(&p));
                let sec = x.secret && !m.is_empty();
                fresh.push(Cell { secret: sec, s: w.into(), m });
                fresh.push(Cell { secret: sec, s: p.into(), m: pm });
            }
            20 => {
                let x = pool[i].clone();
                views(c, &x);
                views(c, &pool[i]);
            }
            _ => {
                pool.swap_remove(i);
            }
        }
        for f in &fresh {
            oracle(c, f, "new");
            // What is remembered as observed: type, contents, cached knowledge, provenance.
            let d = (f.s.ty(), f.m.as_slice(), f.s.as_b().is_utf8_lazy(), f.s.is_owning(), op);
            c.seen(&d);
        }
        pool.extend(fresh);
        // Every other handle must be unaffected by what happened.
        if step % 3 == 2 || step + 1 == steps {
            for j in 0..pool.len() {
                let x = pool[j].clone();
                oracle(c, &x, "clone");
                let p = &pool[j];
                if p.s.raw() != p.m.as_slice() {
                    c.fail("handle-changed", format!("holds {} expected {}", show(p.s.raw()), show(&p.m)));
                }
            }
        }
        while pool.len() > 10 {
            let j = c.rng.below(pool.len());
            pool.swap_remove(j);
        }
        c.ev("ops");
    }
    c.sample(|| trace.chars().take(300).collect());
}
fn by_cstring(s: S) -> Vec<u8> {
    match s {
        S::Bytes(b) => b.into_vec(),
        S::NoNul(b) => b.into_cstring().into_bytes(),
        S::Line(b) => b.into_cstring().into_bytes(),
        S::Word(b) => b.into_cstring().into_bytes(),
        S::Arg(b) => b.into_cstring().into_bytes(),
        S::Key(b) => b.into_cstring().into_bytes(),
        S::Target(b) => b.into_cstring().into_bytes(),
        S::Nick(b) => b.into_cstring().into_bytes(),
        S::User(b) => b.into_cstring().into_bytes(),
        S::Cmd(b) => b.into_cstring().into_bytes(),
    }
}
pub fn b64(v: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for ch in v.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= ch.len() {
                o.push(A[(n >> (18 - 6 * k)) as usize & 63]);
            } else {
                o.push(b'=');
            }
        }
    }
    o
}
/// Strict decoding: canonical padding and zero trailing bits, as the library promises.
pub fn unb64(v: &[u8]) -> Option<Vec<u8>> {
    if v.len() % 4 != 0 {
        return None;
    }
    let val = |b: u8| -> Option<u32> {
        Some(match b {
            b'A'..=b'Z' => b - b'A',
            b'a'..=b'z' => b - b'a' + 26,
            b'0'..=b'9' => b - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        } as u32)
    };
    let mut o = Vec::new();
    let n = v.len() / 4;
    for (i, q) in v.chunks(4).enumerate() {
        let pad = if i + 1 == n { q.iter().rev().take_while(|b| **b == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut x = 0u32;
        for (k, b) in q.iter().enumerate() {
            x = x << 6 | if k >= 4 - pad { 0 } else { val(*b)? };
        }
        let by = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        if by[3 - pad..].iter().any(|b| *b != 0) {
            return None;
        }
        o.extend_from_slice(&by[..3 - pad]);
    }
    Some(o)
}
