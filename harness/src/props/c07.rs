//! Memory safety: the workloads that drive every piece of unsafe code, run natively for their
//! functional oracles and under Miri and AddressSanitizer for theirs.
#[allow(unused_imports)]
use crate::coll::*;
use crate::gen;
use crate::infra::*;
use crate::strm::{machine, Cell};
use vinezombie::ircmsg::*;
use vinezombie::state::*;
use vinezombie::string::base64::*;
use vinezombie::string::*;

fn oracle(c: &mut Case, x: &Cell<'_>, at: &str) {
    // Reads every byte through the handle.
    ck!(c, x.s.raw() == x.m.as_slice(), "bytes", "{at}: holds {} expected {}", show(x.s.raw()), show(&x.m));
}
/// A reader that hands out pieces and sometimes fails.
pub struct Pieces<'a>(pub &'a [u8], pub u64, pub Option<usize>);
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some(n) = &mut self.2 {
            if *n == 0 {
                return Err(std::io::ErrorKind::Other.into());
            }
            *n -= 1;
        }
        // A reader may look at what it is about to overwrite.
        std::hint::black_box(buf.iter().map(|b| *b as u64).sum::<u64>());
        let n = (1 + self.1 as usize).min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// An iterator with bounds of its own.
pub struct Hint<I>(pub I, pub usize, pub Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.0.next();
        self.1 = self.1.saturating_sub(1);
        self.2 = self.2.map(|h| h.saturating_sub(x.is_some() as usize));
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}
/// Fill, grow, clear, clone and convert secret buffers next to plain vectors.
pub fn secretbuf(c: &mut Case, steps: usize) {
    let mut pool: Vec<(SecretBuf, Vec<u8>)> = Vec::new();
    let mut log = String::new();
    for _ in 0..steps {
        let op = if pool.is_empty() { 0 } else { c.rng.below(14) };
        let i = c.rng.below(pool.len().max(1));
        let data = gen::bytes(&mut c.rng, 24);
        log.push_str(&format!(" {op}({})", data.len()));
        c.desc.clone_from(&log);
        match op {
            0 => {
                let cap = c.rng.below(20);
                pool.push((SecretBuf::with_capacity(cap), Vec::new()));
            }
            1 => {
                let mut v = data.clone();
                if c.rng.coin() {
                    v.reserve_exact(c.rng.below(9));
                } else {
                    v.shrink_to_fit();
                }
                pool.push((SecretBuf::from(v), data));
            }
            2 => {
                let d = data.clone();
                let n = d.len();
                let b: SecretBuf = match c.rng.below(4) {
                    0 => d.into_iter().collect(),
                    1 => d.into_iter().filter(|_| true).collect(),
                    k => {
                        // Everything an honest iterator may say about its length.
                        let lo = c.rng.range(0, n);
                        let hi = if k == 2 { None } else { Some(c.rng.pickv(&[n, n + 1, 70_000, usize::MAX / 2, usize::MAX - 1, usize::MAX])) };
                        Hint(d.into_iter(), lo, hi).collect()
                    }
                };
                pool.push((b, data));
            }
            3 => pool[i].0.reserve(data.len()),
            4..=6 => {
                let extra = c.rng.below(5);
                for b in &data {
                    pool[i].0.push(*b, extra);
                    pool[i].1.push(*b);
                }
            }
            7 => {
                pool[i].0.push_cstr(&data);
                pool[i].1.extend_from_slice(&data);
                pool[i].1.push(0);
            }
            8 => {
                pool[i].0.push_slice(&data);
                pool[i].1.extend_from_slice(&data);
            }
            9 => {
                // A reader with more or less than what is asked for, in pieces, possibly failing.
                let ask = c.rng.below(30);
                let fail = c.rng.chance(1, 4).then(|| c.rng.below(4));
                let step = c.rng.below(6) as u64;
                let r = pool[i].0.read_from(ask, &mut Pieces(&data, step, fail));
                match r {
                    Ok(n) => {
                        ck!(c, n <= ask && n <= data.len(), "read_from", "claims {n} of {} bytes, {ask} asked for", data.len());
                        ck!(c, n == ask.min(data.len()), "read_from-short", "claims {n} of {} bytes, {ask} asked for", data.len());
                        let n = n.min(data.len());
                        pool[i].1.extend_from_slice(&data[..n]);
                    }
                    Err(_) => {
                        // All or nothing of what was read before the failure; take what it says.
                        let now = pool[i].0.as_ref().to_vec();
                        let old = &pool[i].1;
                        ck!(c, now.starts_with(old) && data.starts_with(&now[old.len()..]), "read_from-error", "contents {} were {}", show(&now), show(old));
                        pool[i].1 = now;
                    }
                }
            }
            10 => {
                pool[i].0.clear();
                pool[i].1.clear();
            }
            11 => {
                let x = (pool[i].0.clone(), pool[i].1.clone());
                pool.push(x);
            }
            12 => {
                let (b, m) = pool.swap_remove(i);
                let s: Bytes<'static> = b.into_bytes();
                ck!(c, s.as_bytes() == m, "into_bytes", "{} expected {}", show(&s), show(&m));
                ck!(c, s.is_secret(), "into_bytes-secret", "not secret");
                let t = s.clone();
                let u = if c.rng.coin() { s.into_vec() } else { drop(s); t.as_bytes().to_vec() };
                ck!(c, u == m, "into_bytes-vec", "{} expected {}", show(&u), show(&m));
                if c.rng.coin() {
                    pool.push((SecretBuf::from(t.into_vec()), m));
                }
            }
            _ => {
                pool.swap_remove(i);
            }
        }
        for (b, m) in &pool {
            ck!(c, b.as_ref() == m.as_slice(), "secretbuf", "{} expected {}", show(b.as_ref()), show(m));
            ck!(c, b.as_bytes().as_bytes() == m.as_slice() && b.as_bytes().is_secret(), "secretbuf-view", "");
            ck!(c, b.is_empty() == m.is_empty(), "secretbuf-empty", "");
        }
        while pool.len() > 5 {
            pool.swap_remove(0);
        }
        c.ev("secretbuf-ops");
        let lens: Vec<usize> = pool.iter().map(|p| p.1.len()).collect();
        c.seen(&(op, lens));
    }
}
/// Messages parsed from buffers that then go away.
fn messages(c: &mut Case) {
    let m = gen::msg(&mut c.rng, true);
    let w = gen::wire(&m);
    c.desc = show(&w);
    let owned: ServerMsg<'static> = {
        let buf = w.clone();
        let p = match c.rng.below(3) {
            0 => ServerMsg::parse(Bytes::from_bytes(&buf[..])),
            1 => ServerMsg::parse(buf.clone()),
            _ => ServerMsg::parse(Bytes::from_bytes(&buf[..]).secret()),
        };
        let Ok(p) = p else { return };
        match c.rng.below(3) {
            0 => p.owning(),
            1 => {
                let q = p.clone();
                drop(p);
                q.owning()
            }
            _ => {
                let o = p.clone().owning();
                ck!(c, gen::of_server(&p) == gen::of_server(&o), "owning", "");
                o
            }
        }
    };
    let got = gen::of_server(&owned);
    ck!(c, got == m || m.kind.len() == 3, "contents", "{got:?} expected {m:?}");
    // Parts outlive the whole.
    let src = owned.source.clone();
    let words: Vec<Arg<'static>> = owned.args.words().to_vec();
    let last = owned.args.split_last().1.cloned();
    let tag = m.tags.keys().next().and_then(|k| owned.tags.get(Key::from_bytes(k.clone()).unwrap()).cloned());
    let mut o2 = owned.clone();
    drop(owned);
    if let Some(s) = &src {
        let merged = s.clone().owning_merged();
        drop(src.clone());
        ck!(c, gen::of_source(&merged) == m.source.clone().unwrap(), "owning_merged", "{merged:?}");
        let b: Vec<Bytes> = [Some(merged.nick.clone().into()), merged.user().map(|u| u.clone().into()), merged.host().map(|h| h.clone().into())].into_iter().flatten().collect();
        drop(merged);
        ck!(c, b[0].as_bytes() == m.source.as_ref().unwrap().nick, "nick", "");
        let v = b.into_iter().map(|b| b.into_vec().len()).sum::<usize>();
        c.evn("bytes", v as u64);
    }
    if let Some(t) = tag {
        ck!(c, Some(t.as_bytes()) == m.tags.values().next().map(|v| &v[..]), "tag", "");
    }
    {
        let mut e = o2.args.edit();
        e.add_word(Arg::from_str("w"));
        for w in words {
            e.add_before_last(w);
        }
        if let Some(l) = last {
            e.add(l);
        }
    }
    o2.tags.edit().insert_pair(Key::from_str("zzz"), NoNul::from_str("v"));
    let mut out = Vec::new();
    let _ = o2.write_to(&mut out);
    let ctcp = o2.args.split_last().1.cloned();
    drop(o2);
    if let Some(l) = ctcp {
        let x = MaybeCtcp::parse(l);
        let l2: Line<'static> = x.into_line();
        c.evn("bytes", l2.len() as u64);
    }
    c.ev("messages");
    c.seen(&w);
}
/// Small values built by unchecked means: letters, digits, base64 chunks.
fn small(c: &mut Case) {
    let mut set = ModeSet::default();
    let mut n = 0;
    for _ in 0..c.rng.below(20) {
        if let Some(m) = Mode::new(c.rng.byte()) {
            set.set(m);
            n += 1;
        }
    }
    let mut seen = 0;
    let mut it = set.into_iter();
    loop {
        let x = if c.rng.coin() { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        ck!(c, x.into_char().is_ascii_alphabetic(), "mode-letter", "{x:?}");
        let a: Arg = x.into();
        ck!(c, a.len() == 1, "mode-arg", "{a:?}");
        seen += 1;
    }
    ck!(c, seen <= n && (n == 0 || seen > 0), "modes", "{seen} of {n}");
    let raw = gen::bytes(&mut c.rng, 20);
    {
        let (t, _, _) = ModeTypes::parse(&raw);
        for b in 0..=255u8 {
            if let Some(m) = Mode::new(b) {
                let _ = format!("{:?}", t.get(m));
            }
        }
    }
    for i in 0..8u16 {
        let k = c.rng.below(1100) as u16 + i;
        if let Some(n) = Numeric::from_int(k) {
            ck!(c, n.as_str() == format!("{k:03}") && n.into_int() == k, "numeric", "{k}");
        } else {
            ck!(c, k >= 1000, "numeric", "{k}");
        }
    }
    let payload = gen::bytes(&mut c.rng, 60);
    let max = c.rng.range(0, 20);
    let mut dec = ChunkDecoder::new(max);
    let mut got = None;
    for ch in ChunkEncoder::new(&payload, max, c.rng.coin()) {
        if let Some(r) = dec.add(ch.as_bytes()) {
            got = r.ok();
        }
    }
    if max >= 4 && max % 4 == 0 {
        ck!(c, got.as_ref().map(|g| g.as_bytes().to_vec()) == Some(payload.clone()), "chunks", "{:?}", payload);
    }
    let mut ch = vinezombie::client::channel::oneshot::channel::<Box<u64>>();
    if c.rng.coin() {
        let (tx, rx) = ch;
        ch = (tx.clone(), rx);
        drop(tx);
    }
    let (tx, rx) = ch;
    match c.rng.below(4) {
        0 => drop(tx),
        1 => drop(rx),
        2 => {
            let _ = tx.send(Box::new(5));
            if c.rng.coin() {
                ck!(c, rx.peek() == Some(&Box::new(5)), "oneshot-peek", "");
            }
            ck!(c, rx.recv_now() == Some(Box::new(5)), "oneshot", "");
        }
        _ => {
            let _ = tx.send(Box::new(5));
        }
    }
    c.ev("small");
    c.seen(&(set, max, payload.len()));
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("strings", 1200, 12_000, |c| machine(c, 30, oracle));
    ctx.run("secretbuf", 1000, 10_000, |c| secretbuf(c, 20));
    ctx.run("tags", 800, 8000, |c| tags_machine(c, 4, false));
    ctx.run("names", 800, 8000, |c| map_machine(c, 4, false));
    ctx.run("tags-abandoned", 500, 5000, |c| tags_machine(c, 4, true));
    ctx.run("names-abandoned", 500, 5000, |c| map_machine(c, 4, true));
    ctx.run("args", 600, 6000, |c| args_machine(c, 6));
    ctx.run("messages", 1200, 12_000, messages);
    ctx.run("small", 800, 8000, small);
    for k in ["ops", "secretbuf-ops", "tag-edits", "map-edits", "arg-edits", "messages", "small", "leaked-sessions"] {
        ctx.require(k, 300);
    }
}
