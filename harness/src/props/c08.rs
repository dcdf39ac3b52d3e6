//! Strings and sources shared between threads.
use crate::gen;
use crate::infra::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use vinezombie::ircmsg::*;
use vinezombie::string::tf::*;
use vinezombie::string::*;

struct H {
    b: Bytes<'static>,
    m: Vec<u8>,
}
struct Out {
    bad: Vec<(&'static str, String)>,
    ops: Vec<u8>,
    vecs: usize,
}
fn check(o: &mut Out, h: &H, at: &'static str) {
    if h.b.as_bytes() != h.m.as_slice() {
        o.bad.push(("contents", format!("{at}: {} expected {}", show(&h.b), show(&h.m))));
    }
}
/// What one thread does with its handles. Everything it sees must be what was put in.
fn body(mut r: Rng, mut pool: Vec<H>, shared: Option<(&Bytes<'static>, &[u8])>, msg: Option<(ServerMsg<'static>, gen::RMsg)>, steps: usize) -> Out {
    let mut o = Out { bad: vec![], ops: vec![], vecs: 0 };
    let mut msg = msg;
    for _ in 0..steps {
        let op = r.below(13) as u8;
        o.ops.push(op);
        if pool.is_empty() {
            if let Some((s, m)) = shared {
                pool.push(H { b: s.clone(), m: m.to_vec() });
            }
            if pool.is_empty() {
                break;
            }
        }
        let i = r.below(pool.len());
        match op {
            0 => {
                let h = H { b: pool[i].b.clone(), m: pool[i].m.clone() };
                pool.push(h);
            }
            1 | 2 => {
                let h = pool.swap_remove(i);
                check(&mut o, &h, "before drop");
            }
            3 | 4 => {
                let h = pool.swap_remove(i);
                let v = if op == 3 { h.b.into_vec() } else { std::borrow::Cow::from(h.b).into_owned() };
                if v != h.m {
                    o.bad.push(("into_vec", format!("{} expected {}", show(&v), show(&h.m))));
                }
                o.vecs += 1;
            }
            5 => {
                let h = pool.swap_remove(i);
                pool.push(H { b: h.b.owning(), m: h.m });
            }
            6 => {
                let h = pool.swap_remove(i);
                pool.push(H { b: h.b.secret(), m: h.m });
            }
            7 => {
                let h = &pool[i];
                if h.b.to_utf8().map(|s| s.as_bytes()) != std::str::from_utf8(&h.m).ok().map(|s| s.as_bytes()) {
                    o.bad.push(("to_utf8", show(&h.m)));
                }
            }
            8 => {
                let h = &pool[i];
                if h.b.to_utf8_lossy() != String::from_utf8_lossy(&h.m) {
                    o.bad.push(("to_utf8_lossy", show(&h.m)));
                }
            }
            9 => {
                let h = &mut pool[i];
                h.b.transform(AsciiCasemap::<true>);
                h.m.make_ascii_uppercase();
            }
            10 => {
                let h = &pool[i];
                let n = r.below(h.m.len() + 1);
                let mut s = Splitter::new(h.b.clone());
                let a: Bytes = s.save_end().until_count(n).rest_or_default();
                let b: Bytes = s.rest_or_default();
                let (ma, mb) = h.m.split_at(n);
                let (ha, hb) = (H { b: a, m: ma.to_vec() }, H { b, m: mb.to_vec() });
                check(&mut o, &ha, "split");
                check(&mut o, &hb, "split");
                if r.coin() {
                    pool[i] = ha;
                }
                pool.push(hb);
            }
            11 => {
                if let Some((s, m)) = shared {
                    // The same object, used by several threads at once.
                    match r.below(4) {
                        0 => pool.push(H { b: s.clone(), m: m.to_vec() }),
                        1 => {
                            if s.to_utf8().is_some() != std::str::from_utf8(m).is_ok() {
                                o.bad.push(("to_utf8", show(m)));
                            }
                        }
                        2 => {
                            let _ = s.is_utf8_lazy();
                        }
                        _ => {
                            if s.as_bytes() != m {
                                o.bad.push(("contents", show(m)));
                            }
                        }
                    }
                }
            }
            _ => {
                if let Some((m, e)) = msg.take() {
                    if gen::of_server(&m) != e {
                        o.bad.push(("message", format!("{m:?}")));
                    }
                    if r.coin() {
                        if let Some(s) = m.source.clone() {
                            drop(m);
                            let t = if r.coin() { s.owning_merged() } else { s.owning() };
                            if Some(gen::of_source(&t)) != e.source {
                                o.bad.push(("source", format!("{t:?}")));
                            }
                        }
                    } else {
                        msg = Some((m, e));
                    }
                }
            }
        }
    }
    for h in &pool {
        check(&mut o, h, "end");
    }
    // Leaves its handles to be dropped here, at the same time as the others'.
    o
}
fn threads(c: &mut Case, nthreads: usize, steps: usize) {
    let r = &mut c.rng;
    let n = r.range(1, 24);
    let mut data = if r.coin() { gen::text(r, n).into_bytes() } else { gen::bytes(r, n) };
    if data.is_empty() {
        data.push(b'q');
    }
    let mut base: Bytes<'static> = match r.below(3) {
        0 => Bytes::from(data.clone()),
        1 => match String::from_utf8(data.clone()) {
            Ok(s) => Bytes::from(s),
            Err(e) => Bytes::from(e.into_bytes()),
        },
        _ => {
            let mut v = data.clone();
            v.insert(0, b'#');
            let mut s = Splitter::new(Bytes::from(v));
            s.next_byte();
            s.rest_or_default()
        }
    };
    if r.chance(1, 4) {
        base = base.secret();
    }
    let m = gen::msg(r, true);
    let w = gen::wire(&m);
    let msg = ServerMsg::parse(w.clone()).ok().map(|p| (gen::of_server(&p), p.owning()));
    let keep_shared = r.coin();
    let handles: Vec<usize> = (0..nthreads).map(|_| r.range(1, 2)).collect();
    let seeds: Vec<u64> = (0..nthreads).map(|_| r.next()).collect();
    let go = AtomicUsize::new(0);
    let mut outs = Vec::new();
    let holder = keep_shared.then(|| base.clone());
    let mut pools: Vec<Vec<H>> = handles.iter().map(|k| (0..*k).map(|_| H { b: base.clone(), m: data.clone() }).collect()).collect();
    drop(base);
    let mut msgs: Vec<_> = (0..nthreads).map(|_| msg.as_ref().map(|(e, p)| (p.clone(), e.clone()))).collect();
    drop(msg);
    std::thread::scope(|s| {
        let mut joins = Vec::new();
        for t in 0..nthreads {
            let pool = std::mem::take(&mut pools[t]);
            let msg = msgs[t].take();
            let seed = seeds[t];
            let sh = holder.as_ref().map(|h| (h, &data[..]));
            let go = &go;
            joins.push(s.spawn(move || {
                if !cfg!(miri) {
                    go.fetch_add(1, Ordering::Relaxed);
                    while go.load(Ordering::Relaxed) < nthreads {
                        std::hint::spin_loop();
                    }
                }
                body(Rng::new(seed), pool, sh, msg, steps)
            }));
        }
        for j in joins {
            match j.join() {
                Ok(o) => outs.push(o),
                Err(_) => outs.push(Out { bad: vec![("thread-panic", String::new())], ops: vec![], vecs: 0 }),
            }
        }
    });
    drop(holder);
    c.desc = format!("{} over {nthreads} threads: {:?}", show(&data), outs.iter().map(|o| &o.ops).collect::<Vec<_>>());
    let mut sched = Vec::new();
    for o in &outs {
        for (s, d) in &o.bad {
            c.fail(s, d.clone());
        }
        c.evn("thread-ops", o.ops.len() as u64);
        c.evn("taken-by-value", o.vecs as u64);
        sched.push(o.ops.clone());
    }
    c.ev("cases-run");
    c.seen(&(sched, data));
    let d = c.desc.clone();
    c.sample(|| d);
}
/// One buffer with very many handles, some of which are turned into vectors and changed.
fn crowd(c: &mut Case) {
    let n = if cfg!(miri) { c.rng.range(3, 10) } else { c.rng.pickv(&[3usize, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1025, 65_535, 65_536, 65_537]) };
    let data: Vec<u8> = (0..c.rng.range(1, 30)).map(|_| c.rng.byte()).collect();
    c.desc = format!("{n} handles to {}", show(&data));
    let b: Bytes<'static> = data.clone().into();
    let mut all: Vec<Bytes<'static>> = (0..n).map(|_| b.clone()).collect();
    drop(b);
    let mut ok = true;
    while ok && all.len() > 1 {
        let mut x = all.pop().unwrap();
        match c.rng.below(4) {
            0 => x.transform(vinezombie::string::tf::AsciiCasemap::<true>),
            1 => x = x.owning(),
            _ => (),
        }
        let mut v = x.into_vec();
        v.fill(0xa5);
        let h = &all[c.rng.below(all.len())];
        if h.as_bytes() != data {
            c.fail("crowd", format!("with {} handles left another one reads {}", all.len(), show(h.as_bytes())));
            ok = false;
            std::mem::forget(std::mem::take(&mut all));
            std::mem::forget(v);
            break;
        }
        c.ev("crowd-ops");
        // Fewer, but with a stop at every place again.
        if c.rng.chance(1, 40) {
            let k = c.rng.range(1, all.len());
            all.truncate(k);
        }
    }
    for x in all {
        ck!(c, x.into_vec() == data, "crowd", "the last handle changed");
    }
    c.seen(&(n, data));
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("crowd", 40, 400, crowd);
    // The last two handles of one buffer given up at the same moment, over and over.
    ctx.run("pair", 1500, 20_000, |c| threads(c, 2, 3));
    ctx.run("many", 500, 6000, |c| threads(c, 4, 12));
    if !cfg!(miri) {
        ctx.run("long", 60, 1500, |c| threads(c, 4, 300));
    }
    ctx.require("thread-ops", 500);
    ctx.require("taken-by-value", 50);
}
