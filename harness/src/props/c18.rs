//! Handler dispatch, results and queue output of the synchronous and asynchronous client.
use crate::engine::*;
use crate::infra::*;

const J: Judge = Judge { dispatch: true, timing: false };
pub fn run(ctx: &mut Ctx) {
    ctx.run("dispatch", 6000, 60_000, |c| history(c, J, Style::Dispatch));
    ctx.run("slow", 2000, 20_000, |c| history(c, J, Style::Slow));
    ctx.run("stall", 500, 5_000, |c| history(c, J, Style::Stall));
    ctx.run("yielding", 2000, 20_000, yielding);
    for (k, n) in [("parsed", 500), ("parsed_many", 500), ("calls", 5000), ("yields", 1000), ("finishes", 500), ("sent", 1000), ("runs", 1000), ("flush_runs", 200), ("reset", 200), ("with_conn", 100), ("discarded", 50), ("adjusted_away", 20), ("both_clients", 500), ("values", 1000), ("crowds", 20), ("waited_for_rate", 100)] {
        ctx.require(k, n);
    }
}

// ---------------------------------------------------------------- the stock yielding handlers
use crate::gen;
use crate::mock::*;
use crate::sys::{vclock_start, vclock_stop, vnow};
use std::sync::mpsc::Receiver;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::{YieldAll, YieldParsed};
use vinezombie::client::Client;
use vinezombie::ircmsg::{ServerMsg, TargetedMsg};
use vinezombie::names::cmd::*;
use vinezombie::string::Line;

type TM = TargetedMsg<'static, Line<'static>>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Want {
    tags: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
    source: Option<gen::RSource>,
    target: Vec<u8>,
    value: Vec<u8>,
}
fn of_tm(m: &TM) -> Want {
    Want { tags: gen::of_tags(&m.tags), source: m.source.as_deref().map(gen::of_source), target: m.target.as_bytes().to_vec(), value: m.value.as_bytes().to_vec() }
}
/// The reading of a message as command `k` with or without a target.
fn want(k: &str, m: &gen::RMsg) -> Option<Want> {
    if m.kind != k.as_bytes() {
        return None;
    }
    let (target, value) = match (k, m.args.len()) {
        ("QUIT" | "WALLOPS", 1) => (b"*".to_vec(), m.args[0].clone()),
        ("QUIT" | "WALLOPS", _) => return None,
        (_, 2) => (m.args[0].clone(), m.args[1].clone()),
        _ => return None,
    };
    Some(Want { tags: m.tags.clone(), source: m.source.clone(), target, value })
}
fn yielding(c: &mut Case) {
    vclock_start();
    let tokio = c.rng.coin();
    let drv = Driver::new(tokio);
    let mut w = World::new(Rng::new(c.rng.next()));
    w.eof = Some(vnow());
    let mut all: Vec<gen::RMsg> = vec![];
    for _ in 0..c.rng.range(1, 12) {
        let mut m = gen::msg(&mut c.rng, true);
        if c.rng.chance(3, 4) {
            m.kind = c.rng.pick(&["PRIVMSG", "NOTICE", "QUIT", "PART", "TOPIC", "JOIN", "WALLOPS", "privmsg"]).as_bytes().to_vec();
            if c.rng.chance(2, 3) {
                let n = if m.kind == b"QUIT" || m.kind == b"WALLOPS" { 1 } else { 2 };
                m.args = gen::args(&mut c.rng, n);
            }
        }
        let mut line = gen::wire(&m);
        line.extend_from_slice(b"\r\n");
        // Judged on the message the parser makes of the line (C03 judges that).
        let Ok(p) = ServerMsg::parse(gen::wire(&m)) else { continue };
        all.push(gen::of_server(&p));
        let cut = c.rng.below(line.len());
        w.feed(vnow(), &line[..cut]);
        w.feed(vnow(), &line[cut..]);
    }
    w.input.retain(|(_, b)| !b.is_empty());
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    let (_, rx_all) = cl.add((), YieldAll).unwrap();
    let ks: Vec<&'static str> = vec!["PRIVMSG", "NOTICE", "QUIT", "PART", "TOPIC", "WALLOPS"];
    // One handler for one kind, one for several, one that multiplies, one that filters.
    let i = c.rng.below(ks.len());
    fn just(k: &str) -> YieldParsed<TM> {
        match k {
            "PRIVMSG" => YieldParsed::just(PRIVMSG),
            "NOTICE" => YieldParsed::just(NOTICE),
            "QUIT" => YieldParsed::just(QUIT),
            "PART" => YieldParsed::just(PART),
            "TOPIC" => YieldParsed::just(TOPIC),
            _ => YieldParsed::just(WALLOPS),
        }
    }
    fn with(h: YieldParsed<TM>, k: &str, times: usize) -> YieldParsed<TM> {
        let f = move |m: TM| vec![m; times];
        let o = move |m: TM| (times == 1).then_some(m);
        #[allow(deprecated)]
        match (k, times) {
            ("PRIVMSG", 0) => h.with_map(PRIVMSG, o),
            ("NOTICE", 0) => h.with_map(NOTICE, o),
            ("QUIT", 1) => h.with_map(QUIT, o),
            ("PRIVMSG", 1) => h.with(PRIVMSG),
            ("NOTICE", 1) => h.with(NOTICE),
            ("PART", 1) => h.with(PART),
            ("TOPIC", 1) => h.with(TOPIC),
            ("WALLOPS", 1) => h.with(WALLOPS),
            ("PRIVMSG", _) => h.with_flat_map(PRIVMSG, f),
            ("NOTICE", _) => h.with_flat_map(NOTICE, f),
            ("QUIT", _) => h.with_flat_map(QUIT, f),
            ("PART", _) => h.with_flat_map(PART, f),
            ("TOPIC", _) => h.with_flat_map(TOPIC, f),
            _ => h.with_flat_map(WALLOPS, f),
        }
    }
    let (_, rx_one): (_, Receiver<TM>) = cl.add((), just(ks[i])).unwrap();
    let mut h = YieldParsed::new();
    let mut times = std::collections::BTreeMap::new();
    for _ in 0..c.rng.range(0, 6) {
        let k = ks[c.rng.below(ks.len())];
        let t = if c.rng.chance(1, 20) { c.rng.below(60) } else { c.rng.below(4) };
        times.insert(k, t);
        h = with(h, k, t);
    }
    if c.rng.chance(1, 3) {
        // Starting out with one kind, the other ways of saying so.
        let k = ks[c.rng.below(ks.len())];
        let t = if c.rng.chance(1, 10) { c.rng.below(60) } else { c.rng.below(4) };
        times = [(k, t)].into();
        let f = move |m: TM| vec![m; t];
        let o = move |m: TM| (t == 1).then_some(m);
        #[allow(deprecated)]
        {
        h = match k {
            "NOTICE" if t < 2 => YieldParsed::just_map(NOTICE, o),
            "TOPIC" if t < 2 => YieldParsed::just_map(TOPIC, o),
            "PRIVMSG" => YieldParsed::just_flat_map(PRIVMSG, f),
            "NOTICE" => YieldParsed::just_flat_map(NOTICE, f),
            "QUIT" => YieldParsed::just_flat_map(QUIT, f),
            "PART" => YieldParsed::just_flat_map(PART, f),
            "TOPIC" => YieldParsed::just_flat_map(TOPIC, f),
            _ => YieldParsed::just_flat_map(WALLOPS, f),
        };
        }
        for _ in 0..c.rng.range(0, 3) {
            let k = ks[c.rng.below(ks.len())];
            let t = c.rng.below(3);
            times.insert(k, t);
            h = with(h, k, t);
        }
    }
    let (_, rx_many): (_, Receiver<TM>) = cl.add((), h).unwrap();
    let mut dropped = None;
    if c.rng.coin() {
        dropped = Some(cl.add((), YieldAll).unwrap().0);
    }
    let mut n = 0;
    loop {
        match drv.run(&mut cl, &w) {
            Outcome::Ran(_, f) => {
                n += 1;
                ckeq!(c, f, if n == 1 { Vec::from_iter(dropped) } else { vec![] }, "finish-report", "run {n}: a handler without a receiver ends, the others do not");
            }
            Outcome::Err(std::io::ErrorKind::UnexpectedEof, _) => break,
            o => {
                c.fail("run-error", format!("{o:?}"));
                break;
            }
        }
    }
    vclock_stop();
    ckeq!(c, n, all.len(), "runs", "one result per message");
    let got: Vec<gen::RMsg> = rx_all.try_iter().map(|m| gen::of_server(&m)).collect();
    ck!(c, got == all, "yield-all", "received {got:?}, expected {all:?}");
    let got: Vec<Want> = rx_one.try_iter().map(|m| of_tm(&m)).collect();
    let exp: Vec<Want> = all.iter().filter_map(|m| want(ks[i], m)).collect();
    ck!(c, got == exp, "yield-parsed", "{}: received {got:?}, expected {exp:?}", ks[i]);
    c.evn("parsed", exp.len() as u64);
    let got: Vec<Want> = rx_many.try_iter().map(|m| of_tm(&m)).collect();
    let exp: Vec<Want> = all
        .iter()
        .flat_map(|m| times.iter().filter_map(|(k, t)| want(k, m).map(|w| vec![w; *t])).flatten().collect::<Vec<_>>())
        .collect();
    ck!(c, got == exp, "yield-parsed", "{times:?}: received {got:?}, expected {exp:?}");
    c.evn("parsed_many", exp.len() as u64);
    c.seen(&all.iter().map(gen::wire).collect::<Vec<_>>());
}
