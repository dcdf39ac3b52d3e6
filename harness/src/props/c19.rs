//! Read timeouts, rate-limit waits and write timeouts on the virtual clock.
use crate::engine::*;
use crate::infra::*;
use crate::mock::*;
use crate::sys::*;
use std::time::Duration;
use vinezombie::client::{channel::SyncChannels, handlers::{YieldAll, AutoPong}, Client};
use vinezombie::ircmsg::ClientMsg;

const MS: i64 = 1_000_000;
/// A connection that ends: everything complete that came before is delivered, the end is an error and no timeout.
fn ending(c: &mut Case) {
    vclock_start();
    let tokio = c.rng.coin();
    let drv = Driver::new(tokio);
    let mut w = World::new(Rng::new(c.rng.next()));
    w.interrupts = c.rng.coin();
    let mut at = vnow();
    let n = c.rng.below(5);
    for i in 0..n {
        at += c.rng.pickv(&[0, 1, 400, 1000, 2500, 9000]) * MS;
        let l = format!("{} :{i}{}\r\n", c.rng.pick(&["PING", "NOTICE a", "001 me", ":s PRIVMSG x"]), "y".repeat(c.rng.pickv(&[0, 0, 9, 300])));
        let cut = c.rng.below(l.len());
        if cut > 0 {
            w.feed(at, l[..cut].as_bytes());
            if c.rng.chance(1, 4) {
                at += c.rng.pickv(&[1, 700, 3000]) * MS;
            }
        }
        w.feed(at, l[cut..].as_bytes());
    }
    // Perhaps it ends within a message.
    let partial = c.rng.chance(1, 3);
    if partial {
        w.feed(at, c.rng.pick(&["PING :unfinished", "P", ":s ", "PING x\r"]).as_bytes());
    }
    let eof = at + c.rng.pickv(&[0, 0, 1, 999, 1000, 1500, 5000, 30_000]) * MS;
    w.eof = Some(eof);
    let (conn, w) = Conn::new(w);
    let mut cl = Client::new(conn, SyncChannels);
    let rto = if c.rng.coin() { None } else { Some(c.rng.pickv(&[1i64, 500, 1000, 1001, 2000, 10_000]) * MS) };
    cl.set_read_timeout(rto.map(|t| Duration::from_nanos(t as u64)));
    let (delay, burst) = (c.rng.pickv(&[0u64, 300, 2000]), c.rng.pickv(&[0, 1, 4]));
    cl.queue_mut().set_rate_limit(Duration::from_millis(delay), burst);
    let queued = c.rng.below(5);
    for _ in 0..queued {
        cl.queue_mut().edit().push(ClientMsg::parse("PRIVMSG a :b").unwrap());
    }
    let pong = c.rng.coin();
    if pong {
        let _ = cl.add((), AutoPong);
    }
    let (_, rx) = cl.add((), YieldAll).unwrap();
    c.desc = format!("tokio {tokio} messages {n} partial {partial} end {} ms rto {:?} ms rate {delay}/{burst} queued {queued}", (eof - vnow()) / MS, rto.map(|t| t / MS));
    let (mut runs, mut outs) = (0, 0);
    loop {
        let from = vnow();
        match drv.run(&mut cl, &w) {
            Outcome::Ran(y, f) => {
                runs += 1;
                ck!(c, y.len() == 1 && f.is_empty(), "end-report", "run {runs}: {y:?} {f:?}");
                ck!(c, runs <= n, "end-invented", "{runs} runs with results, {n} messages");
                if runs > n {
                    break;
                }
            }
            Outcome::TimedOut => {
                outs += 1;
                c.ev("ending_timeouts");
                let Some(r) = rto else {
                    c.fail("end-timeout", "a timeout that nobody asked for");
                    break;
                };
                let waited = vnow() - from;
                ck!(c, waited + 2 * MS >= r.max(1000 * MS), "end-timeout", "a timeout after {} ms, {} ms before the end", waited / MS, (eof - vnow()) / MS);
                if outs > 200 {
                    c.fail("end-missed", "never ends");
                    break;
                }
            }
            Outcome::Err(k, s) => {
                ck!(c, !matches!(k, std::io::ErrorKind::TimedOut | std::io::ErrorKind::WouldBlock), "end-kind", "{k:?} {s}");
                ck!(c, vnow() >= eof, "end-early", "{k:?} {s} {} ms before the end", (eof - vnow()) / MS);
                ck!(c, runs == n, "end-lost", "{runs} of {n} messages before {k:?} {s}");
                c.ev("endings");
                if partial {
                    c.ev("endings_in_message");
                }
                break;
            }
            Outcome::Blocked => {
                c.fail("end-missed", "waits although the connection ended");
                break;
            }
        }
    }
    // It stays that way.
    if c.rng.coin() {
        match drv.run(&mut cl, &w) {
            Outcome::Err(..) => (),
            o => c.fail("end-again", format!("after the end: {o:?}")),
        }
    }
    vclock_stop();
    let got = rx.try_iter().count();
    ckeq!(c, got, n, "end-lost", "messages delivered");
    let d = c.desc.clone();
    c.seen(&d);
}

const J: Judge = Judge { dispatch: false, timing: true };
pub fn run(ctx: &mut Ctx) {
    ctx.run("slow", 8000, 80_000, |c| history(c, J, Style::Slow));
    ctx.run("stall", 4000, 40_000, |c| history(c, J, Style::Stall));
    ctx.run("ending", 1500, 15_000, ending);
    ctx.require("endings", 500);
    ctx.require("endings_in_message", 100);
    ctx.run("dispatch", 1000, 10_000, |c| history(c, J, Style::Dispatch));
    for (k, n) in [("messages", 3000), ("waited_for_message", 500), ("timeout", 500), ("timeout_fn", 300), ("timeout_in_message", 100), ("timeout_fn_broke", 30), ("waited_for_rate", 300), ("stalls_survived", 300), ("write_timeouts", 100), ("blocked", 50)] {
        ctx.require(k, n);
    }
}
