//! Parking: every signal wakes, nothing else does.
use super::c20::{gate, spin};
use crate::infra::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{mpsc, Arc};
use std::ops::ControlFlow;
use vinezombie::client::channel::{oneshot, parker, Sender, Sent};

/// A sender that answers as the value says: taken and open, taken and closed now, or closed.
#[derive(Clone)]
struct Script(mpsc::Sender<usize>);
impl Sender for Script {
    type Value = usize;
    fn send(&mut self, v: usize) -> ControlFlow<Sent> {
        if v % 3 == 2 {
            return ControlFlow::Break(Sent::Closed);
        }
        let _ = self.0.send(v);
        if v % 3 == 0 {
            ControlFlow::Continue(())
        } else {
            ControlFlow::Break(Sent::Ok)
        }
    }
}

struct Sh {
    gate: AtomicUsize,
    /// Waits that have returned.
    returned: AtomicUsize,
    /// Signals begun.
    begun: AtomicUsize,
    gone: Vec<AtomicBool>,
    stop: AtomicBool,
    /// Values sent through the signalling sender.
    sent: AtomicUsize,
}
fn wait(f: impl Fn() -> bool, stop: &AtomicBool) {
    let t = std::time::Instant::now();
    let mut n = 0u32;
    while !f() && !stop.load(SeqCst) {
        n += 1;
        if cfg!(miri) || n % 64 == 0 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
        // Somebody else will report it.
        if n % 1024 == 0 && !cfg!(miri) && t.elapsed().as_secs() > 40 {
            return;
        }
    }
}
type Bad = Vec<(&'static str, String)>;

/// Rounds of one signal and one wait each, then every unparker goes away.
fn rounds(c: &mut Case) {
    let rounds = if cfg!(miri) { c.rng.range(1, 3) } else { c.rng.range(1, 8) };
    let nthreads = c.rng.range(1, if cfg!(miri) { 2 } else { 3 });
    let noise = c.rng.coin();
    let sh = Arc::new(Sh {
        gate: AtomicUsize::new(0),
        returned: AtomicUsize::new(0),
        begun: AtomicUsize::new(0),
        gone: (0..nthreads).map(|_| AtomicBool::new(false)).collect(),
        stop: AtomicBool::new(false),
        sent: AtomicUsize::new(0),
    });
    c.desc = format!("{rounds} rounds, {nthreads} unparkers, noise {noise}");
    // Who signals in which round; possibly several at once.
    let plan: Vec<Vec<bool>> = (0..rounds)
        .map(|_| {
            let mut v: Vec<bool> = (0..nthreads).map(|_| c.rng.chance(1, 3)).collect();
            let k = c.rng.below(nthreads);
            v[k] = true;
            v
        })
        .collect();
    let strict = plan.iter().all(|p| p.iter().filter(|x| **x).count() == 1);
    let total = nthreads + 1 + noise as usize;
    let (tx, rx) = mpsc::channel::<usize>();
    let (u, p) = parker::new(Script(tx));
    let (done_tx, done) = mpsc::channel();
    let mut r = Rng::new(c.rng.next());
    let s2 = sh.clone();
    let recv = std::thread::spawn(move || {
        let sh = s2;
        let mut bad: Bad = vec![];
        gate(&sh.gate, total);
        for k in 1..=rounds {
            spin(&mut r);
            p.park();
            let begun = sh.begun.load(SeqCst);
            if begun < k {
                bad.push(("woke-early", format!("wait {k} returned after {begun} signals")));
            }
            sh.returned.store(k, SeqCst);
        }
        // Now everyone leaves; left-over signals of the last rounds may satisfy some waits.
        let mut extra = 0;
        loop {
            spin(&mut r);
            p.park();
            if sh.gone.iter().all(|g| g.load(SeqCst)) {
                break;
            }
            extra += 1;
            let begun = sh.begun.load(SeqCst);
            if rounds + extra > begun {
                bad.push(("woke-early", format!("{} waits returned after {begun} signals, unparkers still there", rounds + extra)));
                break;
            }
        }
        // Nobody left: at most one left-over signal away from never waiting again.
        if sh.gone.iter().all(|g| g.load(SeqCst)) {
            sh.stop.store(true, SeqCst);
            p.park();
            p.park();
        }
        sh.stop.store(true, SeqCst);
        let _ = done_tx.send(());
        (bad, extra, rx)
    });
    let th = recv.thread().clone();
    let mut us: Vec<_> = (1..nthreads).map(|_| u.clone()).collect();
    us.push(u);
    let mut hs = vec![];
    for (i, mut u) in us.into_iter().enumerate() {
        let (sh, mut r, plan) = (sh.clone(), Rng::new(c.rng.next()), plan.clone());
        hs.push(std::thread::spawn(move || {
            gate(&sh.gate, total);
            for (k, p) in plan.iter().enumerate() {
                if !p[i] {
                    continue;
                }
                // The previous wait is over: this signal belongs to the next one.
                wait(|| sh.returned.load(SeqCst) >= k, &sh.stop);
                spin(&mut r);
                sh.begun.fetch_add(1, SeqCst);
                if r.coin() {
                    u.unpark();
                } else {
                    // Sending signals, too.
                    let res = u.send(r.below(2));
                    if Sent::from(res) == Sent::Ok {
                        sh.sent.fetch_add(1, SeqCst);
                    }
                }
                if r.chance(1, 4) {
                    // What could not be sent is no signal.
                    let _ = u.send(2);
                }
                if r.chance(1, 4) {
                    drop(u.clone());
                }
            }
            spin(&mut r);
            sh.gone[i].store(true, SeqCst);
            drop(u);
        }));
    }
    let nh = noise.then(|| {
        let (sh, mut r) = (sh.clone(), Rng::new(c.rng.next()));
        std::thread::spawn(move || {
            gate(&sh.gate, total);
            let mut n = 0u64;
            while !sh.stop.load(SeqCst) && n < if cfg!(miri) { 6 } else { 200 } {
                th.unpark();
                n += 1;
                spin(&mut r);
            }
            n
        })
    });
    let ok = if cfg!(miri) { true } else { done.recv_timeout(std::time::Duration::from_secs(30)).is_ok() || recv.is_finished() };
    if !ok {
        let (b, r) = (sh.begun.load(SeqCst), sh.returned.load(SeqCst));
        sh.stop.store(true, SeqCst);
        c.fail("lost-wakeup", format!("waiting for 30 s; {b} signals begun, {r} waits returned, unparkers gone: {:?}", sh.gone.iter().map(|g| g.load(SeqCst)).collect::<Vec<_>>()));
        return;
    }
    for h in hs {
        if h.join().is_err() {
            return c.fail("panic", "a signalling thread panicked");
        }
    }
    let noise_n = nh.map(|h| h.join().unwrap_or(0)).unwrap_or(0);
    let Ok((bad, extra, rx)) = recv.join() else {
        return c.fail("panic", "the waiting thread panicked");
    };
    for (s, d) in bad {
        c.fail(s, d);
    }
    ckeq!(c, rx.try_iter().count(), sh.sent.load(SeqCst), "values", "values that came with the signals");
    if strict {
        ck!(c, extra == 0, "stale-signal", "{extra} waits satisfied by signals that were used before");
        c.ev("strict");
    }
    c.ev("rounds");
    c.evn("signals", sh.begun.load(SeqCst) as u64);
    c.evn("waits", rounds as u64);
    c.evn("noise", noise_n);
    c.seen(&(plan, noise_n, extra, c.idx));
}
/// Signal first, wait later; drop first, wait later; no thread needed.
fn before(c: &mut Case) {
    let (tx, rx) = mpsc::channel();
    let (u, p) = parker::new(Script(tx));
    let mut sent = 0;
    let mut us = vec![u];
    let mut pending = false;
    let mut trace = String::new();
    for _ in 0..c.rng.range(1, 10) {
        match c.rng.below(6) {
            0 if !us.is_empty() => {
                let i = c.rng.below(us.len());
                us[i].unpark();
                pending = true;
                trace += " unpark";
            }
            4 if !us.is_empty() => {
                let i = c.rng.below(us.len());
                let v = c.rng.below(3);
                let res = us[i].send(v);
                let want = [ControlFlow::Continue(()), ControlFlow::Break(Sent::Ok), ControlFlow::Break(Sent::Closed)][v];
                ckeq!(c, res, want, "send-result", "after{trace}");
                if v != 2 {
                    pending = true;
                    sent += 1;
                }
                trace += &format!(" send{v}");
            }
            1 if !us.is_empty() && us.len() < 4 => {
                let i = c.rng.below(us.len());
                let u = us[i].clone();
                us.push(u);
                trace += " clone";
            }
            2 if !us.is_empty() => {
                let i = c.rng.below(us.len());
                us.swap_remove(i);
                trace += " drop";
            }
            _ => {
                // Only where it may not block; a hang here is reported by the watchdog.
                if pending || us.is_empty() {
                    p.park();
                    pending = false;
                    trace += " park";
                    c.ev("parks_before");
                }
            }
        }
    }
    c.desc.clone_from(&trace);
    ckeq!(c, rx.try_iter().count(), sent, "values", "{trace}");
    c.seen(&trace);
}
/// A blocking receipt whose unparkers outlive the send.
fn kept(c: &mut Case) {
    let n = c.rng.range(1, 3);
    let who = c.rng.below(n + 1);
    c.desc = format!("{n} unparkers, {who} sends");
    let (tx, rx) = oneshot::channel::<usize>();
    let (u, p) = parker::new(Some(tx));
    let mut us: Vec<_> = (1..n).map(|_| u.clone()).collect();
    us.push(u);
    let sent = Arc::new(AtomicBool::new(false));
    let g = Arc::new(AtomicUsize::new(0));
    let (mut r, s2, g2) = (Rng::new(c.rng.next()), sent.clone(), g.clone());
    let (done_tx, done) = mpsc::channel();
    let h = std::thread::spawn(move || {
        gate(&g2, 2);
        spin(&mut r);
        let v = rx.recv(&p);
        let ok = s2.load(SeqCst);
        let _ = done_tx.send(());
        (v, ok)
    });
    gate(&g, 2);
    spin(&mut c.rng);
    if who < n {
        // Whether it is kept or dropped, sent is sent.
        sent.store(true, SeqCst);
        let res = us[who].send(7);
        ckeq!(c, res, ControlFlow::Break(Sent::Ok), "send-result", "");
    } else {
        let last = us.pop();
        us.clear();
        spin(&mut c.rng);
        sent.store(true, SeqCst);
        drop(last);
    }
    if !cfg!(miri) && done.recv_timeout(std::time::Duration::from_secs(30)).is_err() && !h.is_finished() {
        return c.fail("lost-wakeup", format!("a blocking receipt waits for 30 s although {}", if who < n { "the value was sent" } else { "every sender is gone" }));
    }
    let Ok((v, ok)) = h.join() else { return c.fail("panic", "the waiting thread panicked") };
    ck!(c, ok, "woke-early", "received {v:?} before anything was sent");
    ckeq!(c, v, (who < n).then_some(7), "values", "");
    drop(us);
    c.ev("kept");
    c.seen(&(n, who, c.idx));
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("before", 2000, 20_000, before);
    ctx.run("rounds", 2500, 25_000, rounds);
    ctx.run("kept", 2000, 20_000, kept);
    for (k, n) in [("rounds", 500), ("kept", 500), ("signals", 1000), ("waits", 1000), ("strict", 100), ("noise", 100), ("parks_before", 500)] {
        ctx.require(k, n);
    }
}
