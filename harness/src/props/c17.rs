//! The rate-limited queue against a list and a token bucket, on a virtual clock.
use crate::gen;
use crate::infra::*;
use crate::sys::{vadvance, vclock_start, vclock_stop, vnow};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::time::Duration;
use vinezombie::client::queue::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::*;

fn msg(r: &mut Rng, n: u64) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(Cmd::try_from(gen::cmd(r)).unwrap());
    let mut e = m.args.edit();
    e.add_word(Arg::try_from(format!("{n}")).unwrap());
    if r.coin() {
        e.add(Line::try_from(gen::line(r, 20)).unwrap_or_default());
    }
    m
}
/// The number a message was made with.
fn num(m: &ClientMsg) -> Option<u64> {
    m.args.all().and_then(|a| a.first()).or(m.args.words().first()).and_then(|a| std::str::from_utf8(a.as_bytes()).ok().and_then(|s| s.parse().ok()))
}
fn label(m: &ClientMsg) -> Option<Vec<u8>> {
    m.tags.get("label").map(|v| v.as_bytes().to_vec())
}

struct Model {
    q: VecDeque<(u64, Option<Vec<u8>>)>,
    delay: i64,
    burst: i64,
    /// Theoretical arrival time: when the bucket is empty again.
    tat: i64,
    /// (time, ) of every message that left since the limits last changed.
    left: Vec<i64>,
}
impl Model {
    fn wait(&self) -> i64 {
        (self.tat - self.burst * self.delay - vnow()).max(0)
    }
}

struct Drop1 {
    m: u64,
    armed: u64,
    /// Asks to adjust on message kinds with this bit set.
    on: u64,
    resets: Arc<AtomicUsize>,
    seen: Arc<AtomicUsize>,
    updates: Arc<AtomicUsize>,
}
/// Whether an adjuster with mask `on` reacts to a message of kind `v`.
fn reacts(on: u64, v: u64) -> bool {
    on >> (v % 8) & 1 == 1
}
impl Adjuster for Drop1 {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.seen.fetch_add(1, Relaxed);
        let v = msg.args.words().first().map(|a| a.len() as u64).unwrap_or(0);
        self.armed = v % self.m;
        reacts(self.on, v)
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        self.updates.fetch_add(1, Relaxed);
        num(msg).map(|n| n % self.m != self.armed).unwrap_or(true)
    }
    fn reset(&mut self) {
        self.resets.fetch_add(1, Relaxed);
    }
}

/// Drops everything, whatever comes.
struct Always;
impl Adjuster for Always {
    fn update(&mut self, _: &mut ClientMsg<'_>) -> bool {
        false
    }
    fn reset(&mut self) {}
}
/// An adjuster that does not say when it wants to be used is used on every message.
fn always(c: &mut Case) {
    let n = c.rng.below(5) as u64;
    let mut q = Queue::from_iter((0..n).map(|i| msg(&mut c.rng, i)));
    if c.rng.coin() {
        q.use_adjuster(Always);
    } else {
        let mut m = MultiAdjuster::new();
        m.add(Always);
        q.use_adjuster(m);
    }
    q.adjust(&ServerMsg::parse(gen::wire(&gen::msg(&mut c.rng, true))).unwrap());
    ck!(c, q.is_empty(), "adjuster-default", "{} of {n} left", q.len());
    c.ev("default_adjusters");
}
/// Nothing is updated by an adjuster that was not asked about a message yet.
fn multi_fresh(c: &mut Case, m: &mut MultiAdjuster, adj: &[(u64, u64)]) {
    for i in 0..6u64 {
        let mut msg = msg(&mut c.rng, i);
        let kept = m.update(&mut msg);
        ck!(c, kept && num(&msg) == Some(i), "adjuster-unasked", "message {i}, adjusters {adj:?}");
    }
    c.ev("fresh_adjusters");
}
fn history(c: &mut Case) {
    vclock_start();
    let r = history_in(c);
    vclock_stop();
    r
}
fn history_in(c: &mut Case) {
    let mut trace = String::new();
    let mut next = 0u64;
    let mut md = Model { q: VecDeque::new(), delay: 2_000_000_000, burst: 4, tat: vnow(), left: vec![] };
    let k = c.rng.below(4);
    let init: Vec<ClientMsg<'static>> = (0..c.rng.below(4))
        .map(|_| {
            next += 1;
            md.q.push_back((next, None));
            msg(&mut c.rng, next)
        })
        .collect();
    let mut q = match k {
        0 => Queue::from(init),
        1 => init.into_iter().collect::<Queue>(),
        2 => Queue::from(init.into_iter().collect::<VecDeque<_>>()),
        _ => {
            let mut q = if c.rng.coin() { Queue::new() } else { Queue::default() };
            q.extend(init);
            q
        }
    };
    let mut labels: HashSet<Vec<u8>> = HashSet::new();
    let mut labeler = 0; // 0 none, 1 default, 2 custom
    let custom = Arc::new(AtomicUsize::new(0));
    let (resets, seen, updates) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let mut adj: Vec<(u64, u64)> = vec![];
    let mut n_resets = 0;
    let mut n_seen = 0;
    let steps = c.rng.range(10, 60);
    for _ in 0..steps {
        if trace.len() > 600 {
            trace = trace.split_off(300);
        }
        match c.rng.below(20) {
            0..=5 => {
                // An edit session, possibly nested, possibly discarded.
                let mut e = q.edit();
                ck!(c, e.is_empty() && e.len() == 0, "guard-len", "a new guard claims {} messages", e.len());
                ck!(c, e.is_using_labeler() == (labeler != 0), "guard-labeler", "");
                let outer0 = md.q.len();
                let n = c.rng.below(5);
                trace += &format!(" edit{n}");
                for _ in 0..n {
                    next += 1;
                    let mut m = msg(&mut c.rng, next);
                    match c.rng.below(4) {
                        0 | 1 => {
                            e.push(m);
                            md.q.push_back((next, None));
                        }
                        2 => {
                            if c.rng.chance(1, 4) {
                                m.tags.edit().insert_pair(Key::from_str("label"), NoNul::from_str("old"));
                            }
                            let old = label(&m);
                            let l = e.push_labeled(m);
                            ck!(c, l.is_some() == (labeler != 0), "label-offered", "{l:?} with labeler {labeler}");
                            if let Some(l) = &l {
                                ck!(c, labels.insert(l.as_bytes().to_vec()), "label-unique", "{l} was handed out before");
                                if labeler == 2 {
                                    ckeq!(c, l.as_bytes(), format!("x{}", custom.load(Relaxed)).as_bytes(), "label-custom", "");
                                }
                                c.ev("labeled");
                            }
                            md.q.push_back((next, l.map(|l| l.as_bytes().to_vec()).or(old)));
                        }
                        _ => {
                            let inner0 = md.q.len();
                            let mut i = e.edit();
                            for _ in 0..c.rng.below(3) {
                                next += 1;
                                i.push(msg(&mut c.rng, next));
                                md.q.push_back((next, None));
                            }
                            ckeq!(c, i.len(), md.q.len() - inner0, "inner-len", "");
                            if c.rng.coin() {
                                i.clear();
                                md.q.truncate(inner0);
                                ck!(c, i.is_empty(), "inner-clear", "");
                                trace += "!";
                                c.ev("inner_discarded");
                            }
                        }
                    }
                    ckeq!(c, e.len(), md.q.len() - outer0, "guard-len", "");
                }
                if c.rng.chance(1, 6) {
                    e.clear();
                    md.q.truncate(outer0);
                    ck!(c, e.is_empty(), "guard-clear", "");
                    trace += "~";
                    c.ev("discarded");
                }
            }
            6..=12 => {
                // Pop until it refuses (or a few times).
                let n = if c.rng.coin() { 1000 } else { c.rng.range(1, 3) };
                for _ in 0..n {
                    let mut told: Option<Option<Duration>> = None;
                    let got = q.pop(|d| told = Some(d));
                    let wait = md.wait();
                    trace += if got.is_some() { " pop" } else { " no" };
                    c.desc.clone_from(&trace);
                    match (&got, md.q.front()) {
                        (Some(m), Some((n, l))) => {
                            ck!(c, told.is_none(), "wait-on-success", "{told:?}");
                            ckeq!(c, num(m), Some(*n), "order", "");
                            ckeq!(c, label(m), *l, "label-sent", "message {n}");
                            ck!(c, wait == 0, "too-early", "message {n} left {wait} ns early");
                            md.tat = md.tat.max(vnow()) + md.delay;
                            md.left.push(vnow());
                            md.q.pop_front();
                            c.ev("sent");
                            // Independent of the bucket: no window holds too many.
                            let now = vnow();
                            for (i, t) in md.left.iter().enumerate() {
                                let count = (md.left.len() - i) as i64;
                                if md.delay > 0 {
                                    let max = 1 + md.burst + (now - t) / md.delay;
                                    ck!(c, count <= max, "window", "{count} messages in {} ns, delay {} burst {}", now - t, md.delay, md.burst);
                                }
                            }
                        }
                        (None, None) => {
                            ckeq!(c, told, Some(None), "empty-wait", "");
                            c.ev("empty");
                            break;
                        }
                        (None, Some(_)) => {
                            match told {
                                Some(Some(d)) => {
                                    ck!(c, d.as_nanos() as i64 == wait && wait > 0, "wait", "told {d:?}, expected {wait} ns");
                                    c.ev("limited");
                                    // Wait a little less, or exactly that.
                                    if c.rng.chance(1, 3) {
                                        let dn = d.as_nanos() as i64;
                                        vadvance(dn - 1);
                                        ck!(c, q.pop(|_| ()).is_none(), "too-early", "1 ns before the announced time");
                                        vadvance(1);
                                        let m = q.pop(|_| ());
                                        ck!(c, m.is_some(), "too-late", "nothing after the announced wait of {d:?}");
                                        if let Some(m) = m {
                                            ckeq!(c, num(&m), md.q.front().map(|x| x.0), "order", "");
                                            md.q.pop_front();
                                            md.tat = md.tat.max(vnow()) + md.delay;
                                            md.left.push(vnow());
                                            trace += " wait-pop";
                                            c.ev("sent_on_time");
                                        }
                                        continue;
                                    }
                                }
                                t => c.fail("wait-missing", format!("{t:?}")),
                            }
                            break;
                        }
                        (Some(m), None) => {
                            let m = format!("{m:?}");
                            c.fail("invented", m);
                            break;
                        }
                    }
                }
            }
            13 | 14 => {
                let d = match c.rng.below(5) {
                    0 => 1,
                    1 => c.rng.below(2_000_000_000) as i64,
                    2 => md.delay,
                    3 => md.delay * md.burst + c.rng.below(3) as i64 - 1,
                    _ => c.rng.below(60) as i64 * 1_000_000_000,
                };
                vadvance(d.max(0));
                trace += &format!(" +{d}");
                c.ev("advance");
            }
            15 => {
                let delay = c.rng.pickv(&[0i64, 1, 1_000_000, 333_333_333, 1_000_000_000, 2_000_000_000, 60_000_000_000]);
                let burst = c.rng.pickv(&[0i64, 1, 2, 4, 5, 30]);
                q.set_rate_limit(Duration::from_nanos(delay as u64), burst as u32);
                // As if the whole burst had just been used up.
                md.delay = delay;
                md.burst = burst;
                md.tat = vnow() + delay * (burst + 1);
                md.left.clear();
                trace += &format!(" limit({delay},{burst})");
                c.ev("set_rate_limit");
            }
            16 => {
                // Server message: the adjuster may drop queued messages.
                let words = c.rng.range(0, 4);
                let line = format!(":srv NOTICE {}", "x".repeat(words + 1));
                let sm = ServerMsg::parse(line).unwrap();
                let old = md.q.len();
                let before = updates.load(Relaxed);
                q.adjust(&sm);
                let v = words as u64 + 1;
                n_seen += adj.len();
                // Everyone who asked to is shown every queued message once; any one may drop it.
                let asked = adj.iter().filter(|(_, on)| reacts(*on, v)).count();
                md.q.retain(|(n, _)| adj.iter().all(|(m, on)| !reacts(*on, v) || n % m != v % m));
                ckeq!(c, updates.load(Relaxed) - before, asked * old, "adjuster-updates", "{old} messages queued, adjusters {adj:?}, server message kind {v}");
                if asked > 0 && asked < adj.len() {
                    c.ev("some_adjusters");
                }
                if md.q.len() != old {
                    c.ev("adjusted");
                }
                ckeq!(c, seen.load(Relaxed), n_seen, "adjuster-asked", "{} adjusters", adj.len());
                trace += &format!(" adjust({v})");
            }
            17 => {
                adj.clear();
                let n = c.rng.below(4);
                let mk = |adj: &mut Vec<(u64, u64)>, r: &mut Rng| {
                    let m = r.range(2, 5) as u64;
                    let on = r.next();
                    adj.push((m, on));
                    Drop1 { m, armed: 0, on, resets: resets.clone(), seen: seen.clone(), updates: updates.clone() }
                };
                match n {
                    0 => {
                        q.use_no_adjuster();
                    }
                    1 => {
                        let d = mk(&mut adj, &mut c.rng);
                        q.use_adjuster(d);
                    }
                    2 => {
                        let mut m = MultiAdjuster::new();
                        if c.rng.chance(1, 4) {
                            for _ in 0..c.rng.below(3) {
                                m.add(Always);
                            }
                            m.clear();
                            ck!(c, m.is_empty() && m.len() == 0, "multi-len", "cleared");
                        }
                        for _ in 0..c.rng.below(4) {
                            let d = mk(&mut adj, &mut c.rng);
                            m.add(d);
                        }
                        ck!(c, m.len() == adj.len() && m.is_empty() == adj.is_empty(), "multi-len", "");
                        multi_fresh(c, &mut m, &adj);
                        q.use_adjuster(m);
                    }
                    _ => {
                        let v: Vec<Box<dyn Adjuster>> = (0..c.rng.below(4)).map(|_| Box::new(mk(&mut adj, &mut c.rng)) as _).collect();
                        let mut m = v.into_iter().collect::<MultiAdjuster>();
                        multi_fresh(c, &mut m, &adj);
                        q.use_adjuster(m);
                    }
                }
                trace += &format!(" adjuster{adj:?}");
            }
            18 => {
                labels.clear();
                labeler = c.rng.below(3);
                match labeler {
                    0 => q.use_no_labeler(),
                    1 => q.use_labeler_default(),
                    _ => {
                        let n = custom.clone();
                        q.use_labeler(move || NoNul::try_from(format!("x{}", n.fetch_add(1, Relaxed) + 1)).unwrap())
                    }
                };
                trace += &format!(" labeler{labeler}");
            }
            _ => {
                if c.rng.coin() {
                    q.clear();
                    md.q.clear();
                    trace += " clear";
                    c.ev("clear");
                } else {
                    q.reset();
                    md.q.clear();
                    md.tat = vnow();
                    md.left.clear();
                    labeler = 0;
                    n_resets += adj.len();
                    ckeq!(c, resets.load(Relaxed), n_resets, "adjuster-reset", "");
                    trace += " reset";
                    c.ev("reset");
                }
            }
        }
        c.desc.clone_from(&trace);
        ckeq!(c, q.len(), md.q.len(), "len", "");
        ckeq!(c, q.is_empty(), md.q.is_empty(), "is_empty", "");
        ckeq!(c, q.is_using_labeler(), labeler != 0, "labeler", "");
        c.seen(&(md.q.len(), md.wait(), md.delay, md.burst, labeler, c.idx));
    }
    // Everything left goes out, in order.
    let mut guard = 0;
    while let Some(front) = md.q.pop_front() {
        loop {
            let mut w = None;
            match q.pop(|d| w = d) {
                Some(m) => {
                    ckeq!(c, num(&m), Some(front.0), "order", "draining");
                    c.ev("drained");
                    break;
                }
                None => match w {
                    Some(d) => vadvance(d.as_nanos() as i64),
                    None => {
                        c.fail("lost", format!("message {} never left", front.0));
                        return;
                    }
                },
            }
            guard += 1;
            if guard > 10_000 {
                c.fail("stuck", "queue never drains");
                return;
            }
        }
    }
    c.sample(|| trace.clone());
}
/// The default labeler over many labels.
fn labels(c: &mut Case) {
    let mut q = Queue::new();
    q.use_labeler_default();
    let mut seen = HashSet::new();
    let mut sent: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    for n in 0..70_000u64 {
        let m = msg(&mut c.rng, n);
        match q.edit().push_labeled(m) {
            Some(l) => {
                ck!(c, !l.is_empty(), "empty-label", "label {n}");
                ck!(c, seen.insert(l.as_bytes().to_vec()), "label-unique", "{l} handed out again after {n} labels");
                sent.insert(n, l.as_bytes().to_vec());
            }
            None => c.fail("label-offered", "none"),
        }
    }
    q.set_rate_limit(Duration::ZERO, 0);
    for n in 0..70_000u64 {
        let Some(m) = q.pop(|_| ()) else {
            c.fail("lost", "queue empty too early");
            break;
        };
        ckeq!(c, num(&m), Some(n), "order", "");
        ckeq!(c, label(&m), sent.get(&n).cloned(), "label-sent", "{n}");
        c.ev("many_labels");
    }
    c.seen("labels");
}
/// Long-run rate: a busy queue with a default limit, over hours of virtual time.
fn long_run(c: &mut Case) {
    vclock_start();
    let mut q = Queue::new();
    let (delay, burst) = if c.rng.coin() {
        (2_000_000_000i64, 4i64)
    } else {
        let d = c.rng.range(1, 5_000_000_000) as i64;
        let b = c.rng.below(20) as i64;
        q.set_rate_limit(Duration::from_nanos(d as u64), b as u32);
        (d, b)
    };
    c.desc = format!("delay {delay} burst {burst}");
    let mut times: Vec<i64> = vec![];
    let mut n = 0u64;
    let mut want = 0u64;
    for _ in 0..400 {
        for _ in 0..c.rng.below(4) {
            q.edit().push(msg(&mut c.rng, n));
            n += 1;
        }
        let mut w = None;
        while let Some(m) = q.pop(|d| w = d) {
            ckeq!(c, num(&m), Some(want), "order", "");
            want += 1;
            times.push(vnow());
        }
        match (w, c.rng.below(3)) {
            (Some(d), 0) => vadvance(d.as_nanos() as i64),
            (Some(d), 1) => vadvance(c.rng.below(d.as_nanos() as usize + 1) as i64),
            _ => vadvance(c.rng.below(delay as usize * 3 + 1) as i64),
        }
    }
    for i in 0..times.len() {
        for j in i..times.len().min(i + 200) {
            let max = 1 + burst + (times[j] - times[i]) / delay;
            if (j - i + 1) as i64 > max {
                c.fail("window", format!("{} messages in {} ns", j - i + 1, times[j] - times[i]));
                vclock_stop();
                return;
            }
        }
    }
    c.evn("long_run_sent", times.len() as u64);
    c.seen(&times);
    vclock_stop();
}
/// Many queued messages and large bursts.
fn bulk(c: &mut Case) {
    vclock_start();
    let n = gen::tail(&mut c.rng, 3000);
    let mut made = 0u64;
    let mut mk = |r: &mut Rng| {
        made += 1;
        msg(r, made - 1)
    };
    let first: Vec<_> = (0..c.rng.below(n + 1)).map(|_| mk(&mut c.rng)).collect();
    let nf = first.len();
    let mut q = match c.rng.below(4) {
        0 => Queue::from(first),
        1 => first.into_iter().collect::<Queue>(),
        2 => Queue::from(first.into_iter().collect::<VecDeque<_>>()),
        _ => {
            let mut q = Queue::new();
            q.extend(first);
            q
        }
    };
    let delay = c.rng.pickv(&[1i64, 1_000_000, 2_000_000_000]);
    let burst = if c.rng.coin() { c.rng.below(n * 2 + 1) } else { n.saturating_sub(c.rng.below(3)) } as i64;
    let limits = c.rng.coin();
    let (delay, burst) = if limits { (delay, burst) } else { (2_000_000_000, 4) };
    if limits {
        q.set_rate_limit(Duration::from_nanos(delay as u64), burst as u32);
        // Let the whole burst come back.
        vadvance(delay * (burst + 1));
    }
    if c.rng.coin() {
        q.extend((nf..n).map(|_| mk(&mut c.rng)).collect::<Vec<_>>());
    } else {
        let mut e = q.edit();
        for _ in nf..n {
            e.push(mk(&mut c.rng));
        }
        ckeq!(c, e.len(), n - nf, "guard-len", "");
    }
    c.desc = format!("{n} messages ({nf} first), delay {delay} burst {burst}");
    ckeq!(c, q.len(), n, "len", "");
    let mut want = 0u64;
    let mut rounds = 0;
    while want < n as u64 {
        let mut w = None;
        let from = want;
        while let Some(m) = q.pop(|d| w = d) {
            ckeq!(c, num(&m), Some(want), "order", "");
            want += 1;
            if want > n as u64 {
                break;
            }
        }
        let left = n as u64 - want;
        ckeq!(c, q.len() as u64, left, "len", "");
        let exp = if rounds == 0 { (burst as u64 + 1).min(n as u64) } else { 1 };
        ckeq!(c, want - from, exp, "burst", "round {rounds}");
        if left == 0 {
            break;
        }
        ckeq!(c, w.map(|d| d.as_nanos() as i64), Some(delay), "wait", "round {rounds}");
        vadvance(delay);
        rounds += 1;
    }
    c.evn("bulk_sent", want);
    c.seen(&(n, nf, delay, burst));
    vclock_stop();
}
pub fn run(ctx: &mut Ctx) {
    ctx.run("history", 4000, 40_000, history);
    ctx.run_all("labels", 1, labels);
    ctx.run("bulk", 40, 400, bulk);
    ctx.run("default-adjuster", 20, 20, always);
    ctx.run("long", 60, 600, long_run);
    for (k, n) in [("sent", 3000), ("limited", 500), ("sent_on_time", 200), ("labeled", 500), ("adjusted", 50), ("set_rate_limit", 500), ("reset", 300), ("discarded", 100), ("inner_discarded", 200), ("drained", 500), ("many_labels", 60_000), ("bulk_sent", 2000), ("some_adjusters", 50), ("long_run_sent", 5000)] {
        ctx.require(k, n);
    }
}
