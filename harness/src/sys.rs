//! Watchdog, virtual clock (by symbol interposition) and instrumented allocator.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- allocator
pub struct MonAlloc;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static SCAN_ON: AtomicBool = AtomicBool::new(false);
pub static SCAN_HITS: AtomicU64 = AtomicU64::new(0);
pub static SCANNED: AtomicU64 = AtomicU64::new(0);
/// Length of the freed block that contained the needle, and the needle's index.
pub static HIT_LEN: AtomicUsize = AtomicUsize::new(0);
pub static HIT_NEEDLE: AtomicUsize = AtomicUsize::new(0);
/// Pieces of secrets to look for in freed blocks: fixed-size, set while SCAN_ON is false.
pub const NEEDLE: usize = 8;
pub const MAX_NEEDLES: usize = 256;
pub static mut NEEDLES: [[u8; NEEDLE]; MAX_NEEDLES] = [[0; NEEDLE]; MAX_NEEDLES];
/// Which bytes a needle starts with.
pub static mut NEEDLE_FIRST: [bool; 256] = [false; 256];
pub static N_NEEDLES: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static SCAN_THREAD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn scan_this_thread(on: bool) {
    SCAN_THREAD.with(|c| c.set(on));
}

unsafe fn scan(ptr: *const u8, len: usize) {
    if !SCAN_ON.load(Relaxed) {
        return;
    }
    let on = SCAN_THREAD.try_with(|c| c.get()).unwrap_or(false);
    if !on || len < NEEDLE {
        return;
    }
    SCANNED.fetch_add(1, Relaxed);
    let n = N_NEEDLES.load(Relaxed);
    let mut i = 0;
    while i + NEEDLE <= len {
        // Reading a block that is being freed: possibly uninitialised bytes, read volatile.
        let mut w = [0u8; NEEDLE];
        w[0] = std::ptr::read_volatile(ptr.add(i));
        if !(*std::ptr::addr_of!(NEEDLE_FIRST))[w[0] as usize] {
            i += 1;
            continue;
        }
        for (j, x) in w.iter_mut().enumerate() {
            *x = std::ptr::read_volatile(ptr.add(i + j));
        }
        for k in 0..n {
            let nd = std::ptr::addr_of!(NEEDLES[k]);
            if w == *nd {
                SCAN_HITS.fetch_add(1, Relaxed);
                HIT_LEN.store(len, Relaxed);
                HIT_NEEDLE.store(k, Relaxed);
                return;
            }
        }
        i += 1;
    }
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        TOTAL_BYTES.fetch_add(l.size() as u64, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        let p = System.alloc(l);
        // Fresh memory gets a fixed pattern while scanning, so that stale contents of an earlier
        // owner never look like an unwiped secret.
        if SCAN_ON.load(Relaxed) && !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        FREES.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        scan(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if SCAN_ON.load(Relaxed) {
            // Always move, so that the released block is visible to the scan.
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let np = self.alloc(nl);
            if !np.is_null() {
                std::ptr::copy_nonoverlapping(p, np, l.size().min(new));
                self.dealloc(p, l);
            }
            return np;
        }
        TOTAL_BYTES.fetch_add(new.saturating_sub(l.size()) as u64, Relaxed);
        LIVE_BYTES.fetch_add(new as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, new)
    }
}

#[cfg(not(miri))]
pub use native::*;
#[cfg(not(miri))]
mod native {
    use super::*;
    use libc::{c_int, c_long, timespec};

    // ------------------------------------------------------------ clocks
    pub static VIRT: AtomicBool = AtomicBool::new(false);
    /// Virtual monotonic time in ns.
    pub static VNOW: AtomicI64 = AtomicI64::new(0);
    pub static IDLE_FOREVER: AtomicU64 = AtomicU64::new(0);

    unsafe fn raw_clock(clk: c_int, ts: *mut timespec) -> c_int {
        libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int
    }
    pub fn cpu_ns(clk: c_int) -> i64 {
        let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { raw_clock(clk, &mut ts) };
        ts.tv_sec * 1_000_000_000 + ts.tv_nsec
    }
    pub fn real_ns() -> i64 {
        cpu_ns(libc::CLOCK_MONOTONIC)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
        if VIRT.load(Relaxed) && matches!(clk, libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME) {
            let n = VNOW.load(Relaxed);
            (*ts).tv_sec = n / 1_000_000_000;
            (*ts).tv_nsec = n % 1_000_000_000;
            return 0;
        }
        raw_clock(clk, ts)
    }
    unsafe fn vsleep(req: *const timespec) {
        let d = (*req).tv_sec.saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec);
        VNOW.fetch_add(d, Relaxed);
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
        if VIRT.load(Relaxed) {
            vsleep(req);
            return 0;
        }
        libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(
        clk: c_int,
        flags: c_int,
        req: *const timespec,
        rem: *mut timespec,
    ) -> c_int {
        if VIRT.load(Relaxed) && clk == libc::CLOCK_MONOTONIC {
            if flags & libc::TIMER_ABSTIME != 0 {
                let d = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
                VNOW.fetch_max(d, Relaxed);
            } else {
                vsleep(req);
            }
            return 0;
        }
        let r = libc::syscall(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req, rem);
        if r == -1 {
            *libc::__errno_location()
        } else {
            0
        }
    }
    /// In virtual time an idle event loop advances the clock by its timeout instead of waiting.
    #[no_mangle]
    pub unsafe extern "C" fn epoll_wait(
        fd: c_int,
        evs: *mut libc::epoll_event,
        max: c_int,
        timeout: c_int,
    ) -> c_int {
        let raw = |t: c_int| {
            libc::syscall(
                libc::SYS_epoll_pwait,
                fd as c_long,
                evs,
                max as c_long,
                t as c_long,
                std::ptr::null::<u8>(),
                8usize,
            ) as c_int
        };
        if VIRT.load(Relaxed) {
            let r = raw(0);
            if r != 0 || timeout == 0 {
                return r;
            }
            if timeout < 0 {
                IDLE_FOREVER.fetch_add(1, Relaxed);
                if IDLE_FOREVER.load(Relaxed) > 1000 {
                    return raw(50);
                }
                return 0;
            }
            VNOW.fetch_add(timeout as i64 * 1_000_000, Relaxed);
            return 0;
        }
        raw(timeout)
    }
    pub fn vclock_start() {
        VNOW.store(1_000_000_000_000, Relaxed);
        IDLE_FOREVER.store(0, Relaxed);
        VIRT.store(true, SeqCst);
    }
    pub fn vclock_stop() {
        VIRT.store(false, SeqCst);
    }
    pub fn vnow() -> i64 {
        VNOW.load(Relaxed)
    }
    pub fn vadvance(ns: i64) {
        VNOW.fetch_add(ns, Relaxed);
    }

    // ------------------------------------------------------------ watchdog
    /// CPU-time budget of one case. Generous: ordinary cases take microseconds to milliseconds.
    pub static CASE_CPU_BUDGET_NS: AtomicI64 = AtomicI64::new(20_000_000_000);
    pub static CASE_ALLOC_BUDGET: AtomicU64 = AtomicU64::new(6 << 30);

    pub fn start_watchdog(out: String, prop: String, seed: u64, shard: u64) {
        let mut clk: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut at_cpu = 0i64;
            let mut at_alloc = 0u64;
            let mut ticks = 0u32;
            loop {
                unsafe {
                    let ts = timespec { tv_sec: 0, tv_nsec: 200_000_000 };
                    libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<timespec>());
                }
                let p = crate::infra::PROGRESS.load(Relaxed);
                let cpu = cpu_ns(clk);
                let alloc = TOTAL_BYTES.load(Relaxed);
                if p != last {
                    last = p;
                    at_cpu = cpu;
                    at_alloc = alloc;
                    ticks = 0;
                    continue;
                }
                let kind = if cpu - at_cpu > CASE_CPU_BUDGET_NS.load(Relaxed) {
                    "hang"
                } else if alloc - at_alloc > CASE_ALLOC_BUDGET.load(Relaxed) {
                    "runaway-allocation"
                } else if ticks > 700 {
                    // 140 s of waiting in a case that takes milliseconds: blocked for good.
                    "stuck"
                } else {
                    ticks += 1;
                    continue;
                };
                let crumb = std::fs::read_to_string(format!("{out}.crumb")).unwrap_or_default();
                let mut it = crumb.split_whitespace();
                let stream = it.next().unwrap_or("?").to_string();
                let case: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                let j = serde_json::json!({
                    "prop": prop, "seed": seed, "shard": shard, "evals": p, "nontrivial": 0,
                    "counters": {}, "samples": [], "required": [],
                    "violations": [{"sig": format!("{kind}:{stream}"), "stream": stream, "case": case,
                        "detail": format!("case used {:.1}s CPU and allocated {} MB without finishing",
                            (cpu - at_cpu) as f64 / 1e9, (alloc - at_alloc) >> 20)}],
                });
                let _ = std::fs::write(&out, serde_json::to_vec(&j).unwrap());
                let _ = std::fs::write(format!("{out}.distinct"), b"");
                unsafe { libc::_exit(3) };
            }
        });
    }
}
