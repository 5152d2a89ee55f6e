//! The scheduler: exactly one simulated thread runs at any time, across every
//! simulated process. Who runs next, when a timer fires early and which fault
//! fires are decided here and nowhere else.
use crate::shm::*;
use crate::sys;
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
pub fn set_tid(v: i32) {
    TID.with(|t| t.set(v))
}
/// True if the caller is a simulated thread whose actions the simulator sees.
#[inline(always)]
pub fn live() -> bool {
    tid() >= 0 && QUIET.with(|q| q.get()) == 0
}
/// Runs `f` with no scheduling points, faults or simulated blocking.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1))
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn below(r: &mut u64, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    splitmix(r) % n
}

pub fn mix(v: u64) {
    let s = shm();
    s.hash = (s.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
}

/// Appends to the textual event log (only when tracing).
pub fn trace(args: core::fmt::Arguments) {
    let s = shm();
    if s.trace == 0 {
        return;
    }
    struct W;
    impl core::fmt::Write for W {
        fn write_str(&mut self, t: &str) -> core::fmt::Result {
            let s = shm();
            let n = t.len();
            if (s.loglen as usize) + n < LOGCAP {
                s.log[s.loglen as usize..s.loglen as usize + n].copy_from_slice(t.as_bytes());
                s.loglen += n as u64;
            }
            Ok(())
        }
    }
    let _ = core::fmt::Write::write_fmt(&mut W, format_args!("[{:>9}] t{} ", s.steps, tid()));
    let _ = core::fmt::Write::write_fmt(&mut W, args);
    let _ = core::fmt::Write::write_str(&mut W, "\n");
}

fn record(key: u64, val: u64) {
    let s = shm();
    if s.norec != 0 {
        return;
    }
    if (s.nrec as usize) < MAXREC {
        s.rec[s.nrec as usize] = Rec { key, val };
        s.nrec += 1;
    }
}
fn ov_lookup(key: u64) -> Option<u64> {
    let s = shm();
    let (mut lo, mut hi) = (0usize, s.nov as usize);
    while lo < hi {
        let m = (lo + hi) / 2;
        if s.ov[m].key < key {
            lo = m + 1
        } else {
            hi = m
        }
    }
    if lo < s.nov as usize && s.ov[lo].key == key {
        Some(s.ov[lo].val)
    } else {
        None
    }
}
pub const K_STEP: u64 = 1 << 56;
pub const K_BLOCK: u64 = 2 << 56;
pub const K_FAULT: u64 = 16 << 56;
const LEAP: u64 = 1 << 32;

fn arm_next_event() {
    let s = shm();
    match s.policy {
        POL_REPLAY => {
            // step decisions come first in the sorted override list
            while (s.ovpos as usize) < s.nov as usize
                && s.ov[s.ovpos as usize].key >> 56 == 1
                && s.ov[s.ovpos as usize].key & ((1 << 56) - 1) <= s.steps
            {
                s.ovpos += 1;
            }
            s.next_event = if (s.ovpos as usize) < s.nov as usize && s.ov[s.ovpos as usize].key >> 56 == 1 {
                s.ov[s.ovpos as usize].key & ((1 << 56) - 1)
            } else {
                u64::MAX
            };
        }
        POL_PCT => {
            let mut m = u64::MAX;
            for i in 0..s.npct as usize {
                if s.pct[i] > s.steps && s.pct[i] < m {
                    m = s.pct[i];
                }
            }
            s.next_event = m;
        }
        _ => {
            // geometric-ish: uniform in [1, 2*mean]
            let d = 1 + below(&mut s.rng, 2 * s.mean as u64);
            s.next_event = s.steps + d;
        }
    }
}

pub fn start_scheduling() {
    arm_next_event();
}

fn recompute_deadline() {
    let s = shm();
    let mut m = u64::MAX;
    for i in 0..s.nthreads as usize {
        let t = &s.threads[i];
        if t.st == ST_BLOCK && t.deadline < m {
            m = t.deadline;
        }
    }
    s.next_deadline = m;
}
fn fire_timers() {
    let s = shm();
    for i in 0..s.nthreads as usize {
        let t = &mut s.threads[i];
        if t.st == ST_BLOCK && t.deadline <= s.now {
            t.st = ST_RUN;
            t.timed_out = 1;
            t.wkind = 0;
            t.deadline = u64::MAX;
            s.wakeseq += 1;
            if s.policy == POL_PCT {
                s.next_event = s.steps + 1;
            }
        }
    }
    recompute_deadline();
}

/// Picks the next thread to run. `me` is the caller if it may keep running.
fn pick(me: i32, keykind: u64) -> i32 {
    let s = shm();
    let mut c = [0u8; MAXT];
    let mut n;
    loop {
        n = 0;
        for i in 0..s.nthreads as usize {
            if s.threads[i].st == ST_RUN {
                c[n] = i as u8;
                n += 1;
            }
        }
        if n > 0 {
            break;
        }
        let mut idle = -1i32;
        let mut hz = u64::MAX;
        for i in 0..s.nthreads as usize {
            if s.threads[i].st == ST_IDLE && (idle < 0 || s.threads[i].deadline < hz) {
                idle = i as i32;
                hz = s.threads[i].deadline;
            }
        }
        let dl = s.next_deadline;
        if dl != u64::MAX && !(idle >= 0 && hz < dl) {
            if dl > s.now {
                s.now = dl;
            }
            fire_timers();
            continue;
        }
        if idle >= 0 {
            if hz != u64::MAX && hz > s.now {
                s.now = hz;
            }
            s.threads[idle as usize].st = ST_RUN;
            continue;
        }
        deadlock();
    }
    let cur = if me >= 0 && s.threads[me as usize].st == ST_RUN { me } else { -1 };
    let dflt = if cur >= 0 {
        cur
    } else {
        // the next runnable thread after the last one that ran
        let base = s.cur;
        let mut d = c[0] as i32;
        for k in 0..n {
            if c[k] as i32 > base {
                d = c[k] as i32;
                break;
            }
        }
        d
    };
    let key = if keykind == K_STEP {
        K_STEP | s.steps
    } else {
        s.blocks += 1;
        K_BLOCK | s.blocks
    };
    if n == 1 && cur < 0 {
        return c[0] as i32;
    }
    let mut leap = 0u64;
    let choice = match s.policy {
        POL_REPLAY => match ov_lookup(key) {
            Some(v) => {
                leap = v & LEAP;
                let t = (v & 0xffff) as usize;
                if t < MAXT && s.threads[t].st == ST_RUN {
                    t as i32
                } else {
                    dflt
                }
            }
            None => dflt,
        },
        POL_PCT => {
            if keykind == K_STEP && cur >= 0 {
                // a change point: the running thread drops to the bottom
                let mut at_change = false;
                for i in 0..s.npct as usize {
                    if s.pct[i] == s.steps {
                        at_change = true;
                    }
                }
                if at_change {
                    s.prio_low -= 1;
                    s.threads[cur as usize].prio = s.prio_low;
                }
            }
            let mut b = c[0] as usize;
            for k in 0..n {
                if s.threads[c[k] as usize].prio > s.threads[b].prio {
                    b = c[k] as usize;
                }
            }
            b as i32
        }
        POL_STARVE => {
            let mut m = 0;
            for k in 0..n {
                if s.threads[c[k] as usize].ord != s.starve || s.rng & 0x700 == 0 {
                    c[m] = c[k];
                    m += 1;
                }
            }
            if m == 0 {
                m = 1;
            }
            c[below(&mut s.rng, m as u64) as usize] as i32
        }
        _ => c[below(&mut s.rng, n as u64) as usize] as i32,
    };
    if s.policy != POL_REPLAY && keykind == K_STEP && s.leap > 0 && s.next_deadline != u64::MAX
        && below(&mut s.rng, 1000) < s.leap as u64
    {
        leap = LEAP;
    }
    if choice != dflt || leap != 0 {
        record(key, choice as u64 | leap);
    }
    if leap != 0 && s.next_deadline != u64::MAX {
        if s.next_deadline > s.now {
            s.now = s.next_deadline;
        }
        s.fired[F_LEAP as usize] += 1;
        fire_timers();
    }
    choice
}

#[inline]
pub unsafe fn go_atom(i: i32) -> &'static AtomicU32 {
    &*(&shm().threads[i as usize].go as *const u32 as *const AtomicU32)
}
fn hand_to(next: i32) {
    unsafe {
        let a = go_atom(next);
        a.store(1, Ordering::SeqCst);
        sys::futex_wake(a as *const AtomicU32 as *const u32, 1);
    }
}
pub fn wait_go(me: i32) {
    loop {
        unsafe {
            let a = go_atom(me);
            while a.load(Ordering::SeqCst) == 0 {
                sys::futex_wait(a as *const AtomicU32 as *const u32, 0);
            }
            a.store(0, Ordering::SeqCst);
        }
        if me == 0 && shm().cmd != CMD_NONE {
            supervise();
            let next = pick(-1, K_BLOCK);
            note_switch(next);
            if next == 0 {
                return;
            }
            hand_to(next);
            continue;
        }
        return;
    }
}
fn note_switch(next: i32) {
    let s = shm();
    s.switches += 1;
    let from = s.last_site;
    let to = s.threads[next as usize].site;
    s.order = (s.order ^ ((next as u64) << 32 | from as u64)).wrapping_mul(0x100000001b3).rotate_left(13);
    let h = (from.wrapping_mul(0x9E3779B1) ^ to.wrapping_mul(0x85EBCA77)) >> 16;
    s.pairs[h as usize & 0xffff] = 1;
    s.cur = next;
    mix((next as u64) << 48 ^ s.steps);
    trace(format_args!("-> t{next} (now={} ns)", s.now));
}
fn switch(me: i32, next: i32) {
    if next == me {
        return;
    }
    let s = shm();
    s.threads[me as usize].site = s.last_site;
    note_switch(next);
    hand_to(next);
    wait_go(me);
}

/// Runs on the root process's main thread: kills or reaps a simulated process.
fn supervise() {
    let s = shm();
    let cmd = s.cmd;
    let p = s.cmd_proc as usize;
    s.cmd = CMD_NONE;
    unsafe {
        match cmd {
            CMD_FINISH => sys::exit_group(0),
            CMD_KILL | CMD_REAP => {
                let pid = s.procs[p].pid;
                if cmd == CMD_KILL {
                    sys::sc3(libc::SYS_kill, pid as u64, libc::SIGKILL as u64, 0);
                }
                let mut st = 0i32;
                loop {
                    let r = sys::sc4(libc::SYS_wait4, pid as u64, &mut st as *mut i32 as u64, 0, 0);
                    if r != -(libc::EINTR as i64) {
                        break;
                    }
                }
                s.procs[p].alive = 0;
                s.procs[p].exit = st;
                if cmd == CMD_KILL {
                    s.procs[p].crashed = 1;
                }
                // the kernel has closed its descriptors: its locks are gone
                wake(W_FLOCK, 0, None, usize::MAX);
                wake(W_COND, KEY_PROC | p as u64, None, usize::MAX);
            }
            _ => {}
        }
    }
}
pub const KEY_PROC: u64 = 0xffff_0000_0000_0000;

fn die_all(p: u32) {
    let s = shm();
    for i in 0..s.nthreads as usize {
        let t = &mut s.threads[i];
        if t.proc == p && t.st != ST_EXIT {
            t.st = ST_DEAD;
            t.deadline = u64::MAX;
        }
    }
    recompute_deadline();
}
/// Ends the calling simulated process: with `crash`, as a SIGKILL would.
pub fn end_proc(crash: bool) -> ! {
    let s = shm();
    let me = tid();
    let p = s.threads[me as usize].proc;
    if p == 0 {
        finish(OUT_HARNESS);
    }
    die_all(p);
    s.cmd = if crash { CMD_KILL } else { CMD_REAP };
    s.cmd_proc = p;
    s.cur = 0;
    mix(0xdead ^ p as u64 ^ s.steps);
    trace(format_args!("process {p} {}", if crash { "crashes" } else { "exits" }));
    unsafe {
        if crash {
            hand_to(0);
            loop {
                sys::sc3(libc::SYS_pause, 0, 0, 0);
            }
        } else {
            hand_to(0);
            sys::exit_group(0)
        }
    }
}

pub fn finish(outcome: u32) -> ! {
    let s = shm();
    if s.outcome == OUT_NONE {
        s.outcome = outcome;
    }
    unsafe {
        let me = tid();
        if me >= 0 && s.threads[me as usize].proc != 0 {
            s.cmd = CMD_FINISH;
            hand_to(0);
            loop {
                sys::sc3(libc::SYS_pause, 0, 0, 0);
            }
        }
        sys::exit_group(0)
    }
}
fn deadlock() -> ! {
    finish(OUT_DEADLOCK)
}

/// The step budget is used up: from here on faults stop and the schedule is
/// fair; a run that still does not end makes no progress.
#[cold]
#[inline(never)]
fn over() {
    let s = shm();
    if s.umem[42] != 0 {
        // A long computation in one thread is not a lack of progress (yet).
        if s.switches - s.umem[43] < 250_000 && s.steps < 400_000_000 {
            s.maxsteps += 5_000_000;
            return;
        }
        finish(OUT_STEPS);
    }
    s.umem[42] = 1;
    s.umem[43] = s.switches;
    s.faults_on = 0;
    s.leap = 0;
    for p in s.procs.iter_mut() {
        p.crash_in = 0;
    }
    if s.policy != POL_REPLAY {
        s.policy = POL_RANDOM;
        s.mean = 50;
    }
    s.maxsteps = s.maxsteps.saturating_mul(2).saturating_add(1_000_000);
    arm_next_event();
    trace(format_args!("step budget used up: faults stop, fair scheduling"));
}

#[cold]
#[inline(never)]
fn slow_point(me: i32) {
    let s = shm();
    if s.now >= s.next_deadline {
        fire_timers();
    }
    if s.steps >= s.next_event {
        let next = pick(me, K_STEP);
        arm_next_event();
        switch(me, next);
    }
}

/// A scheduling point: the only place where a running thread is preempted.
#[inline]
pub fn point(site: u32) {
    let me = tid();
    if me < 0 || QUIET.with(|q| q.get()) != 0 {
        return;
    }
    let s = shm();
    s.steps += 1;
    s.now += 40;
    s.last_site = site;
    let p = s.threads[me as usize].proc as usize;
    if p != 0 {
        s.procs[p].points += 1;
        if s.procs[p].crash_in > 0 {
            s.procs[p].crash_in -= 1;
            if s.procs[p].crash_in == 0 {
                s.fired[F_CRASH as usize] += 1;
                end_proc(true);
            }
        }
    }
    if s.steps >= s.maxsteps {
        over();
    }
    if s.steps >= s.next_event || s.now >= s.next_deadline {
        slow_point(me);
    }
}

/// Blocks the caller; returns true if the deadline passed.
pub fn block(kind: u32, key: u64, deadline: u64) -> bool {
    let me = tid();
    let s = shm();
    let t = &mut s.threads[me as usize];
    t.st = ST_BLOCK;
    t.wkind = kind;
    t.wkey = key;
    t.deadline = deadline;
    t.timed_out = 0;
    s.wakeseq += 1;
    t.bseq = s.wakeseq;
    if deadline < s.next_deadline {
        s.next_deadline = deadline;
    }
    trace(format_args!("blocks kind={kind} key={key:x}"));
    let next = pick(-1, K_BLOCK);
    switch(me, next);
    let to = shm().threads[me as usize].timed_out != 0;
    to
}
/// Blocks the caller until nothing else can run before `horizon`.
pub fn wait_idle(horizon: u64) {
    let me = tid();
    let s = shm();
    s.threads[me as usize].st = ST_IDLE;
    s.threads[me as usize].deadline = horizon;
    let next = pick(-1, K_BLOCK);
    switch(me, next);
    shm().threads[me as usize].deadline = u64::MAX;
}
/// Wakes up to `n` threads that wait for (kind, key).
pub fn wake(kind: u32, key: u64, proc: Option<u32>, n: usize) -> usize {
    let s = shm();
    let mut done = 0;
    // FIFO, as the kernel does.
    while done < n {
        let mut b = usize::MAX;
        for i in 0..s.nthreads as usize {
            let t = &s.threads[i];
            if t.st == ST_BLOCK
                && t.wkind == kind
                && t.wkey == key
                && proc.map_or(true, |p| p == t.proc)
                && (b == usize::MAX || t.bseq < s.threads[b].bseq)
            {
                b = i;
            }
        }
        if b == usize::MAX {
            break;
        }
        let t = &mut s.threads[b];
        t.st = ST_RUN;
        t.wkind = 0;
        t.deadline = u64::MAX;
        t.timed_out = 0;
        done += 1;
    }
    if done > 0 {
        recompute_deadline();
        if s.policy == POL_PCT {
            s.next_event = s.steps + 1;
        }
    }
    done
}

pub fn yield_now() {
    let me = tid();
    let s = shm();
    s.steps += 1;
    s.now += 200;
    if s.steps >= s.maxsteps {
        over();
    }
    if s.now >= s.next_deadline {
        fire_timers();
    }
    if s.policy == POL_PCT {
        s.prio_low -= 1;
        s.threads[me as usize].prio = s.prio_low;
    }
    // The yielding thread only keeps running if nobody else can.
    s.threads[me as usize].st = ST_BLOCK;
    let mut any = false;
    for i in 0..s.nthreads as usize {
        if s.threads[i].st == ST_RUN {
            any = true;
        }
    }
    if !any {
        // let time pass: a spinning thread must not stop the clock
        s.threads[me as usize].st = ST_RUN;
        s.threads[me as usize].deadline = u64::MAX;
        s.now += 1000;
        return;
    }
    s.threads[me as usize].wkind = 0;
    s.threads[me as usize].deadline = u64::MAX;
    let next = pick(-1, K_BLOCK);
    s.threads[me as usize].st = ST_RUN;
    switch(me, next);
}

pub fn new_thread(proc: u32) -> i32 {
    let s = shm();
    let i = s.nthreads as usize;
    if i >= MAXT {
        return -1;
    }
    s.nthreads += 1;
    s.spawned += 1;
    let prio = (1 << 30) + (splitmix(&mut s.rng) as u32 & 0xffffff);
    s.threads[i] = Thread {
        st: ST_RUN,
        go: 0,
        proc,
        wkind: 0,
        wkey: 0,
        deadline: u64::MAX,
        timed_out: 0,
        prio,
        pthread: 0,
        joined: 0,
        ord: i as u32,
        site: 0,
        pad: 0,
        bseq: 0,
    };
    if s.policy == POL_PCT {
        s.next_event = s.steps + 1;
    }
    i as i32
}
pub fn exit_thread() {
    let me = tid();
    let s = shm();
    s.threads[me as usize].st = ST_EXIT;
    let proc = s.threads[me as usize].proc;
    wake(W_JOIN, me as u64, Some(proc), usize::MAX);
    trace(format_args!("thread exits"));
    let next = pick(-1, K_BLOCK);
    note_switch(next);
    set_tid(-1);
    hand_to(next);
}

// ---- faults and other decisions -------------------------------------------
macro_rules! faults { ($($i:ident = $n:expr, $s:expr;)*) => {
    $(pub const $i: u32 = $n;)*
    pub const FAULT_NAMES: &[(u32, &str)] = &[$(($n, $s)),*];
} }
faults! {
    F_LEAP = 0, "clock_leap_over_runnable_threads";
    F_CRASH = 1, "process_crash";
    F_EINTR_R = 2, "read_eintr";
    F_SHORT_R = 3, "short_read";
    F_EIO_R = 4, "read_error";
    F_EINTR_W = 5, "write_eintr";
    F_SHORT_W = 6, "short_write";
    F_EIO_W = 7, "write_error";
    F_ENOSPC = 8, "disk_full";
    F_OPEN = 9, "open_error";
    F_RENAME = 10, "rename_error";
    F_META = 11, "metadata_syscall_error";
    F_FLOCK_EINTR = 12, "flock_eintr";
    F_FLOCK_UNSUP = 13, "flock_unsupported";
    F_SPURIOUS = 14, "spurious_futex_wake";
    F_STALL = 15, "peer_stall";
    F_EOF = 16, "connection_eof";
    F_GARBAGE = 17, "corrupt_input";
    F_SKEW = 18, "wall_clock_jump";
    F_EPIPE = 19, "output_closed";
    F_DUP = 20, "duplicate_message";
    F_REORDER = 21, "reordered_delivery";
    F_DROP = 22, "lost_notification";
    F_PANIC = 23, "task_panic";
    F_UNLINK = 24, "unlink_error";
    F_CHUNK = 25, "delayed_chunk";
    F_NFS = 26, "nfs_mount";
    F_TEMPCLASH = 27, "name_collision";
    F_DELAY = 28, "delivery_delay";
    F_OUT = 29, "output_write_error";
    F_FLOCK_ERR = 30, "flock_error";
    F_RDONLY = 31, "read_only_file_not_removable";
    F_STATFS = 32, "statfs_error";
}

/// Decides among 0..n for `kind`; 0 is "nothing happens". A fault fires with
/// the run's rate for its kind (per 1000).
pub fn fault(kind: u32, n: u64) -> u64 {
    let s = shm();
    if s.faults_on == 0 || s.rate[kind as usize] == 0 || n < 2 {
        return 0;
    }
    s.occ[kind as usize] += 1;
    let key = (K_FAULT + ((kind as u64) << 56)) | s.occ[kind as usize];
    let v = if s.policy == POL_REPLAY {
        ov_lookup(key).unwrap_or(0) % n
    } else if below(&mut s.frng, 1000) < s.rate[kind as usize] as u64 {
        1 + below(&mut s.frng, n - 1)
    } else {
        0
    };
    if v != 0 {
        record(key, v);
        s.fired[kind as usize] += 1;
        mix((kind as u64) << 32 | v);
        trace(format_args!("fault kind={kind} value={v}"));
    }
    v
}
pub fn count_fault(kind: u32) {
    shm().fired[kind as usize] += 1;
}
