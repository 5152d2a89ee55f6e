//! simrt: whole-process deterministic simulation at the libc boundary.
pub mod alloc;
pub mod cov;
pub mod interpose;
pub mod pipe;
pub mod sched;
pub mod shm;
pub mod sys;

pub use sched::{count_fault, fault, live, point, quiet, tid, wait_idle};
use sched::*;
use shm::*;

/// How one run is to be executed.
#[derive(Clone, Debug)]
pub struct RunSpec {
    pub seed: u64,
    /// `Some`: replay these decisions (key, value); everything else is default.
    pub replay: Option<Vec<(u64, u64)>>,
    /// Fault rates per 1000 opportunities.
    pub rates: Vec<(u32, u32)>,
    pub maxsteps: u64,
    pub trace: bool,
    pub scratch: String,
    pub wall_limit_s: u32,
}

#[derive(Clone, Debug, Default)]
pub struct RunResult {
    pub outcome: u32,
    pub prop: String,
    pub msg: String,
    pub rec: Vec<(u64, u64)>,
    pub rec_overflow: bool,
    pub hash: u64,
    pub order: u64,
    pub steps: u64,
    pub switches: u64,
    pub now: u64,
    pub threads: u32,
    pub procs: u32,
    pub escapes: u32,
    pub killed: bool,
    pub status: i32,
    pub log: String,
    pub policy: u32,
}

pub fn setup() {
    cov::filter();
    shm::map();
    interpose::init();
    assert!(interpose::keep() < 1000);
}

fn reset(spec: &RunSpec) {
    let s = shm();
    unsafe {
        let n = core::mem::offset_of!(Shared, rec);
        core::ptr::write_bytes(s as *mut Shared as *mut u8, 0, n);
    }
    s.cur = 0;
    let mut r = spec.seed ^ 0x5151_7ead_beef;
    s.rng = splitmix(&mut r);
    s.frng = splitmix(&mut r);
    s.srng = spec.seed ^ 0x00c0_ffee; // randomness handed to the code under test
    s.hash = 0xcbf29ce484222325;
    s.order = 0xcbf29ce484222325;
    s.realbase = 1_700_000_000_000_000_000 + (spec.seed % 1_000_000) * 1_000_000_000;
    s.maxsteps = spec.maxsteps;
    s.next_deadline = u64::MAX;
    s.faults_on = 1;
    s.prio_low = 1 << 29;
    s.trace = spec.trace as u32;
    for (k, v) in &spec.rates {
        s.rate[*k as usize] = *v;
    }
    let b = spec.scratch.as_bytes();
    s.scratch[..b.len()].copy_from_slice(b);
    s.scratch_len = b.len() as u32;
    match &spec.replay {
        Some(ov) => {
            s.policy = POL_REPLAY;
            let mut ov = ov.clone();
            ov.sort();
            ov.truncate(MAXREC);
            for (i, (k, v)) in ov.iter().enumerate() {
                s.ov[i] = Rec { key: *k, val: *v };
            }
            s.nov = ov.len() as u32;
        }
        None => {
            let mut p = splitmix(&mut r);
            let mut pick = |v: &[u64]| {
                let x = v[(splitmix(&mut p) % v.len() as u64) as usize];
                x
            };
            let kind = pick(&[0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 3]);
            s.policy = kind as u32;
            s.mean = match kind as u32 {
                POL_COARSE => 1_000_000_000,
                POL_STARVE => pick(&[5, 30, 200]) as u32,
                _ => pick(&[2, 4, 10, 30, 100, 400, 2000]) as u32,
            };
            s.starve = pick(&[1, 2, 3, 4, 5]) as u32;
            s.leap = pick(&[0, 0, 0, 5, 50]) as u32;
            s.npct = pick(&[1, 2, 3, 5, 8, 12]) as u32;
            let span = pick(&[300, 2000, 10000, 50000]);
            for i in 0..s.npct as usize {
                s.pct[i] = 1 + splitmix(&mut r) % span;
            }
        }
    }
    s.threads[0] = Thread {
        st: ST_RUN,
        go: 0,
        proc: 0,
        wkind: 0,
        wkey: 0,
        deadline: u64::MAX,
        timed_out: 0,
        prio: (1 << 30) + 0x800000,
        pthread: 0,
        joined: 0,
        ord: 0,
        site: 0,
        pad: 0,
        bseq: 0,
    };
    s.nthreads = 1;
    s.nprocs = 1;
    s.procs[0].alive = 1;
    s.active = 1;
}

extern "C" fn on_alarm(_: i32) {}

/// Runs `f` as the main thread of a fresh simulated world and waits for it.
pub fn execute(spec: &RunSpec, enter: &dyn Fn(), f: &dyn Fn()) -> RunResult {
    reset(spec);
    unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_alarm as usize;
        libc::sigaction(libc::SIGALRM, &sa, core::ptr::null_mut());
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
            libc::setpgid(0, 0);
            enter();
            let c = std::ffi::CString::new(spec.scratch.as_str()).unwrap();
            libc::chdir(c.as_ptr());
            start_scheduling();
            set_tid(0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                finish(OUT_HARNESS);
            }
            finish(OUT_DONE);
        }
        libc::setpgid(pid, pid);
        libc::alarm(spec.wall_limit_s);
        let mut st = 0i32;
        let mut killed = false;
        // a run that is merely slow, on a busy machine, gets more time
        let (mut seen, mut more) = (0u64, 8u32);
        loop {
            let r = sys::sc4(libc::SYS_wait4, pid as u64, &mut st as *mut i32 as u64, 0, 0);
            if r == pid as i64 {
                break;
            }
            if r == -(libc::EINTR as i64) {
                if !killed && libc::getenv(c"VSIM_DEBUG_HANG".as_ptr()) != core::ptr::null_mut() {
                    let c = std::ffi::CString::new(format!("ps -eo pid,ppid,pgid,stat,wchan:30,args | awk '$3=={pid}' ; for p in $(ps -eo pid,pgid | awk '$2=={pid}{{print $1}}'); do for t in /proc/$p/task/*; do echo $t; cat $t/wchan; echo; cat $t/syscall; grep -E 'State|Sig|ctxt' $t/status; done; done")).unwrap();
                    libc::system(c.as_ptr());
                    println!("cur {} go {:?}", shm().cur, (0..shm().nthreads).map(|t| crate::sched::go_atom(t as i32).load(core::sync::atomic::Ordering::SeqCst)).collect::<Vec<_>>());
                }
                let steps = core::ptr::read_volatile(&shm().steps);
                if !killed && steps > seen && more > 0 {
                    seen = steps;
                    more -= 1;
                    libc::alarm(spec.wall_limit_s.div_ceil(2));
                    continue;
                }
                killed = true;
                libc::kill(-pid, libc::SIGKILL);
                libc::alarm(5);
            } else if r < 0 {
                break;
            }
        }
        libc::alarm(0);
        libc::kill(-pid, libc::SIGKILL);
        loop {
            let mut s2 = 0i32;
            let r = sys::sc4(libc::SYS_wait4, u64::MAX, &mut s2 as *mut i32 as u64, 0, 0);
            if r <= 0 {
                break;
            }
        }
        let s = shm();
        let mut out = RunResult {
            outcome: s.outcome,
            hash: s.hash,
            order: s.order,
            steps: s.steps,
            switches: s.switches,
            now: s.now,
            threads: s.nthreads,
            procs: s.nprocs,
            escapes: s.escapes,
            killed,
            status: st,
            policy: s.policy,
            rec_overflow: s.nrec as usize >= MAXREC,
            ..Default::default()
        };
        out.prop = String::from_utf8_lossy(&s.vprop[..s.plen as usize]).into_owned();
        out.msg = String::from_utf8_lossy(&s.vmsg[..s.vlen as usize]).into_owned();
        out.rec = s.rec[..s.nrec as usize].iter().map(|r| (r.key, r.val)).collect();
        if spec.trace {
            out.log = String::from_utf8_lossy(&s.log[..s.loglen as usize]).into_owned();
        }
        out
    }
}

// ---- the interface for scenarios ----------------------------------------------

pub fn now() -> u64 {
    shm().now
}
/// Reports a violation of `prop` and ends the run.
pub fn violate(prop: &str, msg: &str) -> ! {
    let s = shm();
    if s.outcome == OUT_NONE {
        let p = prop.as_bytes();
        let m = msg.as_bytes();
        let pl = p.len().min(64);
        let ml = m.len().min(s.vmsg.len());
        s.vprop[..pl].copy_from_slice(&p[..pl]);
        s.plen = pl as u32;
        s.vmsg[..ml].copy_from_slice(&m[..ml]);
        s.vlen = ml as u32;
    }
    finish(OUT_VIOLATION)
}
/// A problem of the harness itself.
pub fn harness_error(msg: &str) -> ! {
    let s = shm();
    let m = msg.as_bytes();
    let ml = m.len().min(s.vmsg.len());
    s.vmsg[..ml].copy_from_slice(&m[..ml]);
    s.vlen = ml as u32;
    finish(OUT_HARNESS)
}
/// Appends a record to the run's shared history.
pub fn hist(line: &str) {
    let s = shm();
    let b = line.as_bytes();
    let n = s.hlen as usize;
    if n + b.len() + 1 < HISTCAP {
        s.hist[n..n + b.len()].copy_from_slice(b);
        s.hist[n + b.len()] = b'\n';
        s.hlen += b.len() as u64 + 1;
        for c in b {
            s.hash = (s.hash ^ *c as u64).wrapping_mul(0x100000001b3);
        }
    }
    trace(format_args!("hist {line}"));
}
pub fn hist_text() -> &'static str {
    let s = shm();
    unsafe { core::str::from_utf8_unchecked(&s.hist[..s.hlen as usize]) }
}
pub fn probe(i: usize) {
    shm().probe[i] += 1;
}
pub fn faults_off() {
    shm().faults_on = 0;
}
pub fn faults_on() {
    shm().faults_on = 1;
}
pub fn sleep(ns: u64) {
    let s = shm();
    block(W_SLEEP, 0, s.now.saturating_add(ns));
}
pub fn block_on(key: u64) {
    block(W_COND, key, u64::MAX);
}
pub fn block_on_until(key: u64, deadline: u64) -> bool {
    block(W_COND, key, deadline)
}
pub fn wake_all(key: u64) {
    wake(W_COND, key, None, usize::MAX);
}
/// Jumps the wall clock (not the monotonic one).
pub fn jump_wall_clock(delta: i64) {
    let s = shm();
    s.realbase = s.realbase.wrapping_add(delta as u64);
    count_fault(F_SKEW);
}

/// Forks a simulated process. Only thread 0 may do so, with no other thread
/// of its own process alive.
pub fn spawn_proc(f: impl FnOnce()) -> usize {
    let s = shm();
    assert_eq!(tid(), 0);
    let p = s.nprocs as usize;
    assert!(p < MAXP);
    s.nprocs += 1;
    s.procs[p] = Proc { alive: 1, crashed: 0, pid: 0, exit: 0, crash_in: 0, points: 0 };
    let t = new_thread(p as u32);
    assert!(t > 0);
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
            set_tid(t);
            wait_go(t);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                hist(&format!("panic proc={p}"));
            }
            end_proc(false);
        }
        s.procs[p].pid = pid;
    }
    p
}
/// Lets process `p` crash after `n` more of its scheduling points.
pub fn crash_after(p: usize, n: u64) {
    shm().procs[p].crash_in = n;
}
pub fn proc_alive(p: usize) -> bool {
    shm().procs[p].alive != 0
}
pub fn proc_crashed(p: usize) -> bool {
    shm().procs[p].crashed != 0
}
/// Blocks until process `p` has exited or crashed.
pub fn wait_proc(p: usize) {
    while proc_alive(p) {
        block(W_COND, KEY_PROC | p as u64, u64::MAX);
    }
}
/// How often the calling thread has had to wait for a file lock.
pub fn flock_waits() -> u32 {
    shm().threads[tid() as usize].pad
}
/// How many faults of these kinds have been injected so far.
pub fn fired(kinds: &[u32]) -> u64 {
    kinds.iter().map(|k| shm().fired[*k as usize]).sum()
}
pub fn scratch() -> &'static str {
    let s = shm();
    core::str::from_utf8(&s.scratch[..s.scratch_len as usize]).unwrap()
}
pub fn thread_states() -> String {
    let s = shm();
    let mut o = String::new();
    for i in 0..s.nthreads as usize {
        let t = &s.threads[i];
        let st = ["free", "runnable", "blocked", "idle", "exited", "dead"][t.st as usize];
        let wk = ["", "futex", "join", "cond", "sleep", "flock"][t.wkind as usize];
        o += &format!("t{i}(p{}):{st}{}{} ", t.proc, if wk.is_empty() { "" } else { ":" }, wk);
    }
    o
}
pub fn trace_msg(m: &str) {
    trace(format_args!("{m}"));
}
