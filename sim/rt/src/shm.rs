//! The state shared by every simulated process of one run: it lives in a
//! MAP_SHARED region at a fixed address, so that processes forked from the
//! run's root keep seeing one scheduler, one clock and one history.
pub const MAXT: usize = 96;
pub const MAXP: usize = 16;
pub const MAXREC: usize = 1 << 16;
pub const NFAULT: usize = 40;
pub const NPROBE: usize = 128;
pub const BASE: usize = 0x2000_0000_0000;
pub const HISTCAP: usize = 8 << 20;
pub const LOGCAP: usize = 4 << 20;

pub const ST_FREE: u32 = 0;
pub const ST_RUN: u32 = 1;
pub const ST_BLOCK: u32 = 2;
pub const ST_IDLE: u32 = 3;
pub const ST_EXIT: u32 = 4;
pub const ST_DEAD: u32 = 5;

pub const W_FUTEX: u32 = 1;
pub const W_JOIN: u32 = 2;
pub const W_COND: u32 = 3;
pub const W_SLEEP: u32 = 4;
pub const W_FLOCK: u32 = 5;

pub const CMD_NONE: u32 = 0;
pub const CMD_KILL: u32 = 1;
pub const CMD_REAP: u32 = 2;
pub const CMD_FINISH: u32 = 3;

pub const OUT_NONE: u32 = 0;
pub const OUT_DONE: u32 = 1;
pub const OUT_VIOLATION: u32 = 2;
pub const OUT_DEADLOCK: u32 = 3;
pub const OUT_STEPS: u32 = 4;
pub const OUT_HARNESS: u32 = 5;

pub const POL_RANDOM: u32 = 0;
pub const POL_PCT: u32 = 1;
pub const POL_COARSE: u32 = 2;
pub const POL_STARVE: u32 = 3;
pub const POL_REPLAY: u32 = 4;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Thread {
    pub st: u32,
    pub go: u32,
    pub proc: u32,
    pub wkind: u32,
    pub wkey: u64,
    pub deadline: u64,
    pub timed_out: u32,
    pub prio: u32,
    pub pthread: u64,
    pub joined: u32,
    pub ord: u32,
    pub site: u32,
    pub pad: u32,
    pub bseq: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Proc {
    pub alive: u32,
    pub crashed: u32,
    pub pid: i32,
    pub exit: i32,
    pub crash_in: u64,
    pub points: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rec {
    pub key: u64,
    pub val: u64,
}

#[repr(C)]
pub struct Shared {
    pub active: u32,
    pub cur: i32,
    pub nthreads: u32,
    pub nprocs: u32,
    pub cmd: u32,
    pub cmd_proc: u32,
    pub outcome: u32,
    pub faults_on: u32,
    // schedule
    pub policy: u32,
    pub mean: u32,
    pub leap: u32,
    pub starve: u32,
    pub rng: u64,
    pub frng: u64,
    pub srng: u64,
    pub now: u64,
    pub realbase: u64,
    pub steps: u64,
    pub maxsteps: u64,
    pub next_event: u64,
    pub next_deadline: u64,
    pub blocks: u64,
    pub switches: u64,
    pub wakeseq: u64,
    pub last_site: u32,
    pub prio_low: u32,
    pub pct: [u64; 16],
    pub npct: u32,
    pub hash_on: u32,
    pub hash: u64,
    pub order: u64,
    // decisions
    pub nrec: u32,
    pub nov: u32,
    pub ovpos: u32,
    pub norec: u32,
    pub occ: [u64; NFAULT],
    pub rate: [u32; NFAULT],
    pub fired: [u64; NFAULT],
    pub probe: [u64; NPROBE],
    // outcome text
    pub vlen: u32,
    pub plen: u32,
    pub vprop: [u8; 64],
    pub vmsg: [u8; 16384],
    pub hlen: u64,
    pub loglen: u64,
    pub trace: u32,
    pub escapes: u32,
    pub spawned: u64,
    pub umem: [u64; 64],
    /// state that scenarios share between simulated processes
    pub smem: [u64; 1024],
    pub threads: [Thread; MAXT],
    pub procs: [Proc; MAXP],
    pub cov: [u8; 1 << 16],
    pub pairs: [u8; 1 << 16],
    pub scratch_len: u32,
    pub pad2: u32,
    pub scratch: [u8; 256],
    pub rec: [Rec; MAXREC],
    pub ov: [Rec; MAXREC],
    pub hist: [u8; HISTCAP],
    pub log: [u8; LOGCAP],
}

#[inline(always)]
pub fn shm() -> &'static mut Shared {
    unsafe { &mut *(BASE as *mut Shared) }
}

pub fn map() {
    unsafe {
        let sz = (core::mem::size_of::<Shared>() + 4095) & !4095;
        let r = crate::sys::sc6(
            libc::SYS_mmap,
            BASE as u64,
            sz as u64,
            (libc::PROT_READ | libc::PROT_WRITE) as u64,
            (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE)
                as u64,
            u64::MAX,
            0,
        );
        assert_eq!(r, BASE as i64, "cannot map the shared region");
    }
}
