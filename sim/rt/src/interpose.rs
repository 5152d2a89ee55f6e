//! The libc boundary. Every call below is reached by unmodified code (std,
//! tokio, crossbeam, parking_lot, tempfile, the crates of /repo) and is the
//! seam where the simulator takes over time, threads, randomness and I/O.
//! Outside a simulated thread each of them is the plain system call.
use crate::sched::*;
use crate::shm::*;
use crate::sys::*;
use core::ffi::{c_char, c_int, c_long, c_uint, c_void};
use libc::{mode_t, off_t, size_t, ssize_t, timespec};

// Site ids of libc calls start here; sancov guards use the ids below.
pub const SITE: u32 = 0x4000_0000;

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

pub fn init() {
    unsafe {
        let c = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let j = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        assert!(!c.is_null() && !j.is_null());
        REAL_CREATE = Some(core::mem::transmute::<*mut c_void, CreateFn>(c));
        REAL_JOIN = Some(core::mem::transmute::<*mut c_void, JoinFn>(j));
    }
}

extern "C" {
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut c_void), o: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
}
extern "C" fn at_thread_exit(_: *mut c_void) {
    if tid() >= 0 {
        exit_thread();
    }
}
struct Tramp {
    start: Start,
    arg: *mut c_void,
    tid: i32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut Tramp);
        let (start, arg, id) = (t.start, t.arg, t.tid);
        core::mem::forget(t);
        // Registered first, so it runs after every other TLS destructor.
        __cxa_thread_atexit_impl(at_thread_exit, core::ptr::null_mut(), &raw const __dso_handle as *mut c_void);
        set_tid(id);
        wait_go(id);
        start(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const c_void,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    #[allow(static_mut_refs)]
    let real = match REAL_CREATE {
        Some(f) => f,
        None => {
            init();
            REAL_CREATE.unwrap()
        }
    };
    if !live() {
        return real(out, attr, start, arg);
    }
    let me = tid();
    let s = shm();
    let id = new_thread(s.threads[me as usize].proc);
    if id < 0 {
        return libc::EAGAIN;
    }
    let t = Box::into_raw(Box::new(Tramp { start, arg, tid: id }));
    let r = real(out, attr, trampoline, t as *mut c_void);
    if r != 0 {
        s.threads[id as usize].st = ST_DEAD;
        return r;
    }
    s.threads[id as usize].pthread = *out as u64;
    trace(format_args!("spawns t{id}"));
    point(SITE + 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    #[allow(static_mut_refs)]
    let real = match REAL_JOIN {
        Some(f) => f,
        None => {
            init();
            REAL_JOIN.unwrap()
        }
    };
    if live() {
        let s = shm();
        let me = tid();
        let proc = s.threads[me as usize].proc;
        // newest first: the handle of a detached thread that has ended is reused
        for i in (0..s.nthreads as usize).rev() {
            let th = &mut s.threads[i];
            if th.proc == proc && th.pthread == t as u64 && th.joined == 0 && th.st != ST_DEAD {
                while th.st != ST_EXIT {
                    block(W_JOIN, i as u64, u64::MAX);
                }
                th.joined = 1;
                break;
            }
        }
    }
    real(t, ret)
}

// ---- time -------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if tid() < 0 {
        return ret(sc3(libc::SYS_clock_gettime, clk as u64, ts as u64, 0)) as c_int;
    }
    let s = shm();
    let base = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        s.realbase
    } else {
        1_000_000_000_000
    };
    if live() {
        s.now += 100;
    }
    let v = base.wrapping_add(s.now);
    (*ts).tv_sec = (v / 1_000_000_000) as i64;
    (*ts).tv_nsec = (v % 1_000_000_000) as i64;
    0
}
fn dur(ts: *const timespec) -> u64 {
    unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 }
}
fn sim_sleep(until: u64) {
    block(W_SLEEP, 0, until);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !live() {
        return ret(sc3(libc::SYS_nanosleep, req as u64, rem as u64, 0)) as c_int;
    }
    sim_sleep(shm().now.saturating_add(dur(req)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !live() {
        let r = sc4(libc::SYS_clock_nanosleep, clk as u64, flags as u64, req as u64, rem as u64);
        return -r as c_int;
    }
    let s = shm();
    let until = if flags & libc::TIMER_ABSTIME != 0 {
        let base = if clk == libc::CLOCK_REALTIME { s.realbase } else { 1_000_000_000_000 };
        dur(req).saturating_sub(base)
    } else {
        s.now.saturating_add(dur(req))
    };
    sim_sleep(until);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if live() {
        shm().last_site = SITE + 2;
        yield_now();
        return 0;
    }
    ret(sc3(libc::SYS_sched_yield, 0, 0, 0)) as c_int
}

// ---- randomness ---------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if tid() < 0 {
        return ret(sc3(libc::SYS_getrandom, buf as u64, n as u64, flags as u64)) as ssize_t;
    }
    let s = shm();
    let b = core::slice::from_raw_parts_mut(buf as *mut u8, n);
    for c in b.chunks_mut(8) {
        let v = splitmix(&mut s.srng).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if tid() >= 0 {
        return 4000 + shm().threads[tid() as usize].proc as c_int;
    }
    sc3(libc::SYS_getpid, 0, 0, 0) as c_int
}

// ---- syscall(2): the futexes of std, parking_lot and crossbeam ------------------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if n == libc::SYS_futex && live() {
        return sim_futex(a, b as i32, c as u32, d as *const timespec, f);
    }
    if n == libc::SYS_getrandom && tid() >= 0 {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    if n == libc::SYS_gettid && tid() >= 0 {
        return 5000 + tid() as c_long;
    }
    ret(sc6(n, a, b, c, d, e, f))
}
unsafe fn sim_futex(addr: u64, op: i32, val: u32, ts: *const timespec, _v3: u64) -> c_long {
    let me = tid();
    let s = shm();
    let proc = s.threads[me as usize].proc;
    match op & 127 {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point(SITE + 3);
            let cur = core::ptr::read_volatile(addr as *const u32);
            if cur != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            if fault(F_SPURIOUS, 2) != 0 {
                return 0;
            }
            let deadline = if ts.is_null() {
                u64::MAX
            } else if op & 127 == libc::FUTEX_WAIT {
                s.now.saturating_add(dur(ts))
            } else {
                let base = if op & libc::FUTEX_CLOCK_REALTIME != 0 { s.realbase } else { 1_000_000_000_000 };
                dur(ts).saturating_sub(base)
            };
            if deadline <= s.now {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            if block(W_FUTEX, addr, deadline) {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let n = wake(W_FUTEX, addr, Some(proc), val as usize);
            point(SITE + 4);
            n as c_long
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

// ---- files --------------------------------------------------------------------
/// True if `p` (a C string) may be modified by simulated code.
unsafe fn allowed(p: *const c_char) -> bool {
    let s = shm();
    let n = s.scratch_len as usize;
    let bytes = core::ffi::CStr::from_ptr(p).to_bytes();
    // the scratch directory by its other name, which is the same in each run
    let bytes = bytes.strip_prefix(b"/proc/self/cwd/").unwrap_or(bytes);
    if n > 0 && bytes.len() >= n && &bytes[..n] == &s.scratch[..n] && (bytes.len() == n || bytes[n] == b'/') && !bytes.split(|c| *c == b'/').any(|c| c == b"..") {
        return true;
    }
    if bytes.first() != Some(&b'/') && !bytes.split(|c| *c == b'/').any(|c| c == b"..") {
        return true; // relative to an *at() descriptor or the scratch cwd
    }
    s.escapes += 1;
    trace(format_args!("refused: {:?}", core::str::from_utf8(bytes)));
    false
}
unsafe fn fail(e: c_int) -> c_int {
    set_errno(e);
    -1
}
const META_ERRS: [c_int; 3] = [libc::EIO, libc::EACCES, libc::EINTR];
macro_rules! mutating {
    ($path:expr, $site:expr, $kind:expr, $what:expr) => {
        if live() {
            point(SITE + $site);
            if !allowed($path) {
                return fail(libc::EACCES);
            }
            let f = fault($kind, 3);
            if f != 0 {
                return fail(META_ERRS[f as usize - 1]);
            }
            mix($site);
            trace(format_args!("{}", $what));
        }
    };
}
macro_rules! done_point {
    ($site:expr) => {
        if live() {
            point(SITE + 100 + $site);
        }
    };
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if live() {
        point(SITE + 10);
        let w = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
        if w && !allowed(p) {
            return fail(libc::EACCES);
        }
        if w && flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 && fault(F_TEMPCLASH, 2) != 0 {
            return fail(libc::EEXIST);
        }
        match fault(F_OPEN, 5) {
            4 => return fail(libc::EACCES),
            1 => return fail(libc::EINTR),
            2 => return fail(libc::EMFILE),
            3 => return fail(libc::EIO),
            _ => {}
        }
        trace(format_args!("open {:?} {:x}", core::ffi::CStr::from_ptr(p), flags));
    }
    let r = ret(sc4(libc::SYS_openat, dir as i64 as u64, p as u64, flags as i64 as u64, mode as u64)) as c_int;
    if live() {
        if r >= 0 {
            fd_opened(r);
        }
        point(SITE + 110);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}

/// Which descriptors belong to files opened by simulated code.
static mut FDS: [u8; 1024] = [0; 1024];
unsafe fn fd_opened(fd: c_int) {
    if (fd as usize) < 1024 {
        FDS[fd as usize] = 1;
    }
}
unsafe fn is_sim_file(fd: c_int) -> bool {
    (fd as usize) < 1024 && FDS[fd as usize] == 1
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let r = ret(sc3(libc::SYS_close, fd as u64, 0, 0)) as c_int;
    if live() {
        if is_sim_file(fd) {
            FDS[fd as usize] = 0;
            mix(20);
        }
        // a lock may have gone with it
        wake(W_FLOCK, 0, None, usize::MAX);
        point(SITE + 20);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !live() {
        return ret(sc3(libc::SYS_flock, fd as u64, op as u64, 0)) as c_int;
    }
    point(SITE + 21);
    let s = shm();
    if s.umem[0] != 0 {
        // this run's disk does not implement locking
        count_fault(F_FLOCK_UNSUP);
        return fail([libc::ENOSYS, libc::EOPNOTSUPP, libc::ENOTSUP][s.umem[0] as usize % 3]);
    }
    if s.umem[1] != 0 && op & libc::LOCK_UN == 0 {
        // on a broken NFS server even a non-blocking attempt hangs for ever
        trace(format_args!("flock on NFS hangs"));
        block(W_COND, 0xdead_0001, u64::MAX);
    }
    if fault(F_FLOCK_ERR, 2) != 0 {
        return fail(if op & libc::LOCK_UN != 0 { libc::EIO } else { libc::ENOLCK });
    }
    if op & libc::LOCK_UN == 0 && op & libc::LOCK_NB == 0 && fault(F_FLOCK_EINTR, 2) != 0 {
        return fail(libc::EINTR);
    }
    loop {
        let r = sc3(libc::SYS_flock, fd as u64, (op | libc::LOCK_NB) as u64, 0);
        mix(21 ^ (op as u64) << 8 ^ (r as u64) << 16);
        trace(format_args!("flock {fd} {op} = {r}"));
        if r == -(libc::EWOULDBLOCK as i64) && op & libc::LOCK_NB == 0 {
            s.threads[tid() as usize].pad += 1;
            block(W_FLOCK, 0, u64::MAX);
            continue;
        }
        if r == 0 {
            // releasing or converting a lock can let others in
            wake(W_FLOCK, 0, None, usize::MAX);
        }
        point(SITE + 121);
        return ret(r) as c_int;
    }
}
#[no_mangle]
pub unsafe extern "C" fn statfs(p: *const c_char, b: *mut libc::statfs) -> c_int {
    let r = ret(sc3(libc::SYS_statfs, p as u64, b as u64, 0)) as c_int;
    if live() {
        point(SITE + 22);
        if shm().umem[1] == 0 && fault(F_STATFS, 2) != 0 {
            (*b).f_type = libc::NFS_SUPER_MAGIC as _;
            return fail(libc::EIO);
        }
        if r == 0 && shm().umem[1] != 0 {
            count_fault(F_NFS);
            (*b).f_type = libc::NFS_SUPER_MAGIC as _;
        }
    }
    r
}

/// Short, interrupted and failing transfers on files.
unsafe fn file_fault_w(fd: c_int, n: usize) -> Result<usize, c_int> {
    if !is_sim_file(fd) {
        return Ok(n);
    }
    if fault(F_EINTR_W, 2) != 0 {
        return Err(libc::EINTR);
    }
    if fault(F_ENOSPC, 2) != 0 {
        return Err(libc::ENOSPC);
    }
    if fault(F_EIO_W, 2) != 0 {
        return Err(libc::EIO);
    }
    if n > 1 {
        let k = fault(F_SHORT_W, n.min(1 << 20) as u64);
        if k != 0 {
            return Ok(k as usize);
        }
    }
    Ok(n)
}
unsafe fn file_fault_r(fd: c_int, n: usize) -> Result<usize, c_int> {
    if !is_sim_file(fd) {
        return Ok(n);
    }
    if fault(F_EINTR_R, 2) != 0 {
        return Err(libc::EINTR);
    }
    if fault(F_EIO_R, 2) != 0 {
        return Err(libc::EIO);
    }
    if n > 1 {
        let k = fault(F_SHORT_R, n.min(64) as u64);
        if k != 0 {
            return Ok(k as usize);
        }
    }
    Ok(n)
}

pub static mut STDIN_HOOK: Option<unsafe fn(*mut u8, usize) -> ssize_t> = None;
pub static mut STDOUT_HOOK: Option<unsafe fn(*const u8, usize) -> ssize_t> = None;

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if live() {
        if fd == 0 {
            if let Some(h) = STDIN_HOOK {
                return h(buf as *mut u8, n);
            }
        }
        point(SITE + 30);
        match file_fault_r(fd, n) {
            Ok(k) => n = k,
            Err(e) => return fail(e) as ssize_t,
        }
    }
    let r = ret(sc3(libc::SYS_read, fd as u64, buf as u64, n as u64)) as ssize_t;
    if live() {
        mix(30 ^ (r as u64) << 8);
        point(SITE + 130);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if live() {
        if fd == 1 {
            if let Some(h) = STDOUT_HOOK {
                return h(buf as *const u8, n);
            }
        }
        point(SITE + 31);
        match file_fault_w(fd, n) {
            Ok(k) => n = k,
            Err(e) => return fail(e) as ssize_t,
        }
        trace(format_args!("write fd={fd} n={n}"));
    }
    let r = ret(sc3(libc::SYS_write, fd as u64, buf as u64, n as u64)) as ssize_t;
    if live() {
        mix(31 ^ (r as u64) << 8);
        point(SITE + 131);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if live() {
        // one buffer at a time: a legal short write
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return write(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    ret(sc3(libc::SYS_writev, fd as u64, v as u64, n as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if live() {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return read(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    ret(sc3(libc::SYS_readv, fd as u64, v as u64, n as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    let mut n = n;
    if live() {
        point(SITE + 32);
        match file_fault_r(fd, n) {
            Ok(k) => n = k,
            Err(e) => return fail(e) as ssize_t,
        }
    }
    ret(sc4(libc::SYS_pread64, fd as u64, buf as u64, n as u64, o as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t {
    let mut n = n;
    if live() {
        point(SITE + 33);
        match file_fault_w(fd, n) {
            Ok(k) => n = k,
            Err(e) => return fail(e) as ssize_t,
        }
    }
    ret(sc4(libc::SYS_pwrite64, fd as u64, buf as u64, n as u64, o as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    i: c_int,
    oi: *mut i64,
    o: c_int,
    oo: *mut i64,
    n: size_t,
    fl: c_uint,
) -> ssize_t {
    let mut n = n;
    if live() {
        point(SITE + 34);
        match file_fault_w(o, n) {
            Ok(k) => n = k,
            Err(libc::EINTR) => {} // not for regular files
            Err(e) => return fail(e) as ssize_t,
        }
    }
    ret(sc6(libc::SYS_copy_file_range, i as u64, oi as u64, o as u64, oo as u64, n as u64, fl as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    if live() {
        point(SITE + 40);
        let f = fault(F_META, 3);
        if f != 0 {
            return fail([libc::EIO, libc::EINTR][f as usize - 1]);
        }
        mix(40);
        trace(format_args!("ftruncate {fd} {n}"));
    }
    let r = ret(sc3(libc::SYS_ftruncate, fd as u64, n as u64, 0)) as c_int;
    done_point!(40);
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if live() {
        point(SITE + 41);
        let f = fault(F_META, 3);
        if f != 0 {
            return fail([libc::EIO, libc::EPERM][f as usize - 1]);
        }
    }
    let r = ret(sc3(libc::SYS_fchmod, fd as u64, m as u64, 0)) as c_int;
    done_point!(41);
    r
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    mutating!(p, 42, F_META, "chmod");
    let r = ret(sc3(libc::SYS_chmod, p as u64, m as u64, 0)) as c_int;
    done_point!(42);
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if live() {
        point(SITE + 43);
        if fault(F_META, 2) != 0 {
            return fail(libc::EIO);
        }
        return 0;
    }
    ret(sc3(libc::SYS_fsync, fd as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
unsafe fn do_rename(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, fl: c_uint) -> c_int {
    if live() {
        point(SITE + 50);
        if !allowed(o) || !allowed(n) {
            return fail(libc::EACCES);
        }
        let f = fault(F_RENAME, 4);
        if f != 0 {
            return fail([libc::EIO, libc::EACCES, libc::ENOSPC][f as usize - 1]);
        }
        mix(50);
        trace(format_args!("rename {:?} {:?}", core::ffi::CStr::from_ptr(o), core::ffi::CStr::from_ptr(n)));
    }
    let r = ret(sc6(libc::SYS_renameat2, od as i64 as u64, o as u64, nd as i64 as u64, n as u64, fl as u64, 0)) as c_int;
    done_point!(50);
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(o: *const c_char, n: *const c_char) -> c_int {
    do_rename(libc::AT_FDCWD, o, libc::AT_FDCWD, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(od: c_int, o: *const c_char, nd: c_int, n: *const c_char) -> c_int {
    do_rename(od, o, nd, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, f: c_uint) -> c_int {
    do_rename(od, o, nd, n, f)
}
/// A file system (or mount) on which a file without write permission cannot be
/// removed until it has some.
unsafe fn undeletable(d: c_int, p: *const c_char) -> bool {
    if !live() || shm().faults_on == 0 || shm().umem[2] == 0 {
        return false;
    }
    let mut st: libc::stat = core::mem::zeroed();
    let r = sc6(libc::SYS_newfstatat, d as i64 as u64, p as u64, &mut st as *mut _ as u64, libc::AT_SYMLINK_NOFOLLOW as u64, 0, 0);
    if r == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG && st.st_mode & 0o222 == 0 {
        count_fault(F_RDONLY);
        trace(format_args!("the file is read-only"));
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    mutating!(p, 51, F_UNLINK, format_args!("unlink {:?}", core::ffi::CStr::from_ptr(p)));
    if undeletable(libc::AT_FDCWD, p) {
        return fail(libc::EACCES);
    }
    let r = ret(sc3(libc::SYS_unlink, p as u64, 0, 0)) as c_int;
    done_point!(51);
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    mutating!(p, 52, F_UNLINK, format_args!("unlinkat {:?}", core::ffi::CStr::from_ptr(p)));
    if undeletable(d, p) {
        return fail(libc::EACCES);
    }
    let r = ret(sc3(libc::SYS_unlinkat, d as i64 as u64, p as u64, fl as u64)) as c_int;
    done_point!(52);
    r
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    mutating!(p, 53, F_META, format_args!("mkdir {:?}", core::ffi::CStr::from_ptr(p)));
    let r = ret(sc3(libc::SYS_mkdir, p as u64, m as u64, 0)) as c_int;
    done_point!(53);
    r
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    mutating!(p, 54, F_UNLINK, "rmdir");
    let r = ret(sc3(libc::SYS_rmdir, p as u64, 0, 0)) as c_int;
    done_point!(54);
    r
}
#[no_mangle]
pub unsafe extern "C" fn link(o: *const c_char, n: *const c_char) -> c_int {
    mutating!(n, 55, F_META, "link");
    let r = ret(sc3(libc::SYS_link, o as u64, n as u64, 0)) as c_int;
    done_point!(55);
    r
}
#[no_mangle]
pub unsafe extern "C" fn linkat(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, f: c_int) -> c_int {
    mutating!(n, 55, F_META, "linkat");
    let r = ret(sc6(libc::SYS_linkat, od as i64 as u64, o as u64, nd as i64 as u64, n as u64, f as u64, 0)) as c_int;
    done_point!(55);
    r
}
#[no_mangle]
pub unsafe extern "C" fn symlink(o: *const c_char, n: *const c_char) -> c_int {
    mutating!(n, 56, F_META, "symlink");
    let r = ret(sc3(libc::SYS_symlink, o as u64, n as u64, 0)) as c_int;
    done_point!(56);
    r
}

/// Referenced by the harness so that this object file is always linked.
pub fn keep() -> usize {
    let t: &[*const ()] = &[
        pthread_create as *const (),
        pthread_join as *const (),
        clock_gettime as *const (),
        nanosleep as *const (),
        clock_nanosleep as *const (),
        sched_yield as *const (),
        getrandom as *const (),
        getpid as *const (),
        syscall as *const (),
        open64 as *const (),
        open as *const (),
        openat64 as *const (),
        openat as *const (),
        close as *const (),
        flock as *const (),
        statfs as *const (),
        read as *const (),
        write as *const (),
        writev as *const (),
        readv as *const (),
        pread64 as *const (),
        pwrite64 as *const (),
        copy_file_range as *const (),
        ftruncate64 as *const (),
        ftruncate as *const (),
        fchmod as *const (),
        chmod as *const (),
        fsync as *const (),
        fdatasync as *const (),
        rename as *const (),
        renameat as *const (),
        renameat2 as *const (),
        unlink as *const (),
        unlinkat as *const (),
        mkdir as *const (),
        rmdir as *const (),
        link as *const (),
        linkat as *const (),
        symlink as *const (),
        crate::cov::__sanitizer_cov_trace_pc_guard as *const (),
        crate::cov::__sanitizer_cov_trace_pc_guard_init as *const (),
    ];
    t.iter().map(|p| *p as usize & 1).sum()
}
