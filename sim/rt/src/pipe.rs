//! In-memory byte pipes with simulated blocking, short transfers, EINTR,
//! delays and closing: the other end of stdin and stdout.
use crate::sched::*;
use crate::shm::*;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::Arc;

struct Inner {
    buf: VecDeque<u8>,
    cap: usize,
    wclosed: bool,
    rclosed: bool,
    /// errno to return once, instead of data
    rerr: i32,
    /// errno the next write fails with, once
    werr: i32,
    /// bytes that had gone through when a write first failed
    failed_at: Option<u64>,
    /// the writing process is gone: what it still writes is lost
    dead: bool,
    /// total bytes that ever went through
    total: u64,
}
#[derive(Clone)]
pub struct Pipe {
    i: Arc<UnsafeCell<Inner>>,
}
// SAFETY: one simulated thread runs at a time.
unsafe impl Send for Pipe {}
unsafe impl Sync for Pipe {}

impl Pipe {
    pub fn new(cap: usize) -> Self {
        Pipe {
            i: Arc::new(UnsafeCell::new(Inner {
                buf: VecDeque::new(),
                cap,
                wclosed: false,
                rclosed: false,
                rerr: 0,
                werr: 0,
                failed_at: None,
                dead: false,
                total: 0,
            })),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut Inner {
        unsafe { &mut *self.i.get() }
    }
    fn key(&self) -> u64 {
        Arc::as_ptr(&self.i) as *const u8 as u64
    }
    pub fn close_write(&self) {
        self.g().wclosed = true;
        wake(W_COND, self.key(), None, usize::MAX);
        point(0x5000_0001);
    }
    pub fn close_read(&self) {
        self.g().rclosed = true;
        wake(W_COND, self.key(), None, usize::MAX);
        point(0x5000_0002);
    }
    pub fn set_read_error(&self, e: i32) {
        self.g().rerr = e;
        wake(W_COND, self.key(), None, usize::MAX);
        point(0x5000_0003);
    }
    pub fn set_write_error(&self, e: i32) {
        self.g().werr = e;
        wake(W_COND, self.key(), None, usize::MAX);
        point(0x5000_000a);
    }
    /// The process that writes has ended.
    pub fn kill_writer(&self) {
        self.g().dead = true;
        self.close_write();
    }
    /// Bytes that had gone through when a write first failed.
    pub fn failed_at(&self) -> Option<u64> {
        self.g().failed_at
    }
    pub fn pending(&self) -> usize {
        self.g().buf.len()
    }
    pub fn total(&self) -> u64 {
        self.g().total
    }
    /// The peer's write: blocks while the pipe is full; false if closed.
    pub fn put(&self, mut b: &[u8]) -> bool {
        while !b.is_empty() {
            let g = self.g();
            if g.rclosed {
                return false;
            }
            let room = g.cap.saturating_sub(g.buf.len());
            if room == 0 {
                block(W_COND, self.key(), u64::MAX);
                continue;
            }
            let n = room.min(b.len());
            g.buf.extend(&b[..n]);
            g.total += n as u64;
            b = &b[n..];
            wake(W_COND, self.key(), None, usize::MAX);
            point(0x5000_0004);
        }
        true
    }
    /// The peer's read: blocks until data or end of file.
    pub fn take(&self, max: usize) -> Vec<u8> {
        loop {
            let g = self.g();
            if !g.buf.is_empty() {
                let n = g.buf.len().min(max);
                let v: Vec<u8> = g.buf.drain(..n).collect();
                wake(W_COND, self.key(), None, usize::MAX);
                point(0x5000_0005);
                return v;
            }
            if g.wclosed {
                return Vec::new();
            }
            block(W_COND, self.key(), u64::MAX);
        }
    }
    /// read(2) on this pipe. Returns -errno on failure.
    pub fn sys_read(&self, dst: &mut [u8]) -> isize {
        point(0x5000_0006);
        if fault(F_EINTR_R, 2) != 0 {
            return -(libc::EINTR as isize);
        }
        loop {
            let g = self.g();
            if g.rerr != 0 && g.buf.is_empty() {
                return -(g.rerr as isize);
            }
            if !g.buf.is_empty() {
                let mut n = g.buf.len().min(dst.len());
                if n > 1 {
                    let k = fault(F_SHORT_R, n.min(256) as u64);
                    if k != 0 {
                        n = k as usize;
                    }
                }
                for d in dst[..n].iter_mut() {
                    *d = g.buf.pop_front().unwrap();
                }
                mix(60 ^ (n as u64) << 8);
                trace(format_args!("pipe read {n}"));
                wake(W_COND, self.key(), None, usize::MAX);
                point(0x5000_0007);
                return n as isize;
            }
            if g.wclosed {
                trace(format_args!("pipe eof"));
                return 0;
            }
            block(W_COND, self.key(), u64::MAX);
        }
    }
    /// write(2) on this pipe. Returns -errno on failure.
    pub fn sys_write(&self, src: &[u8]) -> isize {
        point(0x5000_0008);
        if fault(F_EINTR_W, 2) != 0 {
            return -(libc::EINTR as isize);
        }
        if src.is_empty() {
            return 0;
        }
        loop {
            let g = self.g();
            if g.dead {
                return src.len() as isize;
            }
            if g.werr != 0 || g.rclosed {
                let e = if g.werr != 0 { g.werr } else { libc::EPIPE };
                g.werr = 0;
                let t = g.total;
                g.failed_at.get_or_insert(t);
                trace(format_args!("pipe write fails: {e}"));
                return -(e as isize);
            }
            let room = g.cap.saturating_sub(g.buf.len());
            if room == 0 {
                block(W_COND, self.key(), u64::MAX);
                continue;
            }
            let mut n = room.min(src.len());
            if n > 1 {
                let k = fault(F_SHORT_W, n.min(256) as u64);
                if k != 0 {
                    n = k as usize;
                }
            }
            g.buf.extend(&src[..n]);
            g.total += n as u64;
            mix(61 ^ (n as u64) << 8);
            trace(format_args!("pipe write {n}"));
            wake(W_COND, self.key(), None, usize::MAX);
            point(0x5000_0009);
            return n as isize;
        }
    }
}

static mut STDIN: Option<Pipe> = None;
static mut STDOUT: Option<Pipe> = None;
unsafe fn in_hook(p: *mut u8, n: usize) -> isize {
    #[allow(static_mut_refs)]
    let r = STDIN.as_ref().unwrap().sys_read(core::slice::from_raw_parts_mut(p, n));
    if r < 0 {
        crate::sys::set_errno(-r as i32);
        return -1;
    }
    r
}
unsafe fn out_hook(p: *const u8, n: usize) -> isize {
    #[allow(static_mut_refs)]
    let r = STDOUT.as_ref().unwrap().sys_write(core::slice::from_raw_parts(p, n));
    if r < 0 {
        crate::sys::set_errno(-r as i32);
        return -1;
    }
    r
}
/// Makes descriptors 0 and 1 of this process the given pipes.
pub fn install_stdio(i: Pipe, o: Pipe) {
    unsafe {
        STDIN = Some(i);
        STDOUT = Some(o);
        crate::interpose::STDIN_HOOK = Some(in_hook);
        crate::interpose::STDOUT_HOOK = Some(out_hook);
    }
}
