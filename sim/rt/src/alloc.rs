//! A deterministic allocator: fixed-address arenas with size classes, so that
//! heap addresses of a run depend on nothing but the run itself.
use core::alloc::{GlobalAlloc, Layout};
use core::cell::UnsafeCell;
use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const ARENA0: usize = 0x3000_0000_0000;
const ARENA1: usize = 0x3100_0000_0000;
const ARENA_SZ: usize = 16 << 30;
const NCLS: usize = 64;

struct Arena {
    cur: usize,
    end: usize,
    free: [usize; NCLS],
}
pub struct SimAlloc {
    lock: AtomicBool,
    which: AtomicUsize,
    ar: UnsafeCell<[Arena; 2]>,
}
unsafe impl Sync for SimAlloc {}

const fn arena() -> Arena {
    Arena { cur: 0, end: 0, free: [0; NCLS] }
}
impl SimAlloc {
    pub const fn new() -> Self {
        SimAlloc {
            lock: AtomicBool::new(false),
            which: AtomicUsize::new(0),
            ar: UnsafeCell::new([arena(), arena()]),
        }
    }
    /// Allocations made from now on come from the run's own arena.
    pub fn enter_run(&self) {
        self.which.store(1, Ordering::SeqCst);
    }
    fn class(sz: usize) -> (usize, usize) {
        // 16-byte steps up to 256, then quarter powers of two.
        if sz <= 256 {
            let c = (sz.max(1) + 15) / 16;
            return (c, c * 16);
        }
        let lg = usize::BITS as usize - 1 - (sz - 1).leading_zeros() as usize; // 2^lg < sz
        let base = 1usize << lg;
        let q = (sz - 1 - base) / (base / 4); // 0..3
        let size = base + (q + 1) * (base / 4);
        (17 + (lg - 8) * 4 + q, size)
    }
    #[inline]
    fn guard<R>(&self, f: impl FnOnce(&mut [Arena; 2]) -> R) -> R {
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            core::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.ar.get() });
        self.lock.store(false, Ordering::Release);
        r
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(16);
        let mut sz = l.size();
        if align > 16 {
            sz += align;
        }
        let (c, csz) = Self::class(sz);
        let p = self.guard(|ars| {
            let w = self.which.load(Ordering::Relaxed);
            let a = &mut ars[w];
            if a.end == 0 {
                let base = if w == 0 { ARENA0 } else { ARENA1 };
                let r = crate::sys::sc6(
                    libc::SYS_mmap,
                    base as u64,
                    ARENA_SZ as u64,
                    (libc::PROT_READ | libc::PROT_WRITE) as u64,
                    (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE) as u64,
                    u64::MAX,
                    0,
                );
                if r != base as i64 {
                    return 0;
                }
                a.cur = base + 4096;
                a.end = base + ARENA_SZ;
            }
            if c < NCLS && align <= 16 && a.free[c] != 0 {
                let p = a.free[c];
                a.free[c] = *(p as *const usize);
                return p;
            }
            let p = a.cur;
            if csz > a.end - p {
                return 0;
            }
            a.cur = p + csz;
            p
        });
        if p == 0 {
            return core::ptr::null_mut();
        }
        ((p + align - 1) & !(align - 1)) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return; // rare; leaked
        }
        let (c, _) = Self::class(l.size());
        if c >= NCLS {
            return;
        }
        let p = p as usize;
        self.guard(|ars| {
            let w = if p >= ARENA1 { 1 } else { 0 };
            if w != self.which.load(Ordering::Relaxed) {
                return; // a block of the controller freed inside a run
            }
            let a = &mut ars[w];
            *(p as *mut usize) = a.free[c];
            a.free[c] = p;
        })
    }
}
