//! Raw system calls. The simulator interposes the libc entry points, so its
//! own calls must go straight to the kernel.
use core::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: u64, b: u64, c: u64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}
#[inline(always)]
pub unsafe fn sc4(n: i64, a: u64, b: u64, c: u64, d: u64) -> i64 {
    sc6(n, a, b, c, d, 0, 0)
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    // Shared (not FUTEX_PRIVATE): hand-offs cross processes.
    sc6(libc::SYS_futex, addr as u64, libc::FUTEX_WAIT as u64, val as u64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: u32) {
    sc6(libc::SYS_futex, addr as u64, libc::FUTEX_WAKE as u64, n as u64, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    sc3(libc::SYS_exit_group, code as u64, 0, 0);
    loop {}
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// Converts a raw result into the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
