//! SanitizerCoverage callbacks: every basic block of the instrumented crates
//! (the crates of /repo and the generic code they instantiate) is a
//! scheduling point.
use crate::sched::point;
use crate::shm::shm;

static mut NEXT: u32 = 0;
static mut GUARDS: (*mut u32, *mut u32) = (core::ptr::null_mut(), core::ptr::null_mut());
static mut PCS: (*const [usize; 2], *const [usize; 2]) = (core::ptr::null(), core::ptr::null());
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    GUARDS = (a, b);
    while a < b {
        NEXT += 1;
        *a = NEXT;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if crate::sched::tid() < 0 {
        return;
    }
    let v = *g;
    if v == 0 {
        return;
    }
    *shm().cov.get_unchecked_mut(v as usize & 0xffff) = 1;
    point(v);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const [usize; 2], b: *const [usize; 2]) {
    PCS = (a, b);
}
pub fn guards() -> u32 {
    unsafe { NEXT }
}

/// The program points: number and address within the executable.
pub fn points() -> Vec<(u32, usize)> {
    unsafe {
        extern "C" {
            static __executable_start: u8;
        }
        let base = &__executable_start as *const u8 as usize;
        let n = GUARDS.1.offset_from(GUARDS.0);
        (0..n).filter(|i| *GUARDS.0.offset(*i) != 0).map(|i| (*GUARDS.0.offset(i), (*PCS.0.offset(i))[0] - base)).collect()
    }
}

/// Is this function code of /repo? Generic functions of /repo are compiled
/// into the crate that uses them, the harness included, and /repo's crates
/// hold copies of the standard library's generic functions.
fn product(sym: &str) -> bool {
    let s = sym.trim_start_matches("_ZN").trim_start_matches(|c: char| c.is_ascii_digit());
    let s = s.strip_prefix("_$LT$").unwrap_or(s);
    // the crate of the path, or of the type an implementation is for
    let mut s = s;
    for p in ["$RF$", "mut$u20$", "dyn$u20$", "$u5b$", "$LP$"] {
        s = s.strip_prefix(p).unwrap_or(s);
    }
    let ours = |s: &str| {
        s.starts_with("sync_ls")
            || s.strip_prefix("tinymist").is_some_and(|t| t.starts_with(|c: char| c == '_' || c == '.' || c.is_ascii_digit()))
    };
    // `impl<T> Trait for T` does not name a crate before the trait, and only
    // the trait's crate implements it for a type of the standard library
    let std = |s: &str| ["alloc..", "core..", "std.."].iter().any(|c| s.starts_with(c));
    ours(s) || s.find("$u20$as$u20$").is_some_and(|i| (!s[..i].contains("..") || std(s)) && ours(&s[i + 12..]))
}

/// Keeps the scheduling points in functions of /repo and no others.
pub fn filter() {
    unsafe {
        let n = GUARDS.1.offset_from(GUARDS.0);
        assert!(n > 0 && PCS.1.offset_from(PCS.0) == n, "coverage tables");
        let exe = std::fs::read("/proc/self/exe").unwrap();
        let u = |o: usize, n: usize| exe[o..o + n].iter().rev().fold(0usize, |a, b| a << 8 | *b as usize);
        let (shoff, shentsize, shnum) = (u(0x28, 8), u(0x3a, 2), u(0x3c, 2));
        let sec = |i: usize| shoff + i * shentsize;
        let sym = (0..shnum).map(sec).find(|s| u(s + 4, 4) == 2).expect("no symbol table");
        let strtab = u(sec(u(sym + 0x28, 4)) + 0x18, 8);
        let (off, size) = (u(sym + 0x18, 8), u(sym + 0x20, 8));
        let mut funcs: Vec<(usize, usize, usize)> = (off..off + size)
            .step_by(24)
            .filter(|e| exe[e + 4] & 15 == 2)
            .map(|e| (u(e + 8, 8), u(e + 16, 8), strtab + u(e, 4)))
            .collect();
        funcs.sort();
        extern "C" {
            static __executable_start: u8;
        }
        let base = &__executable_start as *const u8 as usize;
        let mut cache = std::collections::HashMap::new();
        for i in 0..n {
            let pc = (*PCS.0.offset(i))[0] - base;
            let k = funcs.partition_point(|f| f.0 <= pc);
            assert!(k > 0, "no function at {pc:x}");
            let keep = *cache.entry(k).or_insert_with(|| {
                let s = funcs[k - 1].2;
                let e = exe[s..].iter().position(|b| *b == 0).unwrap();
                let name = core::str::from_utf8(&exe[s..s + e]).unwrap_or("");
                let keep = product(name);
                if std::env::var_os("VSIM_SITES").is_some() {
                    eprintln!("{} {name}", if keep { "+" } else { "-" });
                }
                keep
            });
            if !keep {
                *GUARDS.0.offset(i) = 0;
            }
        }
    }
}
