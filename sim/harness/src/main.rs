mod cli;
mod core;
mod fs;
mod mem;
mod probes;
mod session;
mod util;
mod world;

use crate::core::*;

#[global_allocator]
pub static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc::new();

pub fn scenarios() -> &'static [Scenario] {
    const LSP: &str = "sync-ls (reader, writer, main loop, request queue, dispatch), tokio, crossbeam-channel, parking_lot, std threads and stdio";
    &[
        Scenario {
            name: "lsp",
            props: &["L01", "L02", "L03", "L04", "L05", "L06", "L07", "L10"],
            hang: &["L07", "L01"],
            crash: &["L10"],
            maxsteps: 400_000,
            gen: session::gen_lsp,
            run: session::run_lsp,
            real: LSP,
            stub: "the client, the language service behind the handlers, the kernel's pipes, clock, futexes and randomness",
        },
        Scenario {
            name: "mirror",
            props: &["L08", "L09"],
            hang: &["L09", "L08"],
            crash: &[],
            maxsteps: 600_000,
            gen: session::gen_mirror,
            run: session::run_mirror,
            real: LSP,
            stub: "the client, the service behind the handlers, the kernel's pipes, clock, futexes and randomness, the outcome of file reads and writes",
        },
        Scenario {
            name: "dap",
            props: &["D01", "L05", "L06", "L07"],
            hang: &["D01", "L07"],
            crash: &["D01"],
            maxsteps: 400_000,
            gen: session::gen_dap,
            run: session::run_dap,
            real: LSP,
            stub: "the client, the debug adaptor behind the handlers, the kernel's pipes, clock, futexes and randomness",
        },
        Scenario {
            name: "flock",
            props: &["S01"],
            hang: &["S01"],
            crash: &[],
            maxsteps: 200000,
            gen: fs::gen_flock,
            run: fs::run_flock,
            real: "tinymist-std fs (flock, paths), tempfile, same-file, std::fs and the kernel's file system on a scratch directory",
            stub: "process and thread scheduling, crashes, the clock, randomness and the outcome of file system calls",
        },
        Scenario {
            name: "atomic",
            props: &["S02"],
            hang: &["S02"],
            crash: &[],
            maxsteps: 200000,
            gen: fs::gen_atomic,
            run: fs::run_atomic,
            real: "tinymist-std fs (paths: write_atomic), tempfile, same-file, std::fs and the kernel's file system on a scratch directory",
            stub: "process and thread scheduling, crashes, the clock, randomness and the outcome of file system calls",
        },
        Scenario {
            name: "rewrite",
            props: &["S03"],
            hang: &["S03"],
            crash: &[],
            maxsteps: 200000,
            gen: fs::gen_rewrite,
            run: fs::run_rewrite,
            real: "tinymist-std fs (paths: write_if_changed, append, read, write, copy, link_or_copy), tempfile, same-file, std::fs and the kernel's file system on a scratch directory",
            stub: "process and thread scheduling, crashes, the clock, randomness and the outcome of file system calls",
        },
        Scenario {
            name: "dirs",
            props: &["S04"],
            hang: &["S04"],
            crash: &[],
            maxsteps: 200000,
            gen: fs::gen_dirs,
            run: fs::run_dirs,
            real: "tinymist-std fs (paths and flock: temporary, cache and removed directories), tempfile, same-file, std::fs and the kernel's file system on a scratch directory",
            stub: "process and thread scheduling, crashes, the clock, randomness and the outcome of file system calls",
        },
        Scenario {
            name: "query",
            props: &["S05"],
            hang: &["S05"],
            crash: &["S05"],
            maxsteps: 200000,
            gen: mem::gen_query,
            run: mem::run_query,
            real: "tinymist-std concepts (QueryRef, TakeAs), std's OnceLock, parking_lot",
            stub: "thread scheduling, the clock, randomness",
        },
        Scenario {
            name: "maps",
            props: &["S06"],
            hang: &["S06"],
            crash: &["S06"],
            maxsteps: 200000,
            gen: mem::gen_maps,
            run: mem::run_maps,
            real: "tinymist-std adt and hash (FingerprintMap, FingerprintBuilder, Fingerprint), parking_lot, dashmap, comemo",
            stub: "thread scheduling, the clock, randomness",
        },
        Scenario {
            name: "l10n",
            props: &["S07"],
            hang: &["S07"],
            crash: &["S07"],
            maxsteps: 200000,
            gen: mem::gen_l10n,
            run: mem::run_l10n,
            real: "tinymist-l10n (loading, locale selection, messages), rayon, std's RwLock",
            stub: "thread scheduling, the clock, randomness",
        },
        Scenario {
            name: "l10nfile",
            props: &["S08"],
            hang: &["S08"],
            crash: &["S08"],
            maxsteps: 200000,
            gen: mem::gen_l10nfile,
            run: mem::run_l10nfile,
            real: "tinymist-l10n (update_disk_translations), rayon, std::fs and the kernel's file system on a scratch directory",
            stub: "thread scheduling, the clock, randomness and the outcome of file system calls",
        },
    ]
}

fn main() {
    cli::main(scenarios())
}
