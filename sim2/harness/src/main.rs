#[path = "../../../sim/harness/src/cli.rs"]
mod cli;
#[path = "../../../sim/harness/src/core.rs"]
mod core;
mod lock;
mod lsp;
mod pack;
mod probes;
#[path = "../../../sim/harness/src/util.rs"]
mod util;
mod vfs;
mod watch;

use crate::core::*;

#[global_allocator]
pub static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc::new();

/// The scratch directory, by a name that is the same in each run: names of
/// files reach hash maps and messages.
pub fn root() -> std::path::PathBuf {
    "/proc/self/cwd".into()
}

pub fn scenarios() -> &'static [Scenario] {
    &[Scenario {
        name: "vfs",
        props: &["V01"],
        hang: &["V01"],
        crash: &["V01"],
        maxsteps: 300_000,
        gen: vfs::gen_vfs,
        run: vfs::run_vfs,
        real: "tinymist-vfs (overlays, notified files, path mapping, source cache, system access), tinymist-std, parking_lot, dashmap, std::fs and the kernel's file system on a scratch directory",
        stub: "typst's file ids, sources and bytes, rpds; thread scheduling, the clock, randomness and the outcome of file reads",
    },
    Scenario {
        name: "watch",
        props: &["V02"],
        hang: &["V02"],
        crash: &["V02"],
        maxsteps: 300_000,
        gen: watch::gen_watch,
        run: watch::run_watch,
        real: "tinymist-project::watch (NotifyActor) on a tokio runtime, tinymist-vfs system access, std::fs and the kernel's file system on a scratch directory",
        stub: "notify (a simulated inotify that binds watches to inodes and delivers events late), thread scheduling, the clock and timers, randomness and the outcome of file reads",
    },
    Scenario {
        name: "editor",
        props: &["V03", "V04", "V05"],
        hang: &["V03", "V04", "V05"],
        crash: &["V03", "V04", "V05"],
        maxsteps: 3_000_000,
        gen: lsp::gen_editor,
        run: lsp::run_editor,
        real: "the language server (tinymist: lifecycle, document sync, focusing, configuration, queries' dispatch, diagnostics, status, formatting, export), tinymist-project (compiler, watcher), tinymist-world, tinymist-vfs, sync-ls with its stdio transport, tokio, std::fs on a scratch directory",
        stub: "typst (a small line language), the query analyzers (they report what they see), exporters and formatters, rayon's pool, notify, the editor, stdin and stdout, thread scheduling, the clock and timers, randomness",
    },
    Scenario {
        name: "preview",
        props: &["V03", "V04", "V06", "V07", "V08"],
        hang: &["V06", "V07", "V08"],
        crash: &["V06", "V07", "V08"],
        maxsteps: 4_000_000,
        gen: lsp::view::gen_preview,
        run: lsp::run_editor,
        real: "the language server with its previews (tinymist: preview commands, actor and handler; typst-preview: editor, render, outline and webview actors, span interner, data plane; all of the editor scenario), tokio, std::fs on a scratch directory",
        stub: "the HTTP server and WebSockets (queues with a bounded buffer), the incremental renderer, typst (a small line language), the query analyzers, rayon's pool, notify, the editor and the browsers, stdin and stdout, thread scheduling, the clock and timers, randomness",
    },
    Scenario {
        name: "package",
        props: &["P01"],
        hang: &["P01"],
        crash: &["P01"],
        maxsteps: 400_000,
        gen: pack::gen_package,
        run: pack::run_package,
        real: "tinymist-package (HttpRegistry, PackageStorage) in simulated processes and threads, tinymist-std, std::fs and the kernel's file system on a scratch directory",
        stub: "the package server and the HTTP client, the archive formats (tar, gzip), thread scheduling, process crashes, the clock, randomness and the outcome of file operations",
    },
    Scenario {
        name: "lock",
        props: &["P02"],
        hang: &["P02"],
        crash: &["P02"],
        maxsteps: 400_000,
        gen: lock::gen_lock,
        run: lock::run_lock,
        real: "tinymist-project's lock files (LockFile, LockFileUpdate), tinymist's project routes, tinymist-std (file locks, atomic writes, paths) in simulated processes and threads, std::fs and the kernel's file system and flock on a scratch directory",
        stub: "the TOML format (a stand-in for the part that lock files use), rpds, semver; thread scheduling, process crashes, waiting for locks, the clock, randomness and the outcome of file operations",
    }]
}

fn main() {
    cli::main(scenarios())
}
