ASSUME = [
    "Sequentially consistent memory: simulated threads interleave at compiler-inserted points of the instrumented crates and at "
    "every libc call of any code; weak-memory effects inside a data structure are not explored.",
    "Dependencies (tokio, crossbeam, parking_lot, std) run real code but are preempted only at their libc calls and where they "
    "call back into instrumented code.",
    "The simulated pipes, clock, futexes and randomness behave as documented for Linux.",
    "Search, not proof: a property is reported as held on the runs explored.",
]

prop("L01", "Every LSP client request is answered exactly once, with its own answer",
     "While the server runs and the client keeps reading, every LSP request the client sends receives exactly one response that carries "
     "its id and exactly one of a result or an error: what the handler of that very request produced, or a protocol error if the request "
     "could not be dispatched. This holds whether the answer is computed in place, by a deferred future or on another thread, whatever "
     "else is sent or received meanwhile; if the service answers a request more than once the client still sees one response. "
     "Nothing is sent in response to an id that is not a pending client request.",
     ["schedules", "inputs", "histories"],
     "every history of client requests (valid, malformed, unknown, duplicated-answer), every way and moment a handler answers, and every "
     "interleaving of reader, writer, main loop, worker and helper threads",
     "The unit tests only serialise messages and settle single fields; none runs the loop, and none has two threads answering, so no "
     "interleaving of answering, registering and writing is exercised.",
     [SV, LS, RQ, TR],
     m(("request registration before dispatch", LS + ": on_lsp_request"), ("response removes the pending entry", SV + ": LspClient::respond"),
       ("deferred answers", SV + ": schedule, schedule_tail"), ("pending table", RQ + ": Incoming::complete")),
     {"lsp": 1},
     state=[("incoming.pending", "client requests not yet answered", RQ)],
     observe=["bytes on the server's stdout", "handler invocations"])

prop("L02", "Requests are served only in the lifecycle state that allows them",
     "An LSP server answers every request other than initialize with ServerNotInitialized (-32002) until initialize and the initialized "
     "notification have been received, runs its initialisation exactly once however often initialize is sent (a malformed initialize is "
     "refused and leaves it uninitialised), and after shutdown answers every request with InvalidRequest (-32600). Request handlers, "
     "notification handlers and response handlers run only while the server is ready, and an unknown method is answered with "
     "MethodNotFound (-32601). The exit notification ends the session in any state.",
     ["inputs", "histories", "schedules"],
     "every sequence of lifecycle and ordinary messages, well-formed or not, in any order, with any delivery timing",
     "No test drives the state machine; the order in which lifecycle messages, requests, responses and internal events meet the loop is "
     "unbounded and timing-dependent.",
     [LS, SV],
     m(("state machine", SV + ": State"), ("request gating", LS + ": on_lsp_request"), ("notification gating", LS + ": on_notification")),
     {"lsp": 1}, state=[("State", "Uninitialized, Initializing, Ready, ShuttingDown", SV)],
     observe=["responses on stdout", "handler invocations"])

prop("L03", "Messages and internal events are handled once each, in the order they were sent",
     "The server handles each message the client sends exactly once and in the order it was sent, and sends the results of handlers that "
     "answer in place in that same order. Until shutdown, every internal event posted from any thread is handled exactly once on the main loop, in "
     "order per posting thread, regardless of how busy the client connection is. A message is never handled while another is being handled.",
     ["schedules", "histories"],
     "every interleaving of the reader thread, the posting threads, the tasks and the main loop, with any burst pattern of messages and events",
     "Ordering across the reader hand-off, the select between messages and events and the writer hand-off depends on thread timing; no "
     "test starts these threads.",
     [SV, LS, TR],
     m(("receive from messages or events", SV + ": ConnectionRx::recv"), ("hand-off channels", TR + ": io_transport"),
       ("typed event dispatch", LS + ": start_")),
     {"lsp": 1}, observe=["handler invocations", "order of messages on stdout"])

prop("L04", "Server requests get distinct ids and each response reaches its own handler once",
     "Requests the server sends to the client carry ids that are never reused within a session, whichever threads send them. When the client "
     "responds while the server is ready, the response is handed exactly once to the handler registered with that very request, on the main "
     "loop; a response to an unknown or already answered id runs no handler and does not disturb the session.",
     ["schedules", "histories", "inputs"],
     "every interleaving of concurrent server requests with client responses in any order, delayed, duplicated, unknown or never sent",
     "Needs concurrent senders and a client that answers out of order or twice; there is no such test.",
     [RQ, SV, LS],
     m(("id allocation", RQ + ": Outgoing::alloc_request_id"), ("registration", RQ + ": Outgoing::register"),
       ("routing", SV + ": complete_lsp_request")),
     {"lsp": 1}, state=[("outgoing.pending", "server requests without a response", RQ)],
     observe=["requests on stdout", "response handler invocations"])

prop("L05", "Input is framed correctly however it arrives; broken input ends the session",
     "The messages the server acts on are exactly the ones the client wrote, unaltered, however the byte stream is split into reads, delayed "
     "or interrupted, whatever legal header fields accompany Content-Length and whatever Unicode or header-like text the bodies contain. When the stream "
     "ends, fails or stops being well-formed, every complete message before that point is still handled, nothing after it is, no partial "
     "message is acted on, and the session ends instead of hanging.",
     ["inputs", "fault_sequences", "schedules"],
     "every message sequence, every split of its bytes into reads, interrupted reads, and every point at which the stream ends, fails or turns to garbage",
     "Existing tests parse whole in-memory strings; they never see short or interrupted reads, a stream that ends mid-message, or the "
     "reader running against the main loop.",
     [MS, TR, LM, DM],
     m(("frame parser", MS + ": read_msg_text"), ("reader thread", TR + ": io_transport"), ("end of input", LM + ": is_exit")),
     {"lsp": 3, "dap": 2}, observe=["handler invocations", "end of the session"])

prop("L06", "Output is a sequence of whole, unaltered frames in sending order",
     "Everything the server writes is a sequence of complete frames, each with the exact byte length of its JSON body, with no bytes of two "
     "messages interleaved, none lost and none repeated, however the writes are shortened, interrupted or stalled by a slow client. Messages sent "
     "by one thread arrive in the order it sent them, and their contents are exactly what was sent. Once a write of the output has failed, no further message is written.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of concurrently sending threads, every split, interruption and stall of the writes, and bodies with arbitrary Unicode",
     "Tests write to a Vec, which never shortens or interrupts a write, from one thread.",
     [MS, TR, SV],
     m(("frame writer", MS + ": write_msg_text"), ("single writer thread", TR + ": io_transport")),
     {"lsp": 3, "dap": 2}, observe=["bytes on stdout"])

prop("L07", "A session ends in bounded time and everything sent before its end is delivered",
     "When the client sends exit, closes its side of the stream or the stream breaks, the server's main call returns within bounded time "
     "(no thread is left blocked on another), without error if only the input ended, and everything sent before the main loop ended has "
     "been completely written by then or, if writing the output failed, that failure is reported. If the client stops reading for good the server also ends. No wake-up is lost while the session runs: "
     "pending work always makes progress.",
     ["schedules", "fault_sequences", "histories"],
     "every moment at which the session can end relative to work in flight on every thread, and every state of the output pipe at that moment",
     "Termination depends on the order in which channels disconnect and threads are joined; no test starts or joins them.",
     [TR, SV, LS, DS],
     m(("writer join", TR + ": IoThreads::join_write"), ("weak senders", SV + ": LspClient::weak"), ("reader stops on exit", TR + ": io_transport")),
     {"lsp": 3, "dap": 1}, observe=["return of with_stdio_transport", "bytes on stdout"])

prop("L10", "No client message can crash or stall the server",
     "Whatever parameters, commands, arguments, resource paths, ids, responses and notifications a client sends in well-framed messages, the server "
     "keeps running and serves the messages that follow. A request it cannot decode or does not know is answered with the error code "
     "the protocol assigns to that case: InvalidRequest for undecodable request parameters, InvalidParams for an undecodable command or resource "
     "request, MethodNotFound for an unknown method, command or resource; undecodable or unknown notifications are dropped.",
     ["inputs", "histories", "schedules"],
     "every malformed or unknown request, command, resource request, notification and response at every point of a session",
     "The loop and its dispatch are not run by any test, so no malformed input reaches a handler in one.",
     [SV, LS],
     m(("decode errors become responses", SV + ": from_json"), ("command dispatch", LS + ": on_execute_command"),
       ("resource dispatch", SV + ": get_resources")),
     {"lsp": 1}, observe=["responses on stdout", "panics"])

prop("D01", "A DAP session serves every request exactly once, in order, and ends cleanly",
     "In a debug-adapter session every request receives exactly one response with its request_seq, success flag and body as its handler produced, or a "
     "failure if it cannot be served (before initialize, after disconnect, unknown or undecodable); the adapter is initialised at most once. "
     "Messages and internal events are handled once each in order, events the adapter emits have distinct sequence numbers and arrive in order "
     "per sender, and no input crashes the server or keeps it from ending when the stream does.",
     ["schedules", "inputs", "histories"],
     "every history of DAP requests and events, every way and moment a handler answers, every interleaving of the threads involved",
     "Only the JSON shapes of DAP messages are covered by unit tests; the session loop never runs in one.",
     [DS, SV, RQ, DM, TR],
     m(("request gating", DS + ": on_request"), ("event sequence numbers", DS + ": send_dap_event_"), ("loop", DS + ": start_")),
     {"dap": 1}, observe=["bytes on stdout", "handler invocations"])

prop("L08", "Recording a session captures exactly the input handled and never disturbs it",
     "When a session is recorded, the recording is at every moment a byte-exact prefix of what the client wrote that contains every message "
     "handled so far, and at the end of the session all input that was consumed (through exit, if the client sent it, and not beyond). "
     "The session behaves exactly as it would without recording, even if writing the recording is slow, interrupted, partial or fails "
     "because the disk is full or broken.",
     ["schedules", "fault_sequences", "inputs", "histories"],
     "every session, split and interruption of the input, and every sequence of short, interrupted and failing writes of the recording",
     "No test records a session; the recorder sits inside buffered reading, where short reads, end of input and failing writes meet.",
     [TR],
     m(("recording reader", TR + ": MirrorWriter"), ("selection of the input", TR + ": with_stdio_transport_impl")),
     {"mirror": 1}, observe=["bytes of the recording", "stdout", "handler invocations"])

prop("L09", "A replayed session waits for every answer and gives the recorded answers",
     "A replayed recording is dispatched like the original session: the same messages in the same order with the same contents. "
     "The replay does not end before every request in it that is ever answered has been answered, even though the input ends at once, and "
     "answers are written completely. If some request is never answered, the replay still ends once the replay timeout has passed.",
     ["schedules", "histories", "fault_sequences"],
     "every recorded session and every time at which deferred answers complete relative to the end of the input, with interrupted and short reads of the file",
     "No test replays anything; whether an answer is lost depends on whether a worker finishes before the loop and the transport are torn down.",
     [TR, LS, DS, RQ],
     m(("wait for pending requests", LS + ": start"), ("same for DAP", DS + ": start"), ("pending table", RQ + ": Incoming::has_pending"),
       ("answer leaves the table only with its write", SV + ": LspClient::respond")),
     {"mirror": 1}, observe=["stdout of the replay", "handler invocations", "return of the session"])

FL = "crates/tinymist-std/src/fs/flock.rs"
PT = "crates/tinymist-std/src/fs/paths.rs"
QY = "crates/tinymist-std/src/concepts/query.rs"
FM = "crates/tinymist-std/src/adt/fmap.rs"
HS = "crates/tinymist-std/src/hash.rs"
LN = "crates/tinymist-l10n/src/lib.rs"

prop("S01", "A file lock excludes others until it is dropped, whatever process holds it",
     "While an exclusive lock on a file is held, no other thread or process holds a shared or exclusive lock on it, a shared lock excludes exclusive "
     "ones, and what is written through an exclusive lock is seen by every later holder and never truncated by taking the lock. A lock ends with its "
     "guard or its process, even if a copy of its descriptor lives on; a try-variant never waits and reports contention only if there was a conflicting user. "
     "Missing directories and files are created by the creating variants alone, a lock call that fails is reported as an error, and where the file system does not support locks (or is NFS) "
     "taking one succeeds without waiting.",
     ["schedules", "crash_points", "fault_sequences", "configurations"],
     "every interleaving of lockers in several threads and processes, a crash of any of them at any step, interrupted or failing system calls, and file systems with and without locking",
     "The unit tests of the crate take no lock at all; exclusion, crash release and contention exist only between several processes.",
     [FL],
     m(("lock acquisition and NFS/unsupported fallback", FL + ": acquire"), ("opening without truncation", FL + ": Filesystem::open"),
       ("release on drop", FL + ": impl Drop for FileLock"), ("try variants", FL + ": try_open_rw_exclusive_create, try_open_ro_shared_create")),
     {"flock": 1}, state=[("lock state", "which process holds which lock on the open file", FL)],
     observe=["returned locks and errors", "contents of the locked file", "system calls"])

prop("S02", "An atomic write is seen whole or not at all, at any instant and after any crash",
     "Whenever a file is replaced atomically, every reader at every moment, and whoever looks after a crash, finds either the complete old or the complete new "
     "contents, never a mixture, a prefix or no file, and never the contents of a write that reported an error. The replaced file keeps its permission "
     "bits, versions never go back once they were replaced, and no temporary file is left behind unless the process crashed.",
     ["schedules", "crash_points", "fault_sequences", "inputs"],
     "every interleaving of several writers and readers in several processes, crashes at any step, and any sequence of short, interrupted and failing writes, opens and renames",
     "The unit tests write one file once and look at it afterwards; a reader in the middle, a crash or a full disk is never tried.",
     [PT],
     m(("write to a temporary file, then rename", PT + ": write_atomic"), ("permission bits", PT + ": write_atomic")),
     {"atomic": 1}, state=[("the file's directory entry", "which version is visible", PT)], observe=["contents and mode of the file", "directory listing"])

prop("S03", "Whole-file writes, appends and copies either complete or report an error",
     "When writing, appending to, copying or linking a file reports success, the file holds exactly the requested bytes (and for an append everything it held "
     "before), however the operating system splits or interrupts the underlying calls; reading returns the complete contents or an error. Writing contents that "
     "are already there does not touch the file, concurrent appends are neither lost nor mixed, and linking replaces what is at the destination without "
     "following it; copies and links have the permissions of their source. An error is reported only if something went wrong.",
     ["inputs", "fault_sequences", "schedules", "crash_points"],
     "all contents and sizes, all kinds of existing destination, any sequence of short, interrupted and failing system calls, several processes appending",
     "The unit tests write once to a healthy disk; partial and failing calls, and several writers, do not occur in them.",
     [PT],
     m(("write only when changed", PT + ": write_if_changed"), ("append", PT + ": append"), ("link or copy", PT + ": link_or_copy, copy"),
       ("reading", PT + ": read, read_bytes")),
     {"rewrite": 1}, observe=["file contents, inode and modification time", "returned results"])

prop("S04", "Temporary and cache directories appear complete and are cleaned up safely",
     "A temporary directory is fresh and private while its function runs and is gone when the function returns, fails or panics, and the function's outcome is "
     "passed on unchanged. A cache directory becomes visible only together with its cache tag, whoever else creates it at the same time, and one that exists already is "
     "neither changed nor emptied. Removing a tree or the siblings of a locked file removes all of it, also read-only entries, but nothing that symbolic "
     "links in it point to, nor the locked file itself.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "every interleaving of several processes and threads creating, using and removing directories, crashes at any step, failing system calls, and ways the function ends",
     "No unit test creates a cache directory or removes a tree; races between creators and crashes are out of reach.",
     [PT, FL],
     m(("temporary directory", PT + ": temp_dir_in"), ("atomic creation of the cache directory", PT + ": create_dir_all_excluded_from_backups_atomic"),
       ("removal", PT + ": remove_dir_all, remove_file"), ("siblings", FL + ": remove_siblings")),
     {"dirs": 1}, observe=["directory trees at every moment", "returned results"])

prop("S05", "A shared query is computed at most once and all its users get that one result",
     "However many threads ask for a query at the same time, its computation runs at most once, with the context it was created with, and every caller gets that same result "
     "or that same error. Looking at a query without computing it never waits, shows nothing before the computation has finished and the result ever after. "
     "Taking a value out of a shared handle yields the full value whether or not others still share it.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of threads that compute, look at and share queries, computations that take any time, fail or panic, and spurious wake-ups",
     "No unit test touches queries; the property is about simultaneous callers.",
     [QY, "crates/tinymist-std/src/concepts/takable.rs"],
     m(("single computation", QY + ": compute_with_context"), ("non-blocking look", QY + ": get_uninitialized"), ("taking", "crates/tinymist-std/src/concepts/takable.rs: TakeAs")),
     {"query": 1}, state=[("cell", "the result, once computed", QY)], observe=["returned results", "runs of the computation"])

prop("S06", "Fingerprints identify values, and the shared fingerprint map loses nothing",
     "A value always resolves to the same fingerprint, whichever threads resolve it at the same time and whatever caches are evicted, and different values or types "
     "resolve to different ones; a fingerprint survives being written as text or a number and read back. In a map keyed by fingerprints, entries that threads insert and "
     "update concurrently are never lost, duplicated or mixed up, for any number of shards, and lookups see exactly the entries that are there.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of threads that insert, update, look up and resolve, all shard counts, and keys that agree in any part of their bits",
     "The unit tests settle one fingerprint and the default shard count on a single thread.",
     [FM, HS],
     m(("choice of the shard", FM + ": shard"), ("resolving with conflict check", HS + ": FingerprintBuilder::resolve"), ("text form", HS + ": as_svg_id, try_from_str")),
     {"maps": 1}, state=[("shards", "entries by the low bits of the fingerprint", FM)], observe=["map contents", "returned fingerprints"])

prop("S07", "Messages show in the selected language with exactly their arguments filled in",
     "A message reads as its translation in the locale that is selected, exactly or by a language prefix, or as its original text if there is no translation; selecting an unknown locale changes nothing, "
     "and a switch of the locale on one thread is seen whole by all others, each message being entirely in one locale that was current during the call. Named arguments replace exactly their placeholders; "
     "all other text, including braces, unknown placeholders and what follows a placeholder, is kept, and translations load as they are written.",
     ["schedules", "inputs", "histories"],
     "every interleaving of threads that switch locales and read messages, all locales, translation texts, messages and arguments",
     "The crate has no unit tests.",
     [LN],
     m(("selection of the locale", LN + ": set_locale"), ("lookup", LN + ": find_message"), ("arguments", LN + ": t_with_args"), ("loading", LN + ": load_translations, deserialize")),
     {"l10n": 1}, state=[("current locale", "the table messages are looked up in", LN)], observe=["texts of messages", "returned results"])

prop("S08", "Updating the translation file keeps existing translations of used messages",
     "After a successful update the file holds exactly the messages in use, in order of their keys, each with its current English text first and every translation it had before after it in order of language, and reads back as "
     "such; existing entries with other languages are never lost or mixed up. If the file cannot be read or understood, the update fails and the file is left as it was; an error is reported only if something went wrong.",
     ["inputs", "histories", "fault_sequences"],
     "all sets and orders of messages, all existing files, all sequences of updates with failing, short and interrupted reads and writes",
     "The crate has no unit tests.",
     [LN],
     m(("update", LN + ": update_disk_translations"), ("parsing", LN + ": deserialize"), ("writing", LN + ": serialize_translations")),
     {"l10nfile": 1}, observe=["the translation file", "returned results"])

STUBS = [
    "The crates of the compiler side cannot be built here as shipped: typst, notify, reqwest, rayon, rpds, toml, semver, flate2 and tar are not "
    "available offline. Stand-ins (sim2/stubs) implement the parts of their interfaces that are used; the crates of /repo are compiled against them unmodified.",
]

prop("V01", "A view of the files shows its overlay over notified files over the disk",
     "Every view taken of the virtual file system reads each file as: the content shadowed for its id, else that shadowed for its path, else that last notified for its path, else what is on disk, "
     "as of the last change made before the view was taken; it keeps showing what it showed first, however many threads read it and whatever happens to later views. Sources are the same text, "
     "without a byte order mark, under the id that was asked for. Files are reported unchanged since an earlier view only if what was read there is still what the current view holds.",
     ["histories", "schedules", "fault_sequences"],
     "every history of shadowing, unshadowing, notified changes, resets, evictions, package moves, derived and forked views, interleaved in every way with any number of threads reading "
     "current and older views, with short, interrupted and failing reads",
     "The crate's tests cover path resolution; none reads a view while another is being made, which is when entries are shared between views.",
     [VF, VO, VN, "crates/tinymist-vfs/src/path_mapper.rs", "crates/tinymist-vfs/src/resolve.rs", "crates/tinymist-vfs/src/system.rs"],
     m(("revision of views", VF + ": Vfs::revise, RevisingVfs"), ("shared entries", VF + ": EntryMap, read_content, source"), ("invalidation by path", VF + ": invalidate_path, PathMap"),
       ("overlay", VO + ": OverlayAccessModel::content"), ("notified files", VN + ": NotifyAccessModel")),
     {"vfs": 1}, state=[("managed", "what was read in this view and when it changed", VF), ("paths", "which ids lie at a path", VF)], observe=["contents read", "sources", "answers of is_clean_compile"],
     binary="vsim2", assumptions=STUBS)

prop("V02", "The file watcher reports what is on disk, and only that",
     "Once the disk rests, what was last reported of every dependency is what is on disk: for files that existed when the dependencies were last synchronised (and were not missing for long since) without anyone asking, "
     "however they were changed (in place, by replacement, renaming, removal), and for all files after a synchronisation. Nothing is reported that a file never was, a file that is empty or missing for less than 50 ms while it "
     "is saved is not reported as such, and a file that is still a dependency is never dropped. Every upstream update comes back exactly once, in order, with what was sent with it, and the watcher ends when it is told to or its owner is gone.",
     ["histories", "schedules", "fault_sequences"],
     "every history of file changes and synchronised sets, every delay and merging of file events, any number of upstream updates in between, and failing watches, watchers and reads",
     "The module says of itself that it is untested and quite probably buggy; there is no test of it at all.",
     [WT, "crates/tinymist-vfs/src/notify.rs", "crates/tinymist-vfs/src/system.rs"],
     m(("synchronisation of the watches", WT + ": update_watches, update_entries"), ("file events", WT + ": notify_event, notify_entry_update"),
       ("recheck of emptied and removed files", WT + ": recheck_notify_event"), ("upstream updates", WT + ": invalidate_upstream")),
     {"watch": 1}, state=[("watched_entries", "what is watched, what was reported last, and whether it is being rechecked", WT)], observe=["reported changes", "file contents"],
     binary="vsim2", assumptions=STUBS + ["The simulated inotify binds a watch to an inode, delivers events late but in order, merges equal ones, and drops the watch with the inode."])

TM = "crates/tinymist/src/"
SERVER = [TM + f for f in ("server.rs", "input.rs", "lsp.rs", "lsp/init.rs", "lsp/query.rs", "config.rs", "project.rs", "actor/editor.rs", "task/mod.rs")] + [PC, "crates/tinymist-project/src/entry.rs"]
WHOLE = STUBS + [
    "The stand-in compiler reads includes and data files, warns and fails as the text says and takes simulated time; what a document is compiled to is therefore text, not pages. "
    "What the individual queries compute (completion, hover, ...) is replaced by a description of the documents and the position they were given.",
    "The editor sends well-formed messages, waits for the answer to initialize and keeps reading; line ends within a document are \\n or \\r\\n.",
]
EDITOR = "every history of opening, editing, saving and closing documents, of queries, exports, formatting, focusing, pinning and settings that change, while files change on disk, with every interleaving of the server's " \
         "threads, tasks, timers and compilations and every delay of file events"

prop("V03", "What the editor shows settles to its documents as they are now",
     "Once the editor and the disk rest, the diagnostics last published are those of the main document compiled from what the open documents and the files it depends on contain now: none missing, none left over from documents closed, "
     "mains left or settings replaced, each at its range in the encoding agreed on; and the last compile status, page count and word count, if they are asked for, are those of that compilation. While previews of other documents run, their diagnostics are shown besides, as long as they run.",
     ["histories", "schedules", "configurations"],
     EDITOR + ", under all settings and client capabilities used here",
     "The server's own tests run a fixed session against the finished binary; compilations, notifications of them and the editor's changes overtake each other in ways no test arranges.",
     SERVER + [WT, VF, "crates/tinymist-query/src/diagnostics.rs", "crates/tinymist-analysis/src/location.rs"],
     m(("documents in memory", TM + "input.rs: create_source, edit_source, remove_source"), ("delayed memory changes", PC + ": process, apply_delayed_memory_changes"),
       ("compilation results", PC + ": process_compile; " + TM + "project.rs: notify_compile"), ("publishing", TM + "actor/editor.rs: EditorActor"),
       ("main document", TM + "input.rs: focus_main_file, pin_main_file, resolve_task"), ("reloading", TM + "lsp.rs: on_changed_configuration; project.rs: reload_projects")),
     {"editor": 2, "preview": 1}, state=[("diagnostics", "what was published last, by file", TM + "actor/editor.rs"), ("primary", "the main document's project and its revision", PC)],
     observe=["published diagnostics", "compile status"], binary="vsim2", secs=60, assumptions=WHOLE)

prop("V04", "Every request is answered once, from the documents as the editor left them",
     "Each request of the editor gets exactly one answer, and is answered, unless it cannot be, without an error. A query sees the text of its document, of the main document and the position as they are after every change sent before it, "
     "whatever is compiled meanwhile, the position meaning the same character in UTF-8 and UTF-16; the edits a formatting request is answered with turn the document as it was into the formatted one.",
     ["histories", "schedules", "configurations", "inputs"],
     EDITOR + ", with texts of one to four byte characters, empty lines and positions beyond the end of a line",
     "The queries' own tests call them one by one with a ready snapshot; how a snapshot comes to hold every edit sent before is not tested.",
     SERVER + [TM + "task/format.rs", "crates/tinymist-analysis/src/location.rs", "crates/tinymist-query/src/analysis/global.rs", "crates/sync-lsp/src/server.rs"],
     m(("snapshots for queries", TM + "server.rs: query, query_source; lsp/query.rs"), ("positions", "crates/tinymist-analysis/src/location.rs: to_typst_range, to_lsp_range"),
       ("edits", TM + "input.rs: apply_change"), ("formatting", TM + "task/format.rs: calc_diff"), ("requests in flight", "crates/sync-lsp/src/server.rs")),
     {"editor": 3, "preview": 1}, state=[("memory_changes", "the open documents' texts", TM + "server.rs")], observe=["answers"], binary="vsim2", secs=60, assumptions=WHOLE)

prop("V05", "Exported files hold the document that was asked for",
     "An export that succeeds leaves, at the path it is answered with, the export in the format asked for of the document as compiled from what the editor's documents contained when it asked (or of a later state, if that was exported there meanwhile), "
     "and fails only if that does not compile. Whenever writing fails, an exported file is still a whole one. With exporting on typing, or on saving a document that was at rest, the PDF beside the main document is that of the current document once everything rests.",
     ["histories", "schedules", "configurations"],
     EDITOR + ", for all export formats and PDF export settings used here",
     "The exporting tests call the task once, with nothing else going on; exports of several states of a document run at once and finish in any order.",
     SERVER + [TM + "task/export.rs", TM + "lsp/query.rs"],
     m(("when to export", TM + "task/export.rs: ExportTask::signal"), ("one export at a time", TM + "task/mod.rs: FutureFolder"), ("commands", TM + "task/export.rs: do_export"),
       ("compilations to export", TM + "project.rs: notify_compile")),
     {"editor": 1}, state=[("folding table", "the newest revision that is being exported", TM + "task/mod.rs")], observe=["exported files", "answers of export commands"], binary="vsim2", secs=60, assumptions=WHOLE)

TP = "crates/typst-preview/src/"
PREVIEW = [TM + "tool/preview.rs", TM + "tool/preview/compile.rs", TM + "cmd.rs", TM + "project.rs", TM + "actor/preview.rs"] + \
    [TP + f for f in ("lib.rs", "outline.rs", "debug_loc.rs", "actor/editor.rs", "actor/render.rs", "actor/webview.rs", "actor/mod.rs")] + [PC]
BROWSING = "every history of starting, scrolling and ending previews of the main and of other documents and of browsers that connect, ask, click, are slow and leave, while the editor edits, saves, closes, focuses, pins and changes settings " \
           "and files change on disk, with every interleaving of the server's threads, tasks and compilations"
LOOK = WHOLE[:1] + [
    WHOLE[1].replace("not pages.", "not pages. The renderer's stand-in sends that text whole or as a change numbered after the one before; an element is a line of it."),
    "Websockets are in-memory pipes whose messages arrive late but in order, and which break when the browser leaves; ports are numbers and HTTP itself is left out.",
    "Task ids are used once, and no preview is being started while the settings' change replaces the projects.",
] + WHOLE[2:]

prop("V06", "Every browser settles to the document its preview is of",
     "Once the editor and the disk rest, every connected browser of every running preview shows its document as last compiled without an error - the main one, whichever that is now, or the one the preview was started for - "
     "as of the last save if it refreshes on saving; it is brought up to date by changes each of which follows the one before, starting with a whole document, whatever other browsers, previews and compilations do meanwhile.",
     ["histories", "schedules", "configurations"],
     BROWSING,
     "The preview has no tests besides those of single data structures; whole and incremental renderings are asked for by different tasks and are merged when they meet.",
     PREVIEW,
     m(("rendering", TP + "actor/render.rs: RenderActor::run"), ("browser connections", TP + "actor/webview.rs; " + TP + "lib.rs: start_data_plane"),
       ("compilations to show", TP + "lib.rs: CompileWatcher::notify_compile; " + TM + "project.rs: notify_compile"), ("projects of previews", TM + "project.rs: restart_dedicate; " + PC)),
     {"preview": 1}, state=[("doc_sender", "the document last compiled", TP + "lib.rs"), ("renderer", "what the browser was sent last", TP + "actor/render.rs")],
     observe=["messages to the browsers"], binary="vsim2", secs=60, assumptions=LOOK)

prop("V07", "Jumps between the source and the preview land where they point",
     "A click in a browser at something that comes from the source makes the editor show exactly that place of that file, and one at something that does not shows nothing; a cursor sent to a preview makes its browsers, and no others, "
     "jump to where that place of the source is in the document, if it is there. Once all rests, the outline the editor has lists the titles of the document, in order and nested, with their positions, and each entry's name leads to the place of its title as long as "
     "that name is remembered, and to no other place ever.",
     ["histories", "schedules", "inputs"],
     BROWSING,
     "No test resolves a position while documents change; names of places are kept across many renderings, of which the tests do none.",
     PREVIEW + [TM + "input.rs"],
     m(("from the document to the source", TP + "actor/render.rs: resolve_span_range; " + TM + "tool/preview/compile.rs: resolve_span"), ("from the source to the document", TP + "actor/render.rs: resolve_source_loc"),
       ("names of places", TP + "debug_loc.rs: SpanInterner"), ("outline", TP + "outline.rs; " + TP + "actor/render.rs: OutlineRenderActor")),
     {"preview": 1}, state=[("span2id", "the places that have names", TP + "debug_loc.rs")], observe=["what the editor is asked to show", "jumps and outlines sent"], binary="vsim2", secs=60, assumptions=LOOK)

prop("V08", "Previews start, run and end when they are told to",
     "A preview that is started listens at the port the editor is told, until it is ended, and takes every browser that connects; ending it, or all, ends exactly those, after which nothing listens there, its document is no longer compiled for it, and "
     "the editor is told once that it has ended. A change of settings that replaces the projects ends them all. None of it, in any order and whatever the browsers do, ends or stops the server or another preview.",
     ["histories", "schedules", "configurations"],
     BROWSING,
     "Starting and ending a preview involve the server's thread, a task of the preview, its connections and the project's compilations, which no test runs.",
     PREVIEW + [TM + "lsp.rs"],
     m(("commands", TM + "cmd.rs: do_start_preview, kill_preview"), ("preview tasks", TM + "actor/preview.rs: PreviewActor"), ("starting", TM + "tool/preview.rs: PreviewState::start; " + TP + "lib.rs: PreviewBuilder::build"),
       ("ended projects", PC + ": remove_dedicates; " + TM + "project.rs: notify_removed")),
     {"preview": 1}, state=[("tabs", "the previews that run", TM + "actor/preview.rs")], observe=["answers of preview commands", "listening ports", "notifications that a preview has ended"], binary="vsim2", secs=60, assumptions=LOOK)

PK = "crates/tinymist-package/src/registry/http.rs"
prop("P01", "A package that is found is complete, whoever downloads it",
     "Whenever a package is resolved, by any of several threads and processes that share the package directories, the directory it is said to be in holds exactly that package, and stays so, although other threads and processes download it "
     "at the same time, downloads break off, arrive corrupted or are refused, writing fails and processes crash. A package kept locally is never downloaded, one that is nowhere is not found, and one that can be had is not refused "
     "unless something went wrong; after failures and crashes everything can be had again. The latest version is the greatest by number, and the list of packages is that of the registry.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "every interleaving of resolving threads and processes, every crash point, every failing, cut, corrupted or slow download, and failing or short writes, renames and removals",
     "There is no test of the package storage: it needs a server.",
     [PK, "crates/tinymist-package/src/registry.rs"],
     m(("finding packages", PK + ": PackageStorage::prepare_package"), ("downloading", PK + ": download_package, threaded_http"), ("listing", PK + ": download_index, determine_latest_version")),
     {"package": 1}, state=[("index", "the registry's list of packages, once asked for", PK)], observe=["resolved directories and their contents", "requests to the registry"],
     binary="vsim2", assumptions=STUBS + ["A crash is that of a process; what it has written before stays."])

LK = "crates/tinymist-project/src/lock.rs"
prop("P02", "Project lock files keep what every process recorded",
     "However many threads and processes update a project's lock file at once, no update that succeeded is lost: the file holds the result of applying them one after another, in an order that respects which were over before others began, "
     "with entries of the same id replaced, documents and tasks sorted and the newest route last; reading gives such a state, never one between. An update that fails, of a file that cannot be read, is no lock file or is of another version, "
     "leaves it as it is, and every state is read back as it was recorded. The project a file is resolved to is the one with the newest route whose recorded files include it, in the innermost directory that has one.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "every interleaving of updating and reading threads and processes, interrupted, short and failing reads, opens and locks; except after an update's own write failed or was cut by a crash, which the code documents as not atomic",
     "There is no test of updating lock files; the loss of updates needs two processes between each other's reading and writing.",
     [LK, "crates/tinymist-project/src/model.rs", "crates/tinymist-task/src/model.rs", "crates/tinymist-std/src/fs/flock.rs", "crates/tinymist/src/route.rs"],
     m(("updating", LK + ": LockFile::update"), ("reading", LK + ": LockFile::read"), ("writing it out", LK + ": serialize_resolve"), ("recorded materials", LK + ": LockFileUpdate::commit"),
       ("resolving", "crates/tinymist/src/route.rs: ProjectRouteState::resolve, calculate_routes"), ("the lock on the file", "crates/tinymist-std/src/fs/flock.rs")),
     {"lock": 1}, state=[("path_routes", "the lock files and recorded materials known to the server", "crates/tinymist/src/route.rs")], observe=["lock file contents", "resolved projects"],
     binary="vsim2", assumptions=STUBS + ["The file system supports flock; a file system that does not is used without locking, by design."])
