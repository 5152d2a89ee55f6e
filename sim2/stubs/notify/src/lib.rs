//! Stub of notify on a simulated inotify: watches are bound to inodes, events
//! are queued when a file changes and delivered when the simulation decides.
use std::collections::{BTreeMap, VecDeque};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RemoveKind { Any, File, Folder, Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum CreateKind { Any, File, Folder, Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum RenameMode { Any, To, From, Both, Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum DataChange { Any, Size, Content, Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum MetadataKind { Any, AccessTime, WriteTime, Permissions, Ownership, Extended, Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessMode { Any, Execute, Read, Write, Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum AccessKind { Any, Read, Open(AccessMode), Close(AccessMode), Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum ModifyKind { Any, Data(DataChange), Metadata(MetadataKind), Name(RenameMode), Other }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum EventKind { Any, Access(AccessKind), Create(CreateKind), Modify(ModifyKind), Remove(RemoveKind), Other }
    impl EventKind {
        pub fn is_access(&self) -> bool { matches!(self, EventKind::Access(_)) }
        pub fn is_create(&self) -> bool { matches!(self, EventKind::Create(_)) }
        pub fn is_modify(&self) -> bool { matches!(self, EventKind::Modify(_)) }
        pub fn is_remove(&self) -> bool { matches!(self, EventKind::Remove(_)) }
        pub fn is_other(&self) -> bool { matches!(self, EventKind::Other) }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Event {
        pub kind: EventKind,
        pub paths: Vec<std::path::PathBuf>,
    }
    impl Event {
        pub fn need_rescan(&self) -> bool { false }
    }
}
pub use event::{Event, EventKind};

#[derive(Debug)]
pub enum ErrorKind { Generic(String), Io(std::io::Error), PathNotFound, WatchNotFound, MaxFilesWatch }
#[derive(Debug)]
pub struct Error { pub kind: ErrorKind, pub paths: Vec<PathBuf> }
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.kind)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, Default)]
pub struct Config;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode { Recursive, NonRecursive }

pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        self(event)
    }
}
pub trait Watcher {
    fn new<F: EventHandler>(handler: F, config: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}

#[derive(Debug)]
pub struct INotifyWatcher { id: u64 }
pub type RecommendedWatcher = INotifyWatcher;

struct Watch { path: PathBuf, ino: u64 }
struct Inst {
    handler: Option<Box<dyn EventHandler>>,
    /// watch descriptors, as in the kernel
    wds: BTreeMap<u64, Watch>,
    /// the watcher's own table
    paths: BTreeMap<PathBuf, u64>,
    queue: VecDeque<(u64, EventKind, u64)>,
}
#[derive(Default)]
struct State { next: u64, insts: BTreeMap<u64, Inst> }
static STATE: Mutex<State> = Mutex::new(State { next: 1, insts: BTreeMap::new() });

/// The simulated kernel's side.
pub mod sim {
    use super::*;
    use event::*;
    /// Asked before a watcher or a watch is made: does it fail?
    pub static FAIL: Mutex<Option<fn(&str) -> bool>> = Mutex::new(None);
    /// The time, for events.
    pub static NOW: Mutex<Option<fn() -> u64>> = Mutex::new(None);
    pub(super) fn fails(what: &str) -> bool {
        let f = *FAIL.lock().unwrap();
        f.is_some_and(|f| f(what))
    }
    fn now() -> u64 {
        let f = *NOW.lock().unwrap();
        f.map_or(0, |f| f())
    }
    /// Something happened to the file with this inode. Returns how many
    /// watches see it.
    pub fn post(ino: u64, kind: EventKind) -> usize {
        let t = now();
        let mut s = STATE.lock().unwrap();
        let mut n = 0;
        for i in s.insts.values_mut() {
            let hit: Vec<u64> = i.wds.iter().filter(|(_, w)| w.ino == ino).map(|(k, _)| *k).collect();
            for wd in hit {
                n += 1;
                if matches!(kind, EventKind::Remove(_)) {
                    // the inode is gone; its number may be used again
                    i.wds.get_mut(&wd).unwrap().ino = 0;
                }
                // the kernel merges an event with an equal one at the tail
                if i.queue.back().is_some_and(|b| b.0 == wd && b.1 == kind) {
                    continue;
                }
                i.queue.push_back((wd, kind, t));
            }
        }
        n
    }
    /// Is this path watched, on this inode?
    pub fn watched(path: &Path, ino: u64) -> bool {
        STATE.lock().unwrap().insts.values().any(|i| i.wds.values().any(|w| w.path == path && w.ino == ino))
    }
    pub fn pending() -> usize {
        STATE.lock().unwrap().insts.values().map(|i| i.queue.len()).sum()
    }
    /// When the oldest undelivered event happened.
    pub fn oldest() -> Option<u64> {
        STATE.lock().unwrap().insts.values().filter_map(|i| i.queue.front().map(|e| e.2)).min()
    }
    /// Delivers one event.
    pub fn deliver() -> bool {
        let mut s = STATE.lock().unwrap();
        let ids: Vec<u64> = s.insts.keys().copied().collect();
        for id in ids {
            let i = s.insts.get_mut(&id).unwrap();
            let Some((wd, kind, _)) = i.queue.pop_front() else { continue };
            // an event of a watch that is gone has no path any more
            let Some(path) = i.wds.get(&wd).map(|w| w.path.clone()) else { return true };
            if matches!(kind, EventKind::Remove(_)) {
                // the kernel dropped the watch; the watcher forgets the path
                i.wds.remove(&wd);
                if let Some(cur) = i.paths.remove(&path) {
                    i.wds.remove(&cur);
                }
            }
            // not under the lock: others may run while it is handled
            let mut h = i.handler.take().unwrap();
            drop(s);
            h.handle_event(Ok(Event { kind, paths: vec![path] }));
            let mut s = STATE.lock().unwrap();
            match s.insts.get_mut(&id) {
                Some(i) => i.handler = Some(h),
                None => {
                    drop(s);
                    drop(h);
                }
            }
            return true;
        }
        false
    }
    pub fn modify() -> EventKind {
        EventKind::Modify(ModifyKind::Data(DataChange::Any))
    }
    pub fn metadata() -> EventKind {
        EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
    }
    pub fn close_write() -> EventKind {
        EventKind::Access(AccessKind::Close(AccessMode::Write))
    }
    pub fn moved() -> EventKind {
        EventKind::Modify(ModifyKind::Name(RenameMode::From))
    }
    pub fn removed() -> EventKind {
        EventKind::Remove(RemoveKind::File)
    }
}

impl Watcher for INotifyWatcher {
    fn new<F: EventHandler>(handler: F, _config: Config) -> Result<Self> {
        if sim::fails("watcher") {
            return Err(Error { kind: ErrorKind::Io(std::io::Error::from_raw_os_error(24)), paths: vec![] });
        }
        let mut s = STATE.lock().unwrap();
        s.next += 1;
        let id = s.next;
        s.insts.insert(
            id,
            Inst { handler: Some(Box::new(handler)), wds: BTreeMap::new(), paths: BTreeMap::new(), queue: VecDeque::new() },
        );
        Ok(INotifyWatcher { id })
    }
    fn watch(&mut self, path: &Path, _mode: RecursiveMode) -> Result<()> {
        if sim::fails("watch") {
            return Err(Error { kind: ErrorKind::MaxFilesWatch, paths: vec![path.to_owned()] });
        }
        let ino = match std::fs::metadata(path) {
            Ok(m) => m.ino(),
            Err(_) => return Err(Error { kind: ErrorKind::PathNotFound, paths: vec![path.to_owned()] }),
        };
        let mut s = STATE.lock().unwrap();
        s.next += 1;
        let wd = s.next;
        let i = s.insts.get_mut(&self.id).unwrap();
        // watching an inode twice is one watch
        let old = i.wds.iter().find(|(_, w)| w.ino == ino).map(|(k, _)| *k);
        let wd = old.unwrap_or(wd);
        i.wds.insert(wd, Watch { path: path.to_owned(), ino });
        i.paths.insert(path.to_owned(), wd);
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        let mut s = STATE.lock().unwrap();
        let i = s.insts.get_mut(&self.id).unwrap();
        match i.paths.remove(path) {
            Some(wd) => {
                i.wds.remove(&wd);
                Ok(())
            }
            None => Err(Error { kind: ErrorKind::WatchNotFound, paths: vec![path.to_owned()] }),
        }
    }
}
impl Drop for INotifyWatcher {
    fn drop(&mut self) {
        let i = STATE.lock().unwrap().insts.remove(&self.id);
        drop(i);
    }
}
