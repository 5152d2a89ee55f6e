//! Stand-in for `dirs`: the directories a run was given.
use std::path::PathBuf;
use std::sync::Mutex;

pub static BASE: Mutex<Option<PathBuf>> = Mutex::new(None);

fn sub(n: &str) -> Option<PathBuf> {
    BASE.lock().unwrap().as_ref().map(|b| b.join(n))
}
pub fn cache_dir() -> Option<PathBuf> {
    sub("cache")
}
pub fn data_dir() -> Option<PathBuf> {
    sub("data")
}
