//! Stub of rayon: a global pool of few threads, started when it is needed.
use std::collections::VecDeque;
use std::sync::{Condvar, Mutex};

type Job = Box<dyn FnOnce() + Send>;
pub mod sim {
    /// How many threads the pool has.
    pub static WORKERS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(2);
}
#[derive(Default)]
struct Pool {
    jobs: VecDeque<Job>,
    idle: usize,
    threads: usize,
}
static POOL: Mutex<Pool> = Mutex::new(Pool { jobs: VecDeque::new(), idle: 0, threads: 0 });
static WORK: Condvar = Condvar::new();

fn worker() {
    loop {
        let job = {
            let mut p = POOL.lock().unwrap();
            p.idle += 1;
            loop {
                if let Some(j) = p.jobs.pop_front() {
                    p.idle -= 1;
                    break j;
                }
                p = WORK.wait(p).unwrap();
            }
        };
        job();
    }
}
/// Jobs start in the order they come in and run in any order.
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    let more = {
        let mut p = POOL.lock().unwrap();
        p.jobs.push_back(Box::new(f));
        let more = p.idle < p.jobs.len() && p.threads < sim::WORKERS.load(std::sync::atomic::Ordering::Relaxed);
        p.threads += more as usize;
        more
    };
    if more {
        std::thread::spawn(worker);
    }
    WORK.notify_one();
}
pub struct Scope<'scope>(std::marker::PhantomData<&'scope ()>);
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope(std::marker::PhantomData))
}
