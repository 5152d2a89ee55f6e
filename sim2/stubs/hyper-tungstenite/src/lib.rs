//! Stands in for the connections of browsers: two queues, the one to the
//! browser with room for only so much.
use futures::{Sink, Stream};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub mod tungstenite {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Message {
        Text(String),
        Binary(Vec<u8>),
        Ping(Vec<u8>),
        Close(Option<()>),
    }
    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
}
use tungstenite::{Error, Message};

#[derive(Default)]
struct State {
    up: VecDeque<Result<Message, Error>>,
    down: VecDeque<Message>,
    room: usize,
    upgraded: Option<Result<(), Error>>,
    /// the browser is gone
    left: bool,
    /// the server let go of the connection
    dropped: bool,
    wakers: Vec<Waker>,
}
impl State {
    fn wake(&mut self) -> Vec<Waker> {
        std::mem::take(&mut self.wakers)
    }
}
/// Called when there is something for a browser.
pub static WAKE: Mutex<Option<fn()>> = Mutex::new(None);
fn ring() {
    let f = *WAKE.lock().unwrap();
    if let Some(f) = f {
        f()
    }
}
/// The browser's end.
#[derive(Clone, Default)]
pub struct Browser(Arc<Mutex<State>>);
impl Browser {
    pub fn new(room: usize) -> (Browser, HyperWebsocket) {
        let b = Browser::default();
        b.0.lock().unwrap().room = room;
        (b.clone(), HyperWebsocket(b.0))
    }
    fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        let (r, w) = {
            let mut s = self.0.lock().unwrap();
            let r = f(&mut s);
            (r, s.wake())
        };
        w.into_iter().for_each(|w| w.wake());
        r
    }
    pub fn upgrade(&self, r: Result<(), Error>) {
        self.with(|s| s.upgraded = Some(r))
    }
    pub fn say(&self, m: Result<Message, Error>) {
        self.with(|s| s.up.push_back(m))
    }
    pub fn leave(&self) {
        self.with(|s| {
            s.left = true;
            s.up.push_back(Err(Error("connection reset".into())));
        })
    }
    pub fn hear(&self) -> Option<Message> {
        self.with(|s| s.down.pop_front())
    }
    pub fn has_news(&self) -> bool {
        !self.0.lock().unwrap().down.is_empty()
    }
    pub fn is_dropped(&self) -> bool {
        self.0.lock().unwrap().dropped
    }
    /// Is everything heard?
    pub fn is_idle(&self) -> bool {
        let s = self.0.lock().unwrap();
        s.left || s.down.is_empty()
    }
}

pub struct HyperWebsocket(Arc<Mutex<State>>);
impl Future for HyperWebsocket {
    type Output = Result<HyperWebsocketStream, Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        match s.upgraded.clone() {
            Some(Ok(())) => Poll::Ready(Ok(HyperWebsocketStream(self.0.clone()))),
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
pub struct HyperWebsocketStream(Arc<Mutex<State>>);
impl Drop for HyperWebsocketStream {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
        ring();
    }
}
impl Stream for HyperWebsocketStream {
    type Item = Result<Message, Error>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
        let mut s = self.0.lock().unwrap();
        match s.up.pop_front() {
            Some(m) => Poll::Ready(Some(m)),
            None if s.left => Poll::Ready(None),
            None => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Sink<Message> for HyperWebsocketStream {
    type Error = Error;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), Error>> {
        let mut s = self.0.lock().unwrap();
        if s.left {
            return Poll::Ready(Err(Error("connection reset".into())));
        }
        if s.down.len() < s.room {
            return Poll::Ready(Ok(()));
        }
        s.wakers.push(cx.waker().clone());
        Poll::Pending
    }
    fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
        self.0.lock().unwrap().down.push_back(m);
        ring();
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
}

/// The servers that run, by port.
pub mod servers {
    use super::{Browser, HyperWebsocket};
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    use tokio::sync::mpsc::UnboundedSender;

    pub static RUNNING: Mutex<BTreeMap<u16, UnboundedSender<HyperWebsocket>>> = Mutex::new(BTreeMap::new());
    static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(40000);

    pub fn listen(port: u16, tx: UnboundedSender<HyperWebsocket>) -> u16 {
        let port = if port == 0 { NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) } else { port };
        assert!(RUNNING.lock().unwrap().insert(port, tx).is_none(), "the address is in use");
        port
    }
    pub fn end(port: u16) {
        let tx = RUNNING.lock().unwrap().remove(&port);
        drop(tx);
    }
    /// A browser connects to a server.
    pub fn connect(port: u16, room: usize) -> Option<Browser> {
        let tx = RUNNING.lock().unwrap().get(&port)?.clone();
        let (b, ws) = Browser::new(room);
        tx.send(ws).ok()?;
        Some(b)
    }
    pub fn ports() -> Vec<u16> {
        RUNNING.lock().unwrap().keys().copied().collect()
    }
}
