//! Stand-in for `reqwest`'s blocking client over a simulated server.
use std::io::Read;
use std::sync::Mutex;

/// What the simulated server does with one request.
pub struct Reply {
    pub status: u16,
    pub body: Vec<u8>,
    /// the connection breaks after that many bytes
    pub cut: Option<usize>,
    /// bytes per read
    pub chunk: usize,
}
/// None: the connection cannot be made.
pub static SERVER: Mutex<Option<fn(&str) -> Option<Reply>>> = Mutex::new(None);
/// Called whenever the client waits for the server.
pub static WAIT: Mutex<Option<fn()>> = Mutex::new(None);

fn wait() {
    let f = *WAIT.lock().unwrap();
    if let Some(f) = f {
        f()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
#[derive(Debug)]
pub struct Error {
    status: Option<StatusCode>,
}
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        self.status
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "request failed: {:?}", self.status)
    }
}
impl std::error::Error for Error {}

pub struct Certificate;
impl Certificate {
    pub fn from_pem(b: &[u8]) -> Result<Self, Error> {
        if b.starts_with(b"-----BEGIN") { Ok(Certificate) } else { Err(Error { status: None }) }
    }
}

pub mod blocking {
    use super::*;
    #[derive(Clone)]
    pub struct Client;
    pub struct ClientBuilder;
    impl ClientBuilder {
        pub fn add_root_certificate(self, _: Certificate) -> Self {
            self
        }
        pub fn build(self) -> Result<Client, Error> {
            Ok(Client)
        }
    }
    impl Client {
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            RequestBuilder { url: url.as_ref().to_string() }
        }
    }
    pub struct RequestBuilder {
        url: String,
    }
    impl RequestBuilder {
        pub fn send(self) -> Result<Response, Error> {
            wait();
            let f = *SERVER.lock().unwrap();
            match f.and_then(|f| f(&self.url)) {
                Some(r) => Ok(Response { reply: r, pos: 0 }),
                None => Err(Error { status: None }),
            }
        }
    }
    pub struct Response {
        reply: Reply,
        pos: usize,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.reply.status)
        }
        pub fn error_for_status(self) -> Result<Self, Error> {
            if self.reply.status >= 400 {
                return Err(Error { status: Some(self.status()) });
            }
            Ok(self)
        }
    }
    impl Read for Response {
        fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
            wait();
            let end = self.reply.cut.unwrap_or(usize::MAX).min(self.reply.body.len());
            if self.pos >= end {
                return match self.reply.cut {
                    Some(_) => Err(std::io::Error::new(std::io::ErrorKind::Other, "error decoding response body: connection reset")),
                    None => Ok(0),
                };
            }
            let n = out.len().min(end - self.pos).min(self.reply.chunk.max(1));
            out[..n].copy_from_slice(&self.reply.body[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
}
