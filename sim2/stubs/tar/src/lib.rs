//! Stand-in for `tar`: an archive is a sequence of entries (kind, length of
//! the name as u16, length of the data as u32, name, data), a zero kind at
//! the end. It unpacks as tar does: directly into the destination, entry by
//! entry, and stops at the first error, leaving what it has written.
use std::cell::{Cell, RefCell};
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::path::{Component, Path, PathBuf};

pub struct Archive<R: ?Sized> {
    pos: Cell<u64>,
    r: RefCell<R>,
}
impl<R: Read> Archive<R> {
    pub fn new(r: R) -> Self {
        Archive { pos: Cell::new(0), r: RefCell::new(r) }
    }
    fn get(&self, buf: &mut [u8]) -> Result<usize> {
        let n = self.r.borrow_mut().read(buf)?;
        self.pos.set(self.pos.get() + n as u64);
        Ok(n)
    }
    fn exact(&self, mut buf: &mut [u8]) -> Result<()> {
        while !buf.is_empty() {
            match self.get(buf) {
                Ok(0) => return Err(Error::new(ErrorKind::UnexpectedEof, "failed to read entire block")),
                Ok(n) => buf = &mut buf[n..],
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    pub fn entries(&mut self) -> Result<Entries<'_, R>> {
        Ok(Entries { ar: self, next: 0, done: false })
    }
    pub fn unpack<P: AsRef<Path>>(&mut self, dst: P) -> Result<()> {
        let dst = dst.as_ref();
        if dst.symlink_metadata().is_err() {
            std::fs::create_dir_all(dst).map_err(|e| Error::new(e.kind(), format!("failed to create `{}`", dst.display())))?;
        }
        let dst = dst.canonicalize().unwrap_or_else(|_| dst.to_path_buf());
        for entry in self.entries()? {
            entry?.unpack_in(&dst)?;
        }
        Ok(())
    }
}
pub struct Entries<'a, R: Read> {
    ar: &'a Archive<R>,
    next: u64,
    done: bool,
}
impl<'a, R: Read> Entries<'a, R> {
    fn step(&mut self) -> Result<Option<Entry<'a, R>>> {
        while self.ar.pos.get() < self.next {
            let mut b = [0u8; 64];
            let n = (self.next - self.ar.pos.get()).min(64) as usize;
            self.ar.exact(&mut b[..n])?;
        }
        let mut k = [0];
        self.ar.exact(&mut k)?;
        if k[0] == 0 {
            return Ok(None);
        }
        let mut h = [0; 6];
        self.ar.exact(&mut h)?;
        let mut name = vec![0; u16::from_le_bytes([h[0], h[1]]) as usize];
        self.ar.exact(&mut name)?;
        let name = String::from_utf8(name).map_err(|_| Error::new(ErrorKind::InvalidData, "bad name"))?;
        let size = u32::from_le_bytes([h[2], h[3], h[4], h[5]]) as u64;
        self.next = self.ar.pos.get() + size;
        Ok(Some(Entry { ar: self.ar, header: Header { dir: k[0] == b'd', name: name.into(), size }, left: size }))
    }
}
impl<'a, R: Read> Iterator for Entries<'a, R> {
    type Item = Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let r = self.step().transpose();
        self.done = !matches!(r, Some(Ok(_)));
        r
    }
}
pub struct Header {
    dir: bool,
    name: PathBuf,
    size: u64,
}
impl Header {
    pub fn entry_type(&self) -> EntryType {
        EntryType(self.dir)
    }
    pub fn path(&self) -> Result<std::borrow::Cow<'_, Path>> {
        Ok(std::borrow::Cow::Borrowed(&self.name))
    }
    pub fn size(&self) -> Result<u64> {
        Ok(self.size)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct EntryType(bool);
impl EntryType {
    pub fn is_file(&self) -> bool {
        !self.0
    }
    pub fn is_dir(&self) -> bool {
        self.0
    }
}
pub struct Entry<'a, R: Read> {
    ar: &'a Archive<R>,
    header: Header,
    left: u64,
}
impl<R: Read> Entry<'_, R> {
    pub fn header(&self) -> &Header {
        &self.header
    }
    pub fn path(&self) -> Result<std::borrow::Cow<'_, Path>> {
        self.header.path()
    }
    pub fn size(&self) -> u64 {
        self.header.size
    }
    pub fn unpack_in<P: AsRef<Path>>(&mut self, dst: P) -> Result<bool> {
        if self.header.name.components().any(|c| matches!(c, Component::ParentDir)) {
            return Ok(false);
        }
        let rel: PathBuf = self.header.name.components().filter(|c| matches!(c, Component::Normal(_))).collect();
        if rel.as_os_str().is_empty() {
            return Ok(true);
        }
        self.unpack(dst.as_ref().join(rel))?;
        Ok(true)
    }
    pub fn unpack<P: AsRef<Path>>(&mut self, path: P) -> Result<()> {
        let path = path.as_ref();
        if self.header.dir {
            return std::fs::create_dir_all(path);
        }
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p)?;
        }
        let mut f = match std::fs::OpenOptions::new().write(true).create_new(true).open(path) {
            Err(e) if e.kind() == ErrorKind::AlreadyExists => {
                std::fs::remove_file(path)?;
                std::fs::OpenOptions::new().write(true).create_new(true).open(path)
            }
            f => f,
        }?;
        let mut buf = [0u8; 64];
        loop {
            match self.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => f.write_all(&buf[..n])?,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        if self.left > 0 {
            return Err(Error::new(ErrorKind::Other, "failed to write whole file"));
        }
        Ok(())
    }
}
impl<R: Read> Read for Entry<'_, R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = (self.left as usize).min(buf.len());
        let n = self.ar.get(&mut buf[..n])?;
        self.left -= n as u64;
        Ok(n)
    }
}
/// An archive of `files` (a name that ends in '/' is a directory).
pub fn build(files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (n, d) in files {
        v.push(if n.ends_with('/') { b'd' } else { b'f' });
        v.extend((n.len() as u16).to_le_bytes());
        v.extend((d.len() as u32).to_le_bytes());
        v.extend(n.as_bytes());
        v.extend(d);
    }
    v.push(0);
    v
}
