//! Stand-in for `flate2`: the simulated network serves streams it does not
//! compress; a magic, a length and a sum tell a torn or altered stream.
pub mod read {
    use std::io::{Error, ErrorKind, Read, Result};
    pub const MAGIC: u8 = 0x1f;
    /// The stream: MAGIC, then chunks (length as u16, data, sum as u8), a zero length at the end.
    pub struct GzDecoder<R> {
        r: R,
        buf: Vec<u8>,
        pos: usize,
        state: u8,
    }
    impl<R: Read> GzDecoder<R> {
        pub fn new(r: R) -> Self {
            GzDecoder { r, buf: vec![], pos: 0, state: 0 }
        }
        fn fill(&mut self) -> Result<()> {
            let bad = || Error::new(ErrorKind::InvalidInput, "corrupt deflate stream");
            if self.state == 0 {
                let mut m = [0];
                self.r.read_exact(&mut m)?;
                if m[0] != MAGIC {
                    return Err(bad());
                }
                self.state = 1;
            }
            let mut l = [0; 2];
            self.r.read_exact(&mut l)?;
            let l = u16::from_le_bytes(l) as usize;
            if l == 0 {
                self.state = 2;
                return Ok(());
            }
            let mut b = vec![0; l + 1];
            self.r.read_exact(&mut b)?;
            let sum = b.pop().unwrap();
            if b.iter().fold(l as u8, |a, x| a.wrapping_mul(31).wrapping_add(*x)) != sum {
                return Err(bad());
            }
            self.buf = b;
            self.pos = 0;
            Ok(())
        }
    }
    impl<R: Read> Read for GzDecoder<R> {
        fn read(&mut self, out: &mut [u8]) -> Result<usize> {
            while self.pos == self.buf.len() {
                if self.state == 2 || out.is_empty() {
                    return Ok(0);
                }
                self.fill()?;
            }
            let n = out.len().min(self.buf.len() - self.pos);
            out[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
    /// What a server would send for `data`.
    pub fn encode(data: &[u8], chunk: usize) -> Vec<u8> {
        let mut v = vec![MAGIC];
        for c in data.chunks(chunk.max(1)) {
            v.extend((c.len() as u16).to_le_bytes());
            v.extend(c);
            v.push(c.iter().fold(c.len() as u8, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
        }
        v.extend([0, 0]);
        v
    }
}
