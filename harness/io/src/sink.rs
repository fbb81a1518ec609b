//! Streams which write in pieces, are interrupted and fail.
use std::io::{Error, ErrorKind, Result, Write};

use pbt::Src;

#[derive(Clone, Debug)]
pub enum Fail {
    Error,
    /// Takes nothing any more.
    Zero,
}

#[derive(Clone, Debug)]
pub struct Sink {
    pub out: Vec<u8>,
    /// The largest number of bytes taken at once.
    pub chunk: usize,
    /// Interrupted before every so many writes.
    pub interrupt: usize,
    /// Fails once after this many bytes, and works again after that.
    pub fail: Option<(usize, Fail)>,
    pub failed: bool,
    /// Bytes which were taken after it failed.
    pub after: usize,
    n: usize,
}

impl Sink {
    pub fn gen(s: &mut Src) -> Sink {
        Sink {
            out: Vec::new(),
            chunk: *s.pick(&[usize::MAX, 1, 2, 3, 7, 64]),
            interrupt: *s.pick(&[0, 1, 2, 5]),
            fail: None,
            failed: false,
            after: 0,
            n: 0,
        }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.n += 1;
        if self.interrupt != 0 && self.n % (self.interrupt + 1) == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = b.len().min(self.chunk);
        if self.failed {
            self.after += n;
            return Ok(n);
        }
        if let Some((at, how)) = &self.fail {
            let left = at - self.out.len();
            if left == 0 && !b.is_empty() {
                self.failed = true;
                return match how {
                    Fail::Error => Err(Error::other("the stream failed")),
                    Fail::Zero => Ok(0),
                };
            }
            n = n.min(left);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
