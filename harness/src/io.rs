//! Sinks that fail or write short, sources that split or delay their reads.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

use futures::{AsyncRead, AsyncSeek, AsyncWrite};

#[derive(Default)]
pub struct Sink {
    pub buf: Vec<u8>,
    /// fail once this many bytes were accepted
    pub fail_at: Option<usize>,
    /// whether the sink works again after that failure
    pub transient: bool,
    pub fail_flush: bool,
    /// how much had been accepted at the last flush that succeeded
    pub flushed: usize,
    /// sizes of successive writes (cyclic); 0 is an interruption; empty: everything
    pub sizes: Vec<usize>,
    pub i: usize,
    pub pend: bool,
    pub pended: bool,
}

impl Sink {
    fn put(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len();
        if !self.sizes.is_empty() {
            let s = self.sizes[self.i % self.sizes.len()];
            self.i += 1;
            if s == 0 {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            n = n.min(s);
        }
        if let Some(at) = self.fail_at {
            if self.buf.len() >= at {
                if self.transient {
                    self.fail_at = None;
                }
                return Err(io::Error::new(io::ErrorKind::Other, "sink failed"));
            }
            n = n.min(at - self.buf.len());
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn fl(&mut self) -> io::Result<()> {
        if self.fail_flush {
            if self.transient {
                self.fail_flush = false;
            }
            return Err(io::Error::new(io::ErrorKind::Other, "flush failed"));
        }
        self.flushed = self.buf.len();
        Ok(())
    }
    fn wait(&mut self, cx: &mut Context) -> bool {
        if self.pend && !self.pended {
            self.pended = true;
            cx.waker().wake_by_ref();
            return true;
        }
        self.pended = false;
        false
    }
}
impl Write for &mut Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.put(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.fl()
    }
}
pub struct ASink<'a>(pub &'a mut Sink);
impl AsyncWrite for ASink<'_> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.0.wait(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.0.put(b))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        if self.0.wait(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.0.fl())
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

#[derive(Default, Clone)]
pub struct Src {
    pub data: Vec<u8>,
    /// where the data starts: a hole of this many zeros comes first
    pub base: u64,
    pub pos: u64,
    /// sizes of successive reads (cyclic); 0 is an interruption; empty: everything asked for
    pub sizes: Vec<usize>,
    pub i: usize,
    pub pend: bool,
    pub pended: bool,
}
impl Src {
    pub fn new(data: &[u8], sizes: &[usize], pend: bool) -> Self {
        Src { data: data.to_vec(), sizes: sizes.to_vec(), pend, ..Default::default() }
    }
    pub fn far(mut self, base: u64) -> Self {
        self.base = base;
        self.pos = base;
        self
    }
    /// the position in the data (-1: before it)
    pub fn at(&self) -> i64 {
        if self.pos < self.base { -1 } else { ((self.pos - self.base) as i64).min(1 << 30) }
    }
    fn get(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let rest = if self.pos < self.base { (self.base - self.pos).min(1 << 30) as usize } else { self.data.len().saturating_sub((self.pos - self.base) as usize) };
        let mut n = b.len().min(rest);
        if !self.sizes.is_empty() {
            let s = self.sizes[self.i % self.sizes.len()];
            self.i += 1;
            if s == 0 && !self.pend {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            // async sources do not report interruptions
            n = n.min(s.max(1));
        }
        if self.pos < self.base {
            b[..n].fill(0);
        } else if n > 0 {
            let p = (self.pos - self.base) as usize;
            b[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn sk(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.base as i128 + self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if p < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.get(b)
    }
}
impl Seek for Src {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.sk(s)
    }
}
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.pend && !self.pended {
            self.pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.pended = false;
        Poll::Ready(self.get(b))
    }
}
impl AsyncSeek for Src {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context, s: SeekFrom) -> Poll<io::Result<u64>> {
        if self.pend && !self.pended {
            self.pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.pended = false;
        Poll::Ready(self.sk(s))
    }
}
