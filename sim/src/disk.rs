//! Simulated streams: writers and readers that split, interrupt and fail.

use crate::rt;
use std::fmt;
use std::io;

pub const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::StorageFull,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
];

#[derive(Default)]
pub struct Sink {
    pub got: Vec<u8>,
    /// handed over in the call that failed
    pub rest: Vec<u8>,
    pub calls: u64,
    pub fail_call: u64,
    pub fail_byte: u64, // 1 based: this byte is not accepted
    pub chunk: usize,
    pub intr: u64,
    pub err: usize,
    pub failed: bool,
    pub after: u64,
    pub pending_intr: bool,
    pub faults: u64,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::har(|| {
            if self.failed {
                self.after += 1;
                return Err(fmt::Error);
            }
            self.calls += 1;
            let full = self.fail_byte > 0 && (self.got.len() + s.len()) as u64 >= self.fail_byte;
            if self.calls == self.fail_call || full {
                self.failed = true;
                self.faults += 1;
                self.rest = s.as_bytes().to_vec();
                return Err(fmt::Error);
            }
            self.got.extend_from_slice(s.as_bytes());
            Ok(())
        })
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        rt::har(|| {
            if b.is_empty() {
                return Ok(0);
            }
            if self.failed {
                self.after += 1;
                return Err(KINDS[self.err % 6].into());
            }
            self.calls += 1;
            if self.intr > 0 && self.calls % (self.intr + 1) == 0 && !self.pending_intr {
                self.pending_intr = true;
                self.faults += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.pending_intr = false;
            let mut n = b.len();
            if self.chunk > 0 && n > self.chunk {
                n = self.chunk;
                self.faults += 1;
            }
            if self.fail_byte > 0 {
                let left = (self.fail_byte - 1) as usize - self.got.len();
                if left == 0 {
                    self.failed = true;
                    self.faults += 1;
                    self.rest = b.to_vec();
                    return if self.err >= 6 { Ok(0) } else { Err(KINDS[self.err].into()) };
                }
                if n > left {
                    n = left;
                    self.faults += 1;
                }
            }
            self.got.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}


/// A reader over stored bytes.
#[derive(Default)]
pub struct Source<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub calls: u64,
    pub chunk: usize,
    pub intr: u64,
    /// fails instead of delivering this byte; 0: never
    pub fail_byte: u64,
    pub err: usize,
    pub failed: bool,
    pub faults: u64,
    pub pending_intr: bool,
}
impl io::Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        rt::har(|| {
            if b.is_empty() {
                return Ok(0);
            }
            self.calls += 1;
            if self.intr > 0 && self.calls % (self.intr + 1) == 0 && !self.pending_intr {
                self.pending_intr = true;
                self.faults += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.pending_intr = false;
            let mut n = b.len().min(self.data.len() - self.at);
            if self.chunk > 0 && n > self.chunk {
                n = self.chunk;
                self.faults += 1;
            }
            if self.fail_byte > 0 {
                let left = ((self.fail_byte - 1) as usize).saturating_sub(self.at);
                if left == 0 {
                    self.failed = true;
                    self.faults += 1;
                    return Err(KINDS[self.err % 6].into());
                }
                n = n.min(left);
            }
            b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        })
    }
}
