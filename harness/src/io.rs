//! Scripted readers and writers.
use model::rng::Rng;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunks {
    /// as much as asked for
    Full,
    /// one byte at a time
    One,
    /// random short transfers, with interruptions
    Random,
}

pub struct Rd<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunks: Chunks,
    pub r: Rng,
    /// at this position every read fails with this kind
    pub fault: Option<(usize, ErrorKind)>,
    pub reads: usize,
    pub eof_reads: usize,
}

impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Rd { data, pos: 0, chunks: Chunks::Full, r: Rng::new(0, "rd", 0), fault: None, reads: 0, eof_reads: 0 }
    }
    pub fn chunked(data: &'a [u8], chunks: Chunks, r: Rng) -> Self {
        Rd { chunks, r, ..Rd::new(data) }
    }
}

impl Read for Rd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.reads += 1;
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some((at, k)) = self.fault {
            if self.pos >= at {
                self.eof_reads += 1;
                if self.eof_reads > 20_000 {
                    panic!("VIOLATION: keeps reading after a read error");
                }
                return Err(io::Error::new(k, "injected read fault"));
            }
            n = n.min(at - self.pos);
        }
        if n == 0 {
            self.eof_reads += 1;
            if self.eof_reads > 20_000 {
                panic!("VIOLATION: keeps reading after the end of the input");
            }
            return Ok(0);
        }
        match self.chunks {
            Chunks::Full => {}
            Chunks::One => n = 1,
            Chunks::Random => {
                if self.r.one_in(5) {
                    return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                n = n.min(1 + self.r.below(9));
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    /// the write that reaches the position fails once; later writes succeed
    Once,
    /// every write from the position on fails
    Always,
    /// the destination is full: writes accept zero bytes
    Full,
}

pub struct Wr {
    pub buf: Vec<u8>,
    pub chunks: Chunks,
    pub r: Rng,
    pub fault: Option<(usize, WFault)>,
    pub failed: bool,
    /// bytes accepted before the first failure
    pub before: usize,
    pub writes: usize,
}

impl Wr {
    pub fn new(chunks: Chunks, r: Rng) -> Self {
        Wr { buf: vec![], chunks, r, fault: None, failed: false, before: 0, writes: 0 }
    }
    pub fn failing(at: usize, k: WFault) -> Self {
        Wr { fault: Some((at, k)), ..Wr::new(Chunks::Full, Rng::new(0, "wr", 0)) }
    }
}

impl Write for Wr {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if data.is_empty() {
            return Ok(0);
        }
        let mut n = data.len();
        if let Some((at, k)) = self.fault {
            if !(self.failed && k == WFault::Once) {
                if self.buf.len() >= at {
                    if !self.failed {
                        self.before = self.buf.len();
                    }
                    self.failed = true;
                    if self.writes > 1_000_000 {
                        panic!("VIOLATION: keeps writing after a write error");
                    }
                    return match k {
                        WFault::Full => Ok(0),
                        _ => Err(io::Error::new(ErrorKind::Other, "injected write fault")),
                    };
                }
                n = n.min(at - self.buf.len());
            }
        }
        match self.chunks {
            Chunks::Full => {}
            Chunks::One => n = 1,
            Chunks::Random => {
                if self.r.one_in(5) {
                    return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                n = n.min(1 + self.r.below(9));
            }
        }
        self.buf.extend_from_slice(&data[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
