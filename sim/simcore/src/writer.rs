//! The simulated output: a writer that can be slow, stall, write short, be interrupted, fail, panic.
use simrt::sched;
use std::io;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    /// accept only `1` bytes at most
    Short(usize),
    Interrupted,
    /// sticky error of the given kind
    Fail(i64),
    /// accept nothing, successfully
    Zero,
    Panic,
    Stall,
}

#[derive(Default)]
pub struct SimWriter {
    pub out: Vec<u8>,
    /// (call number, fault)
    pub plan: Vec<(u64, F)>,
    pub calls: u64,
    /// become a scheduling point at each n-th call (0: never)
    pub yield_every: u64,
    /// fail once this many bytes have been accepted
    pub fail_at_byte: Option<(usize, i64)>,
    /// never accept more than this many bytes per call (0: unlimited)
    pub max_chunk: usize,
    pub failed: Option<(io::ErrorKind, i64)>,
    pub sticky: bool,
    pub flush_fail: Option<i64>,
    pub flushed: u64,
    /// bytes accepted since the last flush: a buffering writer may still lose them
    pub unflushed: usize,
}

/// The text of injected errors, so that the error seen by the caller can be told from any other.
pub const KINDS: [io::ErrorKind; 7] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::UnexpectedEof,
];
pub fn err(k: i64) -> io::Error {
    if k == 7 {
        return io::Error::from_raw_os_error(libc_enospc());
    }
    io::Error::new(KINDS[k as usize % KINDS.len()], format!("injected writer failure {k}"))
}
fn libc_enospc() -> i32 {
    28
}

impl SimWriter {
    fn fail(&mut self, kind: io::ErrorKind, k: i64) {
        if self.failed.is_none() {
            self.failed = Some((kind, k));
        }
    }
    fn fault(&mut self) -> Option<F> {
        let c = self.calls;
        self.plan.iter().find(|(n, _)| *n == c).map(|x| x.1)
    }
}

impl io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        // a document written in very many small pieces is interrupted less often after a while
        let every = self.yield_every * if self.calls > 4000 { 64 } else { 1 };
        if every != 0 && self.calls % every == 0 {
            sched::point(sched::K_USER, 0);
        }
        if let Some((_, k)) = self.failed {
            if self.sticky {
                return Err(err(k));
            }
        }
        let mut n = b.len();
        if self.max_chunk != 0 && n > self.max_chunk {
            n = self.max_chunk;
            sched::fault("writer_short_write");
        }
        match self.fault() {
            None => {}
            Some(F::Short(k)) => {
                if n > 1 {
                    sched::fault("writer_short_write");
                    n = n.min(k.max(1));
                }
            }
            Some(F::Interrupted) => {
                sched::fault("writer_interrupted");
                return Err(io::ErrorKind::Interrupted.into());
            }
            Some(F::Fail(k)) => {
                sched::fault("writer_error");
                let e = err(k);
                self.fail(e.kind(), k);
                return Err(e);
            }
            Some(F::Zero) => {
                if n > 0 {
                    sched::fault("writer_zero");
                    self.fail(io::ErrorKind::WriteZero, -1);
                    self.plan.clear();
                    return Ok(0);
                }
            }
            Some(F::Panic) => {
                crate::shapes::go_off("writer_panic");
            }
            Some(F::Stall) => sched::stall(),
        }
        if let Some((at, k)) = self.fail_at_byte {
            if self.out.len() + n > at {
                if self.out.len() >= at {
                    sched::fault("writer_error");
                    let e = err(k);
                    self.fail(e.kind(), k);
                    self.fail_at_byte = if self.sticky { self.fail_at_byte } else { None };
                    return Err(e);
                }
                n = at - self.out.len();
                sched::fault("writer_short_write");
            }
        }
        self.out.extend_from_slice(&b[..n]);
        self.unflushed += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        if let Some(k) = self.flush_fail {
            sched::fault("writer_flush_error");
            let e = err(k);
            self.fail(e.kind(), k);
            return Err(e);
        }
        self.unflushed = 0;
        Ok(())
    }
}
