//! The stream and the message source given to the client. They record what happens and inject faults.
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[cfg(feature = "rt-async-std")]
use futures::io::{AsyncBufRead, AsyncRead, AsyncWrite};
#[cfg(feature = "rt-tokio")]
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite};

pub const ENDLESS: &str = "the call does not end";

/// One byte sent (true) or consumed (false).
pub type Flat = Vec<(bool, u8)>;

#[derive(Default, Debug)]
pub struct Sh {
    pub ev: Flat,
    pub unflushed: usize,
    /// positions in ev at which the client waited with unflushed bytes
    pub dirty: Vec<usize>,
    pub fired: bool,
    pub polls: usize,
    pub written: usize,
    pub flushes: usize,
    /// the poll that gets no answer, and whether it has come
    pub stop: Option<usize>,
    pub stuck: bool,
    /// how much of the input is consumed
    pub consumed: usize,
}
impl Sh {
    /// Whether this poll is the one at which the caller gives up.
    fn gives_up(&mut self) -> bool {
        if self.stop.map_or(false, |k| self.polls >= k) { self.stop = None; self.stuck = true; }
        self.stuck
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Faults {
    /// fail the write after so many bytes
    pub write: Option<usize>,
    /// fail the flush with this number
    pub flush: Option<usize>,
    /// fail instead of ending when the input is used up
    pub read: bool,
    /// the kind of the error, an index into KINDS
    pub kind: usize,
    /// the poll of the stream or the message source at which the call is given up, its future dropped
    pub stop: Option<usize>,
}
pub const KINDS: [io::ErrorKind; 18] = [
    io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionAborted, io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidData, io::ErrorKind::Other, io::ErrorKind::NotConnected,
    io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionRefused, io::ErrorKind::NotFound, io::ErrorKind::InvalidInput,
    io::ErrorKind::AddrInUse, io::ErrorKind::OutOfMemory, io::ErrorKind::Unsupported,
    // the last one: reading and writing are tried again, flushing is not
    io::ErrorKind::Interrupted,
];
pub struct Mock {
    inp: Vec<u8>,
    pos: usize,
    chunk: usize,
    wchunk: usize,
    pend: bool,
    toggle: u32,
    faults: Faults,
    pub sh: Arc<Mutex<Sh>>,
}
impl Mock {
    pub fn new(inp: Vec<u8>, chunk: usize, wchunk: usize, pend: bool, faults: Faults) -> (Mock, Arc<Mutex<Sh>>) {
        let sh = Arc::new(Mutex::new(Sh { stop: faults.stop, ..Sh::default() }));
        (Mock { inp, pos: 0, chunk: chunk.max(1), wchunk: wchunk.max(1), pend, toggle: 0, faults, sh: sh.clone() }, sh)
    }
    fn pending(&mut self, cx: &mut Context<'_>) -> bool {
        if !self.pend { return false; }
        self.toggle = self.toggle.wrapping_mul(1103515245).wrapping_add(12345);
        if self.toggle & 0x10000 != 0 { cx.waker().wake_by_ref(); true } else { false }
    }
    fn end(&self) -> usize { (((self.pos / self.chunk) + 1).saturating_mul(self.chunk)).min(self.inp.len()) }
    fn limit(&self) -> io::Result<()> {
        let mut s = self.sh.lock().unwrap();
        s.polls += 1;
        if s.polls > 2_000_000 { drop(s); panic!("{}", ENDLESS) }
        Ok(())
    }
}
fn fault(k: usize) -> io::Error { io::Error::new(KINDS[k % KINDS.len()], "injected") }

impl AsyncBufRead for Mock {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let me = self.get_mut();
        me.limit()?;
        {
            let mut s = me.sh.lock().unwrap();
            if s.unflushed > 0 { let p = s.ev.len(); s.dirty.push(p); }
        }
        if me.sh.lock().unwrap().gives_up() { return Poll::Pending; }
        if me.pending(cx) { return Poll::Pending; }
        if me.pos >= me.inp.len() && me.faults.read {
            me.sh.lock().unwrap().fired = true;
            let k = me.faults.kind;
            return Poll::Ready(Err(fault(k)));
        }
        let e = me.end();
        let p = me.pos;
        Poll::Ready(Ok(&me.inp[p..e]))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        let me = self.get_mut();
        let mut s = me.sh.lock().unwrap();
        for b in &me.inp[me.pos..me.pos + amt] { s.ev.push((false, *b)); }
        me.pos += amt;
        s.consumed = me.pos;
    }
}
impl Mock {
    fn read_into(&mut self, n: usize) -> io::Result<Vec<u8>> {
        self.limit()?;
        {
            let mut s = self.sh.lock().unwrap();
            if s.unflushed > 0 { let p = s.ev.len(); s.dirty.push(p); }
        }
        if self.pos >= self.inp.len() && self.faults.read {
            self.sh.lock().unwrap().fired = true;
            return Err(fault(self.faults.kind));
        }
        let e = self.end().min(self.pos + n);
        let v = self.inp[self.pos..e].to_vec();
        let mut s = self.sh.lock().unwrap();
        for b in &v { s.ev.push((false, *b)); }
        self.pos = e;
        s.consumed = e;
        Ok(v)
    }
    fn do_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.limit()?;
        if self.sh.lock().unwrap().gives_up() { return Poll::Pending; }
        if self.pending(cx) { return Poll::Pending; }
        let mut s = self.sh.lock().unwrap();
        let mut n = buf.len().min(self.wchunk);
        if let Some(w) = self.faults.write {
            if s.written + n > w { n = w - s.written; }
            if n == 0 && !buf.is_empty() { s.fired = true; return Poll::Ready(Err(fault(self.faults.kind))); }
        }
        for b in &buf[..n] { s.ev.push((true, *b)); }
        s.written += n;
        s.unflushed += n;
        Poll::Ready(Ok(n))
    }
    fn do_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.limit()?;
        if self.sh.lock().unwrap().gives_up() { return Poll::Pending; }
        if self.pending(cx) { return Poll::Pending; }
        let mut s = self.sh.lock().unwrap();
        if self.faults.flush == Some(s.flushes) { s.fired = true; return Poll::Ready(Err(fault(self.faults.kind))); }
        s.flushes += 1;
        s.unflushed = 0;
        Poll::Ready(Ok(()))
    }
}
#[cfg(feature = "rt-tokio")]
impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let v = self.get_mut().read_into(buf.remaining())?;
        buf.put_slice(&v);
        Poll::Ready(Ok(()))
    }
}
#[cfg(feature = "rt-async-std")]
impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let v = self.get_mut().read_into(buf.len())?;
        buf[..v.len()].copy_from_slice(&v);
        Poll::Ready(Ok(v.len()))
    }
}
impl AsyncWrite for Mock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { self.get_mut().do_write(cx, buf) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.get_mut().do_flush(cx) }
    #[cfg(feature = "rt-tokio")]
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.get_mut().do_flush(cx) }
    #[cfg(feature = "rt-async-std")]
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.get_mut().do_flush(cx) }
}

/// A message source.
pub struct Source { pub data: Vec<u8>, pub pos: usize, pub chunk: usize, pub fail: Option<usize>, pub pend: bool, pub sh: Option<Arc<Mutex<Sh>>> }
impl Source {
    fn get(&mut self, cx: &mut Context<'_>, n: usize) -> Poll<io::Result<Vec<u8>>> {
        if let Some(sh) = &self.sh {
            let mut s = sh.lock().unwrap();
            s.polls += 1;
            if s.gives_up() { return Poll::Pending; }
        }
        if self.pend { self.pend = false; cx.waker().wake_by_ref(); return Poll::Pending; }
        if self.pos == self.data.len() {
            return Poll::Ready(match self.fail { Some(k) => Err(fault(k)), None => Ok(vec![]) });
        }
        let e = self.data.len().min(self.pos + n.min(self.chunk.max(1)));
        let v = self.data[self.pos..e].to_vec();
        self.pos = e;
        Poll::Ready(Ok(v))
    }
}
#[cfg(feature = "rt-tokio")]
impl AsyncRead for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        match self.get_mut().get(cx, buf.remaining()) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(v)) => { buf.put_slice(&v); Poll::Ready(Ok(())) }
        }
    }
}
#[cfg(feature = "rt-async-std")]
impl AsyncRead for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.get_mut().get(cx, buf.len()) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(v)) => { buf[..v.len()].copy_from_slice(&v); Poll::Ready(Ok(v.len())) }
        }
    }
}
