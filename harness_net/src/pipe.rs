//! In-memory byte streams that fragment reads and writes and stall at drawn points (deterministic).
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use vengine::Rng64;

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Frag {
    pub seed: u64,
    /// Largest piece read or written at once.
    pub chunk: usize,
    /// One in `stall` polls is answered with "pending" first (0: none).
    pub stall: u64,
    /// Bytes the pipe holds before writers wait (0: no limit).
    pub cap: usize,
}

struct Shared {
    buf: VecDeque<u8>,
    closed: bool,
    reader_gone: bool,
    rwait: Option<Waker>,
    wwait: Option<Waker>,
    f: Frag,
    rng: Rng64,
}
#[derive(Clone)]
struct Sh(Arc<Mutex<Shared>>);
pub struct Reader(Sh);
pub struct Writer(Sh);

impl std::fmt::Debug for Reader {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Reader")
    }
}
impl std::fmt::Debug for Writer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Writer")
    }
}

pub fn pipe(f: Frag) -> (Writer, Reader) {
    let s = Sh(Arc::new(Mutex::new(Shared {
        buf: VecDeque::new(),
        closed: false,
        reader_gone: false,
        rwait: None,
        wwait: None,
        f,
        rng: Rng64::new(f.seed),
    })));
    (Writer(s.clone()), Reader(s))
}

impl Shared {
    fn stall(&mut self, cx: &Context<'_>) -> bool {
        if self.f.stall > 0 && self.rng.below(self.f.stall) == 0 {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
    fn piece(&mut self, n: usize) -> usize {
        let c = self.f.chunk.max(1).min(n);
        if c == 0 {
            0
        } else {
            1 + self.rng.below(c as u64) as usize
        }
    }
}

impl AsyncRead for Reader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0 .0.lock().unwrap();
        if s.stall(cx) {
            return Poll::Pending;
        }
        if s.buf.is_empty() {
            if s.closed {
                return Poll::Ready(Ok(()));
            }
            s.rwait = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = s.buf.len().min(out.remaining());
        let n = s.piece(n);
        let d: Vec<u8> = s.buf.drain(..n).collect();
        out.put_slice(&d);
        if let Some(w) = s.wwait.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Writer {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, d: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0 .0.lock().unwrap();
        if s.reader_gone || s.closed {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "reader is gone")));
        }
        if s.stall(cx) {
            return Poll::Pending;
        }
        let room = if s.f.cap == 0 { usize::MAX } else { s.f.cap.saturating_sub(s.buf.len()) };
        if room == 0 {
            s.wwait = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = d.len().min(room);
        let n = s.piece(n);
        s.buf.extend(&d[..n]);
        if let Some(w) = s.rwait.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0 .0.lock().unwrap();
        if s.stall(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.end();
        Poll::Ready(Ok(()))
    }
}
impl Sh {
    fn end(&self) {
        let mut s = self.0.lock().unwrap();
        s.closed = true;
        if let Some(w) = s.rwait.take() {
            w.wake();
        }
    }
}
impl Drop for Writer {
    fn drop(&mut self) {
        self.0.end()
    }
}
impl Drop for Reader {
    fn drop(&mut self) {
        let mut s = self.0 .0.lock().unwrap();
        s.reader_gone = true;
        if let Some(w) = s.wwait.take() {
            w.wake();
        }
    }
}
