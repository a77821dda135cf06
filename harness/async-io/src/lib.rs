//! Model of the parts of async-io that uwuhi-async uses.  When a socket is readable and when a timer
//! fires is decided by the harness; the I/O itself goes through std's `UdpSocket`.
use std::future::{poll_fn, Future};
use std::io;
use std::net::{SocketAddr, UdpSocket};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

extern "C" {
    fn model_ready() -> u8;
    fn model_limit(us: u64);
    fn model_fire();
    fn model_timer() -> bool;
}

#[derive(Debug)]
pub struct Async<T> {
    io: T,
}

impl<T> Async<T> {
    pub fn new(io: T) -> io::Result<Self> {
        Ok(Async { io })
    }
    pub fn new_nonblocking(io: T) -> io::Result<Self> {
        Ok(Async { io })
    }
    pub fn get_ref(&self) -> &T {
        &self.io
    }
    pub fn into_inner(self) -> io::Result<T> {
        Ok(self.io)
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| self.poll_readable(cx)).await
    }
    pub fn poll_readable(&self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if unsafe { model_ready() } == 1 {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn poll_writable(&self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        self.readable().await?;
        op(&self.io)
    }
    pub async fn write_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        op(&self.io)
    }
}

impl<T> AsRef<T> for Async<T> {
    fn as_ref(&self) -> &T {
        &self.io
    }
}

impl TryFrom<UdpSocket> for Async<UdpSocket> {
    type Error = io::Error;
    fn try_from(io: UdpSocket) -> io::Result<Self> {
        Async::new(io)
    }
}

impl Async<UdpSocket> {
    pub fn bind<A: Into<SocketAddr>>(addr: A) -> io::Result<Self> {
        Async::new(UdpSocket::bind(addr.into())?)
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.readable().await?;
        self.io.recv_from(buf)
    }
    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.readable().await?;
        self.io.peek_from(buf)
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.readable().await?;
        self.io.recv(buf)
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.readable().await?;
        self.io.peek(buf)
    }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        self.io.send(buf)
    }
    pub async fn send_to<A: Into<SocketAddr>>(&self, buf: &[u8], addr: A) -> io::Result<usize> {
        // a socket may need a moment before it can be written
        let mut first = true;
        poll_fn(|_| if std::mem::take(&mut first) && unsafe { model_ready() } == 0 { Poll::Pending } else { Poll::Ready(()) }).await;
        self.io.send_to(buf, addr.into())
    }
}

/// Runs out `for_` after `from`.
#[derive(Debug)]
pub struct Timer {
    from: Instant,
    for_: Duration,
}

impl Timer {
    pub fn after(d: Duration) -> Timer {
        Timer { from: Instant::now(), for_: d }
    }
    pub fn at(t: Instant) -> Timer {
        let now = Instant::now();
        Timer { from: now, for_: t.saturating_duration_since(now) }
    }
    pub fn never() -> Timer {
        Timer::after(Duration::MAX)
    }
    pub fn set_after(&mut self, d: Duration) {
        *self = Timer::after(d);
    }
    pub fn set_at(&mut self, t: Instant) {
        *self = Timer::at(t);
    }
}

impl Future for Timer {
    type Output = Instant;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Instant> {
        let now = Instant::now();
        let left = if now == self.from {
            self.for_.as_micros() as u64
        } else {
            let gone = now.saturating_duration_since(self.from);
            // one that has run out already is found to have at once
            (self.for_.saturating_sub(gone).as_micros() as u64).max(1)
        };
        unsafe { model_limit(left) };
        if unsafe { model_timer() } {
            unsafe { model_fire() };
            Poll::Ready(Instant::now())
        } else {
            Poll::Pending
        }
    }
}
