//! In-memory network. Servers use the async-std API; harnesses use `connect` and
//! the `sim_*` methods, which never block.
use crate::sim::Global;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures_core::stream::Stream;
use futures_io::{AsyncRead, AsyncWrite};

pub use std::net::AddrParseError;
pub use std::net::Shutdown;
pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
pub use std::net::{SocketAddr, SocketAddrV4, SocketAddrV6};

pub mod unix;

/// One direction of a connection.
struct Pipe {
    segs: VecDeque<Vec<u8>>,
    pos: usize,
    writer_closed: bool,
    reader_closed: bool,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// Segments the reader has not taken yet beyond which writes wait.
    cap: usize,
    /// Largest number of bytes a single write accepts.
    max_write: usize,
    err: Option<io::ErrorKind>,
    werr: Option<io::ErrorKind>,
    /// The connection was reset by the writing side.
    reset: bool,
}
struct PipeCell(UnsafeCell<Pipe>);
unsafe impl Send for PipeCell {}
unsafe impl Sync for PipeCell {}
impl PipeCell {
    fn new() -> Arc<PipeCell> {
        Arc::new(PipeCell(UnsafeCell::new(Pipe {
            segs: VecDeque::new(),
            pos: 0,
            writer_closed: false,
            reader_closed: false,
            rwaker: None,
            wwaker: None,
            cap: usize::MAX,
            max_write: MAX_WRITE.with(|m| *m),
            err: None,
            werr: None,
            reset: false,
        })))
    }
    fn with<R>(&self, f: impl FnOnce(&mut Pipe) -> R) -> R {
        f(unsafe { &mut *self.0.get() })
    }
    fn wake_reader(&self) {
        if let Some(w) = self.with(|p| p.rwaker.take()) {
            w.wake()
        }
    }
    fn wake_writer(&self) {
        if let Some(w) = self.with(|p| p.wwaker.take()) {
            w.wake()
        }
    }
    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = self.with(|p| {
            if p.reader_closed {
                return Poll::Ready(Ok(0));
            }
            if buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            while !p.segs.is_empty() {
                let pos = p.pos;
                let left = p.segs[0].len() - pos;
                if left == 0 {
                    p.segs.pop_front();
                    p.pos = 0;
                    continue;
                }
                let n = if buf.len() < left { buf.len() } else { left };
                buf[..n].copy_from_slice(&p.segs[0][pos..pos + n]);
                p.pos += n;
                if n == left {
                    p.segs.pop_front();
                    p.pos = 0;
                }
                return Poll::Ready(Ok(n));
            }
            if let Some(e) = p.err {
                return Poll::Ready(Err(io::Error::from(e)));
            }
            if p.writer_closed {
                return Poll::Ready(Ok(0));
            }
            p.rwaker = Some(cx.waker().clone());
            Poll::Pending
        });
        if r.is_ready() {
            self.wake_writer()
        }
        r
    }
    fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = self.with(|p| {
            if p.reader_closed || p.writer_closed {
                return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe)));
            }
            if let Some(e) = p.werr {
                return Poll::Ready(Err(io::Error::from(e)));
            }
            if buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            if p.segs.len() >= p.cap {
                p.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let n = if buf.len() < p.max_write { buf.len() } else { p.max_write };
            p.segs.push_back(buf[..n].to_vec());
            Poll::Ready(Ok(n))
        });
        if r.is_ready() {
            self.wake_reader()
        }
        r
    }
    fn close_writer(&self) {
        self.with(|p| p.writer_closed = true);
        self.wake_reader()
    }
    fn close_reader(&self) {
        self.with(|p| p.reader_closed = true);
        self.wake_writer();
        self.wake_reader()
    }
}

struct Inner {
    rx: Arc<PipeCell>,
    tx: Arc<PipeCell>,
    local: SocketAddr,
    peer: SocketAddr,
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.tx.close_writer();
        self.rx.close_reader();
    }
}

#[derive(Clone)]
pub struct TcpStream {
    inner: Arc<Inner>,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}

fn pair(a: SocketAddr, b: SocketAddr) -> (TcpStream, TcpStream) {
    let (p, q) = (PipeCell::new(), PipeCell::new());
    (
        TcpStream { inner: Arc::new(Inner { rx: p.clone(), tx: q.clone(), local: a, peer: b }) },
        TcpStream { inner: Arc::new(Inner { rx: q, tx: p, local: b, peer: a }) },
    )
}
fn v4(last: u8, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 0, 0, last)), port)
}
/// A connected pair of streams outside any listener.
pub fn pipe_pair() -> (TcpStream, TcpStream) {
    pair(v4(2, 1), v4(1, 2))
}

struct ListenState {
    addr: SocketAddr,
    queue: VecDeque<io::Result<TcpStream>>,
    waker: Option<Waker>,
}
struct ListenCell(UnsafeCell<ListenState>);
unsafe impl Send for ListenCell {}
unsafe impl Sync for ListenCell {}
impl ListenCell {
    fn with<R>(&self, f: impl FnOnce(&mut ListenState) -> R) -> R {
        f(unsafe { &mut *self.0.get() })
    }
    fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<TcpStream>> {
        self.with(|l| match l.queue.pop_front() {
            Some(s) => Poll::Ready(s),
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
    fn push(&self, s: io::Result<TcpStream>) {
        if let Some(w) = self.with(|l| {
            l.queue.push_back(s);
            l.waker.take()
        }) {
            w.wake()
        }
    }
}

struct Net {
    listeners: Vec<(u16, Arc<ListenCell>)>,
    udp: Vec<(u16, Arc<UdpCell>)>,
    udp_sent: Vec<UdpSent>,
    next_port: u16,
    connect_err: Option<io::ErrorKind>,
}
static NET: Global<Net> = Global::new(Net {
    listeners: Vec::new(),
    udp: Vec::new(),
    udp_sent: Vec::new(),
    next_port: 40000,
    connect_err: None,
});
fn ephemeral() -> u16 {
    NET.with(|n| {
        n.next_port = if n.next_port == 65535 { 40001 } else { n.next_port + 1 };
        n.next_port
    })
}

/// Harness: open a connection to a listener (by port).
pub fn connect(port: u16) -> io::Result<TcpStream> {
    connect_from(port, 9)
}
fn connect_from(port: u16, host: u8) -> io::Result<TcpStream> {
    if let Some(e) = NET.with(|n| n.connect_err) {
        return Err(io::Error::from(e));
    }
    let l = NET.with(|n| n.listeners.iter().find(|x| x.0 == port).map(|x| x.1.clone()));
    match l {
        None => Err(io::Error::from(io::ErrorKind::ConnectionRefused)),
        Some(l) => {
            let (mine, theirs) = pair(v4(host, ephemeral()), l.with(|l| l.addr));
            l.push(Ok(theirs));
            Ok(mine)
        }
    }
}
static MAX_WRITE: Global<usize> = Global::new(usize::MAX);
/// Harness: connections made from now on take at most `n` bytes per write.
pub fn set_max_write(n: usize) {
    MAX_WRITE.with(|m| *m = n)
}
/// Harness: make the listener's next accept fail.
pub fn fail_accept(port: u16, kind: io::ErrorKind) -> bool {
    let l = NET.with(|n| n.listeners.iter().find(|x| x.0 == port).map(|x| x.1.clone()));
    match l {
        None => false,
        Some(l) => {
            l.push(Err(io::Error::from(kind)));
            true
        }
    }
}
/// Harness: make outgoing connections fail.
pub fn set_connect_error(e: Option<io::ErrorKind>) {
    NET.with(|n| n.connect_err = e)
}

/// Harness controls on the near end of a connection.
pub trait LinkCtl {
    /// Deliver bytes to the peer as one segment.
    fn sim_feed(&self, b: &[u8]);
    /// Everything the peer has written so far and nobody has taken.
    fn sim_take(&self) -> Vec<u8>;
    /// How many bytes `sim_take` would return.
    fn sim_avail(&self) -> usize;
    /// The peer closed its side (or dropped the connection).
    fn sim_peer_closed(&self) -> bool;
    /// The peer stopped reading (dropped or shut down).
    fn sim_peer_gone(&self) -> bool;
    /// Close our sending direction (the peer reads EOF).
    fn sim_close_write(&self);
    /// Close both directions (connection reset for the peer's writes).
    fn sim_close(&self);
    /// Reset the connection: nothing unread is delivered any more.
    fn sim_reset(&self);
    /// Bytes fed but not yet read by the peer.
    fn sim_unread(&self) -> usize;
    /// Bound the peer's writes: at most `cap` untaken segments of `max` bytes.
    fn sim_limit_peer_writes(&self, cap: usize, max: usize);
    /// The peer's reads fail with this error once drained.
    fn sim_fail_peer_reads(&self, e: io::ErrorKind);
    /// The peer's writes fail with this error.
    fn sim_fail_peer_writes(&self, e: io::ErrorKind);
}
impl LinkCtl for TcpStream {
    fn sim_feed(&self, b: &[u8]) {
        self.inner.tx.with(|p| {
            if !p.reader_closed && !b.is_empty() {
                p.segs.push_back(b.to_vec())
            }
        });
        self.inner.tx.wake_reader()
    }
    fn sim_take(&self) -> Vec<u8> {
        let v = self.inner.rx.with(|p| {
            let mut v = Vec::new();
            let mut first = true;
            while let Some(s) = p.segs.pop_front() {
                if first {
                    v.extend_from_slice(&s[p.pos..]);
                    first = false;
                } else {
                    v.extend_from_slice(&s);
                }
            }
            p.pos = 0;
            v
        });
        self.inner.rx.wake_writer();
        v
    }
    fn sim_avail(&self) -> usize {
        self.inner.rx.with(|p| p.segs.iter().map(|s| s.len()).sum::<usize>() - p.pos)
    }
    fn sim_peer_closed(&self) -> bool {
        self.inner.rx.with(|p| p.writer_closed)
    }
    fn sim_peer_gone(&self) -> bool {
        self.inner.tx.with(|p| p.reader_closed)
    }
    fn sim_close_write(&self) {
        self.inner.tx.close_writer()
    }
    fn sim_close(&self) {
        self.inner.tx.close_writer();
        self.inner.rx.close_reader()
    }
    fn sim_reset(&self) {
        self.inner.tx.with(|p| {
            p.reset = true;
            p.segs.clear();
            p.pos = 0;
            p.err = Some(io::ErrorKind::ConnectionReset);
        });
        self.inner.tx.wake_reader();
        self.inner.tx.close_writer();
        self.inner.rx.close_reader()
    }
    fn sim_unread(&self) -> usize {
        self.inner.tx.with(|p| p.segs.iter().map(|s| s.len()).sum::<usize>() - p.pos)
    }
    fn sim_limit_peer_writes(&self, cap: usize, max: usize) {
        self.inner.rx.with(|p| {
            p.cap = cap;
            p.max_write = max;
        });
        self.inner.rx.wake_writer()
    }
    fn sim_fail_peer_reads(&self, e: io::ErrorKind) {
        self.inner.tx.with(|p| p.err = Some(e));
        self.inner.tx.wake_reader()
    }
    fn sim_fail_peer_writes(&self, e: io::ErrorKind) {
        self.inner.rx.with(|p| p.werr = Some(e));
        self.inner.rx.wake_writer()
    }
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addrs: A) -> io::Result<TcpStream> {
        let mut last = None;
        for a in addrs.to_socket_addrs().await? {
            match connect_from(a.port(), 1) {
                Ok(s) => return Ok(s),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| io::Error::from(io::ErrorKind::InvalidInput)))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.inner.local)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        // as getpeername: ENOTCONN once the connection has been reset
        if self.inner.rx.with(|p| p.reset) {
            return Err(io::Error::from(io::ErrorKind::NotConnected));
        }
        Ok(self.inner.peer)
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _ttl: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_nodelay(&self, _nodelay: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        match how {
            Shutdown::Read => self.inner.rx.close_reader(),
            Shutdown::Write => self.inner.tx.close_writer(),
            Shutdown::Both => {
                self.inner.rx.close_reader();
                self.inner.tx.close_writer()
            }
        }
        Ok(())
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        std::future::poll_fn(|cx| {
            self.inner.rx.with(|p| {
                if let Some(s) = p.segs.front() {
                    let s = &s[p.pos..];
                    let n = if buf.len() < s.len() { buf.len() } else { s.len() };
                    buf[..n].copy_from_slice(&s[..n]);
                    return Poll::Ready(Ok(n));
                }
                if p.writer_closed {
                    return Poll::Ready(Ok(0));
                }
                p.rwaker = Some(cx.waker().clone());
                Poll::Pending
            })
        })
        .await
    }
}
impl AsyncRead for &TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.inner.rx.poll_read(cx, buf)
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.inner.rx.poll_read(cx, buf)
    }
}
impl AsyncWrite for &TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.inner.tx.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.inner.tx.close_writer();
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.inner.tx.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.inner.tx.close_writer();
        Poll::Ready(Ok(()))
    }
}

pub struct TcpListener {
    cell: Arc<ListenCell>,
}
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpListener")
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let me = Arc::as_ptr(&self.cell);
        NET.with(|n| n.listeners.retain(|l| Arc::as_ptr(&l.1) != me));
        let q = self.cell.with(|l| std::mem::take(&mut l.queue));
        drop(q)
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addrs: A) -> io::Result<TcpListener> {
        for a in addrs.to_socket_addrs().await? {
            let mut a = a;
            if a.port() == 0 {
                a.set_port(ephemeral());
            } else if NET.with(|n| n.listeners.iter().any(|l| l.0 == a.port())) {
                return Err(io::Error::from(io::ErrorKind::AddrInUse));
            }
            let cell = Arc::new(ListenCell(UnsafeCell::new(ListenState { addr: a, queue: VecDeque::new(), waker: None })));
            NET.with(|n| n.listeners.push((a.port(), cell.clone())));
            return Ok(TcpListener { cell });
        }
        Err(io::Error::from(io::ErrorKind::InvalidInput))
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let s = std::future::poll_fn(|cx| self.cell.poll_accept(cx)).await?;
        let a = s.inner.peer;
        Ok((s, a))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming(self)
    }
    pub fn into_incoming(self) -> impl Stream<Item = io::Result<TcpStream>> + Send + Unpin {
        IntoIncoming(self)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.cell.with(|l| l.addr))
    }
}
pub struct Incoming<'a>(&'a TcpListener);
impl Stream for Incoming<'_> {
    type Item = io::Result<TcpStream>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.cell.poll_accept(cx).map(Some)
    }
}
struct IntoIncoming(TcpListener);
impl Stream for IntoIncoming {
    type Item = io::Result<TcpStream>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.cell.poll_accept(cx).map(Some)
    }
}

/// A datagram that left the simulation (no simulated socket at its target).
pub struct UdpSent {
    pub from: SocketAddr,
    pub to: SocketAddr,
    pub data: Vec<u8>,
}
struct UdpState {
    local: SocketAddr,
    peer: Option<SocketAddr>,
    queue: VecDeque<(SocketAddr, io::Result<Vec<u8>>)>,
    waker: Option<Waker>,
    send_err: Option<io::ErrorKind>,
}
struct UdpCell(UnsafeCell<UdpState>);
unsafe impl Send for UdpCell {}
unsafe impl Sync for UdpCell {}
impl UdpCell {
    fn with<R>(&self, f: impl FnOnce(&mut UdpState) -> R) -> R {
        f(unsafe { &mut *self.0.get() })
    }
}
pub struct UdpSocket {
    cell: Arc<UdpCell>,
}
impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("UdpSocket")
    }
}
impl Drop for UdpSocket {
    fn drop(&mut self) {
        let me = Arc::as_ptr(&self.cell);
        NET.with(|n| n.udp.retain(|l| Arc::as_ptr(&l.1) != me));
    }
}
fn udp_deliver(from: SocketAddr, to: SocketAddr, data: Vec<u8>) {
    let c = NET.with(|n| n.udp.iter().find(|u| u.0 == to.port()).map(|u| u.1.clone()));
    match c {
        Some(c) => {
            if let Some(w) = c.with(|u| {
                if u.peer.map_or(true, |p| p.port() == from.port()) {
                    u.queue.push_back((from, Ok(data)));
                }
                u.waker.take()
            }) {
                w.wake()
            }
        }
        None => NET.with(|n| n.udp_sent.push(UdpSent { from, to, data })),
    }
}
/// Harness: datagrams sent to addresses outside the simulation, oldest first.
pub fn udp_sent() -> Vec<UdpSent> {
    NET.with(|n| std::mem::take(&mut n.udp_sent))
}
/// Harness: deliver a datagram (or a receive error) to the socket bound to `port`.
pub fn udp_inject(port: u16, from_port: u16, data: io::Result<Vec<u8>>) -> bool {
    let c = NET.with(|n| n.udp.iter().find(|u| u.0 == port).map(|u| u.1.clone()));
    match c {
        None => false,
        Some(c) => {
            if let Some(w) = c.with(|u| {
                u.queue.push_back((v4(9, from_port), data));
                u.waker.take()
            }) {
                w.wake()
            }
            true
        }
    }
}
/// Harness: make the sends of the socket bound to `port` fail.
pub fn udp_fail_sends(port: u16, e: Option<io::ErrorKind>) {
    if let Some(c) = NET.with(|n| n.udp.iter().find(|u| u.0 == port).map(|u| u.1.clone())) {
        c.with(|u| u.send_err = e)
    }
}
/// What the kernel refuses: port 0, and leaving the host from a loopback address.
fn udp_route(from: SocketAddr, to: SocketAddr) -> io::Result<()> {
    if to.port() == 0 || from.ip().is_loopback() && !to.ip().is_loopback() {
        return Err(io::Error::from(io::ErrorKind::InvalidInput));
    }
    Ok(())
}
impl UdpSocket {
    pub async fn bind<A: ToSocketAddrs>(addrs: A) -> io::Result<UdpSocket> {
        for a in addrs.to_socket_addrs().await? {
            let mut a = a;
            if a.port() == 0 {
                a.set_port(ephemeral());
            } else if NET.with(|n| n.udp.iter().any(|l| l.0 == a.port())) {
                return Err(io::Error::from(io::ErrorKind::AddrInUse));
            }
            let cell = Arc::new(UdpCell(UnsafeCell::new(UdpState {
                local: a,
                peer: None,
                queue: VecDeque::new(),
                waker: None,
                send_err: None,
            })));
            NET.with(|n| n.udp.push((a.port(), cell.clone())));
            return Ok(UdpSocket { cell });
        }
        Err(io::Error::from(io::ErrorKind::InvalidInput))
    }
    pub async fn connect<A: ToSocketAddrs>(&self, addrs: A) -> io::Result<()> {
        for a in addrs.to_socket_addrs().await? {
            udp_route(self.cell.with(|u| u.local), a)?;
            self.cell.with(|u| u.peer = Some(a));
            return Ok(());
        }
        Err(io::Error::from(io::ErrorKind::InvalidInput))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.cell.with(|u| u.local))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.cell.with(|u| u.peer).ok_or_else(|| io::Error::from(io::ErrorKind::NotConnected))
    }
    pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], addrs: A) -> io::Result<usize> {
        if let Some(e) = self.cell.with(|u| u.send_err) {
            return Err(io::Error::from(e));
        }
        for a in addrs.to_socket_addrs().await? {
            udp_route(self.cell.with(|u| u.local), a)?;
            udp_deliver(self.cell.with(|u| u.local), a, buf.to_vec());
            return Ok(buf.len());
        }
        Err(io::Error::from(io::ErrorKind::InvalidInput))
    }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        if let Some(e) = self.cell.with(|u| u.send_err) {
            return Err(io::Error::from(e));
        }
        match self.cell.with(|u| u.peer) {
            Some(a) => {
                udp_deliver(self.cell.with(|u| u.local), a, buf.to_vec());
                Ok(buf.len())
            }
            None => Err(io::Error::from(io::ErrorKind::NotConnected)),
        }
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        std::future::poll_fn(|cx| {
            self.cell.with(|u| match u.queue.pop_front() {
                Some((a, Ok(d))) => {
                    let n = if d.len() < buf.len() { d.len() } else { buf.len() };
                    buf[..n].copy_from_slice(&d[..n]);
                    Poll::Ready(Ok((n, a)))
                }
                Some((_, Err(e))) => Poll::Ready(Err(e)),
                None => {
                    u.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            })
        })
        .await
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        Ok(self.recv_from(buf).await?.0)
    }
}

pub type ToSocketAddrsFuture<I> = std::future::Ready<io::Result<I>>;
pub trait ToSocketAddrs {
    type Iter: Iterator<Item = SocketAddr>;
    fn to_socket_addrs(&self) -> ToSocketAddrsFuture<Self::Iter>;
}
macro_rules! via {
    ($($t:ty),*) => {$(
        impl ToSocketAddrs for $t {
            type Iter = std::option::IntoIter<SocketAddr>;
            fn to_socket_addrs(&self) -> ToSocketAddrsFuture<Self::Iter> {
                let me: SocketAddr = (*self).into();
                std::future::ready(Ok(Some(me).into_iter()))
            }
        }
    )*};
}
via!(SocketAddr, SocketAddrV4, SocketAddrV6, (IpAddr, u16), (Ipv4Addr, u16), (Ipv6Addr, u16));
impl ToSocketAddrs for (&str, u16) {
    type Iter = std::option::IntoIter<SocketAddr>;
    fn to_socket_addrs(&self) -> ToSocketAddrsFuture<Self::Iter> {
        std::future::ready(match self.0.parse::<IpAddr>() {
            Ok(ip) => Ok(Some(SocketAddr::new(ip, self.1)).into_iter()),
            Err(_) => Err(io::Error::from(io::ErrorKind::InvalidInput)),
        })
    }
}
impl ToSocketAddrs for str {
    type Iter = std::option::IntoIter<SocketAddr>;
    fn to_socket_addrs(&self) -> ToSocketAddrsFuture<Self::Iter> {
        std::future::ready(match self.parse::<SocketAddr>() {
            Ok(a) => Ok(Some(a).into_iter()),
            Err(_) => Err(io::Error::from(io::ErrorKind::InvalidInput)),
        })
    }
}
impl ToSocketAddrs for String {
    type Iter = std::option::IntoIter<SocketAddr>;
    fn to_socket_addrs(&self) -> ToSocketAddrsFuture<Self::Iter> {
        self.as_str().to_socket_addrs()
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    type Iter = T::Iter;
    fn to_socket_addrs(&self) -> ToSocketAddrsFuture<Self::Iter> {
        (**self).to_socket_addrs()
    }
}
