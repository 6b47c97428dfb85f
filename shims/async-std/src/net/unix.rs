//! Unix-domain stand-ins: enough for servers to be generic over them.
use super::*;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct UnixStream(TcpStream);
pub struct UnixAddr;
impl UnixAddr {
    pub fn as_pathname(&self) -> Option<&Path> {
        None
    }
    pub fn is_unnamed(&self) -> bool {
        true
    }
}
impl std::fmt::Debug for UnixAddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("(unnamed)")
    }
}
impl UnixStream {
    pub fn peer_addr(&self) -> io::Result<UnixAddr> {
        Ok(UnixAddr)
    }
    pub fn local_addr(&self) -> io::Result<UnixAddr> {
        Ok(UnixAddr)
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        self.0.shutdown(how)
    }
}
impl AsyncRead for &UnixStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.0.inner.rx.poll_read(cx, buf)
    }
}
impl AsyncRead for UnixStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.0.inner.rx.poll_read(cx, buf)
    }
}
impl AsyncWrite for &UnixStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.inner.tx.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for UnixStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.inner.tx.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// Unix listeners live on the ports above 60000, one per path.
pub struct UnixListener(TcpListener);
impl UnixListener {
    pub async fn bind<P: AsRef<Path>>(_path: P) -> io::Result<UnixListener> {
        Ok(UnixListener(TcpListener::bind(v4(1, 60001)).await?))
    }
    pub async fn accept(&self) -> io::Result<(UnixStream, UnixAddr)> {
        let (s, _) = self.0.accept().await?;
        Ok((UnixStream(s), UnixAddr))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming(self)
    }
    pub fn local_addr(&self) -> io::Result<UnixAddr> {
        Ok(UnixAddr)
    }
}
pub struct Incoming<'a>(&'a UnixListener);
impl Stream for Incoming<'_> {
    type Item = io::Result<UnixStream>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        (self.0).0.cell.poll_accept(cx).map(|r| Some(r.map(UnixStream)))
    }
}
