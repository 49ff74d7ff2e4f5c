//! Raw TChannel peers: a connection spoken frame by frame, and listeners for scripted servers.
use crate::engine::*;
use crate::wire::{self, Frame};
use std::net::SocketAddr;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpListener, TcpSocket, TcpStream};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    Frame(Frame),
    /// The stream cannot be split into frames from here on.
    Garbled(String),
    Eof { leftover: usize },
    Reset,
    /// Nothing for as long as asked.
    Quiet,
}
impl Ev {
    pub fn show(&self) -> String {
        match self {
            Ev::Frame(f) => f.show(),
            o => format!("{o:?}"),
        }
    }
    pub fn is_end(&self) -> bool {
        matches!(self, Ev::Eof { .. } | Ev::Reset)
    }
}

pub struct Raw {
    wr: Option<OwnedWriteHalf>,
    pub rx: UnboundedReceiver<Ev>,
    reader: tokio::task::JoinHandle<()>,
    pub local: SocketAddr,
    pub remote: SocketAddr,
    held: Option<Ev>,
}

async fn read_loop(mut rd: OwnedReadHalf, tx: UnboundedSender<Ev>) {
    let mut buf = Vec::new();
    let mut garbled = false;
    loop {
        while !garbled {
            match wire::take(&mut buf) {
                Ok(Some(f)) => {
                    if tx.send(Ev::Frame(f)).is_err() {
                        return;
                    }
                }
                Ok(None) => break,
                Err(e) => {
                    garbled = true;
                    let _ = tx.send(Ev::Garbled(e));
                }
            }
        }
        match rd.read_buf(&mut buf).await {
            Ok(0) => {
                let _ = tx.send(Ev::Eof { leftover: if garbled { 0 } else { buf.len() } });
                return;
            }
            Ok(_) => {
                quickack(rd.as_ref());
                if garbled {
                    buf.clear();
                }
            }
            Err(_) => {
                let _ = tx.send(Ev::Reset);
                return;
            }
        }
    }
}

impl Raw {
    pub fn new(s: TcpStream) -> Raw {
        let _ = s.set_nodelay(true);
        let local = s.local_addr().unwrap_or(SocketAddr::from(([0, 0, 0, 0], 0)));
        let remote = s.peer_addr().unwrap_or(SocketAddr::from(([0, 0, 0, 0], 0)));
        let (rd, wr) = s.into_split();
        let (tx, rx) = unbounded_channel();
        let reader = tokio::spawn(read_loop(rd, tx));
        Raw { wr: Some(wr), rx, reader, local, remote, held: None }
    }
    pub async fn connect(addr: SocketAddr) -> std::io::Result<Raw> {
        Ok(Raw::new(TcpStream::connect(addr).await?))
    }
    /// Connects, says hello and waits for the answer.
    pub async fn client(addr: SocketAddr) -> R<Raw> {
        let mut r = match Raw::connect(addr).await {
            Ok(r) => r,
            Err(e) => return soft(format!("connecting: {e}")),
        };
        r.send(&wire::init(wire::INIT_REQ, 1, 2, &[])).await?;
        match r.next(Duration::from_secs(8)).await {
            Ev::Frame(f) if f.ty == wire::INIT_RES && f.id == 1 => Ok(r),
            o => soft(format!("handshake answered with {}", o.show())),
        }
    }
    /// Answers a client's handshake.
    pub async fn welcome(&mut self) -> R<Frame> {
        match self.next(Duration::from_secs(8)).await {
            Ev::Frame(f) if f.ty == wire::INIT_REQ => {
                self.send(&wire::init(wire::INIT_RES, f.id, 2, &[])).await?;
                Ok(f)
            }
            o => soft(format!("client opened with {}", o.show())),
        }
    }
    pub async fn send_bytes(&mut self, b: &[u8]) -> R {
        match self.try_send(b).await {
            Ok(()) => Ok(()),
            Err(e) => soft(format!("writing to the peer: {e}")),
        }
    }
    pub async fn try_send(&mut self, b: &[u8]) -> std::io::Result<()> {
        match &mut self.wr {
            Some(w) => w.write_all(b).await,
            None => Err(std::io::ErrorKind::BrokenPipe.into()),
        }
    }
    pub async fn send(&mut self, f: &Frame) -> R {
        let b = f.enc();
        self.send_bytes(&b).await
    }
    /// Writes in separate segments: `cuts` are 65536ths of the data.
    pub async fn send_segments(&mut self, b: &[u8], cuts: &[u16], pause: bool) -> R {
        let mut at: Vec<usize> = cuts.iter().map(|c| b.len() * *c as usize / 65535).collect();
        at.sort();
        at.push(b.len());
        let mut from = 0;
        for a in at {
            if a > from {
                self.send_bytes(&b[from..a]).await?;
                from = a;
                if pause && a < b.len() {
                    tokio::time::sleep(Duration::from_micros(300)).await;
                } else {
                    tokio::task::yield_now().await;
                }
            }
        }
        Ok(())
    }
    pub async fn next(&mut self, wait: Duration) -> Ev {
        if let Some(e) = self.held.take() {
            return e;
        }
        match tokio::time::timeout(wait, self.rx.recv()).await {
            Ok(Some(e)) => e,
            Ok(None) => Ev::Reset,
            Err(_) => Ev::Quiet,
        }
    }
    /// The next event, waiting as long as the case may run.
    pub async fn wait(&mut self) -> Ev {
        match self.held.take() {
            Some(e) => e,
            None => self.rx.recv().await.unwrap_or(Ev::Reset),
        }
    }
    /// What has arrived so far, without waiting.
    pub fn poll(&mut self) -> Option<Ev> {
        self.held.take().or_else(|| self.rx.try_recv().ok())
    }
    pub fn hold(&mut self, e: Ev) {
        self.held = Some(e);
    }
    pub async fn half_close(&mut self) {
        if let Some(mut w) = self.wr.take() {
            let _ = w.shutdown().await;
            drop(w);
        }
    }
    /// Closes both directions.
    pub async fn close(mut self) {
        self.reader.abort();
        let _ = (&mut self.reader).await;
        self.wr = None;
    }
    /// Resets the connection.
    pub async fn reset(mut self) {
        if let Some(w) = &self.wr {
            let s: &TcpStream = w.as_ref();
            linger0(s);
        }
        self.reader.abort();
        let _ = (&mut self.reader).await;
        if let Some(w) = self.wr.take() {
            w.forget();
        }
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        self.reader.abort();
    }
}

/// Acknowledge at once: the code under test writes without TCP_NODELAY.
fn quickack(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const libc::c_void, 4);
    }
}
fn linger0(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

pub fn listen(addr: SocketAddr) -> R<TcpListener> {
    let go = || -> std::io::Result<TcpListener> {
        let s = TcpSocket::new_v4()?;
        s.set_reuseaddr(true)?;
        s.bind(addr)?;
        s.listen(64)
    };
    match go() {
        Ok(l) => Ok(l),
        Err(e) => soft(format!("harness cannot listen on {addr}: {e}")),
    }
}
pub async fn accept(l: &TcpListener) -> R<Raw> {
    match l.accept().await {
        Ok((s, _)) => Ok(Raw::new(s)),
        Err(e) => soft(format!("accept: {e}")),
    }
}

/// Sockets of this machine with local end `local` (and remote end `remote`), as (state, remote), from /proc.
pub fn sockets(local: SocketAddr, remote: Option<SocketAddr>) -> Vec<(u8, SocketAddr)> {
    fn addr(s: &str) -> Option<SocketAddr> {
        let (ip, port) = s.split_once(':')?;
        let ip = u32::from_str_radix(ip, 16).ok()?.to_ne_bytes();
        Some(SocketAddr::from((ip, u16::from_str_radix(port, 16).ok()?)))
    }
    let text = std::fs::read_to_string("/proc/self/net/tcp").unwrap_or_default();
    text.lines()
        .skip(1)
        .filter_map(|l| {
            let mut it = l.split_whitespace().skip(1);
            let (a, b, st) = (addr(it.next()?)?, addr(it.next()?)?, u8::from_str_radix(it.next()?, 16).ok()?);
            (a == local && remote.map_or(true, |r| r == b)).then_some((st, b))
        })
        .collect()
}
pub const ESTABLISHED: u8 = 1;
pub const CLOSE_WAIT: u8 = 8;

/// What a server sent in answer to an id.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Reply(wire::Msg),
    /// An error frame: code and message.
    Error(u8, Vec<u8>),
    Pong,
}
impl Answer {
    pub fn show(&self) -> String {
        match self {
            Answer::Reply(m) => format!("reply code {} with {:?}", m.code, m.args.iter().map(|a| a.len()).collect::<Vec<_>>()),
            Answer::Error(c, m) => format!("error frame code 0x{c:02x} {:?}", String::from_utf8_lossy(&m[..m.len().min(60)])),
            Answer::Pong => "ping response".into(),
        }
    }
    /// Whether this tells the caller that the call failed.
    pub fn is_error(&self) -> bool {
        match self {
            Answer::Reply(m) => m.code != 0,
            Answer::Error(..) => true,
            Answer::Pong => false,
        }
    }
}
/// Sorts the frames a server sends into answers by id.
#[derive(Default)]
pub struct Inbox {
    asm: std::collections::HashMap<u32, wire::Asm>,
    pub answers: Vec<(u32, Answer)>,
}
impl Inbox {
    pub fn feed(&mut self, f: &Frame) -> Result<(), String> {
        match f.ty {
            wire::PING_RES => self.answers.push((f.id, Answer::Pong)),
            wire::ERROR => {
                let mut r = wire::Rd(&f.body);
                let code = r.u8()?;
                r.take(25)?;
                let n = r.u16()? as usize;
                let m = r.take(n)?.to_vec();
                self.asm.remove(&f.id);
                self.answers.push((f.id, Answer::Error(code, m)));
            }
            wire::CALL_RES | wire::RES_CONT => {
                let a = self.asm.entry(f.id).or_default();
                a.feed(f, true).map_err(|e| format!("response frame ({}): {e}", f.show()))?;
                if a.done {
                    let a = self.asm.remove(&f.id).unwrap();
                    self.answers.push((f.id, Answer::Reply(a.msg.unwrap())));
                }
            }
            _ => return Err(format!("unexpected frame from a server: {}", f.show())),
        }
        Ok(())
    }
    pub fn of(&self, id: u32) -> Vec<&Answer> {
        self.answers.iter().filter(|a| a.0 == id).map(|a| &a.1).collect()
    }
    pub fn has(&self, id: u32) -> bool {
        self.answers.iter().any(|a| a.0 == id)
    }
    pub fn partial(&self) -> bool {
        !self.asm.is_empty()
    }
}
impl Raw {
    /// Reads until `until` holds. Malformed frames are hard failures; silence and the stream's end soft ones.
    pub async fn collect(&mut self, inbox: &mut Inbox, what: &str, until: impl Fn(&Inbox) -> bool) -> R {
        while !until(inbox) {
            match self.next(Duration::from_secs(8)).await {
                Ev::Frame(f) => {
                    if let Err(e) = inbox.feed(&f) {
                        return hard(format!("{what}: {e}"));
                    }
                }
                Ev::Garbled(e) => return hard(format!("{what}: stream garbled: {e}")),
                e => return soft(format!("{what}: {} (answered so far: {:?})", e.show(), inbox.answers.iter().map(|a| a.0).collect::<Vec<_>>())),
            }
        }
        Ok(())
    }
    /// Reads to the end of the stream.
    pub async fn drain(&mut self, inbox: &mut Inbox, what: &str) -> R {
        loop {
            match self.next(Duration::from_secs(8)).await {
                Ev::Frame(f) => {
                    if let Err(e) = inbox.feed(&f) {
                        return hard(format!("{what}: {e}"));
                    }
                }
                Ev::Garbled(e) => return hard(format!("{what}: stream garbled: {e}")),
                Ev::Quiet => return soft(format!("{what}: connection stays open")),
                Ev::Eof { leftover } if leftover > 0 => return hard(format!("{what}: stream ends inside a frame")),
                _ => return Ok(()),
            }
        }
    }
}

pub enum Cmd {
    Send(Vec<u8>),
    HalfClose,
    Close,
    Reset,
}
/// What a connection to a hub did.
#[derive(Debug)]
pub enum Did {
    /// It was accepted.
    Open,
    /// A frame after the handshake (or any frame, where handshakes are not answered).
    Frame(Frame),
    Garbled(String),
    End,
}
/// A scripted server which accepts any number of connections.
pub struct Hub {
    rx: UnboundedReceiver<(usize, Did)>,
    cmds: std::sync::Arc<std::sync::Mutex<Vec<UnboundedSender<Cmd>>>>,
    task: tokio::task::JoinHandle<()>,
    asm: std::collections::HashMap<(usize, u32), wire::Asm>,
    /// Open connections: what the hub accepted and has not seen ended.
    pub open: std::collections::BTreeSet<usize>,
    pub accepted: usize,
    pub most: usize,
}
impl Drop for Hub {
    fn drop(&mut self) {
        self.task.abort();
    }
}
impl Hub {
    /// `welcome`: answers handshakes by itself.
    pub fn new(l: TcpListener, welcome: bool) -> Hub {
        Hub::unfriendly(l, welcome, 0)
    }
    /// The first `deaf` connections are closed in the middle of their handshake.
    pub fn unfriendly(l: TcpListener, welcome: bool, deaf: usize) -> Hub {
        let (tx, rx) = unbounded_channel();
        let cmds = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let cs = cmds.clone();
        let task = tokio::spawn(async move {
            let mut n = 0;
            for i in 0..deaf {
                if let Ok((s, _)) = l.accept().await {
                    let mut r = Raw::new(s);
                    if i % 2 == 0 {
                        r.next(Duration::from_secs(2)).await;
                        let _ = r.try_send(&[0, 20, 2, 0]).await;
                    }
                    r.close().await;
                }
            }
            while let Ok((s, _)) = l.accept().await {
                let (ctx, crx) = unbounded_channel();
                cs.lock().unwrap().push(ctx);
                let _ = tx.send((n, Did::Open));
                tokio::spawn(serve(Raw::new(s), n, welcome, tx.clone(), crx));
                n += 1;
            }
        });
        Hub { rx, cmds, task, asm: Default::default(), open: Default::default(), accepted: 0, most: 0 }
    }
    pub fn tell(&self, conn: usize, c: Cmd) {
        let _ = self.cmds.lock().unwrap()[conn].send(c);
    }
    pub fn send(&self, conn: usize, f: &[Frame]) {
        self.tell(conn, Cmd::Send(wire::enc_all(f)));
    }
    pub async fn next(&mut self, wait: Duration) -> Option<(usize, Did)> {
        let e = tokio::time::timeout(wait, self.rx.recv()).await.ok().flatten()?;
        match e.1 {
            Did::Open => {
                self.open.insert(e.0);
                self.accepted += 1;
                self.most = self.most.max(self.open.len());
            }
            Did::End => {
                self.open.remove(&e.0);
            }
            _ => {}
        }
        Some(e)
    }
    /// Puts a call frame together with the ones before; gives the call when complete.
    pub fn call(&mut self, conn: usize, f: &Frame) -> R<Option<wire::Msg>> {
        let a = self.asm.entry((conn, f.id)).or_default();
        if let Err(e) = a.feed(f, true) {
            return hard(format!("request frame ({}): {e}", f.show()));
        }
        if !a.done {
            return Ok(None);
        }
        Ok(self.asm.remove(&(conn, f.id)).unwrap().msg)
    }
}
async fn serve(mut r: Raw, n: usize, mut welcome: bool, tx: UnboundedSender<(usize, Did)>, mut cmds: UnboundedReceiver<Cmd>) {
    let mut reading = true;
    loop {
        tokio::select! {
            biased;
            c = cmds.recv() => match c {
                Some(Cmd::Send(b)) => {
                    let _ = r.try_send(&b).await;
                }
                Some(Cmd::HalfClose) => r.half_close().await,
                Some(Cmd::Close) => {
                    r.close().await;
                    let _ = tx.send((n, Did::End));
                    return;
                }
                Some(Cmd::Reset) => {
                    r.reset().await;
                    let _ = tx.send((n, Did::End));
                    return;
                }
                None => return,
            },
            e = r.wait(), if reading => match e {
                Ev::Frame(f) if welcome && f.ty == wire::INIT_REQ => {
                    welcome = false;
                    let _ = r.try_send(&wire::init(wire::INIT_RES, f.id, 2, &[]).enc()).await;
                }
                Ev::Frame(f) => {
                    let _ = tx.send((n, Did::Frame(f)));
                }
                Ev::Garbled(e) => {
                    let _ = tx.send((n, Did::Garbled(e)));
                }
                _ => {
                    reading = false;
                    let _ = tx.send((n, Did::End));
                }
            },
        }
    }
}
