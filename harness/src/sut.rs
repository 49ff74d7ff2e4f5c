//! Servers and clients under test, built only from the crate's public interface.
use crate::engine::*;
use futures::future::BoxFuture;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::task::Poll;
use std::fmt::Debug;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, Message, MessageChannel, RawMessage};
use tchannel_rs::{Config, ConfigBuilder, SubChannel, TChannel};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Knobs {
    pub conns: u32,
    pub buf: u32,
    pub tasks: u32,
    pub test: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { conns: 1, buf: 100, tasks: 4, test: false }
    }
}
pub fn knobs() -> impl Strategy<Value = Knobs> {
    (prop_oneof![3 => Just(1u32), 2 => 2u32..=4], prop_oneof![2 => Just(100u32), 2 => Just(1u32), 2 => 2u32..10], prop_oneof![2 => Just(4u32), 1 => Just(1u32), 2 => 2u32..=9])
        .prop_map(|(conns, buf, tasks)| Knobs { conns, buf, tasks, test: false })
}
pub fn config(k: &Knobs, addr: SocketAddr) -> Config {
    config_for(k, addr, Some(Duration::from_secs(60)))
}
pub fn config_for(k: &Knobs, addr: SocketAddr, lifetime: Option<Duration>) -> Config {
    ConfigBuilder::default()
        .max_connections(k.conns)
        .lifetime(lifetime)
        .test_connection(k.test)
        .frame_buffer_size(k.buf as usize)
        .server_address(addr)
        .server_tasks(k.tasks as usize)
        .build()
        .expect("config")
}
pub fn channel(k: &Knobs, addr: SocketAddr) -> R<TChannel> {
    match TChannel::new(config(k, addr)) {
        Ok(c) => Ok(c),
        Err(e) => hard(format!("TChannel::new: {e}")),
    }
}
/// A client: its server address is never used.
pub fn client(k: &Knobs) -> R<TChannel> {
    channel(k, SocketAddr::from(([127, 0, 0, 1], 9)))
}
pub async fn sub(c: &TChannel, service: &str) -> R<Arc<SubChannel>> {
    match c.subchannel(service).await {
        Ok(s) => Ok(s),
        Err(e) => hard(format!("subchannel({service:?}): {e}")),
    }
}
pub async fn start(c: &TChannel, addr: SocketAddr) -> R {
    if let Err(e) = c.start_server() {
        return hard(format!("start_server: {e}"));
    }
    wait_listening(addr).await
}
pub async fn listening(addr: SocketAddr) -> bool {
    matches!(tokio::time::timeout(Duration::from_secs(2), tokio::net::TcpStream::connect(addr)).await, Ok(Ok(_)))
}
pub async fn wait_listening(addr: SocketAddr) -> R {
    for i in 0..2000 {
        if listening(addr).await {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_micros(if i < 50 { 100 } else { 2000 })).await;
    }
    soft(format!("server does not accept connections on {addr}"))
}

pub type Reply<M> = BoxFuture<'static, HandlerResult<M>>;
/// An async handler made of a function.
pub struct Fun<M: Message>(pub Arc<dyn Fn(M) -> Reply<M> + Send + Sync>);
impl<M: Message> Debug for Fun<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Fun")
    }
}
impl<M: Message + 'static> RequestHandlerAsync for Fun<M> {
    type REQ = M;
    type RES = M;
    fn handle(&mut self, m: M) -> Pin<Box<dyn Future<Output = HandlerResult<M>> + Send + '_>> {
        (self.0)(m)
    }
}
pub fn fun<M, F>(f: F) -> Fun<M>
where
    M: Message,
    F: Fn(M) -> Reply<M> + Send + Sync + 'static,
{
    Fun(Arc::new(f))
}
/// A plain handler made of a function.
pub struct Plain<M: Message>(pub Arc<dyn Fn(M) -> HandlerResult<M> + Send + Sync>);
impl<M: Message> Debug for Plain<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Plain")
    }
}
impl<M: Message + 'static> RequestHandler for Plain<M> {
    type REQ = M;
    type RES = M;
    fn handle(&mut self, m: M) -> HandlerResult<M> {
        (self.0)(m)
    }
}
/// Registers `f` as a plain or as an async handler.
pub async fn register<M, F>(s: &SubChannel, ep: &str, plain: bool, f: F) -> R
where
    M: Message + 'static,
    F: Fn(M) -> HandlerResult<M> + Send + Sync + 'static,
{
    let f = Arc::new(f);
    let r = if plain {
        s.register(ep, Plain(f)).await
    } else {
        s.register_async(ep, fun(move |m| { let f = f.clone(); Box::pin(async move { f(m) }) as Reply<M> })).await
    };
    match r {
        Ok(()) => Ok(()),
        Err(e) => hard(format!("register({ep:?}): {e}")),
    }
}
pub async fn register_async<M, F>(s: &SubChannel, ep: &str, f: F) -> R
where
    M: Message + 'static,
    F: Fn(M) -> Reply<M> + Send + Sync + 'static,
{
    match s.register_async(ep, fun(f)).await {
        Ok(()) => Ok(()),
        Err(e) => hard(format!("register_async({ep:?}): {e}")),
    }
}

/// A raw message's parts.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Parts {
    pub ep: String,
    pub header: String,
    pub body: Vec<u8>,
}
fn brief(b: &[u8]) -> String {
    if b.len() <= 24 { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("{} bytes {:?}..", b.len(), String::from_utf8_lossy(&b[..16])) }
}
impl Debug for Parts {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({}, {}, {})", brief(self.ep.as_bytes()), brief(self.header.as_bytes()), brief(&self.body))
    }
}
impl Parts {
    pub fn new(ep: impl Into<String>, header: impl Into<String>, body: impl Into<Vec<u8>>) -> Parts {
        Parts { ep: ep.into(), header: header.into(), body: body.into() }
    }
    pub fn of(m: &RawMessage) -> Parts {
        Parts { ep: m.endpoint().clone(), header: m.header().clone(), body: m.body().to_vec() }
    }
    pub fn msg(&self) -> RawMessage {
        RawMessage::new(self.ep.clone(), self.header.clone(), self.body.clone().into())
    }
    pub fn args(&self) -> [Vec<u8>; 3] {
        [self.ep.clone().into_bytes(), self.header.clone().into_bytes(), self.body.clone()]
    }
    pub fn from_args(a: &[Vec<u8>]) -> Option<Parts> {
        if a.len() != 3 {
            return None;
        }
        Some(Parts { ep: String::from_utf8(a[0].clone()).ok()?, header: String::from_utf8(a[1].clone()).ok()?, body: a[2].clone() })
    }
}

/// What came of a call.
#[derive(Clone, Debug, PartialEq)]
pub enum Res<M> {
    Ok(M),
    Message(M),
    /// Any error that is not a message.
    Fail(String),
}
fn res<M: Message>(r: HandlerResult<M>) -> Res<M> {
    use tchannel_rs::errors::HandlerError::*;
    match r {
        Ok(m) => Res::Ok(m),
        Err(MessageError(m)) => Res::Message(m),
        Err(GeneralError(s)) => Res::Fail(format!("general: {s}")),
        Err(InternalError(e)) => Res::Fail(format!("internal: {e}")),
    }
}
impl<M> Res<M> {
    pub fn map<N>(self, f: impl FnOnce(M) -> N) -> Res<N> {
        match self {
            Res::Ok(m) => Res::Ok(f(m)),
            Res::Message(m) => Res::Message(f(m)),
            Res::Fail(s) => Res::Fail(s),
        }
    }
}
pub async fn call(s: &SubChannel, p: &Parts, addr: SocketAddr) -> Res<Parts> {
    let r: HandlerResult<RawMessage> = MessageChannel::send(s, p.msg(), addr).await;
    res(r).map(|m| Parts::of(&m))
}
pub async fn call_json(s: &SubChannel, m: JsonMessage, addr: SocketAddr) -> Res<JsonMessage> {
    let r: HandlerResult<JsonMessage> = MessageChannel::send(s, m, addr).await;
    res(r)
}
/// The call must succeed with `want`: any other reply is a hard failure, an error a soft one.
pub fn expect_ok(got: Res<Parts>, want: &Parts, what: &str) -> R {
    match got {
        Res::Ok(p) if p == *want => Ok(()),
        Res::Ok(p) => hard(format!("{what}: got reply {p:?} instead of {want:?}")),
        Res::Message(p) => hard(format!("{what}: got error message {p:?} instead of {want:?}")),
        Res::Fail(e) => soft(format!("{what}: failed: {e}")),
    }
}

#[derive(Clone)]
pub struct Log<T>(Arc<Mutex<Vec<T>>>);
impl<T: Clone> Default for Log<T> {
    fn default() -> Self {
        Log(Arc::new(Mutex::new(vec![])))
    }
}
impl<T: Clone> Log<T> {
    pub fn push(&self, t: T) {
        self.0.lock().unwrap().push(t)
    }
    pub fn get(&self) -> Vec<T> {
        self.0.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
}

/// Waits for `f`, up to `ms`.
pub async fn eventually(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let t = std::time::Instant::now();
    let mut d = 50;
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > Duration::from_millis(ms) {
            return false;
        }
        tokio::time::sleep(Duration::from_micros(d)).await;
        d = (d * 2).min(5000);
    }
}
pub const SECS: Duration = Duration::from_secs(1);

/// What a task may do at a stretch, in tokio's count of operations on its resources.
const BUDGET: usize = 128;
/// Polls `f` at most `n` times, then drops it. With `step`, every poll gets it past that many of its awaits at most.
/// To be called first thing in a task.
pub async fn at_most<T>(f: impl std::future::Future<Output = T> + Send, n: usize, step: Option<usize>) -> Option<T> {
    let mut f = Box::pin(f);
    let mut left = n;
    let spent = tokio::sync::Semaphore::new(1);
    futures::future::poll_fn(move |cx| {
        if left == 0 {
            return Poll::Ready(None);
        }
        left -= 1;
        for _ in step.unwrap_or(BUDGET)..BUDGET {
            let a = spent.acquire();
            futures::pin_mut!(a);
            let _ = std::future::Future::poll(a, cx);
        }
        match f.as_mut().poll(cx) {
            Poll::Ready(t) => Poll::Ready(Some(t)),
            // Nothing wakes a task which drops its call: ask again.
            Poll::Pending if left == 0 => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}
