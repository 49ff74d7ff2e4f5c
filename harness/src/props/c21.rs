//! A peer which is slow delays only what involves it.
use super::prelude::*;
use peer::{Answer, Inbox};
use tchannel_rs::messages::RawMessage;
use tchannel_rs::TChannel;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpSocket, TcpStream};
use tokio::sync::watch;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    workers: u8,
    /// Of the slow peers' peer: the server or the client under test.
    knobs: Knobs,
    other: Knobs,
    side: Side,
    /// Calls which have nothing to do with the slow peers, made while they are slow.
    fast: Vec<Fast>,
    /// Those calls are made one after the other.
    sequential: bool,
    /// A client (of a server with slow clients) calls this many handlers which do not end for now.
    #[serde(default)]
    stalls: u8,
    /// So many more clients stay silent from some point of the handshake on, or so many more servers accept a connection only.
    #[serde(default)]
    crowd: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Side {
    /// Slow clients of a server.
    Clients(Vec<SlowClient>),
    /// Slow servers of a client; whether the other server was called before.
    Servers(Vec<SlowServer>, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlowClient {
    how: Idle,
    reqs: Vec<Req>,
    /// A ping after every so many requests.
    pings: u8,
    /// The last request stays incomplete meanwhile.
    incomplete: bool,
    fate: Fate,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Idle {
    /// Connects and says nothing, or only this many bytes of its handshake.
    Silent(u8),
    /// Sends its handshake, and its requests right behind it, and reads nothing.
    Pipelined,
    /// Reads nothing after its handshake.
    Deaf,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fate {
    GoesOn,
    Closes,
    Resets,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    ep: u8,
    /// Length of the request's body.
    req: u32,
    rep: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlowServer {
    how: Dull,
    reqs: Vec<Req>,
    closes: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dull {
    /// Answers no handshake.
    NoHandshake,
    /// Reads nothing after the handshake.
    NoRead,
    /// Reads requests and does not answer.
    NoAnswer,
    /// Sends the first half of every answer.
    HalfAnswer,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fast {
    req: Req,
    /// Over a connection of its own (server side), or to a subchannel of its own (client side).
    fresh: bool,
    raw: bool,
}
pub struct P;
const EPS: u8 = 3;
const WAIT: Duration = Duration::from_secs(8);

fn reqs(n: usize) -> BoxedStrategy<Vec<Req>> {
    let len = || prop_oneof![3 => 0u32..100, 2 => 60_000u32..70_000, 2 => 100_000u32..700_000];
    let one = (0..EPS, prop_oneof![4 => 0u32..100, 1 => 60_000u32..400_000], len()).prop_map(|(ep, req, rep)| Req { ep, req, rep });
    vec(one, 1..=n).boxed()
}
/// Replies beyond what sockets hold.
fn flood() -> BoxedStrategy<Vec<Req>> {
    let one = (0..EPS, 0u32..100, 500_000u32..700_000).prop_map(|(ep, req, rep)| Req { ep, req, rep });
    vec(one, 12..=40).boxed()
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C21";
    const THREADS: usize = 16;
    const RULE: &'static str = "1-4 slow peers with small socket buffers: clients of a server that stop in their handshake or read nothing while they send 1-12, or up to 40, requests with replies of up to 700 KB, pings and incomplete requests; or servers of a client that answer no handshake, read nothing, answer nothing or answer by half, with 1-6 calls to each pending. At times another client has up to 12 requests pending whose handlers stall, more than the task limit or not; and at times 20-400 further clients stop in or after their handshake, or as many servers with a call each never answer the handshake. Meanwhile 1-8 other calls (over other connections to the same endpoints; to other servers, called before or not, over subchannels existing or not, or to the client's own server) must all get their replies. Then the slow peers go on, and every one of their calls must get exactly its own reply, or they close or reset, and calls go on succeeding. Non-trivial: a slow client owes the server reading more than 1 MB, or a slow server has a pending call of more than 1 MB or a handshake pending, or as many requests of a client as the task limit stall, or there is a crowd.";
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 4_000 } else { 120_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C> {
        let how = prop_oneof![2 => (0u8..40).prop_map(Idle::Silent), 1 => Just(Idle::Pipelined), 3 => Just(Idle::Deaf)];
        let fate = proptest::sample::select(vec![Fate::GoesOn, Fate::GoesOn, Fate::Closes, Fate::Resets]);
        let sc = (how, prop_oneof![5 => reqs(12), 1 => flood()], prop_oneof![2 => Just(0u8), 1 => 1u8..4], any::<bool>(), fate).prop_map(|(how, reqs, pings, incomplete, fate)| SlowClient { how, reqs, pings, incomplete, fate });
        let dull = proptest::sample::select(vec![Dull::NoHandshake, Dull::NoRead, Dull::NoAnswer, Dull::HalfAnswer]);
        let call = (0..EPS, prop_oneof![2 => 0u32..100, 1 => 60_000u32..70_000, 2 => 300_000u32..3_000_000], prop_oneof![3 => 0u32..100, 1 => 60_000u32..400_000]).prop_map(|(ep, req, rep)| Req { ep, req, rep });
        let ss = (dull, vec(call, 1..=6), any::<bool>()).prop_map(|(how, reqs, closes)| SlowServer { how, reqs, closes });
        let side = prop_oneof![vec(sc, 1..=4).prop_map(Side::Clients), (vec(ss, 1..=3), any::<bool>()).prop_map(|(s, w)| Side::Servers(s, w))];
        let fast = (reqs(1), any::<bool>(), any::<bool>()).prop_map(|(mut r, fresh, raw)| Fast { req: r.remove(0), fresh, raw });
        (prop_oneof![3 => Just(0u8), 1 => 2u8..=4], knobs(), any::<bool>(), knobs(), side, vec(fast, 1..=8), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..=12], prop_oneof![60 => Just(0u16), 1 => 20u16..=400])
            .prop_map(|(workers, mut knobs, test, other, side, fast, sequential, stalls, crowd)| {
                knobs.test = test;
                C { workers, knobs, other, side, fast, sequential, stalls, crowd }
            })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let mut nt = c.crowd > 0;
        if nt { cl.push("crowd".into()); }
        match &c.side {
            Side::Clients(s) => {
                if c.stalls as u32 >= c.knobs.tasks {
                    nt = true;
                    cl.push("client with as many stalled requests as tasks".into());
                }
                for x in s {
                    cl.push(format!("client {:?} {:?}", x.how, x.fate).replace(|c: char| c.is_ascii_digit() || c == '(' || c == ')', ""));
                    let owed: u32 = x.reqs.iter().map(|r| r.rep).sum();
                    if !matches!(x.how, Idle::Silent(_)) && owed > 1_000_000 {
                        nt = true;
                        cl.push("client with over 1 MB to read".into());
                        if x.pings > 0 { cl.push("pings of a client which does not read".into()); }
                    }
                }
            }
            Side::Servers(s, warm) => {
                for x in s {
                    cl.push(format!("server {:?}{}", x.how, if x.closes { ", closes" } else { "" }));
                    nt |= x.how == Dull::NoHandshake;
                    if x.how == Dull::NoRead && x.reqs.iter().any(|r| r.req > 1_000_000) {
                        nt = true;
                        cl.push("server with over 1 MB to read".into());
                    }
                }
                cl.push(if *warm { "other server called before".into() } else { "other server not called before".into() });
            }
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            match &c.side {
                Side::Clients(s) => clients(&c, s, ctx).await,
                Side::Servers(s, warm) => servers(&c, s, *warm, ctx).await,
            }
        })
    }
}

/// What is asked, and what must be answered.
fn ask(tag: &str, r: &Req) -> (Parts, Parts) {
    let salt = tag.bytes().fold(7u8, |a, b| a.wrapping_mul(31).wrapping_add(b));
    let req = Parts { ep: format!("e{}", r.ep), header: format!("{tag}:{}", r.rep), body: blob::bytes(salt, r.req as usize) };
    (req.clone(), answer(&req))
}
fn answer(p: &Parts) -> Parts {
    let n = p.header.rsplit(':').next().and_then(|n| n.parse().ok()).unwrap_or(0usize);
    let sum = p.body.iter().fold(p.body.len() as u8, |a, b| a.wrapping_mul(3).wrapping_add(*b));
    Parts { ep: format!("r{}", p.ep), header: p.header.clone(), body: blob::bytes(sum, n) }
}
/// A server of the crate with the usual endpoints.
async fn serving(k: &Knobs, addr: SocketAddr) -> R<(TChannel, Log<String>)> {
    let ch = channel(k, addr)?;
    let log: Log<String> = Log::default();
    let s = sub(&ch, "svc").await?;
    for e in 0..EPS {
        let log = log.clone();
        register(&s, &format!("e{e}"), e == 0, move |m: RawMessage| {
            let p = Parts::of(&m);
            log.push(p.header.clone());
            Ok(answer(&p).msg())
        })
        .await?;
    }
    start(&ch, addr).await?;
    Ok((ch, log))
}
fn small_socket() -> std::io::Result<TcpSocket> {
    let s = TcpSocket::new_v4()?;
    s.set_recv_buffer_size(4096)?;
    Ok(s)
}
/// Reads one frame and nothing else.
async fn read_frame(s: &mut TcpStream) -> std::io::Result<Frame> {
    let mut b = vec![0; 16];
    s.read_exact(&mut b).await?;
    let n = u16::from_be_bytes([b[0], b[1]]) as usize;
    b.resize(n.max(16), 0);
    s.read_exact(&mut b[16..]).await?;
    match wire::take(&mut b) {
        Ok(Some(f)) => Ok(f),
        _ => Err(std::io::ErrorKind::InvalidData.into()),
    }
}
fn io<T>(r: std::io::Result<T>, what: &str) -> R<T> {
    r.or_else(|e| soft(format!("{what}: {e}")))
}

async fn clients(c: &C, slow: &[SlowClient], ctx: Ctx) -> R {
    let addr = ctx.addr();
    let (server, log) = serving(&c.knobs, addr).await?;
    let cl = client(&c.other)?;
    let s = sub(&cl, "svc").await?;
    let mut old = Raw::client(addr).await?;
    struct Open {
        stream: TcpStream,
        rest: Vec<u8>,
        want: Vec<(u32, Option<Parts>)>,
        greeted: bool,
    }
    let mut opened = vec![];
    for (i, x) in slow.iter().enumerate() {
        let hello = wire::init(wire::INIT_REQ, 1, 2, &[]).enc();
        let mut stream = io(io(small_socket(), "socket")?.connect(addr).await, "connecting")?;
        let (mut first, mut rest, mut want) = (vec![], vec![], vec![]);
        for (k, r) in x.reqs.iter().enumerate() {
            let (req, rep) = ask(&format!("s{i}.{k}"), r);
            let id = 10 + k as u32;
            let b = wire::enc_all(&Msg::request("svc", "raw", req.args()).whole(id));
            want.push((id, Some(rep)));
            let (now, later) = if x.incomplete && k + 1 == x.reqs.len() { b.split_at(b.len() - 1) } else { (&b[..], &b[..0]) };
            first.extend_from_slice(now);
            rest.extend_from_slice(later);
            if x.pings > 0 && k % x.pings as usize == 0 && later.is_empty() {
                want.push((1000 + k as u32, None));
                first.extend(Frame::new(wire::PING_REQ, 1000 + k as u32, vec![]).enc());
            }
        }
        let mut greeted = false;
        match x.how {
            Idle::Silent(n) => {
                let all = [hello, first].concat();
                let n = (n as usize).min(wire::init(wire::INIT_REQ, 1, 2, &[]).enc().len() - 1);
                first = all[..n].to_vec();
                rest = [&all[n..], &rest].concat();
            }
            Idle::Pipelined => first = [hello, first].concat(),
            Idle::Deaf => {
                io(stream.write_all(&hello).await, "writing a handshake")?;
                match tokio::time::timeout(WAIT, read_frame(&mut stream)).await {
                    Ok(Ok(f)) if f.ty == wire::INIT_RES => greeted = true,
                    o => return soft(format!("slow client {i}: handshake answered with {o:?}")),
                }
            }
        }
        // What pings of a client that does not read keep the server from reading is for later.
        let mut at = 0;
        while at < first.len() {
            match tokio::time::timeout(Duration::from_millis(30), stream.write(&first[at..])).await {
                Ok(Ok(n)) => at += n,
                Ok(Err(e)) => return soft(format!("slow client {i}: writing: {e}")),
                Err(_) if x.pings > 0 => break,
                Err(_) => {
                    // Nothing but slow.
                    match tokio::time::timeout(WAIT, stream.write(&first[at..])).await {
                        Ok(Ok(n)) => at += n,
                        o => return soft(format!("slow client {i}: its requests are not read: {o:?}")),
                    }
                }
            }
        }
        rest = [&first[at..], &rest].concat();
        opened.push(Open { stream, rest, want, greeted });
    }
    let mut crowd = vec![];
    for k in 0..c.crowd {
        let mut stream = io(io(small_socket(), "socket")?.connect(addr).await, "connecting")?;
        let hello = wire::init(wire::INIT_REQ, 1, 2, &[]).enc();
        let n = [0, hello.len() / 2, hello.len()][k as usize % 3];
        io(stream.write_all(&hello[..n]).await, "writing a handshake")?;
        crowd.push(stream);
    }
    let (open, gate) = watch::channel(0u8);
    let mut stalled = Raw::client(addr).await?;
    let svc = sub(&server, "svc").await?;
    for k in 0..c.stalls {
        let gate = gate.clone();
        register_async(&svc, &format!("z{k}"), move |m: RawMessage| {
            let mut gate = gate.clone();
            Box::pin(async move {
                changed(&mut gate).await;
                Ok(answer(&Parts::of(&m)).msg())
            }) as Reply<_>
        })
        .await?;
        let p = Parts::new(format!("z{k}"), ":3", "");
        stalled.send_bytes(&wire::enc_all(&Msg::request("svc", "raw", p.args()).whole(10 + k as u32))).await?;
    }
    let complete: usize = slow.iter().filter(|x| !matches!(x.how, Idle::Silent(_))).map(|x| x.reqs.len() - x.incomplete as usize).sum();
    eventually(20, || log.len() >= complete).await;
    // The others, and the server's user.
    if c.sequential {
        let adding = async {
            let new = sub(&server, "new").await?;
            register(&new, "e0", true, |m: RawMessage| Ok(answer(&Parts::of(&m)).msg())).await?;
            let svc = sub(&server, "svc").await?;
            register(&svc, "new", true, |m: RawMessage| Ok(answer(&Parts::of(&m)).msg())).await
        };
        timely(adding, "registering while clients are slow").await??;
    }
    let mut tasks = vec![];
    let mut on_old = vec![];
    for (i, f) in c.fast.iter().enumerate() {
        let (req, rep) = ask(&format!("f{i}"), &f.req);
        if f.raw && !f.fresh {
            on_old.push((100 + i as u32, req, rep));
            continue;
        }
        let (s, other, raw, fresh) = (s.clone(), c.other, f.raw, f.fresh);
        let task = tokio::spawn(async move {
            let what = format!("call {i}");
            if raw {
                let mut r = Raw::client(addr).await?;
                return raw_call(&mut r, 5, &req, &rep, &what).await;
            }
            let got = if fresh {
                let cl = client(&other)?;
                let s = sub(&cl, "svc").await?;
                call(&s, &req, addr).await
            } else {
                call(&s, &req, addr).await
            };
            expect_ok(got, &rep, &what)
        });
        if c.sequential {
            joined(task, "while clients are slow").await?;
        } else {
            tasks.push(task);
        }
    }
    for (id, req, rep) in &on_old {
        raw_call(&mut old, *id, req, rep, "call over an older connection, while clients are slow").await?;
    }
    for t in tasks {
        joined(t, "while clients are slow").await?;
    }
    let _ = open.send(1);
    let mut inbox = Inbox::default();
    stalled.collect(&mut inbox, "the stalled requests, in the end", |b| (0..c.stalls).all(|k| b.has(10 + k as u32))).await?;
    for k in 0..c.stalls {
        match &inbox.of(10 + k as u32)[..] {
            [Answer::Reply(m)] if m.code == 0 && Parts::from_args(&m.args) == Some(answer(&Parts::new(format!("z{k}"), ":3", ""))) => {}
            a => return hard(format!("stalled request {k} answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
        }
    }
    // The slow ones.
    let mut want_log: Vec<String> = c.fast.iter().enumerate().map(|(i, f)| ask(&format!("f{i}"), &f.req).0.header).collect();
    let mut may_log = want_log.clone();
    for (i, (x, o)) in slow.iter().zip(opened).enumerate() {
        let tags = x.reqs.iter().enumerate().map(|(k, r)| ask(&format!("s{i}.{k}"), r).0.header);
        may_log.extend(tags.clone());
        match x.fate {
            Fate::Closes => drop(o.stream),
            Fate::Resets => Raw::new(o.stream).reset().await,
            Fate::GoesOn => {
                want_log.extend(tags);
                let mut r = Raw::new(o.stream);
                r.send_bytes(&o.rest).await?;
                let what = format!("slow client {i}, when it goes on");
                if !o.greeted {
                    match r.next(WAIT).await {
                        Ev::Frame(f) if f.ty == wire::INIT_RES && f.id == 1 => {}
                        e => return soft(format!("{what}: handshake answered with {}", e.show())),
                    }
                }
                let mut inbox = Inbox::default();
                r.collect(&mut inbox, &what, |b| o.want.iter().all(|w| b.has(w.0))).await?;
                raw_call_in(&mut r, &mut inbox, 5, &ask("last", &x.reqs[0]).0, &ask("last", &x.reqs[0]).1, &what).await?;
                want_log.push(ask("last", &x.reqs[0]).0.header);
                may_log.push(ask("last", &x.reqs[0]).0.header);
                for (id, rep) in &o.want {
                    match (&inbox.of(*id)[..], rep) {
                        ([Answer::Pong], None) => {}
                        ([Answer::Reply(m)], Some(rep)) if m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(rep) => {}
                        (a, _) => return hard(format!("{what}: {id} answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
                    }
                }
            }
        }
    }
    let (req, rep) = ask("end", &c.fast[0].req);
    expect_ok(timely(call(&s, &req, addr), "in the end").await?, &rep, "in the end")?;
    // Exactly once, except what was lost.
    let mut seen = log.get();
    seen.retain(|t| *t != req.header);
    for w in &want_log {
        match seen.iter().position(|t| t == w) {
            Some(k) => drop(seen.swap_remove(k)),
            None => return hard(format!("{w} was answered, not handled")),
        }
    }
    for w in &want_log {
        may_log.swap_remove(may_log.iter().position(|t| t == w).unwrap_or(0));
    }
    for t in seen {
        match may_log.iter().position(|m| *m == t) {
            Some(k) => drop(may_log.swap_remove(k)),
            None => return hard(format!("{t} was handled too often")),
        }
    }
    Ok(())
}
async fn timely<T>(f: impl Future<Output = T>, what: &str) -> R<T> {
    match tokio::time::timeout(WAIT, f).await {
        Ok(t) => Ok(t),
        Err(_) => soft(format!("{what}: a call gets no answer")),
    }
}
async fn joined(t: tokio::task::JoinHandle<R>, what: &str) -> R {
    match timely(t, what).await? {
        Ok(Ok(())) => Ok(()),
        Ok(Err(Bad::Hard(e))) => hard(format!("{what}: {e}")),
        Ok(Err(Bad::Soft(e))) => soft(format!("{what}: {e}")),
        Err(e) => hard(format!("{what}: {e}")),
    }
}
async fn raw_call(r: &mut Raw, id: u32, req: &Parts, rep: &Parts, what: &str) -> R {
    raw_call_in(r, &mut Inbox::default(), id, req, rep, what).await
}
async fn raw_call_in(r: &mut Raw, inbox: &mut Inbox, id: u32, req: &Parts, rep: &Parts, what: &str) -> R {
    r.send_bytes(&wire::enc_all(&Msg::request("svc", "raw", req.args()).whole(id))).await?;
    r.collect(inbox, what, |b| b.has(id)).await?;
    match &inbox.of(id)[..] {
        [Answer::Reply(m)] if m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(rep) => Ok(()),
        a => hard(format!("{what}: answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
    }
}

/// Accepts connections; what `how` says lasts until `go` changes: 1 to go on, 2 to close them and serve later ones.
async fn dull(l: TcpListener, how: Dull, go: watch::Receiver<u8>, heard: Log<String>) {
    while let Ok((s, _)) = l.accept().await {
        tokio::spawn(dull_connection(s, if *go.borrow() == 2 { None } else { Some(how) }, go.clone(), heard.clone()));
    }
}
async fn changed(go: &mut watch::Receiver<u8>) -> u8 {
    while *go.borrow() == 0 {
        if go.changed().await.is_err() {
            return 2;
        }
    }
    let g = *go.borrow();
    g
}
async fn dull_connection(mut s: TcpStream, how: Option<Dull>, mut go: watch::Receiver<u8>, heard: Log<String>) {
    if how == Some(Dull::NoHandshake) && changed(&mut go).await == 2 {
        return;
    }
    let Ok(f) = read_frame(&mut s).await else { return };
    let mut hello = Some(wire::init(wire::INIT_RES, f.id, 2, &[]).enc());
    if s.write_all(&hello.take().unwrap()).await.is_err() {
        return;
    }
    if how == Some(Dull::NoRead) && changed(&mut go).await == 2 {
        return;
    }
    let mut r = Raw::new(s);
    let mut asm: std::collections::HashMap<u32, Asm> = Default::default();
    let mut later: Vec<u8> = vec![];
    let mut held = matches!(how, Some(Dull::NoAnswer | Dull::HalfAnswer));
    loop {
        let e = tokio::select! {
            g = changed(&mut go), if held => {
                if g == 2 {
                    return;
                }
                held = false;
                if r.try_send(&std::mem::take(&mut later)).await.is_err() {
                    return;
                }
                continue;
            }
            e = r.wait() => e,
        };
        let out = match e {
            Ev::Frame(f) if f.ty == wire::PING_REQ => Frame::new(wire::PING_RES, f.id, vec![]).enc(),
            Ev::Frame(f) if matches!(f.ty, wire::CALL_REQ | wire::REQ_CONT) => {
                let a = asm.entry(f.id).or_default();
                if let Err(e) = a.feed(&f, true) {
                    heard.push(format!("BAD {e}"));
                    return;
                }
                if !a.done {
                    continue;
                }
                let m = asm.remove(&f.id).unwrap().msg.unwrap();
                let Some(p) = Parts::from_args(&m.args) else { return };
                heard.push(p.header.clone());
                wire::enc_all(&Msg::reply(0, "raw", answer(&p).args()).whole(f.id))
            }
            _ => return,
        };
        if held {
            // The second half of an answer before anything else.
            let k = if how == Some(Dull::HalfAnswer) && later.is_empty() { out.len() / 2 } else { 0 };
            if r.try_send(&out[..k]).await.is_err() {
                return;
            }
            later.extend_from_slice(&out[k..]);
        } else if r.try_send(&out).await.is_err() {
            return;
        }
    }
}

async fn servers(c: &C, slow: &[SlowServer], warm: bool, ctx: Ctx) -> R {
    let good = ctx.addr();
    let own = ctx.addr();
    let (server, log) = serving(&c.other, good).await?;
    for (i, f) in c.fast.iter().enumerate().filter(|(_, f)| f.fresh && !f.raw) {
        let new = sub(&server, &format!("new{i}")).await?;
        register(&new, &format!("e{}", f.req.ep), i % 2 == 1, |m: RawMessage| Ok(answer(&Parts::of(&m)).msg())).await?;
    }
    let (cl, own_log) = serving(&c.knobs, own).await?;
    let cl = Arc::new(cl);
    let s = sub(&cl, "svc").await?;
    if warm {
        let (req, rep) = ask("warm", &c.fast[0].req);
        expect_ok(timely(call(&s, &req, good), "before").await?, &rep, "before")?;
    }
    let (mut pending, mut gos, mut heards) = (vec![], vec![], vec![]);
    let mut conns = vec![];
    for (i, x) in slow.iter().enumerate() {
        let addr = ctx.addr();
        let sock = io(small_socket(), "socket")?;
        let _ = sock.set_reuseaddr(true);
        io(sock.bind(addr), "bind")?;
        let l = io(sock.listen(64), "listen")?;
        let (go, rx) = watch::channel(0u8);
        let heard: Log<String> = Log::default();
        conns.push(tokio::spawn(dull(l, x.how, rx, heard.clone())));
        gos.push(go);
        heards.push(heard);
        for (k, r) in x.reqs.iter().enumerate() {
            let (req, rep) = ask(&format!("s{i}.{k}"), r);
            let s = s.clone();
            pending.push((i, k, rep, tokio::spawn(async move { call(&s, &req, addr).await })));
        }
    }
    let mut crowd = vec![];
    for k in 0..c.crowd {
        let addr = ctx.addr();
        let l = peer::listen(addr)?;
        let s = s.clone();
        crowd.push((l, tokio::spawn(async move { call(&s, &Parts::new("e0", format!("crowd {k}"), ""), addr).await })));
    }
    // They get stuck.
    tokio::time::sleep(Duration::from_millis(4)).await;
    let mut tasks = vec![];
    for (i, f) in c.fast.iter().enumerate() {
        let (req, rep) = ask(&format!("f{i}"), &f.req);
        let (s, cl, fresh, to) = (s.clone(), cl.clone(), f.fresh, if f.raw { own } else { good });
        let task = tokio::spawn(async move {
            let s = if fresh {
                let other = sub(&cl, &format!("new{i}")).await?;
                if to == own {
                    register(&other, &req.ep, i % 2 == 0, |m: RawMessage| Ok(answer(&Parts::of(&m)).msg())).await?;
                }
                other
            } else {
                s
            };
            expect_ok(call(&s, &req, to).await, &rep, &format!("call {i}"))
        });
        if c.sequential {
            joined(task, "while servers are slow").await?;
        } else {
            tasks.push(task);
        }
    }
    for t in tasks {
        joined(t, "while servers are slow").await?;
    }
    for (k, (_, t)) in crowd.iter_mut().enumerate() {
        if futures::future::FutureExt::now_or_never(&mut *t).is_some() {
            return soft(format!("call {k} of the crowd is over though its server never said a word"));
        }
        t.abort();
    }
    for (i, k, rep, t) in &mut pending {
        if futures::future::FutureExt::now_or_never(&mut *t).is_some() {
            return soft(format!("call s{i}.{k}: over before the slow server went on, expected {rep:?}"));
        }
    }
    for (go, x) in gos.iter().zip(slow) {
        let _ = go.send(if x.closes { 2 } else { 1 });
    }
    for (i, k, rep, t) in pending {
        let what = format!("call s{i}.{k}, after the slow server went on");
        // A handshake that was cut off is tried again.
        match (timely(t, &what).await?, slow[i].closes) {
            (Ok(Res::Fail(_)), true) => {}
            (Ok(got), _) => expect_ok(got, &rep, &what)?,
            (Err(e), _) => return hard(format!("{what}: {e}")),
        }
    }
    for (i, h) in heards.iter().enumerate() {
        let mut got = h.get();
        if let Some(b) = got.iter().find(|g| g.starts_with("BAD")) {
            return hard(format!("slow server {i} received {b}"));
        }
        got.sort();
        let n = got.len();
        got.dedup();
        if got.len() != n {
            return hard(format!("slow server {i} received a request twice: {got:?}"));
        }
    }
    let mut got = [log.get(), own_log.get()].concat();
    let mut want: Vec<String> = c.fast.iter().enumerate().filter(|(_, f)| !f.fresh).map(|(i, f)| ask(&format!("f{i}"), &f.req).0.header).collect();
    if warm {
        want.push(ask("warm", &c.fast[0].req).0.header);
    }
    got.sort();
    want.sort();
    if got != want {
        return hard(format!("handled {got:?} instead of {want:?}"));
    }
    for t in conns {
        t.abort();
    }
    Ok(())
}
