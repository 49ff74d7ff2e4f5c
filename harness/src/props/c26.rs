//! Only connecting has a time limit: whatever else was begun completes, however long it takes.
use super::prelude::*;
use peer::{Answer, Cmd, Did, Hub, Inbox};
use std::collections::BTreeSet;
use tchannel_rs::messages::RawMessage;
use tchannel_rs::TChannel;
use tokio::io::AsyncWriteExt;
use tokio::net::{TcpSocket, TcpStream};
use tokio::sync::watch;
use tokio::task::JoinHandle;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    other: Knobs,
    /// The client's connections have a lifetime of a minute, or none.
    lifetime: bool,
    raws: Vec<RawClient>,
    ops: Vec<Op>,
}
/// A client of the server under test, spoken byte by byte.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawClient {
    reqs: Vec<Req>,
    pings: bool,
    /// Reads only when told to.
    deaf: bool,
    /// Half-closes as soon as all is sent.
    half: bool,
    picks: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    /// Its handler waits until it is let go.
    stall: bool,
    plain: bool,
    req: u32,
    rep: u32,
    plan: Plan,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A raw client connects, and sends this much more.
    Send(u8, Much),
    SendAll(u8),
    /// A deaf client begins to read.
    Read(u8),
    /// The client calls the server under test, or the scripted one.
    Call { scripted: bool, req: Req },
    /// The scripted server answers a call: the reply is to be sent ...
    Reply(u8),
    /// ... and sends this part of what it is to send over one of its connections.
    Flush(u8, u16),
    FlushAll,
    /// Lets one of the handlers go.
    Release(u8),
    /// So many seconds pass, in so many steps.
    Pass(u32, u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Much {
    /// 65536ths of what remains.
    Part(u16),
    Bytes(u8),
    /// To the end of a frame.
    Frames(u8),
}
impl Much {
    fn of(self, len: usize, frames: &BTreeSet<usize>, at: usize) -> usize {
        match self {
            Much::Part(p) => part(len - at, p),
            Much::Bytes(n) => (n as usize).min(len - at),
            Much::Frames(n) => frames.iter().filter(|f| **f > at).nth(n as usize).unwrap_or(&len) - at,
        }
    }
}
pub struct P;
const WAIT: Duration = Duration::from_secs(8);
const TIMES: [u32; 12] = [1, 2, 6, 11, 31, 61, 130, 320, 590, 700, 4_000, 90_000];

fn part(len: usize, p: u16) -> usize {
    (len * p as usize).div_ceil(65536).min(len)
}
impl RawClient {
    /// What it sends, with the ends of its handshake, of frames and of requests.
    fn stream(&self, i: usize) -> (Vec<u8>, BTreeSet<usize>, Vec<usize>) {
        let mut b = wire::init(wire::INIT_REQ, 1, 2, &[]).enc();
        let mut frames = BTreeSet::from([0, b.len()]);
        let mut reqs = vec![];
        let seqs: Vec<Vec<Frame>> = self.reqs.iter().enumerate().map(|(k, r)| Msg::request("svc", "raw", ask(&ep(i, k), r).0.args()).split(10 + k as u32, &r.plan)).collect();
        let mut left: Vec<usize> = seqs.iter().map(|s| s.len()).collect();
        for (k, f) in wire::interleave(seqs, &self.picks) {
            b.extend(f.enc());
            frames.insert(b.len());
            left[k] -= 1;
            if left[k] == 0 {
                reqs.push(b.len());
            }
        }
        if self.pings {
            b.extend(wire::ping(wire::PING_REQ, PING).enc());
            frames.insert(b.len());
        }
        (b, frames, reqs)
    }
}
const PING: u32 = 5000;
fn ep(raw: usize, req: usize) -> String {
    format!("r{raw}x{req}")
}
/// What is asked, and what must be answered.
fn ask(ep: &str, r: &Req) -> (Parts, Parts) {
    let salt = ep.bytes().fold(7u8, |a, b| a.wrapping_mul(31).wrapping_add(b));
    let req = Parts { ep: ep.into(), header: format!("{ep}:{}", r.rep), body: blob::bytes(salt, r.req as usize) };
    (req.clone(), answer(&req))
}
fn answer(p: &Parts) -> Parts {
    let n = p.header.rsplit(':').next().and_then(|n| n.parse().ok()).unwrap_or(0usize);
    let sum = p.body.iter().fold(p.body.len() as u8, |a, b| a.wrapping_mul(3).wrapping_add(*b));
    Parts { ep: format!("a{}", p.ep), header: p.header.clone(), body: blob::bytes(sum, n) }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C26";
    const RULE: &'static str = "Histories of 4-16 operations, with the process's clock under control: 0-3 raw clients of the server under test send any number of bytes of their handshake, requests (1-5, or 12 with large replies, framed and interleaved in any way) and a ping, half-close once they are through or not, read at once or when told to; the client under test calls handlers of the server and a scripted server, which answers any number of bytes at a time; stalled handlers are let go; and between these one second to 25 hours pass, any number of times. In the end everything goes on. Oracle: each request is handled once and each call gets its own reply; then calls over the same connections and new ones get theirs. Non-trivial: 30 s or more pass while a handshake, frame, request or reply is incomplete, a handler at work, a client not reading, or a call pending.";
    const DEADLINE: u64 = 50_000_000;
    const REAL: u64 = 90;
    const THREADS: usize = 16;
    const LONG: usize = 8;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 12_000 } else { 400_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let len = || prop_oneof![6 => 0u32..100, 1 => 60_000u32..140_000];
        let req = (any::<bool>(), any::<bool>(), len(), prop_oneof![8 => len(), 1 => 300_000u32..900_000], wire::gen::plan(3)).prop_map(|(stall, plain, req, rep, plan)| Req { stall, plain, req, rep, plan }).boxed();
        let raw = (vec(req.clone(), 1..=5), any::<bool>(), proptest::bool::weighted(0.3), any::<bool>(), vec(any::<u8>(), 0..5))
            .prop_map(|(mut reqs, pings, deaf, half, picks)| {
                if deaf {
                    // More than sockets and frame buffers hold, at times.
                    let flood = picks.len() == 4;
                    while flood && reqs.len() < 12 {
                        reqs.push(reqs[0].clone());
                    }
                    for r in &mut reqs {
                        r.rep = if flood { 600_000 + r.rep } else { r.rep * 9 % 900_000 };
                    }
                }
                RawClient { reqs, pings, deaf, half, picks }
            });
        let which = || 0u8..3;
        let op = prop_oneof![
            4 => (which(), prop_oneof![2 => any::<u16>().prop_map(Much::Part), 1 => (0u8..60).prop_map(Much::Bytes), 2 => (0u8..4).prop_map(Much::Frames)]).prop_map(|(i, m)| Op::Send(i, m)),
            2 => which().prop_map(Op::SendAll),
            1 => which().prop_map(Op::Read),
            4 => (any::<bool>(), req).prop_map(|(scripted, req)| Op::Call { scripted, req }),
            2 => any::<u8>().prop_map(Op::Reply),
            2 => (any::<u8>(), any::<u16>()).prop_map(|(i, p)| Op::Flush(i, p)),
            1 => Just(Op::FlushAll),
            2 => any::<u8>().prop_map(Op::Release),
            6 => (proptest::sample::select(&TIMES[..]), 1u8..=4).prop_map(|(s, n)| Op::Pass(s, n)),
        ];
        (knobs(), knobs(), any::<bool>(), any::<bool>(), vec(raw, 0..=3), vec(op, t.steps(4..=16, 60..=200)))
            .prop_map(|(knobs, mut other, test, lifetime, raws, ops)| {
                other.test = test;
                C { knobs, other, lifetime, raws, ops }
            })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let mut nt = false;
        let streams: Vec<_> = c.raws.iter().enumerate().map(|(i, r)| r.stream(i)).collect();
        let mut sent: Vec<Option<usize>> = vec![None; streams.len()];
        let mut reads: Vec<bool> = c.raws.iter().map(|r| !r.deaf).collect();
        let (mut pending, mut stalled, mut scripted, mut replies) = (0usize, 0usize, 0usize, 0usize);
        for o in &c.ops {
            match o {
                Op::Send(i, _) | Op::SendAll(i) | Op::Read(i) if streams.is_empty() => drop(i),
                Op::Send(i, m) => {
                    let i = *i as usize % streams.len();
                    let at = sent[i].unwrap_or(0);
                    sent[i] = Some(at + m.of(streams[i].0.len(), &streams[i].1, at));
                }
                Op::SendAll(i) => {
                    let i = *i as usize % streams.len();
                    sent[i] = Some(streams[i].0.len());
                }
                Op::Read(i) => reads[*i as usize % c.raws.len()] = true,
                Op::Call { scripted: true, .. } => scripted += 1,
                Op::Call { req, .. } => pending += req.stall as usize,
                Op::Reply(_) => replies += (scripted > 0) as usize,
                Op::Release(_) => stalled += 1,
                Op::Pass(s, _) => {
                    if *s >= 30 {
                        let mut during = vec![];
                        for (i, (b, frames, reqs)) in streams.iter().enumerate() {
                            let Some(at) = sent[i] else { continue };
                            let hello = *frames.iter().nth(1).unwrap();
                            during.push(match at {
                                0 => "a client silent".into(),
                                at if at < hello => "a handshake incomplete".into(),
                                at if !frames.contains(&at) => "a frame incomplete".into(),
                                at if !reqs.contains(&at) && at > hello && at < reqs[reqs.len() - 1] => "requests incomplete".to_string(),
                                _ => "a client idle or waiting".into(),
                            });
                            if !reads[i] {
                                let owed: u32 = c.raws[i].reqs.iter().map(|r| r.rep).sum();
                                during.push(if owed > 6_000_000 { "a client not reading over 6 MB".into() } else { "a client not reading".into() });
                            }
                            if at == b.len() && c.raws[i].half {
                                during.push("a client's half closed".into());
                            }
                            if c.raws[i].reqs.iter().any(|r| r.stall) && at > hello {
                                during.push("a client's handler perhaps at work".into());
                            }
                        }
                        if pending > stalled {
                            during.push("a handler at work".into());
                        }
                        if scripted > replies {
                            during.push("a call unanswered".into());
                        }
                        if scripted + pending > 0 {
                            during.push("a client of the crate connected".into());
                        }
                        nt |= during.iter().any(|d| !d.ends_with("waiting") && !d.ends_with("connected"));
                        cl.extend(during.into_iter().map(|d| format!("{d} for {}", if *s > 1000 { "over an hour" } else { "30 s or more" })));
                    }
                }
                _ => {}
            }
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Time passes by moving the clock which the process sees.".into()]
    }
}

/// Lets time pass. No timer of the harness may be running.
async fn pass(secs: u32, steps: u8) -> R {
    let t = std::time::Instant::now();
    // What is under way gets to where it waits.
    tokio::time::sleep(Duration::from_micros(500)).await;
    for _ in 0..steps {
        crate::clock::pass(Duration::from_secs(secs as u64) / steps as u32);
        tokio::time::sleep(Duration::from_micros(1100)).await;
    }
    if t.elapsed() < Duration::from_secs(secs as u64) {
        return hard("harness: the clock is not under control");
    }
    Ok(())
}

enum Peer {
    Stream(TcpStream),
    Raw(Raw),
}
struct Open {
    peer: Option<Peer>,
    sent: usize,
}
struct Pending {
    no: usize,
    req: Req,
    scripted: bool,
    want: Parts,
    task: JoinHandle<Res<Parts>>,
    /// Where it arrived at the scripted server.
    at: Option<(usize, u32)>,
    replied: bool,
}
/// Stalled handlers let go, or all.
struct Gate(Arc<Mutex<(BTreeSet<String>, bool)>>, watch::Sender<()>, watch::Receiver<()>);
impl Gate {
    fn open(&self, f: impl FnOnce(&mut (BTreeSet<String>, bool))) {
        f(&mut self.0.lock().unwrap());
        let _ = self.1.send(());
    }
}

async fn run(c: C, ctx: Ctx) -> R {
    let (server_at, hub_at) = (ctx.addr(), ctx.addr());
    let server = channel(&c.knobs, server_at)?;
    let svc = sub(&server, "svc").await?;
    let log: Log<String> = Log::default();
    let (tx, rx) = watch::channel(());
    let gate = Gate(Arc::default(), tx, rx);
    let mut all: Vec<(String, &Req)> = c.raws.iter().enumerate().flat_map(|(i, r)| r.reqs.iter().enumerate().map(move |(k, q)| (ep(i, k), q))).collect();
    all.extend(c.ops.iter().enumerate().filter_map(|(k, o)| match o {
        Op::Call { scripted: false, req } => Some((format!("c{k}"), req)),
        _ => None,
    }));
    for (ep, r) in &all {
        handle(&svc, ep, r, &log, &gate).await?;
    }
    let any = Req { stall: false, plain: true, req: 0, rep: 5, plan: Plan::default() };
    handle(&svc, "any", &any, &log, &gate).await?;
    start(&server, server_at).await?;
    let mut hub = Hub::new(peer::listen(hub_at)?, true);
    let cl = match TChannel::new(config_for(&c.other, SocketAddr::from(([127, 0, 0, 1], 9)), c.lifetime.then(|| Duration::from_secs(60)))) {
        Ok(c) => c,
        Err(e) => return hard(format!("TChannel::new: {e}")),
    };
    let cs = sub(&cl, "svc").await?;

    let streams: Vec<_> = c.raws.iter().enumerate().map(|(i, r)| r.stream(i)).collect();
    let mut opened: Vec<Open> = c.raws.iter().map(|_| Open { peer: None, sent: 0 }).collect();
    let mut pending: Vec<Pending> = vec![];
    let mut out: Vec<Vec<u8>> = vec![];
    let mut stalls = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k}");
        match op {
            Op::Send(i, _) | Op::SendAll(i) if !c.raws.is_empty() => {
                let i = *i as usize % c.raws.len();
                let (b, frames, _) = &streams[i];
                let rest = &b[opened[i].sent..];
                let n = match op {
                    Op::Send(_, m) => m.of(b.len(), frames, opened[i].sent),
                    _ => rest.len(),
                };
                send(&mut opened[i], &rest[..n], c.raws[i].deaf, server_at, &what).await?;
                if opened[i].sent == b.len() && c.raws[i].half {
                    half_close(&mut opened[i]).await;
                }
            }
            Op::Read(i) if !c.raws.is_empty() => read(&mut opened[*i as usize % c.raws.len()]),
            Op::Call { scripted, req } => {
                // Beyond the task limit a call waits, perhaps for a connection.
                if !scripted && stalls >= c.knobs.tasks as usize {
                    continue;
                }
                let (ask, want) = ask(&format!("c{k}"), req);
                let (s, addr) = (cs.clone(), if *scripted { hub_at } else { server_at });
                let task = tokio::spawn(async move { call(&s, &ask, addr).await });
                let mut p = Pending { no: k, req: req.clone(), scripted: *scripted, want, task, at: None, replied: false };
                if *scripted {
                    p.at = Some(arrival(&mut hub, &p, &mut out, &what).await?);
                    pending.push(p);
                } else if req.stall {
                    let key = format!("c{k}");
                    if !eventually(8000, || log.get().contains(&key)).await {
                        return soft(format!("{what}: the call does not arrive"));
                    }
                    stalls += 1;
                    pending.push(p);
                } else {
                    done(p, &what).await?;
                }
            }
            Op::Reply(i) => {
                let open: Vec<usize> = (0..pending.len()).filter(|k| pending[*k].scripted && !pending[*k].replied).collect();
                if !open.is_empty() {
                    reply(&mut pending[open[*i as usize % open.len()]], &mut out);
                }
            }
            Op::Flush(i, p) if !out.is_empty() => {
                let i = *i as usize % out.len();
                let n = part(out[i].len(), *p);
                let rest = out[i].split_off(n);
                hub.tell(i, Cmd::Send(std::mem::replace(&mut out[i], rest)));
            }
            Op::FlushAll => {
                for (i, b) in out.iter_mut().enumerate() {
                    hub.tell(i, Cmd::Send(std::mem::take(b)));
                }
                while let Some(i) = pending.iter().position(|p| p.replied) {
                    done(pending.swap_remove(i), &what).await?;
                }
            }
            Op::Release(i) => {
                let open: Vec<usize> = (0..pending.len()).filter(|k| !pending[*k].scripted).collect();
                // A call of the client under test, or a raw one.
                if !open.is_empty() && i % 2 == 0 {
                    let p = pending.swap_remove(open[(*i / 2) as usize % open.len()]);
                    gate.open(|g| drop(g.0.insert(format!("c{}", p.no))));
                    done(p, &what).await?;
                    stalls -= 1;
                } else if !c.raws.is_empty() {
                    let r = *i as usize / 2 % c.raws.len();
                    let next = (0..c.raws[r].reqs.len()).map(|q| ep(r, q)).find(|e| !gate.0.lock().unwrap().0.contains(e));
                    gate.open(|g| g.0.extend(next));
                }
            }
            Op::Pass(s, n) => pass(*s, *n).await?,
            _ => {}
        }
    }
    // All goes on.
    let what = "in the end";
    gate.open(|g| g.1 = true);
    for p in &mut pending {
        if p.scripted && !p.replied {
            reply(p, &mut out);
        }
    }
    for (i, b) in out.iter_mut().enumerate() {
        hub.tell(i, Cmd::Send(std::mem::take(b)));
    }
    for p in pending.drain(..) {
        done(p, what).await?;
    }
    for (i, o) in opened.iter_mut().enumerate() {
        let what = format!("client {i}, in the end");
        let rest = &streams[i].0[o.sent..];
        let more = !rest.is_empty();
        send(o, rest, c.raws[i].deaf, server_at, &what).await?;
        if more && c.raws[i].half {
            half_close(o).await;
        }
        read(o);
        let Some(Peer::Raw(r)) = &mut o.peer else { return hard("harness: not a reader") };
        match r.next(WAIT).await {
            Ev::Frame(f) if f.ty == wire::INIT_RES && f.id == 1 => {}
            e => return soft(format!("{what}: handshake answered with {}", e.show())),
        }
        let mut inbox = Inbox::default();
        let n = c.raws[i].reqs.len();
        let pings = c.raws[i].pings;
        r.collect(&mut inbox, &what, |b| (0..n).all(|k| b.has(10 + k as u32)) && (!pings || b.has(PING))).await?;
        if !c.raws[i].half {
            // Its connection goes on, too.
            let req = Msg::request("svc", "raw", ask("any", &any).0.args()).whole(6000);
            r.send_bytes(&wire::enc_all(&req)).await?;
            r.collect(&mut inbox, &what, |b| b.has(6000)).await?;
            replied(&inbox, 6000, &ask("any", &any).1, &what)?;
        } else {
            r.drain(&mut inbox, &what).await?;
        }
        for (k, q) in c.raws[i].reqs.iter().enumerate() {
            replied(&inbox, 10 + k as u32, &ask(&ep(i, k), q).1, &what)?;
        }
    }
    let mut new = Raw::client(server_at).await?;
    let (req, rep) = ask("any", &any);
    new.send_bytes(&wire::enc_all(&Msg::request("svc", "raw", req.args()).whole(5))).await?;
    let mut inbox = Inbox::default();
    new.collect(&mut inbox, what, |b| b.has(5)).await?;
    replied(&inbox, 5, &rep, what)?;
    match tokio::time::timeout(WAIT, call(&cs, &req, server_at)).await {
        Ok(r) => expect_ok(r, &rep, what)?,
        Err(_) => return soft("in the end: a call gets no answer"),
    }
    // Once each.
    let called: BTreeSet<String> = log.get().into_iter().filter(|e| e != "any").collect();
    if called.len() != log.get().iter().filter(|e| *e != "any").count() {
        return hard(format!("handled twice: {:?}", log.get()));
    }
    Ok(())
}
async fn handle(svc: &tchannel_rs::SubChannel, ep: &str, r: &Req, log: &Log<String>, gate: &Gate) -> R {
    let log = log.clone();
    let name = ep.to_string();
    if !r.stall {
        return register(svc, ep, r.plain, move |m: RawMessage| {
            log.push(name.clone());
            Ok(answer(&Parts::of(&m)).msg())
        })
        .await;
    }
    let (free, changes) = (gate.0.clone(), gate.2.clone());
    register_async(svc, ep, move |m: RawMessage| {
        let (name, log, free, mut changes) = (name.clone(), log.clone(), free.clone(), changes.clone());
        Box::pin(async move {
            log.push(name.clone());
            while !{
                let f = free.lock().unwrap();
                f.1 || f.0.contains(&name)
            } {
                // Else all is over.
                if changes.changed().await.is_err() {
                    break;
                }
            }
            Ok(answer(&Parts::of(&m)).msg())
        }) as Reply<_>
    })
    .await
}
async fn send(o: &mut Open, b: &[u8], deaf: bool, addr: SocketAddr, what: &str) -> R {
    let go = async {
        if o.peer.is_none() {
            let s = TcpSocket::new_v4()?;
            if deaf {
                s.set_recv_buffer_size(4096)?;
            }
            let s = s.connect(addr).await?;
            o.peer = Some(if deaf { Peer::Stream(s) } else { Peer::Raw(Raw::new(s)) });
        }
        match o.peer.as_mut().unwrap() {
            Peer::Stream(s) => s.write_all(b).await,
            _ if b.is_empty() => Ok(()),
            Peer::Raw(r) => r.try_send(b).await,
        }
    };
    match tokio::time::timeout(WAIT, go).await {
        Ok(Ok(())) => {
            o.sent += b.len();
            Ok(())
        }
        Ok(Err(e)) => soft(format!("{what}: writing to the server: {e}")),
        Err(_) => soft(format!("{what}: the server does not read")),
    }
}
async fn half_close(o: &mut Open) {
    match &mut o.peer {
        Some(Peer::Stream(s)) => drop(s.shutdown().await),
        Some(Peer::Raw(r)) => r.half_close().await,
        None => {}
    }
}
fn read(o: &mut Open) {
    o.peer = match o.peer.take() {
        Some(Peer::Stream(s)) => Some(Peer::Raw(Raw::new(s))),
        p => p,
    };
}
/// Waits for a call to arrive at the scripted server.
async fn arrival(hub: &mut Hub, p: &Pending, out: &mut Vec<Vec<u8>>, what: &str) -> R<(usize, u32)> {
    loop {
        match hub.next(WAIT).await {
            Some((_, Did::Open | Did::End)) => {}
            Some((_, Did::Garbled(e))) => return hard(format!("{what}: the client sent {e}")),
            Some((k, Did::Frame(f))) if f.ty == wire::PING_REQ => {
                // After what remains of a frame sent by part.
                let mut b = out.get_mut(k).map(std::mem::take).unwrap_or_default();
                b.extend(wire::ping(wire::PING_RES, f.id).enc());
                hub.tell(k, Cmd::Send(b));
            }
            Some((k, Did::Frame(f))) => {
                if let Some(m) = hub.call(k, &f)? {
                    let want = ask(&format!("c{}", p.no), &p.req).0;
                    return match Parts::from_args(&m.args) {
                        Some(got) if got == want => Ok((k, f.id)),
                        got => hard(format!("{what}: got {got:?}, {want:?} was sent")),
                    };
                }
            }
            None => return soft(format!("{what}: the call does not arrive")),
        }
    }
}
/// The reply is to be sent.
fn reply(p: &mut Pending, out: &mut Vec<Vec<u8>>) {
    p.replied = true;
    let (conn, id) = p.at.unwrap();
    if out.len() <= conn {
        out.resize(conn + 1, vec![]);
    }
    out[conn].extend(wire::enc_all(&Msg::reply(0, "raw", p.want.args()).split(id, &p.req.plan)));
}
async fn done(p: Pending, what: &str) -> R {
    match tokio::time::timeout(WAIT, p.task).await {
        Err(_) => soft(format!("{what}: call {} does not return though answered", p.no)),
        Ok(Err(e)) => hard(format!("{what}: call {}: {e}", p.no)),
        Ok(Ok(r)) => expect_ok(r, &p.want, &format!("{what}: call {}", p.no)),
    }
}
fn replied(inbox: &Inbox, id: u32, want: &Parts, what: &str) -> R {
    match &inbox.of(id)[..] {
        [Answer::Reply(m)] if m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(want) => Ok(()),
        a => hard(format!("{what}: {id} answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
    }
}
