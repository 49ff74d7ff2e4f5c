//! Nothing is kept of what is done.
use super::prelude::*;
use crate::count;
use peer::Inbox;
use std::task::Poll;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::RawMessage;
use tchannel_rs::TChannel;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    /// What happens again and again.
    ops: Vec<Op>,
    /// Rounds between two measurements.
    rounds: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Concurrent calls to the library's server.
    Calls { n: u8, way: Way, req: Arg, rep: Arg },
    /// Dropped when it was polled so often.
    Abandoned { polls: u16, way: Way, rep: Arg },
    /// A call to a scripted server.
    Scripted { act: Act, req: Arg, rep: Arg, polls: Option<u16> },
    Register { plain: bool },
    Twice,
    Lookup,
    Restart,
    /// Another client connects, sends that and ends like that.
    Visit { sends: Vec<Junk>, cut: bool, end: End },
    /// A client which stays.
    Sends { sends: Vec<Junk> },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Way {
    Reply,
    Message,
    Error,
    NoService,
    NoEndpoint,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Act {
    Reply,
    Error,
    /// Frames of no call come first.
    Stray,
    /// Answers to abandoned calls are followed by this one.
    Twice,
    /// Replies by half and closes.
    Part,
    Close,
    /// Never answers. Such a call is always abandoned.
    Mute,
    /// Answers once another call arrives.
    Late,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Junk {
    Ping,
    Call { way: Way, req: Arg, rep: Arg, plan: Plan },
    /// Cannot be read as a call.
    Bad { more: bool },
    /// Goes on with a call which there is not.
    Lost,
    Error,
    Type(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Close,
    HalfClose,
    Reset,
}
pub struct P;
const WARM_UP: usize = 12;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C24";
    const RULE: &'static str = "1-5 steps are repeated: 12 rounds at first, then twice 40-60 (1000-2000 in long cases). Steps: 1-4 concurrent calls (answered with a reply, a message error, an error, or to services and endpoints which never existed); calls abandoned after any number of polls; calls to a scripted server which answers, answers with an error, late, in part or never, sends frames of no call, or closes the connection; registering a new name, calling and unregistering it; asking for subchannels; restarts; clients which connect, send calls, pings, malformed calls, frames of no call, and stop anywhere; and one which does so all the time. Oracle: the number of memory blocks, and the bytes, which the thread that does all this has allocated and not freed do not grow with the number of rounds (in both halves: by a block for every other round or, where messages are small, by 64 bytes a round, 3 in long cases). Non-trivial: a step other than a lookup (all steps are repeated).";
    const LONG: usize = 16;
    const DEADLINE: u64 = 30;
    const THREADS: usize = 24;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 5_000 } else { 150_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = if t == Tier::Long { 1000 } else { 140_000 };
        let arg = move || if big == 1000 { blob::small_arg() } else { prop_oneof![40 => blob::small_arg(), 1 => blob::arg(big)].boxed() };
        let way = proptest::sample::select(vec![Way::Reply, Way::Reply, Way::Reply, Way::Message, Way::Error, Way::NoService, Way::NoEndpoint]).boxed();
        let act = proptest::sample::select(vec![Act::Reply, Act::Error, Act::Stray, Act::Twice, Act::Part, Act::Close, Act::Mute, Act::Late]);
        let polls = || prop_oneof![2 => 0u16..24, 1 => 0u16..400];
        let junk = prop_oneof![
            1 => Just(Junk::Ping),
            4 => (way.clone(), arg(), arg(), wire::gen::plan(4)).prop_map(|(way, req, rep, plan)| Junk::Call { way, req, rep, plan }),
            1 => any::<bool>().prop_map(|more| Junk::Bad { more }),
            1 => Just(Junk::Lost),
            1 => Just(Junk::Error),
            1 => prop_oneof![Just(0x02u8), Just(0x04), Just(0xc0), Just(0xc1), Just(0xd1), any::<u8>()].prop_map(Junk::Type),
        ]
        .boxed();
        let end = proptest::sample::select(vec![End::Close, End::HalfClose, End::Reset]);
        let op = prop_oneof![
            4 => (prop_oneof![60 => Just(1u8), 1 => 2u8..=4], way.clone(), arg(), arg()).prop_map(|(n, way, req, rep)| Op::Calls { n, way, req, rep }),
            4 => (polls(), way, arg()).prop_map(|(polls, way, rep)| Op::Abandoned { polls, way, rep }),
            6 => (act, arg(), arg(), proptest::option::of(polls())).prop_map(|(act, req, rep, polls)| Op::Scripted { act, req, rep, polls }),
            1 => any::<bool>().prop_map(|plain| Op::Register { plain }),
            1 => Just(Op::Twice),
            1 => Just(Op::Lookup),
            1 => Just(Op::Restart),
            3 => (vec(junk.clone(), 0..5), any::<bool>(), end).prop_map(|(sends, cut, end)| Op::Visit { sends, cut, end }),
            3 => vec(junk, 1..5).prop_map(|sends| Op::Sends { sends }),
        ];
        let knobs = (knobs(), any::<bool>()).prop_map(|(k, test)| Knobs { test, ..k });
        let long = t == Tier::Long;
        (knobs, vec(op, 1..=if long { 2 } else { 5 }), if long { 1000u16..=2000 } else { 40u16..=60 }).prop_map(|(knobs, ops, rounds)| C { knobs, ops, rounds }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl: Vec<String> = c
            .ops
            .iter()
            .flat_map(|o| match o {
                Op::Calls { way, .. } => vec![format!("call: {way:?}")],
                Op::Abandoned { .. } => vec!["abandoned call".into()],
                Op::Scripted { act, polls, .. } => vec![format!("scripted: {act:?}{}", if polls.is_some() { ", abandoned" } else { "" })],
                Op::Visit { end, .. } => vec![format!("client ends: {end:?}")],
                Op::Sends { sends } => sends.iter().map(|j| format!("client sends: {:?}", j).split(['(', '{']).next().unwrap().trim().to_string()).collect(),
                o => vec![format!("{o:?}").split(' ').next().unwrap().to_string()],
            })
            .collect();
        cl.sort();
        cl.dedup();
        (c.ops.iter().any(|o| !matches!(o, Op::Lookup)), cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
}

/// Polls `f` again and again, `n` times, then drops it.
async fn at_most<T>(f: impl Future<Output = T> + Send, n: usize) -> Option<T> {
    let mut f = Box::pin(f);
    let mut left = n;
    futures::future::poll_fn(move |cx| {
        if left == 0 {
            return Poll::Ready(None);
        }
        left -= 1;
        cx.waker().wake_by_ref();
        f.as_mut().poll(cx).map(Some)
    })
    .await
}

/// `n`: a name which is missing is another one each time.
fn fields(way: Way, req: &Arg, rep: &Arg, junk: bool, n: u32) -> (String, Parts) {
    // The header says what to reply.
    let service = if way == Way::NoService { format!("none{n}") } else { "svc".into() };
    let ep = if way == Way::NoEndpoint { format!("none{n}") } else { "echo".into() };
    let mut cur = Cursor::new(blob::response_room(3, 3) - 24);
    let rep = rep.bytes(&mut cur);
    let mut cur = Cursor::new(blob::request_room(3, 3) - 24);
    let body = if junk { vec![] } else { req.bytes(&mut cur) };
    (service, Parts::new(ep, format!("{way:?} {}", rep.len()), body))
}
fn reply_to(m: RawMessage) -> Result<RawMessage, HandlerError<RawMessage>> {
    let mut it = m.header().split(' ');
    let (way, n) = (it.next().unwrap_or(""), it.next().and_then(|n| n.parse().ok()).unwrap_or(0usize));
    let rep = RawMessage::new("re".into(), String::new(), vec![7; n.min(2_000_000)].into());
    match way {
        "Message" => Err(HandlerError::MessageError(rep)),
        "Error" => Err(HandlerError::GeneralError("no".into())),
        _ => Ok(rep),
    }
}

/// Answers calls by their endpoint.
async fn scripted_server(l: tokio::net::TcpListener) {
    while let Ok(raw) = peer::accept(&l).await {
        tokio::spawn(scripted_connection(raw));
    }
}
async fn scripted_connection(mut raw: Raw) {
    if raw.welcome().await.is_err() {
        return;
    }
    let mut late: Vec<(u32, usize)> = vec![];
    let reply = |id, n| Msg::reply(0, "raw", [b"re".to_vec(), vec![], vec![7; n]]).split(id, &Plan::default());
    loop {
        let f = match raw.wait().await {
            Ev::Frame(f) => f,
            _ => return,
        };
        if f.ty == wire::PING_REQ {
            let _ = raw.send(&wire::ping(wire::PING_RES, f.id)).await;
        }
        if f.ty != wire::CALL_REQ {
            continue;
        }
        let Ok(c) = wire::parse_call(&f) else { return };
        let text = |k: usize| String::from_utf8_lossy(c.chunks.get(k).map_or(&b""[..], |c| c)).to_string();
        let (act, n) = (text(0), text(1).parse::<usize>().unwrap_or(0));
        let mut out = vec![];
        for (id, n) in std::mem::take(&mut late) {
            out.extend(reply(id, n));
        }
        match act.as_str() {
            "Error" => out.push(wire::error(f.id, 5, b"no")),
            "Stray" => {
                out.extend(reply(f.id ^ 0x4000_0000, n));
                out.push(wire::ping(wire::PING_RES, f.id ^ 0x4000_0000));
                out.extend(reply(f.id, n));
            }
            "Twice" => {
                out.extend(reply(f.id, n));
                out.extend(reply(f.id, n));
            }
            "Part" => {
                let all = wire::enc_all(&reply(f.id, n));
                let _ = raw.try_send(&all[..all.len() / 2]).await;
                return raw.close().await;
            }
            "Close" => return raw.close().await,
            "Mute" => {}
            "Late" => late.push((f.id, n)),
            _ => out.extend(reply(f.id, n)),
        }
        if raw.try_send(&wire::enc_all(&out)).await.is_err() {
            return;
        }
    }
}

struct World {
    addr: SocketAddr,
    scripted: SocketAddr,
    server: TChannel,
    svc: Arc<tchannel_rs::SubChannel>,
    client: TChannel,
    cs: Arc<tchannel_rs::SubChannel>,
    none: Arc<tchannel_rs::SubChannel>,
    guest: Option<Raw>,
    /// Abandoned calls may cost connections to the scripted server.
    loses: bool,
    next: u32,
}

async fn run(c: C, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let server = channel(&c.knobs, addr)?;
    let svc = sub(&server, "svc").await?;
    register(&svc, "echo", c.knobs.buf % 2 == 0, reply_to).await?;
    start(&server, addr).await?;
    let client = client(&c.knobs)?;
    let (cs, none) = (sub(&client, "svc").await?, sub(&client, "none").await?);
    let scripted = ctx.addr();
    let task = tokio::spawn(scripted_server(peer::listen(scripted)?));
    let loses = c.ops.iter().any(|o| matches!(o, Op::Scripted { act: Act::Part | Act::Close, polls: Some(_), .. }));
    let guest = Some(Raw::client(addr).await?);
    let mut w = World { addr, scripted, server, svc, client, cs, none, guest, loses, next: 100 };
    // An attempt to connect which fails is repeated after a while only, and calls wait for it even when abandoned.
    for (ep, addr) in [("echo", addr), ("Reply", scripted)] {
        if let Res::Fail(e) = call(&w.cs, &Parts::new(ep, "0", ""), addr).await {
            return soft(format!("first call: {e}"));
        }
    }
    rounds(&mut w, &c, WARM_UP).await?;
    let a = settled().await;
    rounds(&mut w, &c, c.rounds as usize).await?;
    let b = settled().await;
    rounds(&mut w, &c, c.rounds as usize).await?;
    let d = settled().await;
    let n = c.rounds as i64;
    let len = |a: &Arg| a.bytes(&mut Cursor::new(blob::request_room(3, 3) - 24)).len();
    let small = args(&c.ops).into_iter().all(|a| len(a) <= 2000);
    let text = format!("after {WARM_UP}, {}, {} rounds, {}, {}, {} blocks of memory, and {}, {}, {} bytes are in use", n + WARM_UP as i64, 2 * n + WARM_UP as i64, a.0, b.0, d.0, a.1, b.1, d.1);
    if std::env::var_os("TCV_SHOW").is_some() {
        eprintln!("{text}");
    }
    let grows = |x: i64, y: i64, z: i64, by: i64| y - x >= by && z - y >= by;
    // Buffers of large messages grow in large steps.
    let bytes = if n >= 1000 { 3 * n } else { 64 * n };
    if grows(a.0, b.0, d.0, n / 2) || (small && grows(a.1, b.1, d.1, bytes)) {
        return soft(text);
    }
    task.abort();
    Ok(())
}
fn args(ops: &[Op]) -> Vec<&Arg> {
    ops.iter()
        .flat_map(|o| match o {
            Op::Calls { req, rep, .. } | Op::Scripted { req, rep, .. } => vec![req, rep],
            Op::Abandoned { rep, .. } => vec![rep],
            Op::Visit { sends, .. } | Op::Sends { sends } => sends.iter().flat_map(|j| if let Junk::Call { req, rep, .. } = j { vec![req, rep] } else { vec![] }).collect(),
            _ => vec![],
        })
        .collect()
}
/// What is in use once everything has come to rest.
async fn settled() -> (i64, i64) {
    let mut last = (0, 0);
    let mut same = 0;
    for _ in 0..300 {
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
        let now = count::held();
        same = if now == last { same + 1 } else { 0 };
        last = now;
        if same == 4 {
            break;
        }
    }
    last
}
async fn rounds(w: &mut World, c: &C, n: usize) -> R {
    for k in 0..n {
        for (i, op) in c.ops.iter().enumerate() {
            let what = format!("round {k}, step {i}");
            step(w, op, &what).await?;
        }
    }
    Ok(())
}
fn check(way: Way, rep: &Arg, got: Res<Parts>, what: &str) -> R {
    let mut cur = Cursor::new(blob::response_room(3, 3) - 24);
    let want = Parts::new("re", "", vec![7; rep.bytes(&mut cur).len()]);
    match (way, got) {
        (Way::Reply, Res::Ok(p)) | (Way::Message, Res::Message(p)) if p == want => Ok(()),
        (Way::Reply | Way::Message, Res::Fail(e)) => soft(format!("{what}: {e}")),
        (Way::Error | Way::NoService | Way::NoEndpoint, Res::Fail(_)) => Ok(()),
        (way, got) => hard(format!("{what}: {way:?} answered with {got:?}")),
    }
}
async fn step(w: &mut World, op: &Op, what: &str) -> R {
    let (cs, none) = (w.cs.clone(), w.none.clone());
    let sub_of = |service: &str| if service == "svc" { cs.clone() } else { none.clone() };
    w.next += 1;
    match op {
        Op::Calls { n, way, req, rep } => {
            let (service, p) = fields(*way, req, rep, false, w.next);
            let s = sub_of(&service);
            for r in futures::future::join_all((0..*n).map(|_| call(&s, &p, w.addr))).await {
                check(*way, rep, r, what)?;
            }
        }
        Op::Abandoned { polls, way, rep } => {
            let (service, p) = fields(*way, rep, rep, true, w.next);
            if let Some(r) = at_most(call(&sub_of(&service), &p, w.addr), *polls as usize).await {
                check(*way, rep, r, what)?;
            }
        }
        Op::Scripted { act, req, rep, polls } => {
            let mut cur = Cursor::new(blob::response_room(3, 3) - 24);
            let rep = rep.bytes(&mut cur).len();
            let mut cur = Cursor::new(blob::request_room(3, 3) - 24);
            let p = Parts::new(format!("{act:?}"), rep.to_string(), req.bytes(&mut cur));
            let f = call(&w.cs, &p, w.scripted);
            let polls = match act {
                Act::Mute | Act::Late => Some(polls.unwrap_or(300)),
                _ => *polls,
            };
            let got = match polls {
                None => match tokio::time::timeout(8 * SECS, f).await {
                    Ok(r) => Some(r),
                    Err(_) => return soft(format!("{what}: the call does not return")),
                },
                Some(n) => at_most(f, n as usize).await,
            };
            match (act, got) {
                (_, None) => {}
                (Act::Reply | Act::Stray | Act::Twice, Some(Res::Ok(p))) if p.ep == "re" && p.body.len() == rep => {}
                (Act::Error | Act::Part | Act::Close, Some(Res::Fail(_))) => {}
                // The connection may be lost due to a call abandoned before.
                (_, Some(Res::Fail(e))) if polls.is_none() && !w.loses => return soft(format!("{what}: {e}")),
                (_, Some(Res::Fail(_))) => {}
                (_, Some(r)) => return hard(format!("{what}: {act:?} answered with {r:?}")),
            }
        }
        Op::Register { plain } => {
            let name = format!("temporary{}", w.next);
            let p = Parts::new(name.clone(), "h", "b");
            register(&w.svc, &name, *plain, |m: RawMessage| Ok(m)).await?;
            expect_ok(call(&w.cs, &p, w.addr).await, &p, what)?;
            if let Err(e) = w.svc.unregister(&name).await {
                return hard(format!("{what}: unregister: {e}"));
            }
        }
        Op::Twice => {
            let f = move |m: RawMessage| Ok(m);
            if w.svc.register("echo", Plain(Arc::new(f))).await.is_ok() || w.svc.unregister("missing").await.is_ok() {
                return hard(format!("{what}: registered twice"));
            }
        }
        Op::Lookup => {
            sub(&w.client, "svc").await?;
            sub(&w.server, "svc").await?;
        }
        Op::Restart => {
            let _ = w.server.shutdown_server();
            start(&w.server, w.addr).await?;
        }
        Op::Visit { sends, cut, end } => {
            let mut raw = Raw::client(w.addr).await?;
            let mut out = vec![];
            for j in sends {
                w.next += 1;
                let (f, _) = junk(j, w.next);
                out.extend(wire::enc_all(&f));
            }
            if *cut {
                out.truncate(out.len() * 2 / 3);
            }
            let _ = raw.try_send(&out).await;
            match end {
                End::Close => raw.close().await,
                End::Reset => raw.reset().await,
                End::HalfClose => {
                    raw.half_close().await;
                    let mut inbox = Inbox::default();
                    raw.drain(&mut inbox, what).await?;
                }
            }
        }
        Op::Sends { sends } => {
            let mut raw = match w.guest.take() {
                Some(r) => r,
                None => Raw::client(w.addr).await?,
            };
            let (mut want, mut lost) = (vec![], false);
            let mut out = vec![];
            for j in sends {
                w.next += 1;
                let (f, answer) = junk(j, w.next);
                out.extend(wire::enc_all(&f));
                if answer {
                    want.push(w.next);
                }
                // This one may cost the connection.
                lost |= matches!(j, Junk::Type(_));
            }
            w.next += 1;
            want.push(w.next);
            out.extend(wire::ping(wire::PING_REQ, w.next).enc());
            let mut inbox = Inbox::default();
            let _ = raw.try_send(&out).await;
            let r = raw.collect(&mut inbox, what, |b| want.iter().all(|i| b.has(*i))).await;
            match r {
                Ok(()) => w.guest = Some(raw),
                Err(Bad::Soft(_)) if lost => {}
                Err(e) => return Err(e),
            }
        }
    }
    Ok(())
}
/// Frames and whether they are answered.
fn junk(j: &Junk, id: u32) -> (Vec<Frame>, bool) {
    match j {
        Junk::Ping => (vec![wire::ping(wire::PING_REQ, id)], true),
        Junk::Call { way, req, rep, plan } => {
            let (service, p) = fields(*way, req, rep, false, id);
            (Msg::request(&service, "raw", p.args()).split(id, plan), true)
        }
        Junk::Bad { more } => (vec![Frame::new(wire::CALL_REQ, id, vec![*more as u8, 0, 0])], true),
        Junk::Lost => (vec![Frame::new(wire::REQ_CONT, id, vec![0, 0, 0, 1, 7])], false),
        Junk::Error => (vec![wire::error(id, 5, b"oh")], false),
        Junk::Type(t) => (vec![Frame::new(*t, id, vec![])], false),
    }
}
