//! Nothing is served before a version 2 handshake.
use super::prelude::*;
use peer::{Answer, Cmd, Did, Hub, Inbox};
use std::collections::BTreeMap;
use tchannel_rs::messages::RawMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C {
    Server { knobs: Knobs, first: First, calls: Vec<Plan>, seg: Vec<u16>, half_close: bool },
    Client { knobs: Knobs, answers: Vec<Ans>, headers: Vec<(String, String)>, calls: u8, delay: u8, seg: Vec<u16> },
}
/// What a client opens with.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum First {
    Good { id: u32, headers: Vec<(String, String)> },
    Version(u16),
    /// An init request in all but its type.
    Type(u8),
    /// A frame of a type with this body.
    Frame(u8, Vec<u8>),
    /// A valid call.
    Call,
    /// A ping.
    Ping,
    /// An init request whose body ends early, or which announces more headers than there are.
    Truncated(u16, Vec<(String, String)>),
    Count(u16),
    Bytes(Vec<u8>),
    Nothing,
}
/// How a server answers a handshake.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ans {
    Version(u16, bool),
    Type(u8, bool),
    Error(u8, bool),
    Truncated(u8, bool),
    Count(u16, bool),
    Bytes(Vec<u8>),
    Close,
}
pub struct P;

fn headers() -> BoxedStrategy<Vec<(String, String)>> {
    let s = prop_oneof![4 => "[a-z_]{0,12}", 2 => any::<String>(), 1 => (0usize..9000).prop_map(|n| "x".repeat(n))];
    let known = proptest::sample::select(vec!["host_port", "process_name", "tchannel_language", "tchannel_version"]).prop_map(|k| (k.to_string(), "0.0.0.0:0".to_string()));
    vec(prop_oneof![known, (s.clone(), s)], 0..5)
        .prop_map(|mut h| {
            // Distinct keys; all of them fit into a frame.
            h.sort();
            h.dedup_by(|a, b| a.0 == b.0);
            while h.iter().map(|(k, v)| k.len() + v.len() + 4).sum::<usize>() > 60_000 {
                h.pop();
            }
            h
        })
        .boxed()
}
fn not2() -> impl Strategy<Value = u16> {
    prop_oneof![Just(0u16), Just(1), Just(3), Just(0x0200), any::<u16>()].prop_map(|v| if v == 2 { 3 } else { v })
}
fn not(t: u8) -> impl Strategy<Value = u8> {
    crate::fuzz::ty().prop_map(move |x| if x == t { wire::CALL_REQ } else { x })
}
fn truncated(f: Frame, n: usize) -> Frame {
    let mut f = f;
    let l = f.body.len();
    f.body.truncate(n % l);
    f
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C14";
    const RULE: &'static str = "Server side: a connection opens with a good init request (any id and headers, any segmentation, calls pipelined behind it or not) or with one of 9 kinds of something else, followed by valid calls. Client side: the first connections' handshakes are answered in one of 7 wrong ways (some followed by a right one), later ones rightly after a delay. Oracle: init response under the same id first, then all calls served; otherwise no handler runs and the connection ends; a client's connection starts with a version 2 init request and carries calls only after a version 2 response. Non-trivial: not the plain handshake.";
    const THREADS: usize = 48;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 30_000 } else { 600_000 }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C> {
        let first = prop_oneof![
            5 => (prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()], headers()).prop_map(|(id, headers)| First::Good { id, headers }),
            2 => not2().prop_map(First::Version),
            2 => not(wire::INIT_REQ).prop_map(First::Type),
            2 => (not(wire::INIT_REQ), vec(any::<u8>(), 0..40)).prop_map(|(t, b)| First::Frame(t, b)),
            1 => Just(First::Call),
            1 => Just(First::Ping),
            1 => (any::<u16>(), headers()).prop_map(|(n, h)| First::Truncated(n, h)),
            1 => (1u16..=65535).prop_map(First::Count),
            1 => vec(any::<u8>(), 1..60).prop_map(First::Bytes),
            1 => Just(First::Nothing),
        ];
        let server = (knobs(), first, vec(wire::gen::plan(2), 0..4), vec(any::<u16>(), 0..4), any::<bool>()).prop_map(|(knobs, first, calls, seg, half_close)| C::Server { knobs, first, calls, seg, half_close });
        let ans = prop_oneof![
            2 => (not2(), any::<bool>()).prop_map(|(v, g)| Ans::Version(v, g)),
            2 => (not(wire::INIT_RES), any::<bool>()).prop_map(|(t, g)| Ans::Type(t, g)),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(t, g)| Ans::Error(t, g)),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(t, g)| Ans::Truncated(t, g)),
            1 => (1u16..=65535, any::<bool>()).prop_map(|(t, g)| Ans::Count(t, g)),
            1 => vec(any::<u8>(), 0..30).prop_map(Ans::Bytes),
            1 => Just(Ans::Close),
        ];
        let answers = prop_oneof![3 => vec(ans.clone(), 0..=0), 6 => vec(ans.clone(), 1..=1), 1 => vec(ans, 2..=2)];
        let client = (knobs(), answers, headers(), 1u8..4, 0u8..6, vec(any::<u16>(), 0..3)).prop_map(|(knobs, answers, headers, calls, delay, seg)| C::Client { knobs, answers, headers, calls, delay, seg });
        prop_oneof![8 => server, 1 => client].boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let name = |s: String| s.split(['(', ' ']).next().unwrap().to_string();
        match c {
            C::Server { first, .. } => {
                let good = matches!(first, First::Good { headers, .. } if headers.is_empty());
                (!good, vec![format!("server: {}", name(format!("{first:?}")))])
            }
            C::Client { answers, .. } => (!answers.is_empty(), if answers.is_empty() { vec!["client: right".into()] } else { answers.iter().map(|a| format!("client: {}", name(format!("{a:?}")))).collect() }),
        }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            match c {
                C::Server { knobs, first, calls, seg, half_close } => server(knobs, first, calls, seg, half_close, ctx).await,
                C::Client { knobs, answers, headers, calls, delay, seg } => clientside(knobs, answers, headers, calls, delay, seg, ctx).await,
            }
        })
    }
}
async fn server(knobs: Knobs, first: First, calls: Vec<Plan>, seg: Vec<u16>, half_close: bool, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let server = channel(&knobs, addr)?;
    let ss = sub(&server, "svc").await?;
    let log: Log<Parts> = Log::default();
    let l = log.clone();
    register(&ss, "e", true, move |m: RawMessage| {
        l.push(Parts::of(&m));
        Ok(m)
    }).await?;
    start(&server, addr).await?;
    let args = |i: usize| [b"e".to_vec(), format!("{i}").into_bytes(), blob::bytes(i as u8, 50)];
    let id = |i: usize| 1 + i as u32;
    let frames: Vec<Frame> = calls.iter().enumerate().flat_map(|(i, p)| Msg::request("svc", "raw", args(i)).split(id(i), p)).collect();
    let good = matches!(first, First::Good { .. });
    let mut whole = true;
    let mut b = match &first {
        First::Good { id, headers } => wire::init(wire::INIT_REQ, *id, 2, headers).enc(),
        First::Version(v) => wire::init(wire::INIT_REQ, 1, *v, &[]).enc(),
        First::Type(t) => wire::init(*t, 1, 2, &[]).enc(),
        First::Frame(t, b) => Frame::new(*t, 1, b.clone()).enc(),
        First::Call => wire::enc_all(&Msg::request("svc", "raw", args(9)).whole(1)),
        First::Ping => wire::ping(wire::PING_REQ, 1).enc(),
        First::Truncated(n, h) => truncated(wire::init(wire::INIT_REQ, 1, 2, h), *n as usize).enc(),
        First::Count(n) => {
            let mut f = wire::init(wire::INIT_REQ, 1, 2, &[]);
            f.body[2..4].copy_from_slice(&n.to_be_bytes());
            f.enc()
        }
        First::Bytes(b) => {
            whole = false;
            b.clone()
        }
        First::Nothing => {
            whole = false;
            vec![]
        }
    };
    if let First::Bytes(x) = &first {
        // By accident a good one.
        if let Some(f) = crate::fuzz::parse(x).first() {
            if f.ty == wire::INIT_REQ && f.body.starts_with(&[0, 2]) {
                return Ok(());
            }
        }
    }
    if !matches!(first, First::Nothing) {
        b.extend(wire::enc_all(&frames));
    }
    let mut r = match Raw::connect(addr).await {
        Ok(r) => r,
        Err(e) => return soft(format!("connecting: {e}")),
    };
    if good {
        r.send_segments(&b, &seg, true).await?;
        let First::Good { id: hello, .. } = first else { unreachable!() };
        match r.next(8 * SECS).await {
            Ev::Frame(f) if f.ty == wire::INIT_RES && f.id == hello => match wire::parse_init(&f) {
                Ok((2, _)) => {}
                o => return hard(format!("init response {o:?}")),
            },
            o @ (Ev::Frame(_) | Ev::Garbled(_)) => return hard(format!("init request with id {hello} answered with {}", o.show())),
            o => return soft(format!("init request answered with {}", o.show())),
        }
        let mut inbox = Inbox::default();
        r.collect(&mut inbox, "after the handshake", |b| (0..calls.len()).all(|i| b.has(id(i)))).await?;
        for i in 0..calls.len() {
            match inbox.of(id(i))[..] {
                [Answer::Reply(m)] if m.code == 0 && m.args == args(i) => {}
                ref a => return hard(format!("call {i} after the handshake answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
            }
        }
        return Ok(());
    }
    for part in b.chunks(b.len() / (seg.len() + 1) + 1) {
        // It may be closed already.
        let _ = r.try_send(part).await;
        tokio::task::yield_now().await;
    }
    if half_close || !whole {
        r.half_close().await;
    }
    loop {
        match r.next(8 * SECS).await {
            Ev::Frame(f) if f.ty == wire::INIT_RES => return hard(format!("{first:?} was answered with an init response")),
            Ev::Frame(f) if f.ty == wire::ERROR => {}
            Ev::Frame(f) => return hard(format!("{first:?} was answered with {}", f.show())),
            Ev::Garbled(e) => return hard(e),
            Ev::Quiet => return soft(format!("after {first:?} the connection stays open")),
            Ev::Eof { .. } | Ev::Reset => break,
        }
    }
    if log.len() > 0 {
        return hard(format!("after {first:?} a handler ran: {:?}", log.get()));
    }
    Ok(())
}
async fn clientside(knobs: Knobs, answers: Vec<Ans>, headers: Vec<(String, String)>, calls: u8, delay: u8, seg: Vec<u16>, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let mut hub = Hub::new(peer::listen(addr)?, false);
    let cl = client(&knobs)?;
    let cs = sub(&cl, "svc").await?;
    let (tx, mut results) = tokio::sync::mpsc::unbounded_channel();
    for i in 0..calls {
        let (cs, tx) = (cs.clone(), tx.clone());
        tokio::spawn(async move {
            let _ = tx.send((i, call(&cs, &Parts::new("e", format!("{i}"), ""), addr).await));
        });
    }
    drop(tx);
    #[derive(PartialEq, Debug)]
    enum St {
        New,
        Asked(u32),
        Good,
        Bad,
    }
    let mut conns: BTreeMap<usize, St> = BTreeMap::new();
    let mut order = 0;
    let mut left = calls;
    let (ttx, mut timers) = tokio::sync::mpsc::unbounded_channel();
    let mut done = false;
    let mut grace = Duration::from_secs(8);
    loop {
        tokio::select! {
            biased;
            e = hub.next(grace) => match e {
                None if done => return Ok(()),
                None => return soft("calls do not return once handshakes are answered rightly"),
                Some((k, Did::Open)) => { conns.insert(k, St::New); }
                Some((_, Did::Garbled(e))) => return hard(e),
                Some((_, Did::End)) => {}
                Some((k, Did::Frame(f))) => match conns[&k] {
                    St::New => {
                        if f.ty != wire::INIT_REQ {
                            return hard(format!("the first frame of a connection is {}", f.show()));
                        }
                        match wire::parse_init(&f) {
                            Ok((2, _)) => {}
                            o => return hard(format!("init request {o:?}")),
                        }
                        conns.insert(k, St::Asked(f.id));
                        let ttx = ttx.clone();
                        let n = order;
                        order += 1;
                        tokio::spawn(async move {
                            if delay > 0 {
                                tokio::time::sleep(Duration::from_millis(delay as u64 - 1)).await;
                            }
                            let _ = ttx.send((k, n));
                        });
                    }
                    St::Asked(_) => return hard(format!("{} was sent before the handshake was answered", f.show())),
                    St::Bad if f.ty == wire::CALL_REQ || f.ty == wire::REQ_CONT => return hard(format!("{} was sent on a connection whose handshake failed ({:?})", f.show(), answers)),
                    St::Bad => {}
                    St::Good => if let Some(m) = hub.call(k, &f)? {
                        hub.send(k, &Msg { response: true, headers: vec![wire::h("as", "raw")], ..m }.whole(f.id));
                    },
                },
            },
            Some((k, n)) = timers.recv() => {
                let St::Asked(id) = conns[&k] else { continue };
                let right = wire::init(wire::INIT_RES, id, 2, &headers);
                let Some(a) = answers.get(n) else {
                    conns.insert(k, St::Good);
                    let b = right.enc();
                    for p in b.chunks(b.len() / (seg.len() + 1) + 1) {
                        hub.tell(k, Cmd::Send(p.to_vec()));
                    }
                    continue;
                };
                conns.insert(k, St::Bad);
                let (f, and_right) = match a {
                    Ans::Version(v, g) => (wire::init(wire::INIT_RES, id, *v, &headers).enc(), *g),
                    Ans::Type(t, g) => (Frame { ty: *t, ..right.clone() }.enc(), *g),
                    Ans::Error(c, g) => (wire::error(id, *c, b"no").enc(), *g),
                    Ans::Truncated(n, g) => (truncated(right.clone(), *n as usize).enc(), *g),
                    Ans::Count(n, g) => {
                        let mut f = wire::init(wire::INIT_RES, id, 2, &[]);
                        f.body[2..4].copy_from_slice(&n.to_be_bytes());
                        (f.enc(), *g)
                    }
                    Ans::Bytes(b) => (b.clone(), false),
                    Ans::Close => (vec![], false),
                };
                hub.tell(k, Cmd::Send(f));
                if and_right {
                    hub.tell(k, Cmd::Send(right.enc()));
                }
                if matches!(a, Ans::Bytes(_) | Ans::Close) {
                    hub.tell(k, Cmd::HalfClose);
                }
            },
            r = results.recv(), if left > 0 => {
                let (i, r) = r.unwrap();
                expect_ok(r, &Parts::new("e", format!("{i}"), ""), &format!("call {i}"))?;
                left -= 1;
                if left == 0 {
                    // A little longer: nothing more may come on the failed connections.
                    done = true;
                    grace = Duration::from_millis(2);
                }
            }
        }
    }
}
