//! Pings are answered, and tested connections are live ones.
use super::prelude::*;
use peer::{Answer, Cmd, Did, Hub};
use std::collections::{BTreeMap, BTreeSet};
use tchannel_rs::messages::RawMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C {
    Server(Server),
    Client { knobs: Knobs, ops: Vec<Op>, pings: Vec<Pong> },
    /// The library at both ends.
    Both { knobs: Knobs, workers: u8, waves: Vec<Vec<Arg>> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Server {
    knobs: Knobs,
    workers: u8,
    calls: Vec<Call>,
    pings: Vec<u32>,
    picks: Vec<u8>,
    seg: Vec<u16>,
    half_close: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    a: [Arg; 2],
    plan: Plan,
    /// Its handler waits until all pings are answered.
    stall: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    One(Arg),
    /// Concurrent calls, while all pings are answered well.
    Burst(u8),
}
/// How a ping is answered.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pong {
    Good,
    /// After a while.
    Late(u8),
    ErrorFrame(u8),
    Type(u8),
    Close,
    Reset,
    HalfClose,
}
impl Pong {
    fn good(&self) -> bool {
        matches!(self, Pong::Good | Pong::Late(_))
    }
}
pub struct P;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C18";
    const RULE: &'static str = "Server side: up to 12 pings with any ids anywhere between (and in a segment with) the frames of up to 6 interleaved calls of 1 to several frames, some with stalled handlers, single- and multi-threaded; then more pings, or the end of the stream. Oracle: exactly one ping response per ping under its id while the handlers are stalled, every call answered right. Client side: a client which tests connections makes calls one by one and in bursts to a scripted server which answers each ping well, late, with an error frame, a frame of another type, or by ending the connection. Oracle: a call on a connection open before it follows a good answer to a ping made for it, a connection with a bad answer gets no call and is closed, every call succeeds. Both sides: bursts of calls of a testing client to a server. Non-trivial: a ping while a message or handler is incomplete, or a bad answer.";
    const THREADS: usize = 16;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 24_000 } else { 700_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        let a = prop_oneof![6 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
        let call = (a, wire::gen::plan(4), proptest::bool::weighted(0.3)).prop_map(|(a, plan, stall)| Call { a, plan, stall });
        let id = prop_oneof![Just(0u32), Just(u32::MAX), 1u32..20, any::<u32>()];
        let workers = || prop_oneof![2 => Just(0u8), 1 => 2u8..=4];
        let server = (knobs(), workers(), vec(call, t.steps(0..=6, 10..=600)), vec(id, t.steps(1..=12, 100..=1000)), vec(any::<u8>(), 0..12), vec(any::<u16>(), 0..6), any::<bool>())
            .prop_map(|(knobs, workers, calls, pings, picks, seg, half_close)| C::Server(Server { knobs, workers, calls, pings, picks, seg, half_close }));
        let pong = prop_oneof![
            4 => Just(Pong::Good),
            1 => (0u8..4).prop_map(Pong::Late),
            2 => any::<u8>().prop_map(Pong::ErrorFrame),
            2 => crate::fuzz::ty().prop_map(|t| if t == wire::PING_RES { Pong::Type(wire::PING_REQ) } else { Pong::Type(t) }),
            1 => Just(Pong::Close),
            1 => Just(Pong::Reset),
            1 => Just(Pong::HalfClose),
        ];
        let op = prop_oneof![4 => blob::small_arg().prop_map(Op::One), 1 => (2u8..8).prop_map(Op::Burst)];
        let tested = |mut k: Knobs| { k.test = true; k };
        let client = (knobs().prop_map(tested), vec(op, t.steps(2..=10, 200..=1500)), vec(pong, t.steps(0..=10, 200..=1500))).prop_map(|(knobs, ops, pings)| C::Client { knobs, ops, pings });
        let both = (knobs().prop_map(tested), workers(), t.groups(blob::small_arg(), 1..=8, 1..=4, 60..=400, 60..=300)).prop_map(|(knobs, workers, waves)| C::Both { knobs, workers, waves });
        prop_oneof![3 => server, 3 => client, 1 => both].boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let nt = match c {
            C::Server(s) => {
                if s.calls.iter().any(|c| c.stall) {
                    cl.push("ping while a handler is stalled".to_string());
                }
                if s.half_close {
                    cl.push("ping before the end of the stream".into());
                }
                !s.calls.is_empty()
            }
            C::Client { pings, .. } => {
                for p in pings {
                    cl.push(format!("ping answered: {}", format!("{p:?}").split('(').next().unwrap()));
                }
                pings.iter().any(|p| !p.good())
            }
            C::Both { .. } => {
                cl.push("both sides".into());
                false
            }
        };
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        match c {
            C::Server(Server { workers, .. }) | C::Both { workers, .. } if *workers > 0 => Rt::Multi(*workers as usize),
            _ => Rt::Current,
        }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            match c {
                C::Server(s) => server(s, ctx).await,
                C::Client { knobs, ops, pings } => tester(knobs, ops, pings, ctx).await,
                C::Both { knobs, waves, .. } => both(knobs, waves, ctx).await,
            }
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["A connection on which a ping is never answered at all is waited for: silence is not explored.".into()]
    }
}

async fn server(s: Server, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let ch = channel(&s.knobs, addr)?;
    let ss = sub(&ch, "svc").await?;
    register(&ss, "e", true, |m: RawMessage| Ok(m)).await?;
    let (go, gone) = tokio::sync::watch::channel(false);
    register_async(&ss, "stall", move |m: RawMessage| {
        let mut gone = gone.clone();
        Box::pin(async move {
            while !*gone.borrow() {
                if gone.changed().await.is_err() {
                    break;
                }
            }
            Ok(m)
        }) as Reply<_>
    }).await?;
    start(&ch, addr).await?;
    let mut raw = Raw::client(addr).await?;
    let sent: Vec<Parts> = s.calls.iter().enumerate().map(|(i, x)| {
        let mut cur = Cursor::new(blob::request_room(3, 3));
        Parts { ep: if x.stall { "stall" } else { "e" }.into(), header: format!("{i}{}", x.a[0].text(&mut cur)), body: x.a[1].bytes(&mut cur) }
    }).collect();
    let id = |i: usize| 2 + i as u32;
    let mut seqs: Vec<Vec<Frame>> = s.calls.iter().enumerate().map(|(i, x)| Msg::request("svc", "raw", sent[i].args()).split(id(i), &x.plan)).collect();
    // A call's frames are put around pings which share its id, too.
    seqs.extend(s.pings.iter().map(|p| vec![wire::ping(wire::PING_REQ, *p)]));
    let frames: Vec<Frame> = wire::interleave(seqs, &s.picks).into_iter().map(|f| f.1).collect();
    raw.send_segments(&wire::enc_all(&frames), &s.seg, false).await?;
    let stalls = s.calls.iter().any(|c| c.stall);
    if s.half_close && !stalls {
        raw.half_close().await;
    }
    let mut inbox = peer::Inbox::default();
    let pongs = |i: &peer::Inbox| i.answers.iter().filter(|a| a.1 == Answer::Pong).count();
    raw.collect(&mut inbox, "pings", |i| pongs(i) >= s.pings.len()).await?;
    let _ = go.send(true);
    let replies = |i: &peer::Inbox| i.answers.iter().filter(|a| a.1 != Answer::Pong).count();
    if s.half_close && !stalls {
        raw.drain(&mut inbox, "after the end of the stream").await?;
    } else {
        raw.collect(&mut inbox, "calls among pings", |i| replies(i) >= s.calls.len()).await?;
        // Nothing else comes before the answer to one more ping.
        let n = pongs(&inbox);
        raw.send(&wire::ping(wire::PING_REQ, 77)).await?;
        raw.collect(&mut inbox, "one more ping", |i| pongs(i) > n).await?;
    }
    let mut want: BTreeMap<u32, usize> = BTreeMap::new();
    for p in s.pings.iter().chain(if s.half_close && !stalls { &[][..] } else { &[77] }) {
        *want.entry(*p).or_default() += 1;
    }
    let mut got: BTreeMap<u32, usize> = BTreeMap::new();
    for a in inbox.answers.iter().filter(|a| a.1 == Answer::Pong) {
        *got.entry(a.0).or_default() += 1;
    }
    if want != got {
        return hard(format!("pings (id: how many) {want:?} got ping responses {got:?}"));
    }
    for (i, p) in sent.iter().enumerate() {
        let mine: Vec<&Answer> = inbox.of(id(i)).into_iter().filter(|a| **a != Answer::Pong).collect();
        match mine[..] {
            [Answer::Reply(m)] if m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(p) => {}
            [Answer::Error(..)] => return soft(format!("call {i} among pings was answered with {}", mine[0].show())),
            [] if s.half_close => return soft(format!("call {i} among pings was not answered")),
            _ => return hard(format!("call {i} among pings was answered with {:?}", mine.iter().map(|a| a.show()).collect::<Vec<_>>())),
        }
    }
    if replies(&inbox) != s.calls.len() {
        return hard(format!("{} calls and pings got {} other answers", s.calls.len(), replies(&inbox)));
    }
    Ok(())
}

/// What a connection of the client went through.
#[derive(Default)]
struct Conn {
    /// A ping was answered well since the current call began.
    tested: bool,
    bad: Option<Pong>,
}
async fn tester(knobs: Knobs, ops: Vec<Op>, pings: Vec<Pong>, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let mut hub = Hub::new(peer::listen(addr)?, true);
    let cl = client(&knobs)?;
    let cs = sub(&cl, "svc").await?;
    let mut script = pings.into_iter();
    let mut conns: BTreeMap<usize, Conn> = BTreeMap::new();
    let mut ended: BTreeSet<usize> = BTreeSet::new();
    let (tx, mut results) = tokio::sync::mpsc::unbounded_channel();
    let mut no = 0;
    let reply = |m: &Msg| Msg::reply(0, "raw", [m.args[0].clone(), b"r".to_vec(), m.args[2].clone()]);
    for (k, op) in ops.iter().enumerate() {
        let (n, burst) = match op { Op::One(_) => (1, false), Op::Burst(n) => (*n as usize, true) };
        let what = format!("step {k}");
        conns.values_mut().for_each(|c| c.tested = false);
        let pooled: BTreeSet<usize> = conns.keys().copied().collect();
        for i in 0..n {
            let body = match op { Op::One(a) => { let mut cur = Cursor::new(blob::request_room(3, 3)); a.bytes(&mut cur) } _ => vec![1] };
            let (cs, tx, p) = (cs.clone(), tx.clone(), Parts::new(format!("c{}", no + i), "h", body));
            tokio::spawn(async move {
                let r = call(&cs, &p, addr).await;
                let _ = tx.send((p, r));
            });
        }
        no += n;
        let mut left = n;
        // The results, and what else comes until it is quiet.
        loop {
            tokio::select! {
                biased;
                r = results.recv() => {
                    let (p, r): (Parts, Res<Parts>) = r.unwrap();
                    expect_ok(r, &Parts { header: "r".into(), ..p.clone() }, &format!("{what}: call {}", p.ep))?;
                    left -= 1;
                }
                e = hub.next(if left == 0 { Duration::from_millis(1) } else { 8 * SECS }) => match e {
                    None if left == 0 => break,
                    None => return soft(format!("{what}: {left} calls do not return")),
                    Some((c, Did::Open)) => { conns.insert(c, Conn::default()); }
                    Some((c, Did::End)) => { ended.insert(c); }
                    Some((_, Did::Garbled(e))) => return hard(format!("{what}: client sent {e}")),
                    Some((c, Did::Frame(f))) => {
                        let conn = conns.get_mut(&c).unwrap();
                        if f.ty == wire::PING_REQ {
                            let pong = if burst { Pong::Good } else { script.next().unwrap_or(Pong::Good) };
                            if pong.good() {
                                conn.tested = true;
                            } else {
                                conn.bad = Some(pong);
                            }
                            match pong {
                                Pong::Good => hub.send(c, &[wire::ping(wire::PING_RES, f.id)]),
                                Pong::Late(ms) => {
                                    tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                                    hub.send(c, &[wire::ping(wire::PING_RES, f.id)]);
                                }
                                Pong::ErrorFrame(code) => hub.send(c, &[wire::error(f.id, code, b"no")]),
                                Pong::Type(t) => hub.send(c, &[Frame::new(t, f.id, vec![])]),
                                Pong::Close => hub.tell(c, Cmd::Close),
                                Pong::Reset => hub.tell(c, Cmd::Reset),
                                Pong::HalfClose => hub.tell(c, Cmd::HalfClose),
                            }
                            continue;
                        }
                        if f.ty == wire::CALL_REQ {
                            if let Some(b) = conn.bad {
                                return hard(format!("{what}: a call is sent on a connection whose ping was answered with {b:?}"));
                            }
                            // Within a burst a connection goes from call to call without idling.
                            if pooled.contains(&c) && !conn.tested {
                                return soft(format!("{what}: a call is sent on a pooled connection without a ping before"));
                            }
                        }
                        if let Some(m) = hub.call(c, &f)? {
                            hub.send(c, &reply(&m).whole(f.id));
                        }
                    }
                }
            }
        }
    }
    // Connections with bad answers are let go.
    for (c, conn) in &conns {
        if let Some(b) = conn.bad {
            while !ended.contains(c) {
                match hub.next(8 * SECS).await {
                    Some((c, Did::End)) => { ended.insert(c); }
                    Some(_) => {}
                    None => return soft(format!("a connection whose ping was answered with {b:?} is kept")),
                }
            }
        }
    }
    Ok(())
}

async fn both(knobs: Knobs, waves: Vec<Vec<Arg>>, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let ch = channel(&knobs, addr)?;
    let ss = sub(&ch, "svc").await?;
    register(&ss, "e", true, |m: RawMessage| Ok(m)).await?;
    start(&ch, addr).await?;
    let cl = client(&knobs)?;
    let cs = sub(&cl, "svc").await?;
    for (w, wave) in waves.iter().enumerate() {
        let mut ts = vec![];
        for (i, a) in wave.iter().enumerate() {
            let mut cur = Cursor::new(blob::request_room(3, 3));
            let p = Parts::new("e", format!("{w} {i}"), a.bytes(&mut cur));
            let (cs, p2) = (cs.clone(), p.clone());
            ts.push((p, tokio::spawn(async move { call(&cs, &p2, addr).await })));
        }
        for (p, t) in ts {
            match t.await {
                Ok(r) => expect_ok(r, &p, &format!("wave {w}"))?,
                Err(e) => return hard(format!("wave {w}: {e}")),
            }
        }
    }
    Ok(())
}
