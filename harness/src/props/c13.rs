//! Only completely received requests are handled; lost clients are released.
use super::prelude::*;
use peer::{Answer, Inbox};
use tchannel_rs::messages::RawMessage;
use tokio::sync::watch;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    calls: Vec<Call>,
    picks: Vec<u8>,
    cut: At,
    end: End,
    seg: Vec<u16>,
    /// Handlers wait until the stream has ended.
    gate: bool,
    /// Look at the server's sockets.
    sockets: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    a: [Arg; 2],
    plan: Plan,
    ep: u8,
    reply: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum At {
    Part(u16),
    Frame(u8, i8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    HalfClose,
    Close,
    Reset,
    /// Sends nothing more, and half-closes once all is answered.
    Silent,
}
pub struct P;

impl C {
    fn request(&self, i: usize) -> Parts {
        let x = &self.calls[i];
        let mut cur = Cursor::new(blob::request_room(3, 3));
        Parts { ep: format!("e{}", x.ep), header: format!("{i}:{}", x.a[0].text(&mut cur)), body: x.a[1].bytes(&mut cur) }
    }
    fn frames(&self) -> Vec<(usize, Frame)> {
        let seqs = (0..self.calls.len()).map(|i| Msg::request("svc", "raw", self.request(i).args()).split(10 + i as u32, &self.calls[i].plan)).collect();
        wire::interleave(seqs, &self.picks)
    }
    /// The bytes sent, and the calls complete in them.
    fn sent(&self) -> (Vec<u8>, Vec<usize>) {
        let frames = self.frames();
        let mut total = 0;
        let ends: Vec<usize> = frames.iter().map(|f| { total += f.1.body.len() + 16; total }).collect();
        let cut = match self.cut {
            At::Part(p) => total * p as usize / 65536,
            At::Frame(f, d) => (ends[ends.len() * f as usize / 256] as i64 + d as i64).clamp(0, total as i64) as usize,
        };
        let whole = (0..self.calls.len()).filter(|i| ends[frames.iter().rposition(|f| f.0 == *i).unwrap()] <= cut).collect();
        (frames.iter().flat_map(|f| f.1.enc()).take(cut).collect(), whole)
    }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C13";
    const RULE: &'static str = "1-6 requests of a raw connection, arbitrarily framed and interleaved, cut at any byte (dense around frame ends), then half-close, close, reset or silence, with handlers stalled until then or not. Oracle: after a half-close or silence the handlers saw exactly the complete requests, each once, their replies arrive, others at most an error, then end of stream; after a close or reset they saw only complete ones, none twice; the server keeps no socket. Non-trivial: the cut leaves a request incomplete.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 50_000 } else { 1_500_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        let a2 = prop_oneof![5 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
        let call = (a2, wire::gen::plan(4), 0u8..2, prop_oneof![8 => 0u32..100, 1 => 0u32..big]).prop_map(|(a, plan, ep, reply)| Call { a, plan, ep, reply });
        let at = prop_oneof![2 => any::<u16>().prop_map(At::Part), 3 => (any::<u8>(), -20i8..20).prop_map(|(k, d)| At::Frame(k, d)), 1 => (any::<u8>(), Just(0i8)).prop_map(|(k, d)| At::Frame(k, d))];
        let end = prop_oneof![5 => Just(End::HalfClose), 1 => Just(End::Close), 1 => Just(End::Reset), 2 => Just(End::Silent)];
        (knobs(), vec(call, t.steps(1..=6, 50..=400)), vec(any::<u8>(), 0..6), at, end, vec(any::<u16>(), 0..3), any::<bool>(), proptest::bool::weighted(0.015))
            .prop_map(|(knobs, calls, picks, cut, end, seg, gate, sockets)| C { knobs, calls, picks, cut, end, seg, gate, sockets })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let (_, whole) = c.sent();
        let mut cl = vec![format!("{:?}", c.end)];
        if c.gate {
            cl.push("stalled handlers".into());
        }
        if !whole.is_empty() {
            cl.push("some complete".into());
        }
        if c.sockets {
            cl.push("sockets looked at".into());
        }
        if whole.len() < c.calls.len() {
            cl.push("some incomplete".into());
        }
        (whole.len() < c.calls.len(), cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let server = channel(&c.knobs, addr)?;
            let ss = sub(&server, "svc").await?;
            let log: Log<Parts> = Log::default();
            let (open, gate) = watch::channel(!c.gate);
            let replies: Arc<Vec<Parts>> = Arc::new(c.calls.iter().enumerate().map(|(i, x)| Parts::new(format!("r{i}"), "h", blob::bytes(i as u8, x.reply as usize))).collect());
            for e in 0..2 {
                let (log, gate, replies) = (log.clone(), gate.clone(), replies.clone());
                register_async(&ss, &format!("e{e}"), move |m: RawMessage| {
                    let (log, mut gate, replies) = (log.clone(), gate.clone(), replies.clone());
                    Box::pin(async move {
                        log.push(Parts::of(&m));
                        while !*gate.borrow() {
                            if gate.changed().await.is_err() {
                                break;
                            }
                        }
                        let i: Option<usize> = m.header().split(':').next().and_then(|s| s.parse().ok());
                        Ok(i.and_then(|i| replies.get(i)).map(|p| p.msg()).unwrap_or_else(|| Parts::new("?", "", "").msg()))
                    }) as Reply<_>
                }).await?;
            }
            start(&server, addr).await?;
            let mut r = Raw::client(addr).await?;
            let local = r.local;
            let (bytes, whole) = c.sent();
            r.send_segments(&bytes, &c.seg, false).await?;
            let want = |mut v: Vec<Parts>| { v.sort(); v };
            let complete = want(whole.iter().map(|i| c.request(*i)).collect());
            let id = |i: usize| 10 + i as u32;
            let mut inbox = Inbox::default();
            let orderly = matches!(c.end, End::HalfClose | End::Silent);
            match c.end {
                End::HalfClose => {
                    r.half_close().await;
                    let _ = open.send(true);
                    r.drain(&mut inbox, "after half-close").await?;
                }
                End::Silent => {
                    let _ = open.send(true);
                    r.collect(&mut inbox, "silent client", |b| whole.iter().all(|i| b.has(id(*i)))).await?;
                    if want(log.get()) != complete {
                        return hard(format!("silent client: handled {:?}, complete were {complete:?}", log.get()));
                    }
                    r.half_close().await;
                    r.drain(&mut inbox, "after half-close").await?;
                }
                End::Close => {
                    r.close().await;
                    let _ = open.send(true);
                }
                End::Reset => {
                    r.reset().await;
                    let _ = open.send(true);
                }
            }
            if orderly {
                if want(log.get()) != complete {
                    return hard(format!("handled {:?}, complete were {complete:?}", log.get()));
                }
                for i in 0..c.calls.len() {
                    let a = inbox.of(id(i));
                    let fine = match a[..] {
                        [Answer::Reply(m)] => whole.contains(&i) && m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(&replies[i]),
                        [Answer::Error(..)] | [] => !whole.contains(&i),
                        _ => false,
                    };
                    if !fine {
                        return hard(format!("call {i} ({}) was answered with {:?}", if whole.contains(&i) { "complete" } else { "incomplete" }, a.iter().map(|a| a.show()).collect::<Vec<_>>()));
                    }
                }
                if inbox.partial() {
                    return hard("a response ends in the middle");
                }
                if let Some(a) = inbox.answers.iter().find(|a| a.0 < 10 || a.0 >= id(c.calls.len())) {
                    return hard(format!("answer to unknown id {}", a.0));
                }
            }
            // The server still serves.
            let mut fresh = Raw::client(addr).await?;
            for f in Msg::request("svc", "raw", [b"e0".to_vec(), b"new".to_vec(), vec![]]).whole(7) {
                fresh.send(&f).await?;
            }
            let mut inbox = Inbox::default();
            fresh.collect(&mut inbox, "a new connection's call", |b| b.has(7)).await?;
            if c.sockets && !eventually(4000, || peer::sockets(addr, Some(local)).iter().all(|s| s.0 != peer::ESTABLISHED && s.0 != peer::CLOSE_WAIT)).await {
                return soft(format!("the server keeps the connection of a gone client: {:?}", peer::sockets(addr, Some(local))));
            }
            let mut rest = complete;
            for p in log.get().into_iter().filter(|p| p.header != "new") {
                match rest.iter().position(|m| *m == p) {
                    Some(i) => {
                        rest.remove(i);
                    }
                    None => return hard(format!("a handler saw {p:?}: not a complete request, or twice")),
                }
            }
            if orderly && !rest.is_empty() {
                return hard(format!("not handled: {rest:?}"));
            }
            Ok(())
        })
    }
}
