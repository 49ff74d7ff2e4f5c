//! No input crashes a server or disturbs its other connections.
use super::prelude::*;
use crate::fuzz::{self, ByteMut, Loose, Mut};
use peer::{Answer, Inbox};
use tchannel_rs::messages::{JsonMessage, RawMessage};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    attacks: Vec<Attack>,
    /// The canary's calls are cut into frames; some of them are sent before the attack, the rest after.
    canary: Plan,
    end: End,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    HalfClose,
    Close,
    Reset,
    /// Left open until the case is over.
    Open,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Attack {
    Frames { init: bool, items: Vec<Item>, picks: Vec<u8>, muts: Vec<Mut>, bytes: Vec<ByteMut>, seg: Vec<u16> },
    Bytes { init: bool, b: Vec<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    Call { id: u8, ep: u8, json: bool, a: [Arg; 2], plan: Plan },
    Loose(Loose),
    Ping(u8),
}
use Attack::*;
pub struct P;

/// The last ids, some in the middle, or small ones.
fn wide(id: u8) -> u32 {
    match id {
        250.. => u32::MAX - (255 - id) as u32,
        240.. => 0x7fff_fffe + (id - 240) as u32,
        _ => id as u32,
    }
}
impl Attack {
    fn bytes(&self, which: usize) -> Vec<u8> {
        let hello = |init: bool| if init { wire::init(wire::INIT_REQ, 1, 2, &[]).enc() } else { vec![] };
        match self {
            Bytes { init, b } => [hello(*init), b.clone()].concat(),
            Frames { init, items, picks, muts, bytes, .. } => {
                let seqs = items
                    .iter()
                    .enumerate()
                    .map(|(i, x)| match x {
                        Item::Call { id, ep, json, a, plan } => {
                            let mut cur = Cursor::new(blob::request_room(3, 3));
                            let (h, b) = (a[0].text(&mut cur), a[1].bytes(&mut cur));
                            let m = if *json {
                                Msg::request("svc", "json", [b"j".to_vec(), format!("{{\"{which}{i}\":1}}").into_bytes(), b"{}".to_vec()])
                            } else {
                                Msg::request("svc", "raw", [format!("e{}", ep % 3).into_bytes(), format!("{which}.{i}:{h}").into_bytes(), b])
                            };
                            m.split(wide(*id), plan)
                        }
                        Item::Loose(l) => vec![l.frame()],
                        Item::Ping(id) => vec![wire::ping(wire::PING_REQ, wide(*id))],
                    })
                    .collect();
                let mut f: Vec<Frame> = wire::interleave(seqs, picks).into_iter().map(|f| f.1).collect();
                f = fuzz::frames(f, muts);
                fuzz::bytes([hello(*init), wire::enc_all(&f)].concat(), bytes)
            }
        }
    }
}
/// The calls a stream may lead to handlers, as they may be handed over.
fn legal(stream: &[u8]) -> Vec<Parts> {
    let f = fuzz::parse(stream);
    match f.first() {
        Some(i) if i.ty == wire::INIT_REQ && i.body.len() >= 4 && i.body[..2] == [0, 2] => {}
        _ => return vec![],
    }
    fuzz::messages(&f[1..], false)
        .into_iter()
        .filter(|(_, m)| m.service == b"svc" && (fuzz::scheme_is(m, "raw") || fuzz::scheme_is(m, "json")))
        .filter_map(|(_, m)| Parts::from_args(&m.args))
        .collect()
}
fn attack() -> impl Strategy<Value = Attack> {
    let a2 = prop_oneof![8 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(70_000)]];
    let id = || prop_oneof![12 => 0u8..6, 1 => 240u8..=243, 1 => 253u8..=255];
    let call = (id(), any::<u8>(), proptest::bool::weighted(0.15), a2, wire::gen::plan(4)).prop_map(|(id, ep, json, a, plan)| Item::Call { id, ep, json, a, plan });
    let item = prop_oneof![8 => call, 2 => fuzz::loose().prop_map(Item::Loose), 1 => id().prop_map(Item::Ping)];
    let frames = (
        proptest::bool::weighted(0.95),
        vec(item, 1..7),
        vec(any::<u8>(), 0..8),
        vec(fuzz::mutation(), 0..5),
        prop_oneof![3 => vec(fuzz::byte_mutation(), 0..1), 1 => vec(fuzz::byte_mutation(), 1..4)],
        vec(any::<u16>(), 0..4),
    )
        .prop_map(|(init, items, picks, muts, bytes, seg)| Frames { init, items, picks, muts, bytes, seg });
    let bytes = (any::<bool>(), prop_oneof![vec(any::<u8>(), 0..300), vec(prop_oneof![Just(0u8), Just(16), Just(1), Just(3), Just(0xff)], 0..100)]).prop_map(|(init, b)| Bytes { init, b });
    prop_oneof![9 => frames, 1 => bytes]
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C10";
    const RULE: &'static str = "1-3 attackers send frame sequences (valid calls with colliding ids, cut and interleaved, stray frames) under up to 4 frame mutations (13 kinds) and 3 byte mutations, or arbitrary bytes, and half-close, close, reset or stay; a canary connection has calls before, across and after. Oracle: no panic, canary and a new connection served, handlers saw only calls which the bytes sent legally encode, none more often than encoded. Non-trivial: some attack is not a plain valid stream.";
    const NO_PANIC: bool = true;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 60_000 } else { 2_000_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let end = prop_oneof![5 => Just(End::HalfClose), 1 => Just(End::Close), 1 => Just(End::Reset), 1 => Just(End::Open)];
        (knobs(), vec(attack(), t.steps(1..=3, 500..=1500)), wire::gen::plan(3), end).prop_map(|(knobs, attacks, canary, end)| C { knobs, attacks, canary, end }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![format!("{:?}", c.end)];
        let mut nt = false;
        for (i, a) in c.attacks.iter().enumerate() {
            match a {
                Bytes { .. } => {
                    nt = true;
                    cl.push("arbitrary bytes".into());
                }
                Frames { items, muts, bytes, init, .. } => {
                    nt |= !muts.is_empty() || !bytes.is_empty() || !init || items.iter().any(|x| matches!(x, Item::Loose(_)));
                    cl.extend(muts.iter().map(|m| format!("{:?}", m.kind).split(['(', ' ']).next().unwrap().to_string()));
                    if !bytes.is_empty() {
                        cl.push("byte mutations".into());
                    }
                }
            }
            if legal(&a.bytes(i)).is_empty() {
                cl.push("no legal call left".into());
            }
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let server = channel(&c.knobs, addr)?;
            let ss = sub(&server, "svc").await?;
            let log: Log<Parts> = Log::default();
            for e in 0..3 {
                let log = log.clone();
                register(&ss, &format!("e{e}"), e % 2 == 0, move |m: RawMessage| {
                    log.push(Parts::of(&m));
                    Ok(Parts::new("r", "", "").msg())
                }).await?;
            }
            let jlog = log.clone();
            register(&ss, "j", true, move |m: JsonMessage| {
                jlog.push(Parts::new(m.method_name().clone(), serde_json::to_string(m.headers()).unwrap(), serde_json::to_string(m.body()).unwrap()));
                Ok(JsonMessage::new("r".into(), Default::default(), Default::default()))
            }).await?;
            register(&ss, "canary", true, |m: RawMessage| Ok(m)).await?;
            start(&server, addr).await?;
            let mut inbox = Inbox::default();
            let mut canary = Raw::client(addr).await?;
            let ask = |i: u32| Msg::request("svc", "raw", [b"canary".to_vec(), format!("{i}").into_bytes(), blob::bytes(i as u8, 700)]);
            // Ids the attackers use too, and one call under way during the attack.
            let half = ask(3).split(3, &c.canary);
            let (early, late) = half.split_at(half.len() / 2);
            for f in ask(0).whole(0).iter().chain(early) {
                canary.send(f).await?;
            }
            canary.collect(&mut inbox, "the canary's first call", |b| b.has(0)).await?;
            let mut streams = vec![];
            let mut open = vec![];
            for (i, a) in c.attacks.iter().enumerate() {
                let b = a.bytes(i);
                if let Ok(mut r) = Raw::connect(addr).await {
                    let seg: &[u16] = if let Frames { seg, .. } = a { seg } else { &[] };
                    let _ = r.send_segments(&b, seg, false).await;
                    open.push(r);
                }
                streams.push(b);
                let id = 10 + i as u32;
                for f in ask(id).whole(id) {
                    canary.send(&f).await?;
                }
            }
            let mut left = vec![];
            for (i, mut r) in open.into_iter().enumerate() {
                match c.end {
                    End::HalfClose => {
                        r.half_close().await;
                        let mut seen = Inbox::default();
                        loop {
                            match r.next(8 * SECS).await {
                                Ev::Frame(f) if f.ty == wire::INIT_RES => {}
                                Ev::Frame(f) => {
                                    if let Err(e) = seen.feed(&f) {
                                        return hard(format!("attacker {i} read: {e}"));
                                    }
                                }
                                Ev::Garbled(e) => return hard(format!("attacker {i} read garbled frames: {e}")),
                                Ev::Quiet => return soft(format!("attacker {i}'s half-closed connection stays open")),
                                Ev::Eof { .. } | Ev::Reset => break,
                            }
                        }
                    }
                    End::Close => r.close().await,
                    End::Reset => r.reset().await,
                    End::Open => left.push(r),
                }
            }
            for f in late.iter().chain(&ask(1).whole(1)) {
                canary.send(f).await?;
            }
            let mut ids = vec![0, 1, 3];
            ids.extend((0..c.attacks.len()).map(|i| 10 + i as u32));
            canary.collect(&mut inbox, "the canary's calls", |b| ids.iter().all(|i| b.has(*i))).await?;
            let mut fresh = Raw::client(addr).await?;
            let mut inbox2 = Inbox::default();
            for f in ask(2).whole(2) {
                fresh.send(&f).await?;
            }
            fresh.collect(&mut inbox2, "a new connection's call", |b| b.has(2)).await?;
            inbox.answers.extend(inbox2.answers);
            ids.push(2);
            for id in ids {
                match inbox.of(id)[..] {
                    [Answer::Reply(m)] if m.code == 0 && m.args == ask(id).args => {}
                    ref a => return hard(format!("canary call {id} was answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
                }
            }
            // Every call handled is one the bytes encode.
            let mut may: Vec<Parts> = streams.iter().flat_map(|s| legal(s)).map(normal).collect();
            for p in log.get() {
                match may.iter().position(|m| *m == p) {
                    Some(i) => {
                        may.swap_remove(i);
                    }
                    None => return hard(format!("a handler was invoked with {p:?}, which nobody legally sent (that often)")),
                }
            }
            Ok(())
        })
    }
}
/// JSON arguments compare as JSON.
fn normal(p: Parts) -> Parts {
    if p.ep != "j" {
        return p;
    }
    let n = |s: &[u8]| serde_json::from_slice::<serde_json::Map<String, serde_json::Value>>(s).map(|m| serde_json::to_string(&m).unwrap()).unwrap_or_default();
    Parts::new(p.ep.clone(), n(p.header.as_bytes()), n(&p.body))
}
