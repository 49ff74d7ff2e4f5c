//! Losing a connection fails its pending calls and nothing else.
use super::prelude::*;
use peer::{Cmd, Did, Hub};
use std::collections::{BTreeMap, BTreeSet};
use tchannel_rs::messages::RawMessage;
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    calls: Vec<Call>,
    losses: Vec<Loss>,
    /// Connections lost while being set up.
    deaf: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    req: Arg,
    a: [Arg; 2],
    plan: Plan,
    code: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Loss {
    at: At,
    kind: Kind,
    picks: Vec<u8>,
    seg: Vec<u16>,
    /// No listener for a while afterwards.
    down: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum At {
    /// A 65536th of the answers.
    Part(u16),
    /// Bytes from the end of the answers' frame (a 256th of them).
    Frame(u8, i8),
    All,
    /// After this many frames of requests.
    Requests(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Fin,
    Close,
    Reset,
}
pub struct P;

/// Reads the calls that arrive and answers them, but for those the connection is lost under.
struct Round {
    /// Call number to its connection.
    seen: BTreeMap<usize, usize>,
    complete: BTreeMap<usize, (usize, u32)>,
    frames: BTreeMap<usize, usize>,
}
fn number(m: &Msg) -> usize {
    std::str::from_utf8(&m.args[0]).ok().and_then(|s| s[1..].parse().ok()).unwrap_or(0)
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C12";
    const RULE: &'static str = "1-6 concurrent calls of one client (1-4 connections), answered by a scripted server whose answers, interleaved and arbitrarily framed, are cut at any byte (dense around frame ends), or which stops reading the requests after some frames; then end of stream, close or reset, up to 3 times in a row, sometimes with no listener for a while or with handshakes cut. Oracle: a call whose answer had arrived returns it, every other on that connection an error, all other calls (other connections, other server, later ones) their own replies. Non-trivial: a call is pending when the connection is lost.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 10_000 } else { 500_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        let req = prop_oneof![8 => blob::small_arg(), 1 => blob::arg(big)];
        let a2 = prop_oneof![5 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
        let call = (req, a2, wire::gen::plan(4), prop_oneof![4 => Just(0u8), 1 => Just(1u8)]).prop_map(|(req, a, plan, code)| Call { req, a, plan, code });
        let at = prop_oneof![3 => any::<u16>().prop_map(At::Part), 5 => (any::<u8>(), -20i8..20).prop_map(|(k, d)| At::Frame(k, d)), 1 => Just(At::All), 2 => (1u8..6).prop_map(At::Requests)];
        let kind = prop_oneof![Just(Kind::Fin), Just(Kind::Close), Just(Kind::Reset)];
        let loss = (at, kind, vec(any::<u8>(), 0..6), vec(any::<u16>(), 0..3), proptest::bool::weighted(0.01)).prop_map(|(at, kind, picks, seg, down)| Loss { at, kind, picks, seg, down });
        let call = call.boxed();
        let history = if t == Tier::Long {
            prop_oneof![(vec(call.clone(), 1..=6), vec(loss.clone(), 200..=700)), (vec(call, 60..=300), vec(loss, 1..=4))].boxed()
        } else {
            (vec(call, 1..=6), vec(loss, 1..=3)).boxed()
        };
        (knobs(), history, prop_oneof![100 => Just(0u8), 1 => 1u8..3]).prop_map(|(knobs, (calls, losses), deaf)| C { knobs, calls, losses, deaf }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        for l in &c.losses {
            cl.push(format!("{:?}", l.at).split('(').next().unwrap().to_string());
            cl.push(format!("{:?}", l.kind));
            if l.down {
                cl.push("down".into());
            }
        }
        if c.deaf > 0 {
            cl.push("handshake cut".into());
        }
        cl.push(format!("{} losses", c.losses.len()));
        cl.sort();
        cl.dedup();
        (c.losses.iter().any(|l| l.at != At::All), cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let (addr, other) = (ctx.addr(), ctx.addr());
            let server = channel(&Knobs::default(), other)?;
            let go = Arc::new(Notify::new());
            let g = go.clone();
            let ss = sub(&server, "svc").await?;
            register_async(&ss, "slow", move |m: RawMessage| {
                let g = g.clone();
                Box::pin(async move { g.notified().await; Ok(m) }) as Reply<_>
            }).await?;
            start(&server, other).await?;
            let mut hub = Hub::unfriendly(peer::listen(addr)?, true, c.deaf as usize);
            let cl = client(&c.knobs)?;
            let cs = sub(&cl, "svc").await?;
            let slow = Parts::new("slow", "h", "b");
            let pending = tokio::spawn({ let (cs, slow) = (cs.clone(), slow.clone()); async move { call(&cs, &slow, other).await } });
            let replies: Vec<Parts> = c.calls.iter().enumerate().map(|(i, x)| {
                let mut cur = Cursor::new(blob::response_room(0, 3));
                Parts { ep: format!("r{i}"), header: x.a[0].text(&mut cur), body: x.a[1].bytes(&mut cur) }
            }).collect();
            let answer = |i: usize, id: u32| match c.calls.get(i) {
                Some(x) => Msg::reply(x.code, "raw", replies[i].args()).split(id, &x.plan),
                None => Msg::reply(0, "raw", [b"probe".to_vec(), vec![], vec![]]).whole(id),
            };
            let (rtx, mut results) = tokio::sync::mpsc::unbounded_channel();
            let ask = |i: usize| {
                let (cs, x, rtx) = (cs.clone(), c.calls[i].req, rtx.clone());
                tokio::spawn(async move {
                    let mut cur = Cursor::new(blob::request_room(3, 3));
                    let r = call(&cs, &Parts { ep: format!("c{i}"), header: "h".into(), body: x.bytes(&mut cur) }, addr).await;
                    let _ = rtx.send((i, r));
                });
            };
            for (round, loss) in c.losses.iter().enumerate() {
                let n = c.calls.len();
                (0..n).for_each(&ask);
                let mut got: Vec<Option<Res<Parts>>> = vec![None; n];
                let mut st = Round { seen: BTreeMap::new(), complete: BTreeMap::new(), frames: BTreeMap::new() };
                // Which connection got lost, the calls it was lost under, and the calls whose outcome is open.
                let mut lost: Option<usize> = None;
                let mut must_fail: BTreeSet<usize> = BTreeSet::new();
                let mut either: BTreeSet<usize> = BTreeSet::new();
                while got.iter().any(|g| g.is_none()) {
                    tokio::select! {
                        e = hub.next(8 * SECS) => match e {
                            Some((k, Did::Frame(f))) => {
                                if Some(k) == lost {
                                    continue;
                                }
                                *st.frames.entry(k).or_default() += 1;
                                if f.ty == wire::CALL_REQ {
                                    match wire::parse_call(&f) {
                                        Ok(p) => { st.seen.insert(number(&Msg { args: p.chunks, ..Msg::default() }), k); }
                                        Err(e) => return hard(format!("request frame: {e}")),
                                    }
                                }
                                if let Some(m) = hub.call(k, &f)? {
                                    let i = number(&m);
                                    st.complete.insert(i, (k, f.id));
                                    if lost.is_some() {
                                        hub.send(k, &answer(i, f.id));
                                    }
                                }
                                if lost.is_none() {
                                    if let At::Requests(_) = loss.at {
                                        if st.frames[&k] >= early(loss) || st.complete.len() == n {
                                            lost = Some(k);
                                            end(&hub, k, loss.kind);
                                            must_fail.extend(st.seen.iter().filter(|s| *s.1 == k).map(|s| *s.0));
                                            // Not seen: sent on the lost connection or to come on another one.
                                            either.extend((0..n).filter(|i| !st.seen.contains_key(i)));
                                            for (i, (kk, id)) in &st.complete {
                                                if *kk != k {
                                                    hub.send(*kk, &answer(*i, *id));
                                                }
                                            }
                                        }
                                    } else if st.complete.len() == n {
                                        let k = st.complete[&(round % n)].0;
                                        lost = Some(k);
                                        let on: Vec<(usize, u32)> = st.complete.iter().filter(|x| x.1 .0 == k).map(|x| (*x.0, x.1 .1)).collect();
                                        for (i, (kk, id)) in &st.complete {
                                            if *kk != k {
                                                hub.send(*kk, &answer(*i, *id));
                                            }
                                        }
                                        let frames = wire::interleave(on.iter().map(|(i, id)| answer(*i, *id)).collect(), &loss.picks);
                                        let mut ends = vec![];
                                        let mut total = 0;
                                        for f in &frames {
                                            total += f.1.body.len() + 16;
                                            ends.push(total);
                                        }
                                        let cut = match loss.at {
                                            At::Part(p) => total * p as usize / 65536,
                                            At::Frame(f, d) => (ends[ends.len() * f as usize / 256] as i64 + d as i64).clamp(0, total as i64) as usize,
                                            _ => total,
                                        };
                                        let bytes: Vec<u8> = frames.iter().flat_map(|f| f.1.enc()).take(cut).collect();
                                        let mut whole = BTreeSet::new();
                                        for (j, (i, _)) in on.iter().enumerate() {
                                            let last = frames.iter().rposition(|f| f.0 == j).unwrap();
                                            if ends[last] <= cut {
                                                whole.insert(*i);
                                            } else {
                                                must_fail.insert(*i);
                                            }
                                        }
                                        let mut at: Vec<usize> = loss.seg.iter().map(|s| cut * *s as usize / 65536).collect();
                                        at.push(cut);
                                        at.sort();
                                        let mut from = 0;
                                        for a in at {
                                            if a > from {
                                                hub.tell(k, Cmd::Send(bytes[from..a].to_vec()));
                                                from = a;
                                            }
                                        }
                                        if loss.kind == Kind::Reset {
                                            // A reset may destroy what has not been read yet.
                                            while whole.iter().any(|i| got[*i].is_none()) {
                                                match tokio::time::timeout(8 * SECS, results.recv()).await {
                                                    Ok(Some((i, r))) => got[i] = Some(r),
                                                    _ => return soft(format!("round {round}: calls {whole:?} do not return though their answers have arrived")),
                                                }
                                            }
                                        }
                                        end(&hub, k, loss.kind);
                                    }
                                }
                            }
                            Some((_, Did::Garbled(e))) => return hard(format!("client sent {e}")),
                            Some(_) => {}
                            None => return soft(format!("round {round}: no result of calls {:?}", got.iter().enumerate().filter(|g| g.1.is_none()).map(|g| g.0).collect::<Vec<_>>())),
                        },
                        r = results.recv() => {
                            let (i, r) = r.unwrap();
                            got[i] = Some(r);
                        }
                    }
                }
                for (i, g) in got.iter().enumerate() {
                    let what = format!("round {round}: call {i}");
                    match g.as_ref().unwrap() {
                        Res::Fail(_) if must_fail.contains(&i) || either.contains(&i) => {}
                        g if must_fail.contains(&i) => return hard(format!("{what}, whose answer had not completely arrived when its connection was lost, returned {g:?}")),
                        Res::Ok(p) if c.calls[i].code == 0 && *p == replies[i] => {}
                        Res::Message(p) if c.calls[i].code == 1 && *p == replies[i] => {}
                        Res::Fail(e) => return soft(format!("{what} failed though its answer had arrived: {e}")),
                        g => return hard(format!("{what} returned {g:?} instead of {:?}", replies[i])),
                    }
                }
                let Some(k) = lost else { return soft("no connection to lose") };
                // A connection lost with nothing pending is noticed when it is.
                let noticed = !must_fail.is_empty();
                if !noticed && loss.kind == Kind::Fin {
                    while hub.open.contains(&k) {
                        if hub.next(8 * SECS).await.is_none() {
                            return soft("the client keeps a connection its server closed");
                        }
                    }
                } else if !noticed {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                if loss.down {
                    drop(hub);
                    tokio::time::sleep(Duration::from_millis(20)).await;
                    let probe = tokio::spawn({ let cs = cs.clone(); async move { call(&cs, &Parts::new("c9999", "", ""), addr).await } });
                    tokio::time::sleep(Duration::from_millis(30)).await;
                    hub = Hub::new(peer::listen(addr)?, true);
                    probed(&mut hub, probe, &answer).await?;
                }
                let tries = if noticed || loss.kind == Kind::Fin { 1 } else { 100 };
                for t in 1..=tries {
                    let probe = tokio::spawn({ let cs = cs.clone(); async move { call(&cs, &Parts::new("c9999", "", ""), addr).await } });
                    match probed(&mut hub, probe, &answer).await {
                        Err(_) if t < tries => tokio::time::sleep(Duration::from_millis(5)).await,
                        r => {
                            r?;
                            break;
                        }
                    }
                }
            }
            go.notify_one();
            match pending.await {
                Ok(g) => expect_ok(g, &slow, "a call to another server")?,
                Err(e) => return hard(format!("caller: {e}")),
            }
            Ok(())
        })
    }
}
fn early(l: &Loss) -> usize {
    match l.at {
        At::Requests(k) => k as usize,
        _ => usize::MAX,
    }
}
fn end(hub: &Hub, k: usize, kind: Kind) {
    hub.tell(k, match kind {
        Kind::Fin => Cmd::HalfClose,
        Kind::Close => Cmd::Close,
        Kind::Reset => Cmd::Reset,
    });
}
async fn probed(hub: &mut Hub, mut probe: tokio::task::JoinHandle<Res<Parts>>, answer: &impl Fn(usize, u32) -> Vec<Frame>) -> R {
    loop {
        tokio::select! {
            e = hub.next(8 * SECS) => match e {
                Some((k, Did::Frame(f))) => {
                    if let Some(m) = hub.call(k, &f)? {
                        hub.send(k, &answer(number(&m), f.id));
                    }
                }
                Some((_, Did::Garbled(e))) => return hard(e),
                Some(_) => {}
                None => return soft("a call made after the loss does not return"),
            },
            r = &mut probe => return match r {
                Ok(g) => expect_ok(g, &Parts::new("probe", "", ""), "a call made after the loss"),
                Err(e) => hard(e.to_string()),
            },
        }
    }
}
