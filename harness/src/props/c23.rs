//! As many requests of a connection as configured are handled at a time.
use super::prelude::*;
use peer::{Answer, Inbox};
use std::collections::{BTreeMap, BTreeSet};
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::RawMessage;
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    workers: u8,
    knobs: Knobs,
    conns: u8,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Requests in one go, to endpoints nobody uses, or to one endpoint.
    Send { conn: u8, n: u8, same: Option<u8>, end: End },
    /// The first frames of requests.
    Begin { conn: u8, n: u8 },
    /// The rest of one of them.
    Complete(u8),
    /// Ends handlers being run, with the connection given or any.
    Finish { conn: Option<u8>, picks: Vec<u8> },
    /// A ping, and a request to an unknown endpoint (which needs a task, too, but no handler).
    Ping(u8),
    /// Closes a connection, and opens another instead.
    Renew { conn: u8, reset: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Reply,
    Error,
}
pub struct P;
/// Endpoints for any number of requests. Others get one at a time.
const SAME: u8 = 3;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C23";
    const RULE: &'static str = "Histories of 1-12 steps on 1-3 connections to a server whose handlers wait to be ended: several requests at once (to endpoints of their own or to the same one), first frames and last frames of requests, handlers ended (with reply or error), pings, connections replaced. After each step: no connection ever had more handlers running than the task limit, and, as long as its requests go to endpoints of their own, it gets to min(limit, complete requests pending). In the end all handlers are ended as they start, and every request is answered with its own reply. Non-trivial: more complete requests than the limit are pending on a connection.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 12_000 } else { 400_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let end = prop_oneof![4 => Just(End::Reply), 1 => Just(End::Error)];
        let same = prop_oneof![3 => Just(None), 1 => (0..SAME).prop_map(Some)];
        let n = if t == Tier::Long { prop_oneof![3 => 1u8..=12, 1 => 12u8..=250].boxed() } else { (1u8..=12).boxed() };
        let knobs = (knobs(), if t == Tier::Long { prop_oneof![1 => Just(None), 1 => (1u32..=200).prop_map(Some)].boxed() } else { Just(None).boxed() }).prop_map(|(k, tasks)| Knobs { tasks: tasks.unwrap_or(k.tasks), ..k });
        let op = prop_oneof![
            6 => (any::<u8>(), n, same, end).prop_map(|(conn, n, same, end)| Op::Send { conn, n, same, end }),
            2 => (any::<u8>(), 1u8..=4).prop_map(|(conn, n)| Op::Begin { conn, n }),
            2 => any::<u8>().prop_map(Op::Complete),
            5 => (proptest::option::of(any::<u8>()), vec(any::<u8>(), 1..=6)).prop_map(|(conn, picks)| Op::Finish { conn, picks }),
            1 => any::<u8>().prop_map(Op::Ping),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(conn, reset)| Op::Renew { conn, reset }),
        ];
        (prop_oneof![2 => Just(0u8), 1 => 2u8..=4], knobs, 1u8..=3, vec(op, t.steps(1..=12, 100..=400)))
            .prop_map(|(workers, knobs, conns, ops)| C { workers, knobs, conns, ops })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        // As far as it can be told beforehand.
        let mut pending = vec![0usize; c.conns as usize];
        let (mut nt, mut cl) = (false, vec![]);
        for op in &c.ops {
            match op {
                Op::Send { conn, n, same, end } => {
                    let p = &mut pending[*conn as usize % c.conns as usize];
                    *p += *n as usize;
                    if *p > c.knobs.tasks as usize {
                        nt = true;
                        cl.push("more requests than the limit");
                    }
                    if same.is_some() {
                        cl.push("to one endpoint");
                    }
                    if *end == End::Error {
                        cl.push("handlers fail");
                    }
                }
                Op::Begin { .. } => cl.push("incomplete requests"),
                Op::Finish { picks, .. } => {
                    cl.push("handlers end");
                    for p in &mut pending {
                        *p = p.saturating_sub(picks.len());
                    }
                }
                Op::Renew { conn, .. } => {
                    pending[*conn as usize % c.conns as usize] = 0;
                    cl.push("connection replaced");
                }
                Op::Complete(_) | Op::Ping(_) => {}
            }
        }
        cl.sort();
        cl.dedup();
        (nt, cl.into_iter().map(String::from).collect())
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the task limit is one per connection".into()]
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
}

#[derive(Default)]
struct State {
    /// Handlers running, by connection; and the most there were.
    running: BTreeMap<usize, BTreeSet<usize>>,
    most: BTreeMap<usize, usize>,
    handled: BTreeMap<usize, usize>,
    /// Requests by number: connection, end, gate.
    reqs: Vec<(usize, End, Arc<Notify>)>,
    /// From when on handlers end at once.
    open: bool,
}
/// A handler's run, also if it is dropped.
struct Running(Arc<Mutex<State>>, usize, usize);
impl Drop for Running {
    fn drop(&mut self) {
        self.0.lock().unwrap().running.entry(self.1).or_default().remove(&self.2);
    }
}

struct Conn {
    serial: usize,
    raw: Raw,
    inbox: Inbox,
    /// Complete requests sent, not ended.
    own: BTreeSet<usize>,
    same: BTreeSet<usize>,
    pings: usize,
}
struct Late {
    i: usize,
    ep: usize,
    conn: usize,
    frames: Vec<Frame>,
}

async fn run(c: C, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let server = channel(&c.knobs, addr)?;
    let svc = sub(&server, "svc").await?;
    let st: Arc<Mutex<State>> = Arc::default();
    let limit = c.knobs.tasks as usize;
    let own = 48.max(c.ops.len() * 12);
    let name = |ep: usize| if ep < own { format!("own{ep}") } else { format!("same{}", ep - own) };
    for e in 0..own + SAME as usize {
        let st = st.clone();
        let ep = name(e);
        register_async(&svc, &ep, move |m: RawMessage| {
            let st = st.clone();
            Box::pin(async move {
                let Ok(i) = m.header().parse::<usize>() else { return Err(HandlerError::GeneralError("header".into())) };
                let (_run, end, gate) = {
                    let mut s = st.lock().unwrap();
                    let Some((conn, end, gate)) = s.reqs.get(i).cloned() else { return Err(HandlerError::GeneralError("number".into())) };
                    *s.handled.entry(i).or_default() += 1;
                    let r = s.running.entry(conn).or_default();
                    r.insert(i);
                    let n = r.len();
                    let most = s.most.entry(conn).or_default();
                    *most = n.max(*most);
                    (Running(st.clone(), conn, i), end, (!s.open).then_some(gate))
                };
                match gate {
                    Some(g) => g.notified().await,
                    None => tokio::task::yield_now().await,
                }
                match end {
                    End::Reply => Ok(m),
                    End::Error => Err(HandlerError::GeneralError("asked to fail".into())),
                }
            }) as Reply<_>
        })
        .await?;
    }
    start(&server, addr).await?;
    let mut conns = vec![];
    let mut serials = 0;
    for _ in 0..c.conns {
        conns.push(Conn { serial: serials, raw: Raw::client(addr).await?, inbox: Inbox::default(), own: BTreeSet::new(), same: BTreeSet::new(), pings: 0 });
        serials += 1;
    }
    let mut free: BTreeSet<usize> = (0..own).collect();
    // Endpoint of each request.
    let mut ep_of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut late: Vec<Late> = vec![];
    let request = |i: usize, ep: usize, big: bool| {
        Msg::request("svc", "raw", [name(ep).into_bytes(), i.to_string().into_bytes(), vec![7; if big { 100_000 } else { i % 50 }]]).whole(i as u32)
    };
    let over = |st: &Arc<Mutex<State>>, what: &str| -> R {
        match st.lock().unwrap().most.iter().find(|m| *m.1 > limit) {
            Some((c, n)) => hard(format!("{what}: {n} handlers were running for connection {c}, the limit is {limit}")),
            None => Ok(()),
        }
    };
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k} {op:?}");
        let of = |x: u8| x as usize % c.conns as usize;
        match op {
            Op::Send { conn, n, same, end } => {
                let x = &mut conns[of(*conn)];
                let mut bytes = vec![];
                for _ in 0..*n {
                    let i = st.lock().unwrap().reqs.len();
                    let ep = match same {
                        Some(s) => own + *s as usize,
                        None => match free.pop_first() {
                            Some(e) => e,
                            None => break,
                        },
                    };
                    st.lock().unwrap().reqs.push((x.serial, *end, Arc::default()));
                    ep_of.insert(i, ep);
                    if ep < own { x.own.insert(i) } else { x.same.insert(i) };
                    bytes.extend(wire::enc_all(&request(i, ep, false)));
                }
                x.raw.send_bytes(&bytes).await?;
            }
            Op::Begin { conn, n } => {
                let x = &mut conns[of(*conn)];
                for _ in 0..*n {
                    let Some(ep) = free.pop_first() else { break };
                    let i = st.lock().unwrap().reqs.len();
                    st.lock().unwrap().reqs.push((x.serial, End::Reply, Arc::default()));
                    ep_of.insert(i, ep);
                    let mut frames = request(i, ep, true);
                    let rest = frames.split_off(1);
                    x.raw.send_bytes(&wire::enc_all(&frames)).await?;
                    late.push(Late { i, ep, conn: x.serial, frames: rest });
                }
            }
            Op::Complete(p) => {
                if !late.is_empty() {
                    let l = late.swap_remove(*p as usize % late.len());
                    if let Some(x) = conns.iter_mut().find(|x| x.serial == l.conn) {
                        x.raw.send_bytes(&wire::enc_all(&l.frames)).await?;
                        x.own.insert(l.i);
                    }
                }
            }
            Op::Finish { conn, picks } => {
                let mut ended = vec![];
                for p in picks {
                    let s = st.lock().unwrap();
                    let who = conn.map(|c| conns[of(c)].serial);
                    let can: Vec<usize> = s.running.iter().filter(|r| who.is_none_or(|w| w == *r.0)).flat_map(|r| r.1.iter().copied()).filter(|i| !ended.contains(i)).collect();
                    if can.is_empty() {
                        break;
                    }
                    let i = can[*p as usize % can.len()];
                    s.reqs[i].2.notify_one();
                    ended.push(i);
                }
                for i in ended {
                    let serial = st.lock().unwrap().reqs[i].0;
                    // Of a connection which is gone, it may have been dropped instead.
                    if let Some(x) = conns.iter_mut().find(|x| x.serial == serial) {
                        x.raw.collect(&mut x.inbox, &format!("{what}: the answer of {i}, whose handler was ended"), |b| b.has(i as u32)).await?;
                        x.own.remove(&i);
                        x.same.remove(&i);
                        if ep_of[&i] < own {
                            free.insert(ep_of[&i]);
                        }
                    }
                }
            }
            Op::Ping(conn) => {
                let x = &mut conns[of(*conn)];
                x.raw.send(&Frame::new(wire::PING_REQ, u32::MAX - x.pings as u32, vec![])).await?;
                x.pings += 1;
            }
            Op::Renew { conn, reset } => {
                let x = &mut conns[of(*conn)];
                let new = Conn { serial: serials, raw: Raw::client(addr).await?, inbox: Inbox::default(), own: BTreeSet::new(), same: BTreeSet::new(), pings: 0 };
                serials += 1;
                let old = std::mem::replace(x, new);
                if *reset { old.raw.reset().await } else { old.raw.close().await };
                late.retain(|l| l.conn != old.serial);
                // Whether its handlers go on until they are ended is not said: let them end.
                // Its endpoints stay taken.
                for i in old.own.iter().chain(&old.same) {
                    st.lock().unwrap().reqs[*i].2.notify_one();
                }
            }
        }
        over(&st, &what)?;
        for x in &conns {
            let want = limit.min(x.own.len());
            // Requests to one endpoint may take the tasks and wait.
            if x.same.is_empty() {
                let got = || st.lock().unwrap().running.get(&x.serial).map_or(0, |r| r.len());
                if !eventually(4000, || got() >= want).await {
                    over(&st, &what)?;
                    return soft(format!("{what}: {} handlers are running for connection {}, which has {} complete requests pending, the limit is {limit}", got(), x.serial, x.own.len()));
                }
            } else if !x.own.is_empty() || !x.same.is_empty() {
                // Unless the handler it waits for runs for another connection.
                let any = || st.lock().unwrap().running.values().any(|r| !r.is_empty());
                if !eventually(4000, any).await {
                    return soft(format!("{what}: no handler is running, though connection {} has requests pending", x.serial));
                }
            }
        }
        over(&st, &what)?;
    }
    // All handlers end from now on.
    {
        let mut s = st.lock().unwrap();
        s.open = true;
        for r in &s.reqs {
            r.2.notify_one();
        }
    }
    for l in late {
        if let Some(x) = conns.iter_mut().find(|x| x.serial == l.conn) {
            x.raw.send_bytes(&wire::enc_all(&l.frames)).await?;
            x.own.insert(l.i);
            ep_of.insert(l.i, l.ep);
        }
    }
    for x in &mut conns {
        let (mine, same, pings) = (x.own.clone(), x.same.clone(), x.pings);
        let all = move |b: &Inbox| mine.iter().chain(&same).all(|i| b.has(*i as u32)) && (0..pings).all(|p| b.has(u32::MAX - p as u32));
        x.raw.collect(&mut x.inbox, &format!("connection {}, in the end", x.serial), all).await?;
    }
    over(&st, "in the end")?;
    let s = st.lock().unwrap();
    for x in &conns {
        for (i, r) in s.reqs.iter().enumerate().filter(|r| r.1.0 == x.serial) {
            match (r.1, &x.inbox.of(i as u32)[..]) {
                (End::Reply, [Answer::Reply(m)]) if m.code == 0 && m.args[1] == i.to_string().as_bytes() => {}
                (End::Error, [Answer::Error(..)]) => {}
                (e, a) => return hard(format!("request {i} ({e:?}) was answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
            }
            if s.handled.get(&i) != Some(&1) {
                return hard(format!("request {i} was handled {:?} times", s.handled.get(&i)));
            }
        }
        if s.running.get(&x.serial).is_some_and(|r| !r.is_empty()) {
            return soft("a handler is still running");
        }
    }
    Ok(())
}
