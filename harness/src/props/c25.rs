//! Handlers use the channel they serve.
use super::prelude::*;
use std::collections::BTreeMap;
use std::sync::Weak;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::RawMessage;
use tchannel_rs::{SubChannel, TChannel};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    workers: u8,
    /// One for each channel, which is a server and a client.
    knobs: Vec<Knobs>,
    /// Handlers. They call those behind them only, so that none waits for itself.
    nodes: Vec<Node>,
    /// Concurrent calls.
    waves: Vec<Vec<(From, Prog)>>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Node {
    ch: u8,
    svc: u8,
    ep: u8,
    /// A plain handler: it takes no actions.
    plain: bool,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum From {
    Outside,
    /// The user of one of the channels.
    Channel(u8),
}
/// A call: whom to, what its handler does, and how it ends.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    /// Which one of the handlers behind the calling one.
    node: u8,
    req: Arg,
    rep: Arg,
    acts: Vec<Act>,
    end: End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Call(Prog),
    Join(Vec<Prog>),
    /// A call dropped after so many polls.
    Gone(Prog, u8),
    /// A call made by a task of its own.
    Spawn(Prog),
    /// A call no handler is there for: an endpoint or a service which is missing.
    Missing(u8, bool),
    Yield(u8),
    /// A handler is registered, called and unregistered.
    Temp { plain: bool, other: bool, #[serde(default)] how: How },
    /// A service is asked for for the first time, and again.
    Sub,
    /// The server is started although it runs.
    Start,
    /// A taken name is registered, a missing one unregistered.
    Refused,
}
/// How a temporary handler which is no plain one ends.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    /// Unregistered after its call.
    #[default]
    After,
    /// Unregistered, while at work, by the handler which waits for it.
    AtWork,
    /// By itself.
    Itself,
    /// By itself, and replaced by another one.
    Replaced,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Ok,
    Message,
    Fail,
}
pub struct P;

/// A call of the case, by its number.
struct Flat {
    node: usize,
    req: Arg,
    rep: Arg,
    acts: Vec<Step>,
    end: End,
    /// Whether it may stay unhandled.
    loose: bool,
}
enum Step {
    Call(usize),
    Join(Vec<usize>),
    Gone(usize, usize),
    Spawn(usize),
    Missing(usize, bool),
    Yield(usize),
    Temp { plain: bool, other: bool, how: How },
    Sub,
    Start,
    Refused,
}
fn flatten(p: &Prog, first: usize, nodes: &[Node], loose: bool, out: &mut Vec<Flat>) -> Option<usize> {
    if first >= nodes.len() {
        return None;
    }
    let node = first + p.node as usize % (nodes.len() - first);
    let id = out.len();
    out.push(Flat { node, req: p.req.clone(), rep: p.rep.clone(), acts: vec![], end: p.end, loose });
    let mut acts = vec![];
    if !nodes[node].plain {
        for a in &p.acts {
            let mut sub = |p: &Prog, l: bool| flatten(p, node + 1, nodes, l, out);
            match a {
                Act::Call(p) => acts.extend(sub(p, loose).map(Step::Call)),
                Act::Join(ps) => acts.push(Step::Join(ps.iter().filter_map(|p| sub(p, loose)).collect())),
                Act::Gone(p, n) => acts.extend(sub(p, true).map(|i| Step::Gone(i, *n as usize))),
                Act::Spawn(p) => acts.extend(sub(p, loose).map(Step::Spawn)),
                Act::Missing(n, svc) => acts.push(Step::Missing(*n as usize % nodes.len(), *svc)),
                Act::Yield(n) => acts.push(Step::Yield(*n as usize)),
                Act::Temp { plain, other, how } => acts.push(Step::Temp { plain: *plain, other: *other, how: if *plain { How::After } else { *how } }),
                Act::Sub => acts.push(Step::Sub),
                Act::Start => acts.push(Step::Start),
                Act::Refused => acts.push(Step::Refused),
            }
        }
    }
    out[id].acts = acts;
    Some(id)
}
/// What the handler of a call must find out by its actions.
fn trace(all: &[Flat], i: usize) -> String {
    let mut s = format!("{i}(");
    for a in &all[i].acts {
        match a {
            Step::Call(k) | Step::Spawn(k) => s += &outcome(all, *k),
            Step::Join(ks) => ks.iter().for_each(|k| s += &outcome(all, *k)),
            Step::Missing(..) => s += "X",
            Step::Temp { .. } => s += "T",
            Step::Sub => s += "S",
            Step::Start | Step::Refused => s += "E",
            Step::Gone(..) | Step::Yield(_) => {}
        }
    }
    // Its digest would do, but it tells less.
    if s.len() > 2000 {
        let h = s.bytes().fold(7u64, |a, b| a.wrapping_mul(1_000_003).wrapping_add(b as u64));
        s = format!("{i}(#{h:x}");
    }
    s + ")"
}
fn outcome(all: &[Flat], i: usize) -> String {
    match all[i].end {
        End::Ok => format!("+{}", trace(all, i)),
        End::Message => format!("-{}", trace(all, i)),
        End::Fail => format!("!{i}"),
    }
}
fn request(nodes: &[Node], all: &[Flat], i: usize) -> Parts {
    let mut cur = Cursor::new(blob::request_room(5, 3) - 20);
    Parts { ep: endpoint(&nodes[all[i].node]), header: format!("{i}"), body: all[i].req.bytes(&mut cur) }
}
fn reply(all: &[Flat], i: usize, trace: String) -> Parts {
    let mut cur = Cursor::new(blob::response_room(5, 3) - 20);
    Parts { ep: format!("r{i}"), header: trace, body: all[i].rep.bytes(&mut cur) }
}

struct World {
    nodes: Vec<Node>,
    all: Vec<Flat>,
    addrs: Vec<SocketAddr>,
    chans: Vec<Weak<TChannel>>,
    seen: Log<usize>,
    wrong: Log<String>,
}
fn service(n: &Node) -> String {
    format!("s{}", n.svc)
}
fn endpoint(n: &Node) -> String {
    format!("e{}", n.ep)
}
impl World {
    /// A call of node `i`'s by the user of `ch`: its outcome in short, or what is wrong with it.
    async fn call(&self, ch: &TChannel, i: usize) -> Result<String, String> {
        let n = &self.nodes[self.all[i].node];
        let s = ch.subchannel(service(n)).await.map_err(|e| format!("subchannel: {e}"))?;
        let r = call(&s, &request(&self.nodes, &self.all, i), self.addrs[n.ch as usize]).await;
        match (self.all[i].end, r) {
            (End::Ok, Res::Ok(p)) if p.body == reply(&self.all, i, String::new()).body && p.ep == format!("r{i}") => Ok(format!("+{}", p.header)),
            (End::Message, Res::Message(p)) if p.body == reply(&self.all, i, String::new()).body && p.ep == format!("r{i}") => Ok(format!("-{}", p.header)),
            (End::Fail, Res::Fail(e)) if e.contains(&format!("failure of {i}.")) => Ok(format!("!{i}")),
            (end, r) => Err(format!("call {i} to handler {}, which ends with {end:?}, got {r:?}", self.all[i].node)),
        }
    }
    async fn act(self: Arc<Self>, i: usize, k: usize, ch: &Arc<TChannel>) -> Result<String, String> {
        let me = &self.nodes[self.all[i].node];
        let err = |e: tchannel_rs::errors::TChannelError| format!("handler of call {i}, action {k}: {e}");
        Ok(match &self.all[i].acts[k] {
            Step::Call(j) => self.call(ch, *j).await?,
            Step::Join(js) => futures::future::join_all(js.iter().map(|j| self.call(ch, *j))).await.into_iter().collect::<Result<Vec<_>, _>>()?.concat(),
            Step::Gone(j, n) => {
                let _ = at_most(self.call(ch, *j), *n, None).await.transpose()?;
                String::new()
            }
            Step::Spawn(j) => {
                let (w, ch, j) = (self.clone(), ch.clone(), *j);
                tokio::spawn(async move { w.call(&ch, j).await }).await.map_err(|e| format!("{e}"))??
            }
            Step::Missing(n, svc) => {
                let n = &self.nodes[*n];
                let s = ch.subchannel(if *svc { "missing".to_string() } else { service(n) }).await.map_err(err)?;
                match call(&s, &Parts::new(if *svc { "e0" } else { "missing" }, "", "x"), self.addrs[n.ch as usize]).await {
                    Res::Fail(_) => "X".into(),
                    r => return Err(format!("a call no handler is there for got {r:?}")),
                }
            }
            Step::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
                String::new()
            }
            Step::Temp { plain, other, how } => {
                let name = if *other { format!("temp{i}.{k}") } else { service(me) };
                let (ep, how) = (format!("t{i}.{k}"), *how);
                let s: Arc<SubChannel> = ch.subchannel(name).await.map_err(err)?;
                let answer = move |m: RawMessage| Ok(Parts::new("t", format!("{i}.{k}"), Parts::of(&m).body).msg());
                let begun = Arc::new(tokio::sync::Notify::new());
                let go = Arc::new(tokio::sync::Notify::new());
                let r = if *plain {
                    s.register(&ep, Plain(Arc::new(answer))).await
                } else {
                    let (s, ep, begun, go) = (s.clone(), ep.clone(), begun.clone(), go.clone());
                    s.clone().register_async(&ep.clone(), fun(move |m| {
                        let (s, ep, begun, go) = (s.clone(), ep.clone(), begun.clone(), go.clone());
                        Box::pin(async move {
                            let failed = |e: tchannel_rs::errors::TChannelError| HandlerError::GeneralError(format!("a temporary handler: {e}"));
                            match how {
                                How::After => {}
                                How::AtWork => {
                                    begun.notify_one();
                                    go.notified().await;
                                }
                                How::Itself => s.unregister(&ep).await.map_err(failed)?,
                                How::Replaced => {
                                    s.unregister(&ep).await.map_err(failed)?;
                                    s.register(&ep, Plain(Arc::new(|m: RawMessage| Ok(Parts::new("u", "", Parts::of(&m).body).msg())))).await.map_err(failed)?;
                                }
                            }
                            answer(m)
                        }) as Reply<_>
                    })).await
                };
                r.map_err(err)?;
                let addr = self.addrs[me.ch as usize];
                let req = Parts::new(ep.clone(), "h", "b");
                let got = if how == How::AtWork {
                    let called = call(&s, &req, addr);
                    tokio::pin!(called);
                    tokio::select! {
                        r = &mut called => r,
                        _ = begun.notified() => {
                            s.unregister(&ep).await.map_err(err)?;
                            go.notify_one();
                            called.await
                        }
                    }
                } else {
                    call(&s, &req, addr).await
                };
                if got != Res::Ok(Parts::new("t", format!("{i}.{k}"), "b")) {
                    return Err(format!("a handler registered by a handler (unregistered: {how:?}) answered with {got:?}"));
                }
                if how == How::Replaced {
                    let got = call(&s, &req, addr).await;
                    if got != Res::Ok(Parts::new("u", "", "b")) {
                        return Err(format!("a handler registered by the one it replaces answered with {got:?}"));
                    }
                }
                if matches!(how, How::After | How::Replaced) {
                    s.unregister(&ep).await.map_err(err)?;
                }
                match call(&s, &req, addr).await {
                    Res::Fail(_) => "T".into(),
                    r => return Err(format!("an unregistered handler ({how:?}) answered with {r:?}")),
                }
            }
            Step::Sub => {
                let a = ch.subchannel(format!("sub{i}.{k}")).await.map_err(err)?;
                let b = ch.subchannel(format!("sub{i}.{k}")).await.map_err(err)?;
                if !Arc::ptr_eq(&a, &b) {
                    return Err("two subchannels for one service name".into());
                }
                "S".into()
            }
            Step::Start => {
                if ch.start_server().is_ok() {
                    return Err("the running server was started by a handler".into());
                }
                "E".into()
            }
            Step::Refused => {
                let s = ch.subchannel(service(me)).await.map_err(err)?;
                if s.register(endpoint(me), Plain(Arc::new(|m: RawMessage| Ok(m)))).await.is_ok() {
                    return Err("a handler's own name was registered again".into());
                }
                if s.unregister(format!("none{i}.{k}")).await.is_ok() {
                    return Err("a missing name was unregistered".into());
                }
                "E".into()
            }
        })
    }
    async fn handle(self: Arc<Self>, node: usize, m: RawMessage) -> Result<RawMessage, HandlerError<RawMessage>> {
        let p = Parts::of(&m);
        let i = match p.header.parse::<usize>() {
            Ok(i) if i < self.all.len() && p == request(&self.nodes, &self.all, i) && self.all[i].node == node => i,
            _ => {
                self.wrong.push(format!("handler {node} got {p:?}"));
                return Ok(m);
            }
        };
        self.seen.push(i);
        let mut t = format!("{i}(");
        for k in 0..self.all[i].acts.len() {
            let Some(ch) = self.chans[self.nodes[node].ch as usize].upgrade() else { return Ok(m) };
            match self.clone().act(i, k, &ch).await {
                Ok(s) => t += &s,
                Err(e) => {
                    self.wrong.push(e);
                    return Ok(m);
                }
            }
        }
        if t.len() > 2000 {
            let h = t.bytes().fold(7u64, |a, b| a.wrapping_mul(1_000_003).wrapping_add(b as u64));
            t = format!("{i}(#{h:x}");
        }
        let r = reply(&self.all, i, t + ")").msg();
        match self.all[i].end {
            End::Ok => Ok(r),
            End::Message => Err(HandlerError::MessageError(r)),
            End::Fail => Err(HandlerError::GeneralError(format!("failure of {i}."))),
        }
    }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C25";
    const RULE: &'static str = "1-3 channels, each a server and a client, with up to 10 handlers in all, some under the same names on different channels; 1-3 waves of 1-4 concurrent calls from outside or by the channels' users, whose handlers take up to 4 actions each, nested up to 4 deep: calls to handlers further on (of their own channel or others) one by one, at once, from other tasks, abandoned, or to missing names; registering, calling and unregistering a handler (after its call, while it is at work, by itself, or replaced by itself); asking for new subchannels; starting the running server, registering taken and unregistering missing names. Any buffer and connection settings, tasks beyond what is pending. Oracle: the trace of each call's actions and its outcome (reply, error message, error with its text), computed from the case; each call is handled once, abandoned ones at most once. Non-trivial: a handler makes a call.";
    const THREADS: usize = 64;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 4_000 } else { 120_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let arg = || prop_oneof![20 => blob::small_arg(), 1 => blob::arg(140_000)];
        let end = || proptest::sample::select(vec![End::Ok, End::Ok, End::Ok, End::Ok, End::Message, End::Fail]);
        let leaf_act = || prop_oneof![
            1 => (any::<u8>(), any::<bool>()).prop_map(|(n, s)| Act::Missing(n, s)),
            2 => (0u8..6).prop_map(Act::Yield),
            2 => (any::<bool>(), any::<bool>(), proptest::sample::select(vec![How::After, How::AtWork, How::Itself, How::Replaced])).prop_map(|(plain, other, how)| Act::Temp { plain, other, how: if plain { How::After } else { how } }),
            1 => Just(Act::Sub),
            1 => Just(Act::Start),
            1 => Just(Act::Refused),
        ];
        let leaf = (any::<u8>(), arg(), arg(), vec(leaf_act(), 0..=2), end()).prop_map(|(node, req, rep, acts, end)| Prog { node, req, rep, acts, end }).boxed();
        let prog = leaf.prop_recursive(3, 24, 4, move |inner| {
            let act = prop_oneof![
                4 => inner.clone().prop_map(Act::Call),
                2 => vec(inner.clone(), 1..=4).prop_map(Act::Join),
                1 => (inner.clone(), 1u8..20).prop_map(|(p, n)| Act::Gone(p, n)),
                1 => inner.prop_map(Act::Spawn),
                2 => leaf_act(),
            ];
            // Not far on, so that there is a way to go.
            (prop_oneof![3 => Just(0u8), 1 => any::<u8>()], arg(), arg(), vec(act, 0..=4), end()).prop_map(|(node, req, rep, acts, end)| Prog { node, req, rep, acts, end })
        });
        let from = prop_oneof![2 => Just(From::Outside), 1 => (0u8..3).prop_map(From::Channel)];
        let node = (0u8..3, 0u8..2, prop_oneof![3 => 0u8..2, 1 => 0u8..9], proptest::bool::weighted(0.15)).prop_map(|(ch, svc, ep, plain)| Node { ch, svc, ep, plain });
        let call = (from, prog).boxed();
        (prop_oneof![1 => Just(0u8), 1 => 2u8..=4], vec((knobs(), any::<bool>()), 1..=3), vec(node, 3..=10), t.groups(call, 1..=4, 1..=3, 30..=120, 20..=80))
            .prop_map(|(workers, knobs, mut nodes, waves)| {
                let knobs: Vec<Knobs> = knobs.into_iter().map(|(k, test)| Knobs { test, tasks: 10_000, ..k }).collect();
                for n in &mut nodes {
                    n.ch %= knobs.len() as u8;
                }
                let mut seen = std::collections::BTreeSet::new();
                nodes.retain(|n| seen.insert((n.ch, n.svc, n.ep)));
                C { workers, knobs, nodes, waves }
            })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut all = vec![];
        for (_, p) in c.waves.iter().flatten() {
            flatten(p, 0, &c.nodes, false, &mut all);
        }
        let (mut cl, mut nt) = (std::collections::BTreeSet::new(), false);
        for f in &all {
            let me = &c.nodes[f.node];
            let mut to = |k: &usize| {
                let other = &c.nodes[all[*k].node];
                if me.ch != other.ch && (me.svc, me.ep) == (other.svc, other.ep) {
                    cl.insert("call forwarded under the same names".into());
                }
                cl.insert(format!("call to {}", if me.ch == other.ch { "the own server" } else { "another server" }));
                nt = true;
            };
            match &f.acts.iter().map(|a| match a { Step::Call(k) | Step::Spawn(k) | Step::Gone(k, _) => to(k), Step::Join(ks) => ks.iter().for_each(&mut to), _ => {} }).count() {
                _ => {}
            }
            for a in &f.acts {
                cl.insert(match a {
                    Step::Call(_) => "call",
                    Step::Join(_) => "calls at once",
                    Step::Gone(..) => "abandoned call",
                    Step::Spawn(_) => "call from another task",
                    Step::Missing(..) => "call to a missing name",
                    Step::Yield(_) => "yield",
                    Step::Temp { how: How::After, .. } => "temporary handler",
                    Step::Temp { how: How::AtWork, .. } => "temporary handler, unregistered at work",
                    Step::Temp { how: How::Itself, .. } => "temporary handler, unregistered by itself",
                    Step::Temp { how: How::Replaced, .. } => "temporary handler, replaced by itself",
                    Step::Sub => "subchannel",
                    Step::Start => "start",
                    Step::Refused => "refused",
                }.to_string());
            }
        }
        (nt, cl.into_iter().collect())
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
}

async fn run(c: C, ctx: Ctx) -> R {
    let addrs: Vec<SocketAddr> = c.knobs.iter().map(|_| ctx.addr()).collect();
    let mut chans = vec![];
    for (k, a) in c.knobs.iter().zip(&addrs) {
        chans.push(Arc::new(channel(k, *a)?));
    }
    let mut all = vec![];
    let mut waves = vec![];
    for w in &c.waves {
        waves.push(w.iter().filter_map(|(from, p)| Some((*from, flatten(p, 0, &c.nodes, false, &mut all)?))).collect::<Vec<_>>());
    }
    let w = Arc::new(World { nodes: c.nodes.clone(), all, addrs: addrs.clone(), chans: chans.iter().map(Arc::downgrade).collect(), seen: Log::default(), wrong: Log::default() });
    for (k, n) in c.nodes.iter().enumerate() {
        let ep = endpoint(n);
        let s = sub(&chans[n.ch as usize], &service(n)).await?;
        let w = w.clone();
        if n.plain {
            // It has no actions to wait for.
            register(&s, &ep, true, move |m| match futures::future::FutureExt::now_or_never(w.clone().handle(k, m)) {
                Some(r) => r,
                None => Err(HandlerError::GeneralError("harness: a plain handler waits".into())),
            }).await?;
        } else {
            register_async(&s, &ep, move |m| Box::pin(w.clone().handle(k, m)) as Reply<_>).await?;
        }
    }
    for (ch, a) in chans.iter().zip(&addrs) {
        start(ch, *a).await?;
    }
    let outside = Arc::new(client(&c.knobs[0])?);
    for (n, wave) in waves.iter().enumerate() {
        let mut ts = vec![];
        for (from, i) in wave {
            let ch = match from {
                From::Outside => outside.clone(),
                From::Channel(k) => chans[*k as usize % chans.len()].clone(),
            };
            let (w, i) = (w.clone(), *i);
            ts.push((i, tokio::spawn(async move { w.call(&ch, i).await })));
        }
        for (i, t) in ts {
            match tokio::time::timeout(20 * SECS, t).await {
                Err(_) => return soft(format!("wave {n}: call {i}, {}, does not return", outcome(&w.all, i))),
                Ok(Err(e)) => return hard(format!("wave {n}: call {i}: {e}")),
                Ok(Ok(Err(e))) => {
                    // What went wrong first is further in.
                    let first = w.wrong.get().into_iter().next().unwrap_or(e);
                    return if first.contains("Fail(") { soft(first) } else { hard(first) };
                }
                Ok(Ok(Ok(got))) if got == outcome(&w.all, i) => {}
                Ok(Ok(Ok(got))) => return hard(format!("wave {n}: call {i} got {got} instead of {}", outcome(&w.all, i))),
            }
        }
        if let Some(e) = w.wrong.get().first() {
            return hard(e.clone());
        }
    }
    let mut counts: BTreeMap<usize, usize> = BTreeMap::new();
    for i in w.seen.get() {
        *counts.entry(i).or_default() += 1;
    }
    for (i, f) in w.all.iter().enumerate() {
        match counts.get(&i).copied().unwrap_or(0) {
            1 => {}
            0 if f.loose => {}
            n => return hard(format!("call {i} was handled {n} times")),
        }
    }
    for ch in &chans {
        if let Err(e) = ch.shutdown_server() {
            return hard(format!("shutdown_server: {e}"));
        }
    }
    Ok(())
}
