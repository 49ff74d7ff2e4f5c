//! A panicking handler harms at most the connection of its caller.
use super::prelude::*;
use peer::{Answer, Inbox};
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::RawMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    workers: u8,
    knobs: Knobs,
    clients: Vec<Who>,
    /// Groups of concurrent calls.
    groups: Vec<Vec<Call>>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Who {
    Raw,
    Client(Knobs),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    who: u8,
    ep: u8,
    act: Act,
    req: Arg,
    rep: Arg,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    Reply,
    Panic,
    /// After other tasks had their turn (where the handler is asynchronous).
    LatePanic,
    Error,
}
pub struct P;
const EPS: u8 = 4;
pub const EXPECTED: &str = "expected panic of a handler";

impl Prop for P {
    type C = C;
    const ID: &'static str = "C22";
    const RULE: &'static str = "1-6 groups of 1-6 concurrent calls of 2-4 clients (raw connections or clients of the crate) to plain and asynchronous handlers, which reply, report an error or panic, at once or after other tasks had their turn. A call whose handler panics must end with an error; calls over other clients' connections and all calls made afterwards, to the same endpoint too, must get their own replies, those over the same connection at the same time their own reply or an error; no request is handled twice; in the end the server still runs. Non-trivial: a handler panics and a later call, or a concurrent one of another client, replies.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 12_000 } else { 300_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let act = proptest::sample::select(vec![Act::Reply, Act::Reply, Act::Reply, Act::Reply, Act::Panic, Act::LatePanic, Act::Error]);
        let arg = || prop_oneof![12 => blob::small_arg(), 1 => blob::arg(140_000)];
        let call = (any::<u8>(), 0..EPS, act, arg(), arg()).prop_map(|(who, ep, act, req, rep)| Call { who, ep, act, req, rep });
        let who = prop_oneof![1 => Just(Who::Raw), 2 => knobs().prop_map(Who::Client)];
        (prop_oneof![2 => Just(0u8), 1 => 2u8..=4], knobs(), vec(who, 2..=4), t.groups(call.boxed(), 1..=6, 1..=6, 400..=3000, 60..=300))
            .prop_map(|(workers, knobs, clients, groups)| C { workers, knobs, clients, groups })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let (mut nt, mut before) = (false, false);
        for g in &c.groups {
            let n = c.clients.len();
            let who: Vec<usize> = g.iter().filter(|x| panics(x.act)).map(|x| x.who as usize % n).collect();
            for x in g {
                match x.act {
                    a if panics(a) => cl.push(format!("{a:?} of {} handler", if x.ep % 2 == 0 { "a plain" } else { "an asynchronous" })),
                    Act::Reply if before => {
                        nt = true;
                        cl.push("call after a panic".into());
                    }
                    Act::Reply if who.iter().any(|w| *w != x.who as usize % n) => {
                        nt = true;
                        cl.push("call of another client during a panic".into());
                    }
                    Act::Reply if !who.is_empty() => cl.push("call of the same client during a panic".into()),
                    _ => {}
                }
            }
            before |= !who.is_empty();
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
}
fn panics(a: Act) -> bool {
    matches!(a, Act::Panic | Act::LatePanic)
}

enum Way {
    Raw(Option<Raw>),
    Sub(Arc<tchannel_rs::SubChannel>, #[allow(dead_code)] tchannel_rs::TChannel),
}
#[derive(Debug)]
enum Got {
    Reply(Parts),
    Error(String),
}

async fn run(c: C, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let server = channel(&c.knobs, addr)?;
    let svc = sub(&server, "svc").await?;
    let flat: Vec<Call> = c.groups.iter().flatten().cloned().collect();
    let all: Arc<Vec<(Parts, Parts, Act)>> = Arc::new(
        flat.iter()
            .enumerate()
            .map(|(i, x)| {
                let mut cur = Cursor::new(blob::request_room(3, 3) - 20);
                let req = Parts { ep: format!("e{}", x.ep), header: i.to_string(), body: x.req.bytes(&mut cur) };
                let mut cur = Cursor::new(blob::response_room(3, 3) - 20);
                (req, Parts { ep: format!("r{i}"), header: String::new(), body: x.rep.bytes(&mut cur) }, x.act)
            })
            .collect(),
    );
    let log: Log<String> = Log::default();
    for e in 0..EPS {
        let (log, all) = (log.clone(), all.clone());
        let f = move |m: &RawMessage| {
            log.push(m.header().clone());
            match m.header().parse::<usize>() {
                Ok(i) => (all[i].2, all[i].1.msg()),
                Err(_) => (Act::Reply, m.clone()),
            }
        };
        if e % 2 == 0 {
            register(&svc, &format!("e{e}"), true, move |m: RawMessage| match f(&m) {
                (Act::Panic | Act::LatePanic, _) => panic!("{EXPECTED}"),
                (Act::Error, _) => Err(HandlerError::GeneralError("no".into())),
                (Act::Reply, r) => Ok(r),
            })
            .await?;
        } else {
            register_async(&svc, &format!("e{e}"), move |m: RawMessage| {
                let (act, r) = f(&m);
                if act == Act::Panic && m.body().len() % 2 == 0 {
                    panic!("{EXPECTED}");
                }
                Box::pin(async move {
                    if act != Act::Panic {
                        tokio::task::yield_now().await;
                    }
                    if act == Act::LatePanic {
                        tokio::time::sleep(Duration::from_micros(200)).await;
                    }
                    match act {
                        Act::Panic | Act::LatePanic => panic!("{EXPECTED}"),
                        Act::Error => Err(HandlerError::GeneralError("no".into())),
                        Act::Reply => Ok(r),
                    }
                }) as Reply<_>
            })
            .await?;
        }
    }
    start(&server, addr).await?;
    let mut ways = vec![];
    for w in &c.clients {
        ways.push(match w {
            Who::Raw => Way::Raw(Some(Raw::client(addr).await?)),
            Who::Client(k) => {
                let cl = client(k)?;
                Way::Sub(sub(&cl, "svc").await?, cl)
            }
        });
    }
    let mut first = 0;
    let mut must: Vec<usize> = vec![];
    for (g, calls) in c.groups.iter().enumerate() {
        let n = ways.len();
        let mine = |w: usize| (0..calls.len()).filter(move |k| calls[*k].who as usize % n == w).map(move |k| first + k);
        let mut tasks = vec![];
        let mut raws = vec![];
        for (w, way) in ways.iter().enumerate() {
            match way {
                Way::Sub(s, _) => {
                    for i in mine(w) {
                        let (s, all) = (s.clone(), all.clone());
                        tasks.push((i, tokio::spawn(async move { call(&s, &all[i].0, addr).await })));
                    }
                }
                Way::Raw(_) => raws.push((w, mine(w).collect::<Vec<_>>())),
            }
        }
        let mut got: Vec<(usize, Got)> = vec![];
        for (w, is) in raws {
            let Way::Raw(slot) = &mut ways[w] else { continue };
            if is.is_empty() {
                continue;
            }
            let mut r = match slot.take() {
                Some(r) => r,
                None => Raw::client(addr).await?,
            };
            let mut lost = false;
            for i in &is {
                lost |= r.try_send(&wire::enc_all(&Msg::request("svc", "raw", all[*i].0.args()).whole(10 + *i as u32))).await.is_err();
            }
            let mut inbox = Inbox::default();
            while !is.iter().all(|i| inbox.has(10 + *i as u32)) {
                match r.next(Duration::from_secs(8)).await {
                    Ev::Frame(f) => {
                        if let Err(e) = inbox.feed(&f) {
                            return hard(format!("group {g}: {e}"));
                        }
                    }
                    e if e.is_end() => {
                        lost = true;
                        break;
                    }
                    e => return soft(format!("group {g}, raw connection {w}: {}", e.show())),
                }
            }
            if lost && !is.iter().any(|i| panics(all[*i].2)) {
                return soft(format!("group {g}: a connection is lost without any panic of its own calls' handlers"));
            }
            for i in is {
                got.push((i, match inbox.of(10 + i as u32)[..] {
                    [] => Got::Error("connection lost".into()),
                    [Answer::Reply(m)] if m.code == 0 => match Parts::from_args(&m.args) {
                        Some(p) => Got::Reply(p),
                        None => return hard(format!("call {i}: strange reply {m:?}")),
                    },
                    [a] if a.is_error() => Got::Error(a.show()),
                    ref a => return hard(format!("call {i} was answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
                }));
            }
            if !lost {
                *slot = Some(r);
            }
        }
        for (i, t) in tasks {
            got.push((i, match tokio::time::timeout(Duration::from_secs(8), t).await {
                Err(_) => return soft(format!("call {i} ({:?}) does not return", all[i].2)),
                Ok(Err(e)) => return hard(format!("call {i} ({:?}): the caller: {e}", all[i].2)),
                Ok(Ok(Res::Ok(p))) => Got::Reply(p),
                Ok(Ok(Res::Message(m))) => return hard(format!("call {i} got error message {m:?}")),
                Ok(Ok(Res::Fail(e))) => Got::Error(e),
            }));
        }
        for (i, got) in got {
            let who = |i: usize| flat[i].who as usize % c.clients.len();
            // Its own client has a call whose handler panics.
            let beside = (first..first + calls.len()).any(|k| who(k) == who(i) && panics(all[k].2));
            match (all[i].2, got) {
                (Act::Reply, Got::Reply(p)) if p == all[i].1 => must.push(i),
                (_, Got::Reply(p)) => return hard(format!("call {i} ({:?}) got {p:?}", all[i].2)),
                (Act::Reply, Got::Error(e)) if !beside => return soft(format!("call {i}, of a client without a panicking call at that time: {e}")),
                (Act::Error, _) if !beside => must.push(i),
                (_, Got::Error(_)) => {}
            }
        }
        first += calls.len();
    }
    if server.start_server().is_ok() {
        return hard("in the end the server did not run anymore");
    }
    let mut last = Raw::client(addr).await?;
    let mut inbox = Inbox::default();
    for e in 0..EPS {
        last.send_bytes(&wire::enc_all(&Msg::request("svc", "raw", [format!("e{e}").into_bytes(), b"last".to_vec(), vec![e]]).whole(e as u32))).await?;
    }
    last.collect(&mut inbox, "in the end", |b| (0..EPS).all(|e| b.has(e as u32))).await?;
    for e in 0..EPS {
        match &inbox.of(e as u32)[..] {
            [Answer::Reply(m)] if m.code == 0 && m.args[1] == b"last" => {}
            a => return hard(format!("in the end: e{e} answered with {:?}", a.iter().map(|a| a.show()).collect::<Vec<_>>())),
        }
    }
    let log = log.get();
    for i in 0..all.len() {
        let n = log.iter().filter(|h| **h == i.to_string()).count();
        if n > 1 || (n == 0 && must.contains(&i)) {
            return hard(format!("call {i} was handled {n} times"));
        }
    }
    Ok(())
}
