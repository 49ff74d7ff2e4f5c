//! Concurrent calls never mix, and each is handled exactly once.
use super::prelude::*;
use std::sync::atomic::{AtomicBool, Ordering};
use tchannel_rs::messages::RawMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    /// 0: current-thread runtime.
    workers: u8,
    server: Knobs,
    clients: Vec<Knobs>,
    eps: Vec<Ep>,
    calls: Vec<Call>,
    /// Before all others, and while `.1` (at most as many as its connections) are stalled: so many calls on the first client.
    #[serde(default)]
    long: Option<(u32, u8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ep {
    plain: bool,
    yields: u8,
    sleep: bool,
    /// The second service.
    other: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    client: u8,
    ep: u8,
    req: [Arg; 2],
    rep: [Arg; 2],
    start: u8,
}
pub struct P;
const SERVICES: [&str; 2] = ["s", "service"];

fn build(tag: String, a: &[Arg; 2], ep: &str, room: i64) -> Parts {
    let mut c = Cursor::new(room - 2 - ep.len() as i64 - 2 - tag.len() as i64);
    let header = tag + &a[0].text(&mut c);
    Parts { ep: ep.into(), header, body: a[1].bytes(&mut c) }
}

fn index(header: &str) -> Option<usize> {
    header.split(':').next()?.parse().ok()
}
struct Shared {
    log: Log<(usize, Parts)>,
    calls: Arc<Vec<(usize, Parts, Parts)>>,
    busy: Vec<AtomicBool>,
}
impl Shared {
    fn enter(&self, e: usize, m: &RawMessage) {
        if self.busy[e].swap(true, Ordering::SeqCst) {
            self.log.push((usize::MAX, Parts::of(m)));
        }
        self.log.push((e, Parts::of(m)));
    }
    fn leave(&self, e: usize, m: &RawMessage) -> RawMessage {
        self.busy[e].store(false, Ordering::SeqCst);
        match index(m.header()).and_then(|i| self.calls.get(i)) {
            Some(c) => c.2.msg(),
            None => Parts::new("?", "?", "?").msg(),
        }
    }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C05";
    const RULE: &'static str = "1-40 concurrent raw calls from 1-3 clients to 1-4 endpoints of one server, sizes from empty to several frames, sync and async handlers that yield or sleep, random buffer/task/connection settings, in some up to 66000 calls on a connection while others are stalled, current-thread and multi-threaded runtimes; every handler invocation and reply compared with the call it belongs to. Non-trivial: at least three calls are in flight at once.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 6_000 } else { 250_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(150_000, 400_000, 150_000);
        let ep = (any::<bool>(), 0u8..4, proptest::bool::weighted(0.3), any::<bool>()).prop_map(|(plain, yields, sleep, other)| Ep { plain, yields, sleep, other });
        let arg2 = move || prop_oneof![8 => [blob::small_arg(), blob::small_arg()], 2 => [blob::small_arg(), blob::arg(big)], 1 => [blob::arg(big), blob::small_arg()]];
        let call = (any::<u8>(), any::<u8>(), arg2(), arg2(), 0u8..6).prop_map(|(client, ep, req, rep, start)| Call { client, ep, req, rep, start });
        let calls = prop_oneof![2 => vec(call.clone(), t.steps(1..=7, 20..=100)), 3 => vec(call.clone(), t.steps(6..=19, 100..=2000)), 1 => vec(call, t.steps(20..=40, 200..=1200))];
        let long = prop_oneof![40 => Just(None), 1 => (prop_oneof![Just(260u32), 100u32..3000], 1u8..=3).prop_map(Some)];
        (prop_oneof![3 => Just(0u8), 1 => 2u8..=4], knobs(), vec(knobs(), 1..=3), vec(ep, 1..=4), calls, long).prop_map(|(workers, server, clients, eps, calls, long)| C { workers, server, clients, eps, calls, long }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![format!("{} clients", c.clients.len()), if c.workers == 0 { "current-thread".into() } else { "multi-threaded".into() }];
        let multi = c.calls.iter().filter(|x| x.req.iter().any(|a| matches!(a.len, Len::Edge { .. }) || matches!(a.len, Len::Abs(n) if n > 65000))).count();
        if multi > c.server.tasks as usize {
            cl.push("more multi-frame requests than server tasks".into());
        }
        if c.server.tasks == 1 { cl.push("one server task".into()); }
        if c.server.buf == 1 { cl.push("server buffer of one".into()); }
        if c.clients.iter().any(|k| k.buf == 1) { cl.push("client buffer of one".into()); }
        if c.calls.len() >= 20 { cl.push("20 calls or more".into()); }
        if let Some((n, _)) = c.long {
            cl.push(if n > 65_536 { "over 65536 calls on a connection".into() } else { "hundreds of calls on a connection".into() });
        }
        if multi > 0 { cl.push("multi-frame requests".into()); }
        (c.calls.len() >= 3, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let server = channel(&c.server, addr)?;
            let subs = [sub(&server, SERVICES[0]).await?, sub(&server, SERVICES[1]).await?];
            let log: Log<(usize, Parts)> = Log::default();
            let svc = |e: &Ep| SERVICES[e.other as usize];
            let calls: Arc<Vec<(usize, Parts, Parts)>> = Arc::new(
                c.calls
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let e = x.ep as usize % c.eps.len();
                        let s = svc(&c.eps[e]).len();
                        // Endpoints of the two services share names.
                        let name = format!("e{}", e / 2);
                        (e, build(format!("{i}:"), &x.req, &name, blob::request_room(s, 3)), build(format!("re{i}:"), &x.rep, &name, blob::response_room(s, 3)))
                    })
                    .collect(),
            );
            let sh = Arc::new(Shared { log: log.clone(), calls: calls.clone(), busy: c.eps.iter().map(|_| AtomicBool::new(false)).collect() });
            // Two endpoints may have come out with the same service and name: one handler serves both.
            let mut taken: std::collections::HashMap<(bool, usize), usize> = Default::default();
            let mut class = vec![0; c.eps.len()];
            for (e, ep) in c.eps.iter().enumerate() {
                class[e] = *taken.entry((ep.other, e / 2)).or_insert(e);
                if class[e] != e {
                    continue;
                }
                let (name, s, sh) = (format!("e{}", e / 2), &subs[ep.other as usize], sh.clone());
                let (yields, sleep) = (ep.yields, ep.sleep);
                if ep.plain {
                    register(s, &name, true, move |m: RawMessage| {
                        sh.enter(e, &m);
                        for _ in 0..yields {
                            std::thread::yield_now();
                        }
                        if sleep {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        Ok(sh.leave(e, &m))
                    })
                    .await?;
                } else {
                    register_async(s, &name, move |m: RawMessage| {
                        let sh = sh.clone();
                        Box::pin(async move {
                            sh.enter(e, &m);
                            for _ in 0..yields {
                                tokio::task::yield_now().await;
                            }
                            if sleep {
                                tokio::time::sleep(Duration::from_millis(1)).await;
                            }
                            Ok(sh.leave(e, &m))
                        }) as Reply<_>
                    })
                    .await?;
                }
            }
            start(&server, addr).await?;
            let mut clients = vec![];
            for k in &c.clients {
                let cl = client(k)?;
                let s = [sub(&cl, SERVICES[0]).await?, sub(&cl, SERVICES[1]).await?];
                clients.push((cl, s));
            }
            let stalled = match c.long {
                Some((n, stalled)) => Some(long(n, stalled, &server, &clients[0].1[0], addr, c.clients[0].conns, c.server.tasks).await?),
                None => None,
            };
            let mut tasks = vec![];
            for (i, x) in c.calls.iter().enumerate() {
                let s = clients[x.client as usize % clients.len()].1[c.eps[calls[i].0].other as usize].clone();
                let (calls, startd) = (calls.clone(), x.start);
                tasks.push(tokio::spawn(async move {
                    for _ in 0..startd {
                        tokio::task::yield_now().await;
                    }
                    call(&s, &calls[i].1, addr).await
                }));
            }
            for (i, t) in tasks.into_iter().enumerate() {
                match t.await {
                    Ok(r) => expect_ok(r, &calls[i].2, &format!("call {i}"))?,
                    Err(e) => return hard(format!("call {i}: {e}")),
                }
            }
            if let Some((open, tasks)) = stalled {
                let _ = open.send(true);
                for (i, t) in tasks.into_iter().enumerate() {
                    match t.await {
                        Ok(r) => expect_ok(r, &Parts::new("stall", format!("s{i}"), "x"), &format!("stalled call {i}"))?,
                        Err(e) => return hard(format!("stalled call {i}: {e}")),
                    }
                }
            }
            let l = log.get();
            if l.iter().any(|x| x.0 == usize::MAX) {
                return hard("two requests to one endpoint were handled at once");
            }
            let mut seen = vec![0; calls.len()];
            for (e, p) in &l {
                let i = index(&p.header);
                match i.and_then(|i| calls.get(i)) {
                    Some(x) if x.1 == *p && class[x.0] == *e => seen[i.unwrap()] += 1,
                    _ => return hard(format!("handler {e} got {p:?}, which no call sent it")),
                }
            }
            if let Some(i) = seen.iter().position(|n| *n != 1) {
                return hard(format!("call {i} was handled {} times", seen[i]));
            }
            Ok(())
        })
    }
}

type Stalled = (tokio::sync::watch::Sender<bool>, Vec<tokio::task::JoinHandle<Res<Parts>>>);
/// Makes `n` calls on a client while others of it are stalled, at endpoints of their own.
async fn long(n: u32, stalled: u8, server: &tchannel_rs::TChannel, s: &Arc<tchannel_rs::SubChannel>, addr: SocketAddr, conns: u32, tasks: u32) -> R<Stalled> {
    let ss = sub(server, SERVICES[0]).await?;
    let (open, gate) = tokio::sync::watch::channel(false);
    // All stalled requests take a place among those being handled, of which one has to stay free.
    let stalled = (stalled as usize).min(conns as usize).min((tasks - 1) as usize);
    register(&ss, "many", true, |m: RawMessage| Ok(m)).await?;
    for i in 0..stalled {
        let gate = gate.clone();
        register_async(&ss, &format!("stall{i}"), move |m: RawMessage| {
            let mut gate = gate.clone();
            Box::pin(async move {
                while !*gate.borrow() {
                    if gate.changed().await.is_err() {
                        break;
                    }
                }
                Ok(Parts::new("stall", m.header().clone(), "x").msg())
            }) as Reply<_>
        })
        .await?;
    }
    let mut ts = vec![];
    for i in 0..stalled {
        let s = s.clone();
        ts.push(tokio::spawn(async move { call(&s, &Parts::new(format!("stall{i}"), format!("s{i}"), ""), addr).await }));
    }
    tokio::time::sleep(Duration::from_millis(3)).await;
    // Several at a time, to be quick.
    for k in 0..n.div_ceil(1000) {
        let some = (k * 1000..n.min(k * 1000 + 1000)).map(|i| {
            let s = s.clone();
            async move {
                let p = Parts::new("many", i.to_string(), "");
                (call(&s, &p, addr).await, p)
            }
        });
        for (r, p) in futures::future::join_all(some).await {
            expect_ok(r, &p, "one of many calls")?;
        }
    }
    Ok((open, ts))
}
